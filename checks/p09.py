"""P09: hide and unhide change exactly the requested visibility."""
import os

from hypothesis import strategies as st

from engine import revset
from engine.dagscn import Graph, graph_strategy
from engine.runner import Part, Violation
from engine.scenario import SEL, pick

ID = "P09"
LEVEL = "exploration"
RULE = ("Random commit graphs and sequences of hide, unhide, branch and checkout steps; after every step the visible commits, branches, HEAD and "
        "commit objects are compared with a set model. Non-trivial: some hide or unhide changed the visible set and another one was partly held up "
        "(by a branch, HEAD or a visible descendant) or recursive.")
ASSUMPTIONS = ["Branches are created and deleted and HEAD is moved by editing the references directly, so that only hide and unhide write events."]

SELECT = ["{a}", "{a}", "{a}", "{a} + {b}", "stack({a})", "{a}::", "::{a} & draft()", "draft()", "heads(draft())", "{a}^ + {b}", "branches()", "none()"]
STEP = st.tuples(st.sampled_from(["hide", "hide", "hide", "unhide", "unhide", "branch", "delete", "head"]), SEL, SEL, SEL, st.integers(0, 15)).map(list)
CASE = st.fixed_dictionaries({"graph": graph_strategy(max_main=3, max_commits=9, min_commits=2), "steps": st.lists(STEP, min_size=1, max_size=8)})


def run(ctx, case):
    g = Graph(case["graph"])
    r = g.build(ctx.arena)
    objects = {n.oid: r.read_object(n.oid) for n in g.nodes}
    trace, labels, changed, held = [], [], False, False
    main = g.main
    for step_no, (kind, a, b, c, fl) in enumerate(case["steps"]):
        before = g.visible()
        res = None
        if kind == "branch":
            name = "new%d" % step_no
            g.branches[name] = pick(range(len(g.nodes)), a)
            r.write_ref("refs/heads/" + name, g.nodes[g.branches[name]].oid)
            trace.append("branch %s at %s" % (name, g.nodes[g.branches[name]].name))
        elif kind == "delete":
            bs = [x for x in sorted(g.branches) if x != "master" and x != g.head_branch]
            if not bs:
                continue
            name = pick(bs, a)
            del g.branches[name]
            os.unlink(os.path.join(r.gitdir, "refs/heads", name))
            trace.append("delete branch %s" % name)
        elif kind == "head":
            g.head = pick(range(len(g.nodes)), a)
            on = sorted(x for x, k in g.branches.items() if k == g.head)
            g.head_branch = on[0] if on and b % 2 else None
            with open(os.path.join(r.gitdir, "HEAD"), "w") as f:
                f.write("ref: refs/heads/%s\n" % g.head_branch if g.head_branch else g.nodes[g.head].oid + "\n")
            trace.append("check out %s" % g.nodes[g.head].name)
        else:
            exprs = [pick(SELECT, c).format(a=pick(g.nodes, a).oid, b=pick(g.nodes, b).oid)]
            if fl & 4 and fl & 8:
                exprs.append(pick(g.nodes, b).oid)
            recursive, hidden_flag = bool(fl & 1), (fl & 10) == 10
            keep = kind == "hide" and fl & 2
            args = [kind] + (["-r"] if recursive else []) + (["--no-delete-branches"] if keep else []) + (["--hidden"] if hidden_flag else []) + exprs
            ev = revset.Evaluator(g, hidden=set() if hidden_flag else None)
            sel = set().union(*[ev.eval(revset.Parser(x).parse()) for x in exprs])
            if kind == "hide":
                if recursive:
                    sel = g.desc(sel) & g.visible()
                if not keep and main in sel:
                    continue          # hiding the tip of the main branch is not asked about
                g.hidden = g.hidden | sel
                if not keep:
                    gone = {x for x, k in g.branches.items() if k in sel}
                    if g.head in sel:
                        g.head_branch = None
                    g.branches = {x: k for x, k in g.branches.items() if x not in gone}
            else:
                if recursive:
                    sel = g.desc(sel)
                g.hidden = g.hidden - sel
            res = r.gb(*args)
            trace.append(" ".join(args))
            what = "%s\n%s\n%r" % ("\n".join(trace), g.describe(), res)
            if res.code != 0:
                raise Violation("P09:failed:" + kind, "%s failed\n%s" % (kind, what))
            after = g.visible()
            if after != before:
                changed = True
            if recursive or (sel & after if kind == "hide" else False):
                held = True
            labels.append(kind + ("-r" if recursive else ""))
        what = "%s\n%s\n%r" % ("\n".join(trace), g.describe(), res)
        want_b = {x: g.nodes[k].oid for x, k in g.branches.items()}
        if r.branches() != want_b:
            raise Violation("P09:branches", "branches are %s, expected %s\n%s" % (r.branches(), want_b, what))
        h = r.head()
        if h[2] != g.nodes[g.head].oid or h[1] != g.head_branch:
            raise Violation("P09:head", "HEAD is %s, expected %s (%s)\n%s" % (h, g.nodes[g.head].oid, g.head_branch, what))
        if res is None and step_no + 1 < len(case["steps"]):
            continue
        got = {g.index.get(o, o) for o in r.query("all()")}
        want = g.visible()
        if got != want:
            show = lambda s: sorted(g.nodes[i].name if isinstance(i, int) else i for i in s)
            raise Violation("P09:visible", "wrongly invisible: %s; wrongly visible: %s\n%s" % (show(want - got), show(got - want), what))
    for o, data in objects.items():
        r.cache.pop(o, None)
        if r.read_object(o) != data:
            raise Violation("P09:objects", "commit %s changed or is gone\n%s" % (o, "\n".join(trace)))
    return {"nontrivial": changed and held, "labels": labels}


PARTS = [Part("steps", CASE, run, 3000, 60000)]
