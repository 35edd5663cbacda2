"""P19: next, prev and switch go exactly where the graph says."""
from hypothesis import strategies as st

from engine import observe, revset
from engine.dagscn import Graph, graph_strategy
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P19"
LEVEL = "exploration"
RULE = ("Random commit graphs and sequences of next/prev/switch with random flags; after each, the checked-out commit and branch, all branches and "
        "the working copy are compared with a walk on the graph. Non-trivial: at least two navigations moved, one of them by more than one commit or "
        "with a choice between several commits.")
ASSUMPTIONS = ["Committer dates are distinct, so that oldest and newest are determined; an ancestor is older than its descendants whatever the dates.", "The working copy is clean."]

TARGETS = ["{a}", "{a}", "{b}", "heads({a}::)", "stack({a})", "{a} + {b}", "draft()", "{a}^ + {b}^", "roots(stack({a}))", "none()", "{a}:: & draft()",
           "children({a})", "heads(draft())", "nosuch", "heads(", "main()"]
STEP = st.tuples(st.sampled_from(["next", "next", "next", "prev", "prev", "switch"]), SEL, SEL, st.integers(0, 63)).map(list)
CASE = st.fixed_dictionaries({"graph": graph_strategy(max_main=4, max_commits=10, min_commits=3, branches=5),
                              "steps": st.lists(STEP, min_size=2, max_size=8)})


class Stop(Exception):
    pass


def walk(g, kind, amount, by_branch, towards):
    """(final node, steps, choices) or Stop."""
    cur, i, choices = g.head, 0, 0
    vis, public = g.visible(), g.public()
    bc = set(g.branches.values())
    while amount is None or i < amount:
        if kind == "next":
            kids = {k for k in g.kids[cur] if k in vis}
            if by_branch:
                below = g.desc(kids) & bc
                cand = {b for b in below if not (g.anc(g.nodes[b].parents) & below)}
            else:
                cand = kids
        else:
            par = set(g.nodes[cur].parents)
            if by_branch:
                up = g.anc(par) & bc
                cand = {b for b in up if not any(b in g.anc(g.nodes[o].parents) for o in up)}
            else:
                cand = par
            if amount is None:
                cand -= public
        if not cand:
            if amount is not None and i == 0:
                raise Stop("nowhere to go")
            break
        if len(cand) > 1:
            if towards is None:
                raise Stop("ambiguous")
            choices += 1
        when = lambda n: (g.nodes[n].committer_day, n)
        order = sorted(cand, key=when)
        if any(order[j] in g.desc({order[k]}) for k in range(len(order)) for j in range(k)):
            # An ancestor with a later date: ancestors are older whatever their date.
            if len(order) > 2:
                raise Skip("dates contradict the graph")
            order.reverse()
        cur = order[-1] if towards == "newest" else order[0]
        i += 1
    return cur, i, choices


def run(ctx, case):
    g = Graph(case["graph"])
    r = g.build(ctx.arena)
    r.checkout_files("HEAD")
    trace, labels, moved, rich = [], [], 0, False
    for n_step, (kind, a, b, fl) in enumerate(case["steps"]):
        want_branch = "?"
        new = None
        if kind == "switch":
            expr = pick(TARGETS, a).format(a=pick(g.nodes, b).oid, b=pick(sorted(g.branches), b))
            args = ["switch", expr]
            detach, create = fl % 5 == 1, fl % 5 == 2
            if detach:
                args.append("-d")
            if create:
                new = "made%d" % n_step
                args += ["-c", new]
            try:
                s = revset.Evaluator(g).eval(revset.Parser(expr).parse())
                heads = s - {p for i in s for p in g.nodes[i].parents}
                if len(heads) != 1:
                    raise Stop("%d heads" % len(heads))
                want = heads.pop()
                want_branch = new if create else expr if expr in g.branches and not detach else None
                n, choices = 1, 0
            except (revset.Bad, Stop) as e:
                want, why = None, str(e)
        else:
            amount = [1, 1, 2, 3, None, None, 1, 5][fl & 7]
            by_branch = fl & 24 == 24
            towards = [None, "newest", "oldest"][fl % 3]
            args = [kind] + ([] if amount is None or (amount == 1 and a % 2) else [str(amount)]) + (["-a"] if amount is None else [])
            args += (["-b"] if by_branch else []) + (["--" + towards] if towards else [])
            try:
                want, n, choices = walk(g, kind, amount, by_branch, towards)
                on = [x for x, k in g.branches.items() if k == want]
                want_branch = on[0] if len(on) == 1 else None
                if want == g.head:
                    want_branch = "?"
            except Stop as e:
                want, why = None, str(e)
        before = observe.full_state(r) if want is None else None
        old_branches = r.branches()
        res = r.gb(*args)
        trace.append(" ".join(args))
        what = "%s\n%s\n%r" % ("\n".join(trace), g.describe(), res)
        h = r.head()
        if want is None:
            if res.code == 0:
                raise Violation("P19:accepted:" + kind, "succeeded although %s\n%s" % (why, what))
            after = observe.full_state(r)
            if after != before:
                raise Violation("P19:changed:" + kind, "refused, but changed %s\n%s" % (observe.diff_state(before, after), what))
            labels.append(kind + ":refused")
            continue
        if res.code != 0:
            raise Violation("P19:failed:" + kind, "failed, should go to %s\n%s" % (g.nodes[want].name, what))
        if h[2] != g.nodes[want].oid:
            raise Violation("P19:target:" + kind, "went to %s instead of %s\n%s" % (
                g.nodes[g.index[h[2]]].name if h[2] in g.index else h[2], g.nodes[want].name, what))
        if want_branch != "?" and h[1] != want_branch:
            raise Violation("P19:attach:" + kind, "attached to %s instead of %s\n%s" % (h[1], want_branch, what))
        if new:
            old_branches[new] = g.nodes[want].oid
            g.branches[new] = want
        if r.branches() != old_branches:
            raise Violation("P19:branches:" + kind, "branches changed: %s -> %s\n%s" % (old_branches, r.branches(), what))
        files = {p: (m if m != "100755" else "100755", d) for p, (m, d) in r.worktree().items()}
        if files != g.nodes[want].files:
            raise Violation("P19:files:" + kind, "the working copy is %s, expected %s\n%s" % (files, g.nodes[want].files, what))
        if want != g.head:
            moved += 1
            rich = rich or n > 1 or choices > 0
        g.head, g.head_branch = want, h[1]
        labels.append(kind + (":choice" if choices else ""))
    return {"nontrivial": moved >= 2 and rich, "labels": labels}


PARTS = [Part("steps", CASE, run, 1300, 20000)]
