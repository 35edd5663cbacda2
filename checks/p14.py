"""P14: the search finds the true boundary for every graph, strategy and result order."""
from hypothesis import strategies as st

from engine import lineproc
from engine.runner import Part, Violation

ID = "P14"
LEVEL = "exploration"
HARNESS = ["bisect"]
RULE = ("Random acyclic graphs (with merges and several roots), searched nodes in random order, monotone pass/fail labels with indeterminate nodes, and a "
        "schedule of concurrent testers that deliver results late and out of order. Every round's bounds and proposals and the final bounds are compared with "
        "sets computed from the labels. Non-trivial: at least 4 searched nodes, both outcomes occur and two results were outstanding at once.")
ASSUMPTIONS = ["scm_bisect is called through its public interface with a graph whose ancestor/descendant functions are right.",
               "At most 14 nodes; proposals are taken at most 6 at a time."]

NODE = st.lists(st.integers(0, 5), min_size=2, max_size=3)
CASE = st.fixed_dictionaries({
    "strategy": st.sampled_from(["linear", "reverse", "binary"]),
    "parents": st.one_of(st.lists(st.one_of(st.lists(st.integers(0, 2), max_size=1), NODE), min_size=1, max_size=5),
                         st.lists(st.one_of(st.lists(st.integers(0, 2), max_size=1), NODE), min_size=6, max_size=14)),
    "leave_out": st.lists(st.integers(0, 13), max_size=4),
    "order": st.lists(st.integers(0, 13), max_size=8),
    "fail": st.lists(st.integers(0, 13), max_size=3),
    "indet": st.lists(st.integers(0, 13), max_size=4),
    "rounds": st.lists(st.tuples(st.integers(0, 6), st.lists(st.integers(0, 5), max_size=4)).map(list), max_size=12),
    "probes": st.lists(st.tuples(st.integers(0, 13), st.sampled_from("pfi")).map(list), max_size=6),
})


def closure(start, edges):
    seen, todo = set(), list(start)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo.extend(edges[n])
    return seen


def run(ctx, case):
    n = len(case["parents"])
    # Parent selector: distance backwards, so that graphs are acyclic.
    parents = [sorted({i - 1 - s for s in sel if i - 1 - s >= 0}) for i, sel in enumerate(case["parents"])]
    children = [[c for c in range(n) if i in parents[c]] for i in range(n)]
    anc = lambda s: closure(s, parents)
    desc = lambda s: closure(s, children)
    nodes = [i for i in range(n) if i not in case["leave_out"]]
    for s in case["order"]:
        if nodes:
            nodes.append(nodes.pop(s % len(nodes)))
    fail = desc({f % n for f in case["fail"]})
    indet = {i % n for i in case["indet"]}
    label = ["i" if i in indet else "f" if i in fail else "p" for i in range(n)]
    probes = [(p % n, s) for p, s in case["probes"] if p % n in nodes]
    line = "|".join([case["strategy"], ",".join(" ".join(map(str, p)) for p in parents), " ".join(map(str, nodes)), " ".join(label),
                     " ".join("%d:%s" % (k, ",".join(map(str, ps))) for k, ps in case["rounds"]), " ".join("%d=%s" % p for p in probes)])
    proc = lineproc.get(ctx.extra["bisect"])
    out = proc.ask(line)
    what = "case %s\ntranscript %s" % (line, out)
    if out is None:
        raise Violation("P14:crash", "the search panicked: %s\n%s" % (proc.err[-1500:], what))
    tok = out.split()
    if "LOOP" in tok:
        raise Violation("P14:loop", "the search does not end\n" + what)
    if "E" in tok:
        raise Violation("P14:error", "a proposal is an error\n" + what)
    good, bad, unknown = set(), set(), set()       # what was reported
    heads = lambda s: {x for x in s if not any(x != y and x in anc({y}) for y in s)}
    roots = lambda s: {x for x in s if not any(x != y and x in desc({y}) for y in s)}
    searched = set(nodes)
    outstanding = peak = 0
    pending, i = set(), 0
    while i < len(tok):
        t = tok[i]
        if t == "R":
            i += 1
            sb, fb, q = set(), set(), []
            while i < len(tok) and tok[i] in "SFQ":
                {"S": sb.add, "F": fb.add, "Q": q.append}[tok[i]](int(tok[i + 1]))
                i += 2
            if sb != heads(good) or fb != roots(bad):
                raise Violation("P14:bounds", "bounds %s/%s, expected %s/%s\n%s" % (sb, fb, heads(good), roots(bad), what))
            known = anc(good) | desc(bad) | unknown
            if len(set(q)) != len(q):
                raise Violation("P14:repeated", "a node is proposed twice: %s\n%s" % (q, what))
            for x in q:
                if x not in searched:
                    raise Violation("P14:foreign", "%d is not to be searched\n%s" % (x, what))
                if x in known:
                    raise Violation("P14:known", "%d is proposed although its result is known or implied\n%s" % (x, what))
            last_q, open_nodes = q, searched - known
            pending |= set(q)
            peak = max(peak, len(pending))
        elif t == "N":
            x, s, ok = int(tok[i + 1]), tok[i + 2], tok[i + 3]
            if ok != "ok":
                raise Violation("P14:refused", "the consistent result %s of %d was refused\n%s" % (s, x, what))
            {"p": good, "f": bad, "i": unknown}[s].add(x)
            pending.discard(x)
            i += 4
        elif t == "X":
            x, s, ok = int(tok[i + 1]), tok[i + 2], tok[i + 3]
            contradiction = (s != "p" and x in good) or (s != "f" and x in bad) or \
                            (s == "p" and x in desc(bad)) or (s == "f" and x in anc(good))
            if (ok == "err") != contradiction:
                raise Violation("P14:probe", "result %s for %d: %s, should be %s\n%s" % (s, x, ok, "an error" if contradiction else "accepted", what))
            i += 4
        else:
            raise AssertionError(t)
    if open_nodes:
        raise Violation("P14:stopped", "the search ended with %s undecided\n%s" % (sorted(open_nodes), what))
    decided = searched - indet
    want_s, want_f = heads(decided - fail), roots(decided & fail)
    if (sb, fb) != (want_s, want_f):
        raise Violation("P14:result", "found %s/%s, the true boundary is %s/%s\n%s" % (sb, fb, want_s, want_f, what))
    return {"nontrivial": len(nodes) >= 4 and bool(good) and bool(bad) and peak > 1,
            "labels": [case["strategy"], "indeterminate" if unknown else "determinate", "nodes:%d" % (len(nodes) // 4 * 4), "merges" if any(len(p) > 1 for p in parents) else "forest"]}


PARTS = [Part("search", CASE, run, 24000, 1000000, harness="bisect")]
