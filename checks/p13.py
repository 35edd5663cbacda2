"""P13: the smartlog shows exactly the visible commits, correctly connected."""
import re

from hypothesis import strategies as st

from engine import revset
from engine.dagscn import Graph, graph_strategy
from engine.runner import Part, Violation
from engine.scenario import SEL, pick

ID = "P13"
LEVEL = "exploration"
RULE = ("Random commit graphs; the drawn smartlog (default, with a revset, exactly, reversed) is read back and compared with the graph: shown commits, labels, "
        "the checked-out mark, the drawn parent of every commit, the gaps and the numbers of commits left out. Non-trivial: at least three draft commits are shown and one of them "
        "forks off another shown commit.")
ASSUMPTIONS = ["Connections are read back for graphs without merges and with one root; graphs with merges and several roots are checked for the "
               "shown commits, labels and the checked-out mark."]

REVSETS = ["draft()", "{a}", "{a} | {b}", "stack({a})", "{a}::", "::{a} & draft()", "heads(draft())", "roots(draft())", "branches()",
           "{a} + {b} + {c}", "none()", "message('fix')", "draft() - {a}", "main()", "{a}^ | {b}"] + [None] * 9


def case_strategy(**kw):
    return st.fixed_dictionaries({
        "graph": graph_strategy(max_main=5, max_commits=9, min_commits=1, **kw),
        "views": st.lists(st.tuples(SEL, SEL, SEL, SEL, st.sampled_from([0, 0, 0, 1])).map(list), min_size=1, max_size=3)})


NODE = re.compile(r"^(?P<pre>[|: ]*)(?P<icon>[o@x%OX]) (?P<oid>[0-9a-f]{12,40})(?P<rest>( .*)?)$")
MERGE = re.compile(r"^[|: ]*& \(merge\) ")
OMIT = re.compile(r"^(?P<pre>[|: ]*)# (?P<n>\d+) omitted (?P<d>descendant )?commits?$")
DRAW = re.compile(r"^[|: \\/]*$")


class Drawn:
    def __init__(self, lines):
        self.lines = lines
        self.nodes = []          # (row, col, icon, oid prefix, rest)
        for row, l in enumerate(lines):
            m = NODE.match(l)
            if m:
                self.nodes.append((row, len(m.group("pre")), m.group("icon"), m.group("oid"), m.group("rest").strip()))
            elif not (MERGE.match(l) or OMIT.match(l) or DRAW.match(l)):
                raise Violation("P13:format", "unexpected line %r in\n%s" % (l, "\n".join(lines)))
        self.at = {(n[0], n[1]): n for n in self.nodes}

    def char(self, row, col):
        l = self.lines[row]
        return l[col] if 0 <= col < len(l) else " "

    def parent(self, node):
        """(parent node or None, gap, number of omitted commits or None)"""
        row, col = node[0], node[1]
        gap, num = False, None
        while row > 0:
            row -= 1
            m = OMIT.match(self.lines[row])
            if (row, col) in self.at:
                return self.at[(row, col)], gap, num
            if m and len(m.group("pre")) == col:
                gap, num = True, int(m.group("n"))
                continue
            if self.char(row, col - 1) == "\\" and self.char(row, col) == " ":
                col -= 2
                if self.char(row, col) == ":":
                    gap = True
                continue
            c = self.char(row, col)
            if c == ":":
                gap = True
            elif c != "|":
                return None, gap, num
        return None, gap, num


def branch_names(rest):
    names, head = set(), None
    while rest.startswith("("):
        group, _, rest = rest[1:].partition(")")
        rest = rest.strip()
        if group == "manually hidden":
            continue
        for b in group.split(", "):
            if b.startswith("> "):
                b = b[2:]
                head = b
            names.add(b)
    return names, head


def check_view(g, r, view, connect):
    rs = pick(REVSETS, view[0])
    text = rs and rs.format(a=pick(g.nodes, view[1]).oid, b=pick(g.nodes, view[2]).oid, c=pick(g.nodes, view[3]).oid)
    exact = bool(view[4]) and text is not None
    args = (["--exact"] if exact else []) + ([text] if text else [])
    res = r.gb("smartlog", *args)
    vis, public = g.visible(), g.public()
    if text:
        try:
            shown = revset.Evaluator(g).eval(revset.Parser(text).parse())
        except revset.Bad:
            return None
    else:
        shown = (vis - public) | set(g.branches.values()) | {g.head}
    shown = set(shown)
    if not exact:
        shown |= {g.head, g.main}
        for i in sorted(shown):
            common = g.anc({i}) & public
            shown |= common - {p for c in common for p in g.anc(g.nodes[c].parents)}
    what = "smartlog %s\n%s\n%r" % (" ".join(args), g.describe(), res)
    if res.code != 0:
        raise Violation("P13:failed", "smartlog failed\n" + what)
    lines = strip(res.out)
    drafts, forks = verify(g, lines, shown, public, connect, what, exact)
    rev = r.gb("smartlog", "--reverse", *args)
    flip = [l if NODE.match(l) or MERGE.match(l) else l.translate(str.maketrans("/\\", "\\/")) for l in reversed(strip(rev.out))]
    what = "the reversed smartlog is not the same graph upside down\n%r\n%s" % (rev, what)
    verify(g, flip, shown, public, connect, what, exact)
    if connect and text is None and not any("#" in l for l in lines) and flip != lines:
        raise Violation("P13:reverse", what)
    return drafts, forks, "exact" if exact else "revset" if text else "default"


def strip(out):
    lines = out.split("\n")
    while lines and not lines[-1]:
        lines.pop()
    return lines


def verify(g, lines, shown, public, connect, what, exact=False):
    d = Drawn(lines)
    by = {}
    for n in d.nodes:
        hits = [i for i, x in enumerate(g.nodes) if x.oid.startswith(n[3])]
        if len(hits) != 1:
            raise Violation("P13:unknown", "shows an unknown commit %s\n%s" % (n[3], what))
        if hits[0] in by:
            raise Violation("P13:twice", "shows %s twice\n%s" % (n[3], what))
        by[hits[0]] = n
    vis = g.visible()
    names = lambda s: sorted(g.nodes[i].name for i in s)
    if exact:
        # Besides the requested ones, only commits where their lines meet.
        shown = shown | {i for i in by if any(i in (s if not connect else {max(s, default=None)}) for a in shown for b in shown for s in [g.anc({a}) & g.anc({b})])}
    if set(by) != shown:
        raise Violation("P13:shown", "does not show %s; shows too many: %s\n%s" % (names(shown - set(by)), names(set(by) - shown), what))
    for i, n in by.items():
        if (n[2] in "@%") != (i == g.head):
            raise Violation("P13:head", "the checked-out commit is not marked correctly (%s)\n%s" % (g.nodes[i].name, what))
        if i != g.head and (n[2] in "OX") != (i in public):
            raise Violation("P13:public", "%s is drawn with the wrong kind of mark\n%s" % (g.nodes[i].name, what))
        if (n[2] in "x%X") != (i in g.hidden):
            raise Violation("P13:obsolete", "%s is drawn as %s\n%s" % (g.nodes[i].name, n[2], what))
        got, head = branch_names(n[4])
        want = {b for b, k in g.branches.items() if k == i}
        if got != want or head != (g.head_branch if g.head_branch in want else None):
            raise Violation("P13:labels", "%s is labelled %s (%s), expected %s\n%s" % (g.nodes[i].name, sorted(got), head, sorted(want), what))
        subject = g.nodes[i].message.split("\n")[0]
        if not n[4].endswith(subject):
            raise Violation("P13:message", "%s is shown as %r\n%s" % (g.nodes[i].name, n[4], what))
    forks = 0
    if connect:
        for i, n in by.items():
            p, gap, num = (None, False, None) if exact else d.parent(n)
            above, skipped, j = None, 0, i
            while g.nodes[j].parents:
                j = g.nodes[j].parents[0]
                if j in shown:
                    above = j
                    break
                skipped += 1
            if exact:
                gap, above = skipped > 0, None
            drawn = None if p is None else next(k for k, x in by.items() if x is p)
            if drawn != above:
                raise Violation("P13:parent", "%s is drawn below %s instead of %s\n%s" % (
                    g.nodes[i].name, drawn is not None and g.nodes[drawn].name, above is not None and g.nodes[above].name, what))
            if gap != (skipped > 0):
                raise Violation("P13:gap", "the gap above %s (%d commits left out) is not drawn correctly\n%s" % (g.nodes[i].name, skipped, what))
            if num is not None and num != skipped:
                raise Violation("P13:gap", "the gap above %s is said to be %d commits instead of %d\n%s" % (g.nodes[i].name, num, skipped, what))
            if above is not None and p[1] != n[1]:
                forks += 1
            # Commits left out below a commit that looks like a head.
            below = {k for k in range(len(g.nodes)) if k != i and i in g.anc({k})}
            want = 0 if below & shown or (i in public and i != g.main) else len(below & vis)
            m = OMIT.match(lines[n[0] + 2]) if n[0] + 2 < len(lines) else None
            have = int(m.group("n")) if m and m.group("d") and len(m.group("pre")) == n[1] else 0
            if have != want:
                raise Violation("P13:omitted", "%d descendants of %s are said to be left out, there are %d\n%s" % (have, g.nodes[i].name, want, what))
    return len(set(by) - public), forks


def make(connect):
    def run(ctx, case):
        g = Graph(case["graph"])
        r = g.build(ctx.arena)
        out = [x for x in (check_view(g, r, v, connect) for v in case["views"]) if x]
        labels = ["drafts:%d" % min(6, x[0]) for x in out] + [x[2] for x in out]
        return {"nontrivial": any(x[0] >= 3 and (x[1] > 0 or not connect) for x in out), "labels": labels}
    return run


PARTS = [Part("connected", case_strategy(merges=False, roots=False), make(True), 2400, 30000),
         Part("merges", case_strategy(), make(False), 1200, 15000)]
