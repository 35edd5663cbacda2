"""P12: revsets evaluate to their set-theoretic meaning on every graph."""
import re

from hypothesis import strategies as st

from engine import revset
from engine.dagscn import Graph, graph_strategy
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P12"
LEVEL = "exploration"
RULE = ("Random commit graphs (merges, several roots, hidden commits, branches) and random expressions, printed from syntax trees with minimal or "
        "extra parentheses, or as random token strings; the set `git query` prints is compared with a reference parser and evaluator. "
        "Non-trivial: the expression has at least two operators or functions and denotes neither the empty set nor everything.")
ASSUMPTIONS = ["Backslash escapes in string literals are not generated (their present treatment is fixed by an existing test).",
               "`^0` is not generated (Git and the revset language disagree on it).",
               "Dates in patterns are whole days, on which no commit was made."]

ALIASES = {"dr": "draft()", "both": "$1 | $2", "kids": "children($1) - $1", "up": "$1:: & draft()", "tip": "heads($1)", "self": "$1"}
PATTERNS = ["parser", "exact:docs", "exact:fix parser", "substr:lexer", "substring:fix", "glob:*docs", "glob:fix*", "glob:add ?arser", "regex:^fix",
            "regex:docs$", "regex:(add|fix) p", "crash", "exact:fix crash\n\nIn the parser.", "*", "glob:*"]
WHO = ["Doe", "exact:Alice Doe", "glob:A*", "regex:^Bob", "example.com", "exact:bob@example.org", "glob:*.org", "substr:com-", "Com"]
PATHS = ["a.txt", "exact:a.txt", "glob:src/*", "regex:[.]rs$", "substr:deep", "docs", "glob:*.md", "exact:docs"]
BRANCHES = ["br", "exact:master", "glob:feature/*", "glob:br?", "regex:[13]$", "substr:ea"]
DATES = ["before:2020-09-%02d" % d for d in (14, 18, 22)] + ["after:2020-09-%02d" % d for d in (14, 18, 22)] + ["before:2020-10-02", "after:2020-10-02"]
BIN = ["|", "+", "or", "&", "and", "-", "%", ":", "::", ".."]
UN = ["not", "ancestors", "descendants", "parents", "children", "siblings", "roots", "heads", "current", "kids", "up", "tip", "self", "stack"]
NUL = ["all", "none", "main", "public", "draft", "merges", "branches", "stack", "dr"]

leaf = st.one_of(
    st.tuples(st.just("c"), SEL), st.tuples(st.just("c"), SEL), st.tuples(st.just("c"), SEL),
    st.tuples(st.just("b"), SEL), st.just(("n", ".")), st.just(("n", "@")),
    st.tuples(st.just("f0"), st.sampled_from(NUL)), st.tuples(st.just("f0"), st.sampled_from(NUL)),
    st.tuples(st.just("pat"), st.just("message"), st.sampled_from(PATTERNS)),
    st.tuples(st.just("pat"), st.sampled_from(["author.name", "author.email", "committer.name", "committer.email"]), st.sampled_from(WHO)),
    st.tuples(st.just("pat"), st.just("paths.changed"), st.sampled_from(PATHS)),
    st.tuples(st.just("pat"), st.just("branches"), st.sampled_from(BRANCHES)),
    st.tuples(st.just("pat"), st.sampled_from(["author.date", "committer.date"]), st.sampled_from(DATES)))


def extend(sub):
    return st.one_of(
        st.tuples(st.just("bin"), st.sampled_from(BIN), sub, sub), st.tuples(st.just("bin"), st.sampled_from(BIN), sub, sub),
        st.tuples(st.just("un"), st.sampled_from(UN), sub),
        st.tuples(st.just("pre"), st.sampled_from([":", "::", ".."]), sub),
        st.tuples(st.just("post"), st.sampled_from([":", "::", ".."]), sub),
        st.tuples(st.just("nth"), st.sampled_from(["^", "~"]), st.integers(-1, 3), sub),
        st.tuples(st.just("fn2"), st.sampled_from(["union", "intersection", "difference", "only", "range", "both"]), sub, sub),
        st.tuples(st.just("fnn"), st.sampled_from(["parents.nth", "ancestors.nth", "exactly"]), sub, st.integers(1, 3)))


TREE = st.recursive(leaf, extend, max_leaves=7)
FORMAT = st.lists(st.integers(0, 7), min_size=6, max_size=6)
FLAGS = st.sampled_from(["", "", "", "--hidden", "-b"])
# The format decides on spaces and superfluous parentheses.
EXPR = st.tuples(st.just("tree"), TREE, FORMAT, FLAGS)
TOK = st.one_of(st.sampled_from(BIN + ["^", "~", "(", ")", ",", "("]), st.tuples(st.just("c"), SEL), st.tuples(st.just("c"), SEL), st.just(("b", 0)),
                st.sampled_from([".", "1", "2", "draft()", "children(", "stack(", "union(", "none()", "all()", "not(", "exactly(", "nosuch", "nosuch("]))
TOKENS = st.tuples(st.just("tokens"), st.lists(TOK, min_size=1, max_size=7), FORMAT, FLAGS)


def jsonable(x):
    return [jsonable(y) for y in x] if isinstance(x, (list, tuple)) else x


def case_strategy():
    return st.fixed_dictionaries({
        "graph": graph_strategy(max_main=3, max_commits=8, min_commits=2),
        "exprs": st.lists(st.one_of(EXPR, EXPR, EXPR, EXPR, EXPR, EXPR, TOKENS).map(jsonable), min_size=1, max_size=8)})


LEVELS = {"|": 1, "+": 1, "or": 1, "&": 2, "and": 2, "-": 2, "%": 2, ":": 3, "::": 3, "..": 3}


class Printer:
    def __init__(self, g, fmt):
        self.g, self.fmt, self.k = g, fmt, 0

    def bit(self):
        self.k += 1
        return self.fmt[self.k % len(self.fmt)] >> (self.k // len(self.fmt) % 3) & 1

    def ref(self, kind, sel):
        g = self.g
        if kind == "b":
            return pick(sorted(g.branches), sel)
        o = pick(g.nodes, sel).oid
        return o if self.bit() else o[:12]

    def show(self, e):
        """(text, level): levels as in the grammar, 5 for atoms."""
        k = e[0]
        if k in ("c", "b"):
            t, lv = self.ref(k, e[1]), 5
        elif k == "n":
            t, lv = e[1], 5
        elif k == "f0":
            t, lv = e[1] + "()", 5
        elif k == "pat":
            q = "'" if self.bit() else '"'
            t, lv = "%s(%s%s%s)" % (e[1], q, e[2], q), 5
        elif k == "un":
            t, lv = "%s(%s)" % (e[1], self.show(e[2])[0]), 5
        elif k == "fn2":
            t, lv = "%s(%s, %s%s)" % (e[1], self.show(e[2])[0], self.show(e[3])[0], "," if self.bit() and self.bit() else ""), 5
        elif k == "fnn":
            t, lv = "%s(%s, %d)" % (e[1], self.show(e[2])[0], e[3]), 5
        elif k == "nth":
            n = "" if e[2] < 1 else str(e[2])
            t, lv = self.sub(e[3], 4) + e[1] + n, 4
        elif k == "pre":
            t, lv = e[1] + " " * self.bit() + self.sub(e[2], 4), 3
            if t[len(e[1])] == ".":
                t = e[1] + " " + t[len(e[1]):]
        elif k == "post":
            t, lv = self.sub(e[2], 3) + " " + e[1], 3
        else:
            op, lv = e[1], LEVELS[e[1]]
            sp = " " if op in ("or", "and", "-", ":", "::", "..") or self.bit() else ""
            t = self.sub(e[2], lv) + sp + op + sp + self.sub(e[3], lv + 1)
        if self.bit() and self.bit() and self.bit():
            t, lv = "(" + " " * self.bit() + t + ")", 5
        return t, lv

    def sub(self, e, level):
        t, lv = self.show(e)
        return t if lv >= level else "(" + t + ")"


def text_of(g, x):
    kind, body, fmt, flags = x
    p = Printer(g, fmt)
    if kind == "tree":
        return p.show(body)[0], flags
    return " ".join(t if isinstance(t, str) else p.ref(*t) for t in body), flags


def size(e):
    return 1 + sum(size(x) for x in e[1] if not isinstance(x, str)) if not revset.is_name(e) else 0


def run(ctx, case):
    g = Graph(case["graph"])
    r = g.build(ctx.arena, [("branchless \"revsets.alias\"", k, v) for k, v in ALIASES.items()])
    labels, nontrivial, decided = [], False, 0
    for x in case["exprs"]:
        text, flags = text_of(g, x)
        try:
            tree = revset.Parser(text).parse()
            want = revset.Evaluator(g, hidden=set() if flags == "--hidden" else None, aliases=ALIASES).eval(tree)
        except revset.Bad as e:
            want, why = None, str(e)
        except revset.Unknown:
            continue
        res = r.gb("query", *(["-b"] if flags == "-b" else ["-r"]), *(["--hidden"] if flags == "--hidden" else []), "--", text)
        decided += 1
        what = "expression %r %s\n%s\n%r" % (text, flags, g.describe(), res)
        if want is None:
            labels.append("rejected")
            if res.code == 0:
                # Git's own revision syntax comes first.
                if r.run("git", "rev-parse", "--verify", "-q", "--end-of-options", text + "^{commit}").code == 0:
                    continue
                raise Violation("P12:accepted", "accepted an expression that is not well-formed (%s)\n%s" % (why, what))
            if res.code != 1:
                raise Violation("P12:crash", "an ill-formed expression crashed\n" + what)
            continue
        if res.code != 0:
            raise Violation("P12:refused", "a well-formed expression was refused\n" + what)
        got = res.out.split()
        if flags == "-b":
            names = sorted(b for b, i in g.branches.items() if i in want)
            if sorted(got) != names:
                raise Violation("P12:branches", "branches printed %s, expected %s\n%s" % (got, names, what))
            continue
        unknown = [o for o in got if o not in g.index]
        if unknown:
            raise Violation("P12:unknown", "printed something that is no commit of the history: %s\n%s" % (unknown, what))
        ids = [g.index[o] for o in got]
        if len(set(ids)) != len(ids):
            raise Violation("P12:twice", "a commit is printed twice\n" + what)
        if set(ids) != want:
            raise Violation("P12:value", "printed %s, expected %s\n%s" % (sorted(g.nodes[i].name for i in ids), sorted(g.nodes[i].name for i in want), what))
        for a, i in enumerate(ids):
            if g.anc(g.nodes[i].parents) & set(ids[a + 1:]):
                raise Violation("P12:order", "a descendant is printed before its ancestor\n" + what)
        n = size(tree)
        labels.append("size:%d" % min(n, 6))
        if n >= 2 and 0 < len(want) < len(g.nodes):
            nontrivial = True
    if not decided:
        raise Skip()
    return {"nontrivial": nontrivial, "labels": labels}


PARTS = [Part("query", case_strategy(), run, 3500, 60000)]
