"""Reference parser and evaluator for revset expressions, written from the
documentation of the language (operators, precedence, functions)."""
import re
import time

from .dagscn import DAY, T0

TOKEN = re.compile(r"""\s*(?:
    (?P<str>"[^"\\]*"|'[^'\\]*')
  | (?P<op>::|\.\.|[|+&%:^~(),])
  | (?P<name>(?:[a-zA-Z0-9_$@/-]|\.[a-zA-Z0-9_$@/-])+|\.)
)""", re.X)


class Bad(Exception):
    """The expression must be rejected."""


class Unknown(Exception):
    """The reference does not decide this one."""


def lex(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise Bad("lex at %d" % i)
        if m.group("str") is not None:
            out.append(("name", m.group("str")[1:-1]))
        elif m.group("op") is not None:
            out.append((m.group("op"), m.group("op")))
        else:
            n = m.group("name")
            out.append((n, n) if n in ("or", "and", "-") else ("name", n))
        i = m.end()
    return out


class Parser:
    def __init__(self, s):
        self.t, self.i = lex(s), 0

    def peek(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Bad("unexpected end")
        self.i += 1
        return self.t[self.i - 1]

    def parse(self):
        e = self.union()
        if self.peek() is not None:
            raise Bad("trailing input")
        return e

    def union(self):
        e = self.inter()
        while self.peek() in ("|", "+", "or"):
            self.next()
            e = ("union", [e, self.inter()])
        return e

    def inter(self):
        e = self.range()
        while self.peek() in ("&", "and", "-", "%"):
            k = self.next()[0]
            e = ({"&": "intersection", "and": "intersection", "-": "difference", "%": "only"}[k], [e, self.range()])
        return e

    def starts(self):
        return self.peek() in ("name", "(")

    def range(self):
        dot = ("name", ".")
        if self.peek() in (":", "::"):
            self.next()
            e = ("ancestors", [self.postfix()])
        elif self.peek() == "..":
            self.next()
            e = ("only", [self.postfix(), dot])
        else:
            e = self.postfix()
        while self.peek() in (":", "::", ".."):
            k = self.next()[0]
            if self.starts():
                rhs = self.postfix()
                e = ("only", [rhs, e]) if k == ".." else ("range", [e, rhs])
            else:
                e = ("only", [dot, e]) if k == ".." else ("descendants", [e])
        return e

    def postfix(self):
        e = self.atom()
        while self.peek() in ("^", "~"):
            k = self.next()[0]
            n = ("name", "1")
            if self.peek() == "name":
                n = ("name", self.next()[1])
            e = ({"^": "parents.nth", "~": "ancestors.nth"}[k], [e, n])
        return e

    def atom(self):
        k, v = self.next()
        if k == "(":
            e = self.union()
            if self.next()[0] != ")":
                raise Bad("expected )")
            return e
        if k != "name":
            raise Bad("unexpected %s" % k)
        if self.peek() == "(":
            self.next()
            args = []
            while self.peek() != ")":
                args.append(self.union())
                if self.peek() == ",":
                    self.next()
                elif self.peek() != ")":
                    raise Bad("expected , or )")
            self.next()
            return (v, args)
        return ("name", v)


def is_name(e):
    return e[0] == "name" and isinstance(e[1], str)


def glob_match(p, s):
    out = ""
    i = 0
    while i < len(p):
        if p[i] == "*":
            out += ".*"
        elif p[i] == "?":
            out += "."
        elif p[i] in "[]":
            raise Unknown("glob class")
        else:
            out += re.escape(p[i])
        i += 1
    return re.fullmatch(out, s, re.S) is not None


def text_pattern(p):
    for k in ("exact:", "substring:", "substr:", "glob:", "regex:", "before:", "after:"):
        if p.startswith(k):
            rest = p[len(k):]
            if k == "exact:":
                return lambda s: s == rest
            if k in ("substring:", "substr:"):
                return lambda s: rest in s
            if k == "glob:":
                return lambda s: glob_match(rest, s)
            if k == "regex:":
                rx = re.compile(rest)
                return lambda s: rx.search(s) is not None
            return lambda s: False
    return lambda s: p in s


def date_pattern(p):
    for k in ("before:", "after:"):
        if p.startswith(k):
            t = time.strptime(p[len(k):], "%Y-%m-%d")
            import calendar
            limit = calendar.timegm(t)
            return (lambda d: T0 + d * DAY <= limit) if k == "before:" else (lambda d: T0 + d * DAY >= limit)
    if p.startswith(("exact:", "substr")):
        return lambda d: False
    return lambda d: False


class Evaluator:
    def __init__(self, g, hidden=None, aliases=None):
        self.g, self.hidden = g, g.hidden if hidden is None else hidden
        self.aliases = aliases or {}
        self.vis = g.visible(self.hidden)

    def name(self, v):
        g = self.g
        if v in (".", "@", "HEAD"):
            return {g.head}
        if v in g.branches:
            return {g.branches[v]}
        hits = [i for i, n in enumerate(g.nodes) if len(v) >= 7 and n.oid.startswith(v)]
        if len(hits) == 1:
            return set(hits)
        raise Bad("unbound name %s" % v)

    def eval(self, e):
        if is_name(e):
            return self.name(e[1])
        return self.call(*e) & self.vis

    def n(self, args, *counts):
        if len(args) not in counts:
            raise Bad("arity")

    def two(self, args):
        self.n(args, 2)
        return self.eval(args[0]), self.eval(args[1])

    def one(self, args):
        self.n(args, 1)
        return self.eval(args[0])

    def number(self, args):
        self.n(args, 2)
        if not is_name(args[1]):
            raise Bad("number expected")
        a = self.eval(args[0])
        if not re.fullmatch(r"\+?[0-9]+", args[1][1]):
            raise Bad("not a number")
        return a, int(args[1][1])

    def pattern(self, args):
        self.n(args, 1)
        if not is_name(args[0]):
            raise Bad("pattern expected")
        return args[0][1]

    def call(self, f, args):
        g = self.g
        if f in ("union", "intersection", "difference", "only", "range"):
            a, b = self.two(args)
            return {"union": lambda: a | b, "intersection": lambda: a & b, "difference": lambda: a - b,
                    "only": lambda: g.anc(a) - g.anc(b), "range": lambda: g.desc(a) & g.anc(b)}[f]()
        if f in ("all", "none", "main", "public", "draft", "merges"):
            self.n(args, 0)
            return {"all": lambda: set(self.vis), "none": set, "main": lambda: {g.main}, "public": g.public,
                    "draft": lambda: self.vis - g.public(),
                    "merges": lambda: {i for i in self.vis if len(g.nodes[i].parents) > 1}}[f]()
        if f in ("not", "ancestors", "descendants", "parents", "children", "siblings", "roots", "heads"):
            a = self.one(args)
            par = lambda s: {p for i in s for p in g.nodes[i].parents}
            kids = lambda s: {k for i in s for k in g.kids[i]}
            return {"not": lambda: self.vis - a, "ancestors": lambda: g.anc(a), "descendants": lambda: g.desc(a), "parents": lambda: par(a),
                    "children": lambda: kids(a), "siblings": lambda: kids(par(a)) - a, "roots": lambda: a - kids(a), "heads": lambda: a - par(a)}[f]()
        if f in ("parents.nth", "ancestors.nth"):
            a, n = self.number(args)
            out = set()
            for i in a:
                if f == "parents.nth":
                    ps = g.nodes[i].parents
                    if 1 <= n <= len(ps):
                        out.add(ps[n - 1])
                else:
                    for _ in range(n):
                        ps = g.nodes[i].parents
                        if not ps:
                            i = None
                            break
                        i = ps[0]
                    if i is not None:
                        out.add(i)
            return out
        if f == "exactly":
            a, n = self.number(args)
            if len(a) != n:
                raise Bad("exactly")
            return a
        if f == "stack":
            self.n(args, 0, 1)
            a = self.eval(args[0]) if args else {g.head}
            draft = self.vis - g.public()
            roots = {i for i in draft if not any(p in draft for p in g.nodes[i].parents)}
            low = g.desc(roots) & g.anc(a)
            return g.desc(low) & g.anc(draft)
        if f == "branches":
            self.n(args, 0, 1)
            if not args:
                return set(g.branches.values())
            m = text_pattern(self.pattern(args))
            return {i for b, i in g.branches.items() if m(b)}
        if f in ("message", "author.name", "author.email", "committer.name", "committer.email", "paths.changed"):
            m = text_pattern(self.pattern(args))

            def texts(n):
                if f == "message":
                    return [n.message[:-1] if n.message.endswith("\n") else n.message]
                if f == "paths.changed":
                    return sorted(n.touched)
                who = {"author.name": n.author[0], "author.email": n.author[1], "committer.name": "Com " + n.author[0],
                       "committer.email": "com-" + n.author[1]}[f]
                return [who]
            return {i for i in self.vis if any(m(t) for t in texts(g.nodes[i]))}
        if f in ("author.date", "committer.date"):
            m = date_pattern(self.pattern(args))
            return {i for i in self.vis if m(g.nodes[i].day if f == "author.date" else g.nodes[i].committer_day)}
        if f == "current":
            # No commit of these histories was rewritten.
            sub = Evaluator(g, hidden=set(), aliases=self.aliases)
            self.n(args, 1)
            return sub.eval(args[0])
        if f in self.aliases:
            def subst(e):
                if is_name(e):
                    m = re.fullmatch(r"\$([0-9]+)", e[1])
                    if m and 1 <= int(m.group(1)) <= len(args):
                        return args[int(m.group(1)) - 1]
                    return e
                return (e[0], [subst(x) for x in e[1]])
            return self.eval(subst(Parser(self.aliases[f]).parse()))
        raise Bad("unknown function %s" % f)
