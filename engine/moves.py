"""Model of `git move` requests: what graph and what contents must result."""
from hypothesis import strategies as st

from . import model
from .scenario import SEL, pick


def request_strategy(modes=("s", "s", "b", "x", "x"), insert=True, fixup=False, disk=True):
    return st.fixed_dictionaries({
        "mode": st.sampled_from(list(modes)),
        "src": st.lists(SEL, min_size=1, max_size=3),
        "dst": SEL,
        "insert": st.sampled_from([False, False, True]) if insert else st.just(False),
        "fixup": st.booleans() if fixup else st.just(False),
        "disk": st.sampled_from([False, False, False, True]) if disk else st.just(False),
        "onto": st.integers(0, 3),   # how the destination is chosen
        "any": st.sampled_from([False] * 7 + [True]),   # also requests that cannot work
    })


class Refused(Exception):
    """The model says that the request must be refused."""


class Request:
    def __init__(self, w, rq):
        self.mode = rq["mode"]
        drafts = [c.name for c in w.drafts]
        src = []
        for s in rq["src"]:
            n = pick(drafts, s)
            if n not in src:
                src.append(n)
        everything = [c.name for c in w.commits]
        if rq["onto"] == 0:
            dst = w.mains[-1].name
        elif rq["onto"] == 1:
            dst = w.head[0]
        else:
            dst = pick(everything, rq["dst"])
        if self.mode == "s":
            # Sources that are ancestors of one another are not a meaningful
            # combination of requests; keep the first of each line.
            keep = []
            for n in src:
                if not any(n in w.descendants(k) or k in w.descendants(n) for k in keep):
                    keep.append(n)
            src = keep
        elif self.mode == "b":
            src = src[:1]
        if not rq.get("any"):
            # Prefer a destination for which there is something to do.
            def useless(d):
                if self.mode == "s":
                    return any(d in w.descendants(n) or w.by_name[n].parents[:1] == [d] for n in src)
                if self.mode == "b":
                    return d in w.descendants(src[0]) or src[0] in w.descendants(d)
                return d in src
            start = everything.index(dst)
            for k in range(len(everything)):
                d = everything[(start + k) % len(everything)]
                if not useless(d):
                    dst = d
                    break
        self.src, self.dst = src, dst
        self.insert, self.fixup, self.disk = rq["insert"], rq["fixup"], rq["disk"]
        if self.mode == "s" and self.insert:
            self.src = src[:1]

    def args(self, w, extra=()):
        a = ["move"]
        for n in self.src:
            a += ["-" + self.mode, w.by_name[n].oid]
        a += ["-d", w.by_name[self.dst].oid]
        if self.insert:
            a.append("--insert")
        if self.fixup:
            a.append("--fixup")
        if self.disk:
            a.append("--on-disk")
        return a + list(extra)


def only_parent(w, n):
    return w.by_name[n].parents[0]


def new_parents(w, rq):
    """{commit: new parent} for all draft commits after the request; raises
    Refused. Linear-parent histories only."""
    np = {c.name: (c.parents[0] if c.parents else None) for c in w.commits}
    drafts = {c.name for c in w.drafts}
    dst = rq.dst
    if rq.mode == "b":
        # the root of the subtree: child of the merge base with the destination
        base = rq.src[0]
        da = w.ancestors(dst)
        n = base
        while n not in da and only_parent(w, n) not in da:
            n = only_parent(w, n)
        roots = [n]
        moved = set(w.descendants(n))
        if n not in drafts:
            raise Refused("public")
    elif rq.mode == "s":
        roots = list(rq.src)
        moved = set()
        for r in roots:
            moved |= w.descendants(r)
    else:
        moved = set(rq.src)
        roots = [n for n in moved if only_parent(w, n) not in moved]
    explicit = set()
    if rq.mode in "sb":
        for r in roots:
            np[r] = dst
            explicit.add(r)
        if rq.insert:
            heads = [n for n in moved if not w.children(n)]
            if len(heads) != 1:
                raise Refused("several heads")
            for c in w.children(dst):
                if c not in roots:
                    if c not in drafts:
                        raise Refused("public child of destination")
                    np[c] = heads[0]
                    explicit.add(c)
    else:
        def unmoved_anc(n):
            n = only_parent(w, n)
            while n in moved:
                n = only_parent(w, n)
            return n

        def moved_anc(n):
            n = only_parent(w, n)
            while n is not None and n not in moved:
                ps = w.by_name[n].parents
                n = ps[0] if ps else None
            return n
        for r in roots:
            a = moved_anc(r)
            np[r] = a if a is not None else dst
            explicit.add(r)
        for n in drafts:
            if n not in moved and only_parent(w, n) in moved:
                np[n] = unmoved_anc(n)
                explicit.add(n)
        if rq.insert:
            # must form a single lineage
            line = sorted(moved, key=lambda n: len(w.ancestors(n)))
            for x, y in zip(line, line[1:]):
                if x not in w.ancestors(y):
                    # Definitely refused if the separate pieces are unrelated
                    # or if there is only one piece.
                    if len(roots) == 1 or any(p not in w.ancestors(q) and q not in w.ancestors(p) for p in roots for q in roots):
                        raise Refused("not a single lineage")
                    raise model.Ambiguous("pieces form a tree")
            for c in w.children(dst):
                if c not in moved:
                    if c not in drafts:
                        raise Refused("public child of destination")
                    np[c] = line[-1]
                    explicit.add(c)
    # cycles
    for n in np:
        seen, x = set(), n
        while x is not None:
            if x in seen:
                raise Refused("cycle")
            seen.add(x)
            x = np[x]
    return np, explicit


class Outcome:
    """What must be visible afterwards."""

    def __init__(self):
        self.rewritten = set()   # names that get new versions (or are dropped)
        self.dropped = set()
        self.parent = {}         # name -> new parent name, after drops
        self.tree = {}           # name -> model tree
        self.pos = {}            # name -> surviving commit that stands in for it


def outcome(w, np, explicit):
    """Applies the changes; raises model.Conflict / model.Ambiguous."""
    res = Outcome()
    order, done = [], set()

    def visit(n):
        if n in done:
            return
        if np[n] is not None:
            visit(np[n])
        done.add(n)
        order.append(n)
    for n in np:
        visit(n)
    for n in order:
        if n in explicit or (np[n] in res.rewritten):
            res.rewritten.add(n)
    # Upstream duplicates are looked for between each root edge's merge base
    # and its destination.
    root_of = {}
    for n in order:
        if n in res.rewritten:
            p = np[n]
            root_of[n] = root_of[p] if p in res.rewritten else (n, p)

    def key(n):
        c = w.by_name[n]
        parent = w.by_name[c.parents[0]].tree if c.parents else {}
        return model.patch_key(parent, c.tree)

    def weak(k):
        return tuple((x[0], x[1], x[2]) if len(x) == 4 else x for x in k)

    for n in order:
        c = w.by_name[n]
        if n not in res.rewritten:
            res.tree[n] = c.tree
            res.parent[n] = np[n]
            res.pos[n] = n
            continue
        p = res.pos[np[n]]
        root, dest = root_of[n]
        upstream = w.ancestors(dest) - w.ancestors(root)
        k = key(n)
        ups = [key(u) for u in upstream]
        dup = k in ups
        if not dup and weak(k) in [weak(u) for u in ups if u]:
            raise model.Ambiguous("mode-only patch ids")
        base = w.by_name[c.parents[0]].tree
        try:
            t = model.merge3(base, res.tree[p], c.tree)
        except model.Conflict:
            if dup:
                raise model.Ambiguous("duplicate that would conflict")
            raise
        if dup and t != res.tree[p]:
            raise model.Ambiguous("duplicate whose effect was undone upstream")
        if t == res.tree[p]:
            res.dropped.add(n)
            res.pos[n] = p
        else:
            res.tree[n] = t
            res.parent[n] = p
            res.pos[n] = n
    return res
