"""P11: git restack reattaches every abandoned commit."""
from hypothesis import strategies as st

from engine import model, moves, observe, scenario
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, C, pick

ID = "P11"
LEVEL = "exploration"
RULE = ("Random forests of which random commits are replaced with plain Git (amended on a branch or detached, rebased elsewhere; several times, at several levels), then `git restack`, of everything or of given commits. "
        "The model puts every commit whose parent was replaced on the newest version of that parent; the whole visible graph, contents, messages, references, HEAD and working copy "
        "are compared, and a second restack must find nothing to do. Non-trivial: at least one commit was abandoned and the rewrites apply cleanly, or they conflict.")
ASSUMPTIONS = ["No merge commits.", "No commit of the rewritten lines is hidden by hand."]

OP = st.fixed_dictionaries({
    "kind": st.sampled_from(["amend", "amend", "amend", "reword", "rebase", "commit"]),
    "at": SEL,
    "e": scenario.edits_strategy(),
    "dst": SEL,
    "attach": st.booleans(),
    "any": st.sampled_from([0] * 9 + [1]),      # also already replaced versions
})
CASE = st.fixed_dictionaries({
    "scn": scenario.scenario_strategy(max_commits=6, min_commits=2, max_main=2, dups=0),
    "ops": st.lists(OP, min_size=1, max_size=5),
    "end": st.one_of(st.none(), SEL),
    "end_any": st.booleans(),
    "disk": st.sampled_from([0, 0, 0, 0, 1]),
    "only": st.one_of(st.none(), st.none(), st.none(), st.lists(SEL, min_size=1, max_size=2)),
})


class History:
    """The commits of a world with all their versions."""

    def __init__(self, w):
        self.w = w
        self.rw = {}            # version -> the version that replaced it
        self.count = 0

    def line(self, n):
        return n.split(".")[0]

    def newest(self, n):
        while n in self.rw:
            n = self.rw[n]
        return n

    def live(self):
        return [c.name for c in self.w.drafts if c.name not in self.rw]


def play(r, h, op):
    """One command of the user; returns a description or None."""
    w = h.w
    names = [c.name for c in w.drafts] if op["any"] else h.live()
    if op["any"]:
        # Only what can be seen.
        vis = r.visible()
        names = [n for n in names if w.by_name[n].oid in vis]
    if not names:
        return None
    n = pick(names, op["at"])
    c = w.by_name[n]
    on = sorted(b for b, x in w.branches.items() if x == n and b != "master")
    kind = op["kind"]
    branch = on[0] if on and op["attach"] else None
    h.count += 1
    new = "%s.%d" % (h.line(n), h.count)
    parent = w.by_name[c.parents[0]]
    if kind in ("amend", "reword"):
        tree = model.apply_edits(c.tree, op["e"], new) if kind == "amend" else c.tree
        if tree == parent.tree:
            return None
        msg = "%s amended\n" % new
    elif kind == "commit":
        tree = model.apply_edits(c.tree, op["e"], new)
        if tree == c.tree:
            return None
        new = "n%d" % h.count
        msg = "%s added\n" % new
    else:
        dsts = [m.name for m in w.mains] + [x for x in h.live() if n not in w.ancestors(x)]
        if n in h.rw:
            return None
        d = pick(dsts, op["dst"])
        if d == c.parents[0] or d in w.descendants(n):
            return None
        try:
            o = moves.outcome(w, dict({x.name: (x.parents[0] if x.parents else None) for x in w.commits if x.name in w.ancestors(d) | w.ancestors(n)}, **{n: d}), {n})
        except (model.Conflict, model.Ambiguous):
            return None
        if n in o.dropped:
            return None
        tree, msg = o.tree[n], c.message
    r.git("checkout", "-q", *([branch] if branch else ["--detach", c.oid]), check=0)
    if kind == "rebase":
        res = r.run("git", "rebase", "-q", "--onto", w.by_name[d].oid, parent.oid)
        if res.code != 0:
            r.run("git", "rebase", "--abort")
            raise Skip("git rebase failed")
    else:
        r.git("read-tree", "-u", "--reset", r.write_tree(model.render_tree(tree)), check=0)
        r.git("commit", "-q", *(["--amend"] if kind != "commit" else []), "-m", msg, check=0)
    oid = r.head_oid()
    if oid in w.by_oid:
        raise Skip("no new commit")
    if r.files(oid) != model.render_tree(tree):
        raise Skip("plain Git does something else")
    x = C(new, [d if kind == "rebase" else n if kind == "commit" else c.parents[0]], tree, msg, c.author, 0, False)
    x.oid = oid
    w.add(x)
    w.by_oid[oid] = new
    if kind != "commit":
        h.rw[n] = new
    if branch:
        w.branches[branch] = new
    w.head = (new, branch)
    return "%s %s -> %s on %s%s" % (kind, n, new, x.parents[0], " (branch %s)" % branch if branch else "")


def run(ctx, case):
    r, w = scenario.build(ctx.arena, case["scn"])
    h = History(w)
    done = []
    for op in case["ops"]:
        try:
            t = play(r, h, op)
        except model.Ambiguous:
            t = None
        if t:
            done.append(t)
    if not h.rw:
        raise Skip("nothing replaced")
    if case["end"] is not None:
        vis = r.visible()
        names = [c.name for c in w.commits if c.oid in vis] if case["end_any"] else [m.name for m in w.mains] + h.live()
        n = pick(names, case["end"])
        on = sorted(b for b, x in w.branches.items() if x == n)
        r.git("checkout", "-q", *([on[0]] if on else ["--detach", w.by_name[n].oid]), check=0)
        w.head = (n, on[0] if on else None)
    vis_before = r.visible()
    # The model.
    only = None
    if case["only"] is not None:
        only = {pick(sorted(h.rw), sel) for sel in case["only"]}
    np, explicit = {}, set()
    for c in w.commits:
        if c.name in h.rw:
            continue
        p = c.parents[0] if c.parents else None
        if p in h.rw and (only is None or p in only):
            np[c.name] = h.newest(p)
            explicit.add(c.name)
        else:
            np[c.name] = p
    if only is not None:
        # Replaced commits that still carry others stay as they are.
        need = [c for c in np.values() if c in h.rw]
        while need:
            n = need.pop()
            if n not in np:
                np[n] = w.by_name[n].parents[0]
                need += [np[n]] if np[n] in h.rw else []
        if any(x in h.rw and w.by_name[x].oid in vis_before for n in explicit for x in w.descendants(n)):
            raise Skip("replaced commits in between")
    conflict = cycle = False
    out = None
    for n in np:
        seen, x = set(), n
        while x is not None and not cycle:
            cycle = x in seen
            seen.add(x)
            x = np[x]
    if not cycle:
        try:
            out = moves.outcome(w, np, explicit)
        except model.Conflict:
            conflict = True
        except model.Ambiguous as e:
            raise Skip(str(e))
    before = observe.full_state(r)
    disk = case["disk"] and not conflict
    args = ["--on-disk"] if disk else []
    for n in sorted(only or ()):
        args.append(w.by_name[n].oid)
    res = r.gb("restack", *args)
    what = "graph: %s\n%s\nreplaced: %s; HEAD %s branches %s\n%r" % (
        "; ".join("%s <- %s" % (c.name, c.parents) for c in w.commits), "; ".join(done), h.rw, w.head, w.branches, res)
    labels = ["abandoned:%d" % min(len(explicit), 3), "replaced:%d" % min(len(h.rw), 4)] + (["disk"] if disk else []) + (["chain"] if any(x in h.rw for x in h.rw.values()) else []) + (["given"] if only else [])
    if conflict or cycle:
        if res.code == 0 or observe.full_state(r) != before or r.visible() != vis_before:
            raise Violation("P11:conflict", "restack with %s: %s\n%s" % ("a cycle" if cycle else "a conflict", observe.diff_state(before, observe.full_state(r)), what))
        return {"nontrivial": True, "labels": labels + ["cycle" if cycle else "conflict"]}
    if res.code != 0:
        raise Violation("P11:failed", what)
    check(r, h, out, before, explicit, what)
    state, vis = observe.full_state(r), r.visible()
    res2 = r.gb("restack", *args)
    if observe.full_state(r) != state or r.visible() != vis or res2.code != 0 or "No abandoned commits to restack." not in res2.out:
        raise Violation("P11:again", "%s\nsecond: %r\n%s" % (observe.diff_state(state, observe.full_state(r)), res2, what))
    return {"nontrivial": bool(explicit), "labels": labels}


def check(r, h, out, before, explicit, what):
    w = h.w
    vis = r.visible()
    old = set(w.by_oid)
    pool = {}
    for o in vis - old:
        pool.setdefault(r.commit(o).message.decode(), []).append(o)
    got = {}
    for n in out.tree:
        c = w.by_name[n]
        if n not in out.rewritten:
            got[n] = c.oid
            continue
        have = pool.get(r.commit(c.oid).message.decode(), [])
        if len(have) != 1:
            raise Violation("P11:versions", "%s has %d new versions\n%s" % (n, len(have), what))
        got[n] = have[0]
    target = {}
    for c in w.commits:
        t = h.newest(c.name)
        target[c.name] = None if t in out.dropped else got[out.pos[t]]
    for n, o in got.items():
        x, y = r.commit(o), r.commit(w.by_name[n].oid)
        if n in out.rewritten:
            if x.parents != [got[out.parent[n]]]:
                raise Violation("P11:parent", "%s is on %s, expected %s\n%s" % (n, [w.by_oid.get(p) or r.commit(p).subject for p in x.parents], out.parent[n], what))
            if r.files(o) != model.render_tree(out.tree[n]):
                raise Violation("P11:contents", "%s\n%s" % (n, what))
            if (x.message, x.author) != (y.message, y.author):
                raise Violation("P11:metadata", "%s\n%s" % (n, what))
    # References.
    want = dict(before["refs"])
    for b, n in w.branches.items():
        if target[n] is None:
            del want["refs/heads/" + b]
        else:
            want["refs/heads/" + b] = target[n]
    have = r.user_refs()
    if have != want:
        raise Violation("P11:refs", "%s\n%s" % ("; ".join("%s: %s, expected %s" % (k, have.get(k), want.get(k)) for k in sorted(set(have) | set(want)) if have.get(k) != want.get(k)), what))
    # HEAD stays on its commit, or its new version.
    n, b = w.head
    kind, hb, hoid = r.head()
    if b is not None and target[n] is not None:
        ok = hb == b
    elif n in h.rw:
        ok = hoid in (w.by_name[n].oid, target[n])
    else:
        ok = hoid == got[out.pos[n]]
    if not ok:
        raise Violation("P11:head", "HEAD is %s\n%s" % (r.head(), what))
    if r.worktree() != r.files(hoid) or {p: v for (p, s), v in r.index().items()} != r.flat(r.commit(hoid).tree):
        raise Violation("P11:work", "HEAD, index and working copy differ after restack\n%s" % what)
    # Nothing else is visible.
    expect = r.ancestors(list(got.values()) + [hoid] + list(r.branches().values())) - r.ancestors([r.branches()["master"]])
    if vis != expect:
        names = lambda s: [w.by_oid.get(o) or r.commit(o).subject for o in s]
        raise Violation("P11:visible", "unexpected: %s; missing: %s\n%s" % (names(vis - expect), names(expect - vis), what))


PARTS = [Part("restack", CASE, run, 800, 40000)]
