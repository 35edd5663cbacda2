"""P20: sync moves every stack onto the main branch, or leaves it alone."""
import os

from hypothesis import strategies as st

from checks import p03
from engine import model, moves, observe, scenario
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, C, World, pick

ID = "P20"
LEVEL = "exploration"
RULE = ("Random forests over a main branch, `git sync` of all or of selected stacks, and `git sync --pull` with a remote whose main branch advanced, diverged from, or "
        "already contains local main commits. The model moves each stack on its own; every commit's parent, contents, message and author, every reference, HEAD and the "
        "working copy are compared, and a second sync must change nothing. Non-trivial: at least two stacks of which one moved, or one conflicted, or the main branch moved.")
ASSUMPTIONS = ["Linear stacks (no merge commits).", "A stack that becomes empty is dropped with its branches."]

EDITS = scenario.edits_strategy()


def forest(**kw):
    """Scenarios with more stacks, most of them on older main commits."""
    def root(scn, at):
        m = 1 + len(scn["main"])
        for i, (c, a) in enumerate(zip(scn["commits"], at)):
            if a is not None:
                c["p"] = m + i - 1 - a % m
        return scn
    return st.builds(root, scenario.scenario_strategy(**kw), st.lists(st.one_of(st.none(), SEL, SEL), min_size=3, max_size=7))


LOCAL = st.fixed_dictionaries({
    "scn": forest(max_commits=7, min_commits=2, max_main=4, dups=8),
    "refs": p03.REFS,
    "select": st.one_of(st.just([]), st.just([]), st.lists(SEL, min_size=1, max_size=2)),
    "disk": st.sampled_from([0, 0, 0, 1]),
    "form": st.integers(0, 3),
    "pull": st.none(),
})
PULL = st.fixed_dictionaries({
    "scn": forest(max_commits=5, min_commits=1, max_main=3, dups=8),
    "refs": p03.REFS,
    "select": st.one_of(st.just([]), st.just([]), st.lists(SEL, min_size=1, max_size=2)),
    "disk": st.just(0),
    "form": st.integers(0, 3),
    # How many local main commits the remote does not have, what it has on
    # top, and whether the first of those repeats a local one.
    "pull": st.fixed_dictionaries({"back": st.integers(0, 2), "ups": st.lists(EDITS, max_size=2), "same": st.sampled_from([0, 0, 1]), "upstream": st.sampled_from([1, 1, 1, 0])}),
})


def one_move(w, root, dst):
    """Outcome of moving the subtree of `root` onto `dst`."""
    np = {c.name: (c.parents[0] if c.parents else None) for c in w.commits}
    np[root] = dst
    return moves.outcome(w, np, {root})


def roots_of(w):
    drafts = {c.name for c in w.drafts}
    return [c.name for c in w.drafts if c.parents[0] not in drafts]


def derive(w, out, main_tip):
    """The world after an outcome."""
    w2 = World()
    main = set()
    n = main_tip
    while n is not None:
        main.add(n)
        n = out.parent.get(n)
    order, done = [], set()

    def visit(n):
        if n in done or n is None:
            return
        visit(out.parent[n])
        done.add(n)
        order.append(n)
    for c in w.commits:
        if c.name in out.tree:
            visit(c.name)
    for n in sorted(order, key=lambda n: n not in main):
        c = w.by_name[n]
        w2.add(C(n, [out.parent[n]] if out.parent[n] else [], out.tree[n], c.message, c.author, c.time, n in main))
    w2.branches = {}
    for b, n in w.branches.items():
        if n not in out.dropped:
            w2.branches[b] = out.pos[n]
    w2.branches["master"] = main_tip
    hn, hb = w.head
    w2.head = (out.pos[hn], hb if hb in w2.branches else None)
    return w2


def run(ctx, case):
    w = scenario.plan(case["scn"])
    pull = case["pull"]
    labels = []
    try:
        mains = [c.name for c in w.mains]
        ups = []
        if pull:
            base = mains[max(0, len(mains) - 1 - pull["back"])]
            missing = mains[mains.index(base) + 1:]
            prev = w.by_name[base]
            if pull["same"] and missing:
                c = w.by_name[missing[0]]
                ups.append(C("u0", [prev.name], dict(c.tree), "u0 same\n", c.author, c.time + 7, False))
                prev = ups[-1]
            for e in pull["ups"]:
                name = "u%d" % len(ups)
                tree = model.apply_edits(prev.tree, e, name)
                if tree == prev.tree:
                    continue
                ups.append(C(name, [prev.name], tree, name + " upstream\n", prev.author, w.commits[-1].time + 10 * len(ups), False))
                prev = ups[-1]
            remote_tip = prev.name
        # What must happen, step by step.
        cur = World()
        for c in w.mains + ups + w.drafts:
            cur.add(C(c.name, list(c.parents), c.tree, c.message, c.author, c.time, c.main))
        cur.branches, cur.head = dict(w.branches), w.head
        for u in ups:
            cur.by_name[u.name].main = True       # not a draft
        main_tip = mains[-1]
        main_conflict = False
        if pull and pull["upstream"]:
            if not missing:
                main_tip = remote_tip
                cur.branches["master"] = main_tip
                if w.head[1] == "master":
                    cur.head = (main_tip, "master")
                labels.append("main:forward" if ups else "main:same")
            elif not ups:
                labels.append("main:ahead")
            else:
                try:
                    out = one_move(cur, missing[0], remote_tip)
                except model.Conflict:
                    main_conflict = True
                    labels.append("main:conflict")
                else:
                    main_tip = out.pos[mains[-1]]
                    if mains[-1] in out.dropped:
                        if out.pos[mains[-1]] != remote_tip:
                            raise Skip("the last main commit is dropped")
                        main_tip = remote_tip
                    cur = derive(cur, out, main_tip)
                    if w.head[1] == "master":
                        cur.head = (main_tip, "master")
                    labels.append("main:rebased")
        extra_visible = []
        if pull and main_tip != remote_tip and ups and main_tip not in [u.name for u in ups] and not any(u.name in cur.ancestors(main_tip) for u in ups):
            # The remote's commits are only there as the remote branch.
            extra_visible = [u.name for u in ups]
        stacks = roots_of(cur)
        stacks = [s for s in stacks if s not in extra_visible]
        chosen = stacks
        if case["select"]:
            names = [c.name for c in cur.drafts]
            if not names:
                raise Skip("no drafts")
            sel = sorted({pick(names, s) for s in case["select"]})
            if any(n not in [c.name for c in w.drafts] for n in sel):
                raise Skip("selects a former main commit")
            if pull and labels and labels[-1] == "main:rebased":
                raise Skip("the selected commits get other names")
            chosen = [s for s in stacks if any(s in cur.ancestors(n) for n in sel)]
        conflicts, moved, still, dropped_all = [], [], [], set()
        if pull and "main:rebased" in labels:
            dropped_all |= set(out.dropped)
        for s in chosen:
            if cur.by_name[s].parents[0] == main_tip:
                still.append(s)
                continue
            try:
                o = one_move(cur, s, main_tip)
            except model.Conflict:
                conflicts.append(s)
                continue
            dropped_all |= set(o.dropped)
            cur = derive(cur, o, main_tip)
            moved.append(s)
    except model.Ambiguous as e:
        raise Skip(str(e))
    disk = case["disk"] and not conflicts
    # Run it.
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    p03.place_refs(case)(r, w)
    if pull:
        for u in ups:
            u.oid = r.write_commit(r.write_tree(model.render_tree(u.tree)), [w.by_name[p].oid if p in w.by_name else [x for x in ups if x.name == p][0].oid for p in u.parents],
                                   u.message, author=u.author, time=u.time)
        remote = ctx.arena.new_dir("remote")
        r.run("git", "init", "-q", "--bare", remote, check=0)
        tip = [x for x in ups if x.name == remote_tip]
        tip = tip[0].oid if tip else w.by_name[remote_tip].oid
        r.run("git", "push", "-q", remote, "%s:refs/heads/master" % tip, check=0, env=r.nohooks())
        r.git("config", "remote.origin.url", remote)
        r.git("config", "remote.origin.fetch", "+refs/heads/*:refs/remotes/origin/*")
        if pull["upstream"]:
            r.git("config", "branch.master.remote", "origin")
            r.git("config", "branch.master.merge", "refs/heads/master")
    before = observe.full_state(r)
    args = ["sync"] + (["--pull"] if pull else []) + (["--on-disk"] if disk else [])
    if case["select"]:
        # Commits of the main branch may be selected along; they stay.
        form = {0: "%s", 1: "::%s", 2: "%s + " + w.mains[0].oid, 3: "%s + main()"}[case.get("form", 0)]
        args += [form % w.by_name[n].oid for n in sel]
    res = r.gb(*args)
    what = "graph: %s\nremote: %s\nHEAD %s branches %s\nexpected: moved %s, conflicts %s, up to date %s, main at %s\n%r" % (
        "; ".join("%s <- %s" % (c.name, c.parents) for c in w.commits), ["%s <- %s" % (u.name, u.parents) for u in ups], w.head, w.branches, moved, conflicts, still, main_tip, res)
    if res.code != 0:
        raise Violation("P20:failed", what)
    check(r, w, cur, ups, before, dropped_all, pull, what, main_tip)
    # What it says.
    said = [(l.startswith("Merge conflict"), l.startswith("Synced"), l.startswith("Not moving")) for l in res.out.splitlines()]
    counts = [sum(x[i] for x in said) for i in range(3)]
    if pull and ("main:rebased" in labels or main_conflict):
        counts[0] -= main_conflict
        counts[1] -= not main_conflict
    if counts != [len(conflicts), len(moved), len(still)]:
        raise Violation("P20:report", "conflicting, synced and up-to-date stacks are reported as %s, expected %s\n%s" % (counts, [len(conflicts), len(moved), len(still)], what))
    # Again.
    state, vis = observe.full_state(r), r.visible()
    if not case["select"]:
        res2 = r.gb("sync", *(["--pull"] if pull else []))
        state2 = observe.full_state(r)
        if state2 != state or r.visible() != vis or res2.code != 0:
            raise Violation("P20:again", "syncing again: %s\n%r\n%s" % (observe.diff_state(state, state2), res2, what))
    n = len(stacks)
    labels += ["stacks:%d" % min(n, 3), "moved:%d" % min(len(moved), 3), "conflicts:%d" % min(len(conflicts), 2)] + (["disk"] if disk else []) + (["selected"] if case["select"] else [])
    return {"nontrivial": (n >= 2 and bool(moved)) or bool(conflicts) or any(l in ("main:forward", "main:rebased", "main:conflict") for l in labels), "labels": labels}


def check(r, w, cur, ups, before, dropped, pull, what, main_tip):
    uoid = {u.name: u.oid for u in ups}
    oids = set(r.query("draft()")) | r.ancestors([r.branches()["master"]])
    groups = observe.by_subject(r, oids)
    got = {}
    for c in cur.commits:
        if c.name in uoid and c.name not in cur.ancestors(main_tip):
            continue
        have = groups.pop(c.name, [])
        if len(have) != 1:
            raise Violation("P20:graph", "%s is there %d times\n%s" % (c.name, len(have), what))
        got[c.name] = have[0]
    for n in list(groups):
        if n in uoid:
            del groups[n]
    if groups:
        raise Violation("P20:graph", "unexpected commits are visible: %s\n%s" % (groups, what))
    for name, oid in got.items():
        c = cur.by_name[name]
        x = r.commit(oid)
        parents = [got[p] for p in c.parents]
        if x.parents != parents:
            raise Violation("P20:parent", "%s is on %s, expected %s\n%s" % (name, [r.commit(p).subject for p in x.parents], c.parents, what))
        want = model.render_tree(c.tree)
        if r.files(oid) != want:
            raise Violation("P20:contents", "%s differs in %s\n%s" % (name, sorted(p for p in set(want) | set(r.files(oid)) if want.get(p) != r.files(oid).get(p)), what))
        old = w.by_name.get(name)
        if old is not None:
            y = r.commit(old.oid)
            if (x.message, x.author) != (y.message, y.author):
                raise Violation("P20:metadata", "%s: %r\n%s" % (name, (x.message, x.author), what))
            if c.parents == old.parents and all(got[p] == w.by_name[p].oid for p in c.parents if p in w.by_name) and oid != old.oid:
                raise Violation("P20:identity", "%s did not have to change\n%s" % (name, what))
    want = dict(before["refs"])
    for b in w.branches:
        if b in cur.branches:
            want["refs/heads/" + b] = got[cur.branches[b]]
        else:
            del want["refs/heads/" + b]
    have = r.user_refs()
    if pull:
        have.pop("refs/remotes/origin/master", None)
    if have != want:
        diff = ["%s: %s, expected %s" % (k, have.get(k), want.get(k)) for k in sorted(set(have) | set(want)) if have.get(k) != want.get(k)]
        raise Violation("P20:refs", "%s\n%s" % ("; ".join(diff), what))
    hn, hb = cur.head
    kind, b, oid = r.head()
    if oid != got[hn] or (hb is not None and b != hb):
        raise Violation("P20:head", "HEAD is %s, expected %s on %s\n%s" % ((kind, b, oid), (hn, got[hn]), hb, what))
    if r.worktree() != r.files(oid):
        raise Violation("P20:work", "the working copy does not match HEAD\n" + what)
    if {p: v for (p, s), v in r.index().items()} != r.flat(r.commit(oid).tree):
        raise Violation("P20:index", "the index does not match HEAD\n" + what)


PARTS = [Part("local", LOCAL, run, 900, 40000), Part("pull", PULL, run, 500, 25000)]
