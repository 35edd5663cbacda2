"""P06: uncommitted work survives every command."""
import os

from hypothesis import strategies as st

from engine import scenario, wc
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P06"
LEVEL = "exploration"
RULE = ("Random forests, random index and working-copy states (staged, unstaged, both in one file, deletions, additions, renames, modes, symlinks, untracked files that "
        "collide with other commits), and one command: move (in memory, on disk), restack, reword, sync, switch, next, prev, hide, unhide, undo, test run/fix. "
        "Afterwards every staged entry, every unstaged file and every untracked file must be as before; clean paths must match HEAD. "
        "Non-trivial: the command moved HEAD to other contents or was refused because of the changes.")
ASSUMPTIONS = ["Force and merge flags are not used.", "Ignored files are not generated.", "git amend and git record are decided by P17.",
               "A staged entry that equals the new HEAD is no change any more."]

SCN = scenario.scenario_strategy(max_commits=5, min_commits=2, branches=3, max_main=2)
PRE = st.lists(st.tuples(st.sampled_from(["amend", "switch", "hide", "move", "commit", "rewordpre"]), SEL, SEL).map(list), max_size=2)
CMD = st.tuples(st.sampled_from(["move", "move", "move-disk", "move-disk", "switch", "switch", "next", "prev", "hide", "unhide", "reword", "restack", "restack-disk", "sync", "sync-disk",
                                 "undo", "undo", "test-run", "test-work", "test-fix", "smartlog", "wrap"]), SEL, SEL, st.integers(0, 3)).map(list)
CASE = st.fixed_dictionaries({"scn": SCN, "pre": PRE, "wc": wc.strategy(staged=2, unstaged=2), "cmd": CMD})


def known(r, w):
    return [c.oid for c in w.commits] + [o for o in sorted(r.visible(), key=lambda o: r.commit(o).subject) if o not in w.by_oid]


def do_pre(r, w, op):
    kind, a, b = op
    oids = known(r, w)
    env = {"GIT_COMMITTER_DATE": "1600009000 +0000"}
    if kind == "amend":
        if r.commit(r.head_oid()).parents:
            r.gb("wrap", "--", "commit", "-q", "--amend", "--allow-empty", "-m", "amended " + str(a), env=env)
    elif kind == "switch":
        r.gb("switch", pick(oids, a))
    elif kind == "hide":
        if pick(oids, a) in w.by_oid and w.by_name[w.by_oid[pick(oids, a)]].main:
            return          # would delete the main branch
        r.gb("hide", pick(oids, a))
    elif kind == "move":
        r.gb("move", "-s", pick(oids, a), "-d", pick(oids, b))
    elif kind == "commit":
        r.put_file("own%d" % (a % 3), "100644", b"%d\n" % a)
        r.git("add", "-A")
        r.gb("wrap", "--", "commit", "-q", "-m", "extra", env=env)
    elif kind == "rewordpre":
        r.gb("reword", "-m", "reworded %d" % a, pick(oids, a))


def command(r, w, cmd):
    kind, a, b, v = cmd
    oids = known(r, w)
    x, y = pick(oids, a), pick(oids, b)
    if kind in ("move", "move-disk"):
        args = ["move", ["-s", "-x", "-b", "-s"][v], x, "-d", y] + (["--on-disk"] if kind == "move-disk" else [])
    elif kind == "switch":
        args = ["switch", x]
    elif kind in ("next", "prev"):
        args = [kind, str(1 + v)] + (["--newest"] if kind == "next" else [])
    elif kind in ("hide", "unhide"):
        args = [kind, x]
    elif kind == "reword":
        args = ["reword", "-m", "reworded", x]
    elif kind in ("restack", "restack-disk"):
        args = ["restack"] + (["--on-disk"] if kind == "restack-disk" else [])
    elif kind in ("sync", "sync-disk"):
        args = ["sync"] + (["--on-disk"] if kind == "sync-disk" else [])
    elif kind == "undo":
        args = ["undo", "-y"]
    elif kind in ("test-run", "test-work", "test-fix"):
        strategy = "working-copy" if kind != "test-run" else "worktree"
        args = ["test", "fix" if kind == "test-fix" else "run", "--strategy", strategy, "--exec", ["true", "false", "rm -f a", "! test -f k || echo junk > k"][v] if kind != "test-fix" else "! test -f a || echo fixed >> a", x]
    elif kind == "wrap":
        args = ["wrap", "--", "checkout", "-q", x]
    else:
        args = ["smartlog"]
    return args


def run(ctx, case):
    w = scenario.plan(case["scn"])
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    for op in case["pre"]:
        do_pre(r, w, op)
        if r.git("status", "--porcelain").out or os.path.exists(os.path.join(r.gitdir, "rebase-merge")):
            raise Skip("not clean after the preparation")
    head0 = r.head_oid()
    s = wc.State(r.files(head0), case["wc"])
    s.install(r)
    status = r.git("status", "--short").out
    if not status:
        raise Skip("clean")
    args = command(r, w, case["cmd"])
    res = r.gb(*args)
    head = r.head_oid()
    what = "graph: %s\nHEAD %s branches %s\nbefore: %s\nstatus before:\n%sHEAD %s -> %s\n%r" % (
        "; ".join("%s <- %s" % (c.name, c.parents) for c in w.commits), w.head, w.branches, case["pre"], status, head0, head, res)
    kind = case["cmd"][0]
    entries = r.index()
    got_index = {p: (m, r.blob(o)) for (p, stage), (m, o) in entries.items() if stage == 0}
    got_work = r.worktree()
    H, H2 = s.head, r.files(head)
    unmerged = [p for (p, stage) in entries if stage]
    sig = "P06:" + kind
    dirty = {p for p in set(H) | set(s.index) | set(s.work) if not H.get(p) == s.index.get(p) == s.work.get(p)}
    if any(q.startswith(p + "/") or p.startswith(q + "/") for p in dirty for q in H2 if q not in H):
        # `git checkout` itself drops a staged d/y when d becomes a file.
        raise Skip("a changed file's directory becomes a file")
    if kind == "undo" and "restoring from snapshot" in res.err:
        # The working copy of that time comes back; the present one must have
        # been saved in a snapshot.
        import hashlib
        for p in sorted(dirty & set(s.work)):
            blob = hashlib.sha1(b"blob %d\0" % len(s.work[p][1]) + s.work[p][1]).hexdigest()
            if got_work.get(p) != s.work[p] and not r.exists(blob):
                raise Violation(sig + ":unsaved", "the uncommitted change of %r was not saved before the undo\n%s" % (p, what))
        for p, v in s.untracked.items():
            if got_work.get(p) != v:
                raise Violation(sig + ":untracked", "the untracked file %r is lost: %s, expected %s\n%s" % (p, wc.short(got_work.get(p)), wc.short(v), what))
        return {"nontrivial": True, "labels": ["undo:restored"] + s.kinds()}
    for p in sorted(set(H) | set(s.index) | set(H2) | set(got_index)):
        changed = s.index.get(p) != H.get(p)
        want = s.index.get(p) if changed else H2.get(p)
        if got_index.get(p) != want and p not in unmerged:
            if changed:
                raise Violation(sig + ":staged", "the staged change of %r is lost: %s, expected %s\n%s" % (p, wc.short(got_index.get(p)), wc.short(want), what))
            if not unmerged:
                raise Violation(sig + ":index", "%r was not staged, but now is: %s, HEAD has %s\n%s" % (p, wc.short(got_index.get(p)), wc.short(want), what))
    for p in sorted(set(s.index) | set(s.work) | set(got_work)):
        if p in s.untracked or p in unmerged:
            continue
        if s.work.get(p) != s.index.get(p):
            # (Git restores a file that was only deleted from the working copy
            # when the new commit has another version of it.)
            if got_work.get(p) != s.work.get(p) and not (p not in s.work and H2.get(p) != H.get(p) and got_work.get(p) == H2.get(p)):
                raise Violation(sig + ":unstaged", "the uncommitted change of %r is lost: %s, expected %s\n%s" % (p, wc.short(got_work.get(p)), wc.short(s.work.get(p)), what))
        elif got_work.get(p) != got_index.get(p):
            raise Violation(sig + ":work", "%r was not changed in the working copy, but now is: %s, expected %s\n%s" % (p, wc.short(got_work.get(p)), wc.short(got_index.get(p)), what))
    for p, v in s.untracked.items():
        if got_work.get(p) != v:
            raise Violation(sig + ":untracked", "the untracked file %r is lost: %s, expected %s\n%s" % (p, wc.short(got_work.get(p)), wc.short(v), what))
    if unmerged and (s.has_staged or s.has_unstaged):
        raise Violation(sig + ":unmerged", "a rebase was started on top of uncommitted changes and stopped with conflicts\n" + what)
    return {"nontrivial": (head != head0 and H2 != H) or res.code != 0, "labels": [kind + (":refused" if res.code else ":moved" if head != head0 else ":stayed")] + s.kinds()}


PARTS = [Part("commands", CASE, run, 2400, 80000)]
