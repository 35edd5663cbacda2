"""P23: an interruption at any point loses no commits and leaves a usable repository."""
import mmap
import os
import shutil
import struct
import subprocess

from hypothesis import strategies as st

from engine import build, observe, scenario
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P23"
LEVEL = "exploration"
RULE = ("Random forests with branches, an untracked file and possibly uncommitted changes, and one command: move (in memory and on disk, subtree, single commits, insertion, fixup), restack, amend, record, reword, "
        "hide, undo, switch/next/prev, sync, test fix, or plain git commit/rebase with the hooks. The command first runs on a copy, which counts the calls of git-branchless that change the file system; then it runs with a fault at a "
        "random one of them: the process is killed before the call, the call fails once as on a full disk, or all later ones do. Alternatively the n-th Git process it starts fails or is preceded or followed by a kill. Afterwards "
        "(stale locks removed, a started rebase aborted) commits, branches, HEAD, files and the usability of the commands are compared with the states before and after the complete command. Non-trivial: the fault happened.")
ASSUMPTIONS = ["Faults are injected by a preloaded library at libc calls of git-branchless processes (not inside Git), and at the start and end of the Git processes it runs.",
               "Lock files left by a killed process are removed by hand, as Git advises.", "The operating system itself does not crash: what was written stays written."]
TECHNIQUE = "property-based testing (Hypothesis) with fault injection: generated histories, commands and crash points, compared with the states before and after the uninterrupted command"

OPS = ["move-s", "move-s", "move-x", "move-disk", "move-insert", "move-fixup", "restack", "amend", "record", "record-insert", "reword", "hide", "hide-D", "undo", "switch", "prev", "next", "sync", "fix", "commit", "rebase"]
CASE = st.fixed_dictionaries({
    "scn": scenario.scenario_strategy(max_commits=5, min_commits=2, branches=3, max_main=2, dups=8),
    "op": st.sampled_from(OPS),
    "src": SEL,
    "dst": SEL,
    "dirty": st.sampled_from([0, 0, 1]),
    "mode": st.sampled_from(["kill", "kill", "kill", "full", "once", "git-fails", "git-kill", "git-after"]),
    "at": st.integers(0, 10 ** 6),
})
MODES = {"kill": 1, "full": 2, "once": 3}


def shim():
    """Builds the library; returns its path."""
    src = os.path.join(build.VERIF, "harness", "fault", "shim.c")
    out = os.path.join(build.TARGET, "fault-shim.so")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = out + ".%d" % os.getpid()
        subprocess.run(["cc", "-shared", "-fPIC", "-O1", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, out)
    return out


class Fault:
    def __init__(self, ctx):
        self.dir = ctx.arena.new_dir("fault")
        self.control = os.path.join(self.dir, "control")
        self.wrap = os.path.join(self.dir, "bin")
        os.makedirs(self.wrap)
        self.lib = shim()
        self.set(0, 0)
        # Counts and disturbs the Git processes started by git-branchless itself.
        with open(os.path.join(self.wrap, "git"), "w") as f:
            f.write("""#!/bin/sh
case "$(cat /proc/$PPID/comm)" in git-branchless) ;; *) exec /usr/bin/git "$@";; esac
echo x >> "$GBV_DIR/calls"
n=$(wc -l < "$GBV_DIR/calls")
[ "$n" = "$GBV_AT" ] || exec /usr/bin/git "$@"
echo "$GBV_MODE git $*" > "$GBV_DIR/acted"
case "$GBV_MODE" in
git-fails) exit 1;;
git-kill) kill -9 $PPID; exit 1;;
git-after) /usr/bin/git "$@"; c=$?; kill -9 $PPID; exit $c;;
esac
""")
        os.chmod(os.path.join(self.wrap, "git"), 0o755)

    def set(self, at, mode):
        with open(self.control, "wb") as f:
            f.write(struct.pack("qqqq", 0, at, mode, 0))

    def count(self):
        with open(self.control, "rb") as f:
            return struct.unpack("qqqq", f.read())

    def calls(self):
        try:
            with open(os.path.join(self.dir, "calls")) as f:
                return len(f.read().splitlines())
        except FileNotFoundError:
            return 0

    def env(self, r, mode=None, at=0):
        e = {"LD_PRELOAD": self.lib, "GBV_FAULT": self.control}
        if mode in (None, "git-fails", "git-kill", "git-after"):
            e.update({"PATH": self.wrap + ":" + r.env["PATH"], "GBV_DIR": self.dir, "GBV_MODE": mode or "", "GBV_AT": str(at)})
        return e

    def acted(self):
        try:
            with open(os.path.join(self.dir, "acted")) as f:
                return f.read().strip()
        except FileNotFoundError:
            return "" if not self.count()[3] else "call %d of git-branchless" % self.count()[1]


def prepare(case, w, r):
    """Brings the repository into the state before the command; returns it."""
    op = case["op"]
    drafts = [c for c in w.drafts]
    src = pick(drafts, case["src"])
    dst = pick(w.commits, case["dst"])
    if op in ("move-s", "move-x", "move-disk", "move-insert", "move-fixup"):
        if dst.name in w.descendants(src.name) or (op != "move-x" and src.parents == [dst.name]):
            dst = w.mains[-1] if src.parents != [w.mains[-1].name] else w.mains[0]
        flag = "-x" if op == "move-x" else "-s"
        more = {"move-disk": ["--on-disk"], "move-insert": ["--insert"], "move-fixup": ["--fixup"]}.get(op, [])
        if op == "move-fixup":
            flag = "-x"
            if dst.main:
                raise Skip("fixup into main")
        return ["git-branchless", "move", flag, src.oid, "-d", dst.oid] + more
    if op == "restack":
        r.git("checkout", "-q", "--detach", src.oid)
        r.put_file("restacked", "100644", b"r\n")
        r.git("add", "restacked")
        r.git("commit", "-q", "--amend", "--no-edit")
        return ["git-branchless", "restack"]
    if op in ("amend", "record", "record-insert"):
        if w.head[0] in [c.name for c in w.mains]:
            r.git("checkout", "-q", "--detach", src.oid)
        r.put_file("work", "100644", b"work in progress\n")
        r.git("add", "work")
        if op == "amend":
            return ["git-branchless", "amend"]
        return ["git-branchless", "record", "-m", "new commit"] + (["--insert"] if op == "record-insert" else [])
    if op == "reword":
        return ["git-branchless", "reword", "-m", src.name + " reworded", src.oid]
    if op in ("hide", "hide-D"):
        return ["git-branchless", "hide"] + (["--no-delete-branches"] if op == "hide" else ["-r"]) + [src.oid]
    if op == "undo":
        r.gb("move", "-s", src.oid, "-d", w.mains[0].oid)
        return ["git-branchless", "undo", "-y"]
    if op == "switch":
        return ["git-branchless", "switch", src.oid]
    if op in ("prev", "next"):
        return ["git-branchless", op] + (["--newest"] if op == "next" else [])
    if op == "sync":
        return ["git-branchless", "sync"]
    if op == "fix":
        return ["git-branchless", "test", "fix", "-x", "echo fixed >> a; git add -N a 2>/dev/null; true", "draft()"]
    if op == "commit":
        r.git("checkout", "-q", "--detach", src.oid)
        r.put_file("work", "100644", b"work in progress\n")
        r.git("add", "work")
        return ["git", "commit", "-q", "-m", "new commit"]
    if op == "rebase":
        r.git("checkout", "-q", "--detach", src.oid)
        return ["git", "rebase", "-q", dst.oid]
    raise AssertionError(op)


def word(c):
    return c.subject.split(" ")[0]


class State:
    """What counts, independent of commit ids."""

    def __init__(self, r):
        self.visible = {}
        for o in r.query("draft()"):
            c = r.commit(o)
            self.visible.setdefault(word(c), set()).add(c.tree)
        self.branches = {}
        for b, o in r.branches().items():
            c = r.commit(o)
            self.branches[b] = (word(c), c.tree) if c else None
        h = r.commit(r.head_oid())
        self.head = (word(h), h.tree)
        self.work = r.worktree()


def clean_up(r):
    """What a user does after a crash. Returns notes."""
    notes = []
    for d, ds, fs in os.walk(r.gitdir):
        for f in fs:
            if f.endswith(".lock"):
                os.unlink(os.path.join(d, f))
                notes.append("removed " + f)
    for d in ("rebase-merge", "rebase-apply"):
        if os.path.isdir(os.path.join(r.gitdir, d)):
            res = r.run("git", "rebase", "--abort")
            notes.append("rebase --abort -> %d" % res.code)
            if res.code != 0:
                shutil.rmtree(os.path.join(r.gitdir, d), ignore_errors=True)
                r.run("git", "reset", "-q", "--merge")
    for f in ("REBASE_HEAD", "CHERRY_PICK_HEAD", "AUTO_MERGE"):
        p = os.path.join(r.gitdir, f)
        if os.path.exists(p):
            os.unlink(p)
    return notes


def run(ctx, case):
    w = scenario.plan(case["scn"])
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    cmd = prepare(case, w, r)
    user = {"untracked.txt": ("100644", b"precious\n")}
    r.put_file("untracked.txt", "100644", b"precious\n")
    if case["dirty"] and case["op"] not in ("amend", "record", "record-insert", "commit", "rebase", "fix"):
        p = sorted(p for p, v in r.files(r.head_oid()).items() if v[0] == "100644" and "/" not in p)
        if p:
            user[p[0]] = ("100644", b"uncommitted\n")
            r.put_file(p[0], "100644", b"uncommitted\n")
    copy = ctx.arena.clone_repo(r)
    fault = Fault(ctx)
    full = copy.run(*cmd, env=fault.env(copy))
    total = fault.count()[0] if case["mode"] in MODES else fault.calls()
    for f in ("calls",):
        p = os.path.join(fault.dir, f)
        if os.path.exists(p):
            os.unlink(p)
    if full.code == 101 or full.code < 0:
        raise Violation("P23:crash", "%r" % full)
    if not total:
        raise Skip("no place for a fault")
    if os.path.isdir(os.path.join(copy.gitdir, "rebase-merge")):
        raise Skip("stops with a conflict")
    before, after = State(r), State(copy)
    at = 1 + case["at"] % total
    if case["mode"] in MODES:
        fault.set(at, MODES[case["mode"]])
    res = r.run(*cmd, env=fault.env(r, case["mode"], at))
    acted = fault.acted()
    what = "graph: %s; branches %s, HEAD %s\n%s; fault: %s at %d of %d (%s)\nwithout: %r\nwith: %r" % (
        "; ".join("%s %s <- %s" % (c.name, c.oid[:12], c.parents) for c in w.commits), w.branches, w.head, user.keys() - {"untracked.txt"}, case["mode"], at, total, acted, full, res)
    what += "\n%s" % clean_up(r)
    check(r, before, after, user, case, what)
    # The repository is usable.
    for c in (["git", "status"], ["git", "fsck", "--no-dangling", "--no-progress"], ["git-branchless", "smartlog"], ["git-branchless", "query", "draft()"]):
        x = r.run(*c)
        if x.code != 0:
            raise Violation("P23:unusable", "%s\n%r" % (what, x))
    labels = [case["op"], case["mode"], "exit:%d" % res.code]
    # Trying again works, too.
    again = cmd
    if case["op"] in ("move-s", "move-x", "move-disk", "reword", "hide", "hide-D", "restack", "sync", "switch"):
        x = r.run(*again)
        what += "\nagain: %r" % x
        if x.code == 101 or x.code < 0:
            raise Violation("P23:again", what)
        what += "\n%s" % clean_up(r)
        check(r, before, after, user, case, what, branches=False)
    x = r.gb("undo", "-y")
    if x.code == 101 or x.code < 0:
        raise Violation("P23:undo", "%s\n%r" % (what, x))
    return {"nontrivial": bool(acted), "labels": labels}


def check(r, before, after, user, case, what, branches=True):
    names = set(before.visible) & set(after.visible)
    now = State(r)
    for n in sorted(names):
        if not now.visible.get(n, set()) & (before.visible[n] | after.visible[n]):
            raise Violation("P23:lost", "%s is not visible any more%s\n%s" % (n, " with its contents" if n in now.visible else "", what))
    for b in set(before.branches) | set(after.branches) | set(now.branches) if branches else ():
        allowed = [before.branches.get(b), after.branches.get(b)]
        if now.branches.get(b) not in allowed:
            raise Violation("P23:branch", "%s is at %s, expected one of %s\n%s" % (b, now.branches.get(b), allowed, what))
    everything = {(n, t) for s in (before, after) for n, ts in s.visible.items() for t in ts} | {before.head, after.head} | set(before.branches.values())
    if now.head not in everything:
        raise Violation("P23:head", "HEAD is at %s\n%s" % (now.head, what))
    for p, v in user.items():
        # (undo goes back to the earlier working copy, on purpose.)
        if now.work.get(p) != v and after.work.get(p) == v:
            raise Violation("P23:work", "%s is %s\n%s" % (p, now.work.get(p), what))
    if case["op"] in ("amend", "record", "record-insert", "commit"):
        if now.work.get("work") != ("100644", b"work in progress\n") and not any("work" in r.files(o) for o in r.query("draft() + @")):
            raise Violation("P23:work", "the recorded file is gone\n" + what)


PARTS = [Part("faults", CASE, run, 600, 40000)]
