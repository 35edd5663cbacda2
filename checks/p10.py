"""P10: every history made with plain Git is tracked faithfully."""
import os
import re

from hypothesis import strategies as st

from engine import ops
from engine.runner import Part, Violation
from engine.scenario import SEL, pick

ID = "P10"
LEVEL = "exploration"
RULE = ("Random sequences of plain Git commands (commit, amend, amending back to an earlier version, checkout, branch creation/deletion/renaming/moving, reset, cherry-pick, revert, "
        "rebase with conflicts that are aborted, skipped or resolved, interactive rebase with fixup, drop and reordering, merge, am, stash, commits in a linked worktree) with the hooks installed. "
        "Which commits were created and which replaced is known from the command and from the list Git hands to post-rewrite; after each command the visible commits must be exactly those "
        "created and not replaced, plus branches and HEAD, and their ancestors. Non-trivial: at least two commits were replaced or created by other means than commit, and one is abandoned or off HEAD.")
ASSUMPTIONS = ["A commit that a rebase drops or skips is not replaced by anything, so it stays visible.", "The main branch is not deleted or renamed."]

KINDS = ("commit",) * 6 + ("amend",) * 3 + ("back", "same", "checkout", "checkout", "checkout", "checkout-br", "checkout-b", "branch", "branch-d", "branch-f", "branch-m", "reset",
                           "cherry-pick", "revert", "rebase", "rebase", "rebase-i", "rebase-i", "merge", "am", "stash", "worktree")
CASE = st.fixed_dictionaries({"ops": st.lists(ops.op_strategy(KINDS), min_size=3, max_size=12), "start": st.sampled_from([1, 2, 3, 1, 2, 3, 0]), "wrap": st.sampled_from([0, 0, 1])})


class Tracker(ops.Player):
    def __init__(self, r, wrap):
        super().__init__(r, wrap)
        self.active, self.replaced = set(), {}
        self.fancy = 0
        self.cap = os.path.join(r.gitdir, "captured")
        hook = os.path.join(r.gitdir, "hooks", "post-rewrite")
        text = open(hook).read().split("\n", 1)
        with open(hook, "w") as f:
            f.write('%s\ncat > "%s.tmp"; sed "s/^/$1 /" "%s.tmp" >> "%s"; exec < "%s.tmp"\n%s' % (text[0], self.cap, self.cap, self.cap, self.cap, text[1]))

    def pairs(self, kind):
        """What Git reported to the post-rewrite hook since the last time."""
        if not os.path.exists(self.cap):
            return []
        with open(self.cap) as f:
            lines = [l.split()[:3] for l in f]
        os.unlink(self.cap)
        return [(l[1], l[2]) for l in lines if l[0] == kind]

    def rewrite(self, pairs):
        news = {n for _, n in pairs}
        for o, n in pairs:
            if o not in news:
                self.active.discard(o)
                self.replaced[o] = n
            if o != n:
                self.fancy += 1
        for n in news:
            self.active.add(n)
            self.replaced.pop(n, None)
        self.note(*news)

    def step(self, op):
        kind, a, b = op
        r, n = self.r, self.n
        self.n += 1
        self.pairs("none")
        before = r.head_oid()
        res = getattr(self, "do_" + kind.replace("-", "_"), lambda a, b: None)(a, b) if hasattr(self, "do_" + kind.replace("-", "_")) else self._apply(kind, a, b)
        after = r.head_oid()
        if kind in ("commit", "cherry-pick", "revert", "am", "merge") and after != before:
            if after not in self.active and after not in self.replaced and after not in self.start:
                self.active.add(after)
                self.fancy += kind != "commit"
        if kind in ("amend", "back", "same"):
            self.rewrite(self.pairs("amend"))
        elif kind in ("rebase", "rebase-i"):
            self.rewrite(self.pairs("rebase"))
        self.observe()
        return res

    def do_back(self, a, b):
        """Amends to an earlier version of HEAD, if there is one."""
        r = self.r
        head = r.head_oid()
        olds = [o for o, n in self.replaced.items() if n == head and r.commit(o).parents == r.commit(head).parents]
        if not olds or not r.commit(head).parents:
            return None
        o = pick(olds, a)
        c = r.commit(o)
        r.git("read-tree", "-u", "--reset", c.tree)
        date = c.committer.decode().rsplit("> ", 1)[1]
        msg = os.path.join(r.gitdir, "MSG")
        with open(msg, "wb") as f:
            f.write(c.message)
        return self.git("commit", "-q", "--amend", "-F", msg, "--date", c.author.decode().rsplit("> ", 1)[1], env={"GIT_COMMITTER_DATE": date})

    def do_same(self, a, b):
        r = self.r
        c = r.commit(r.head_oid())
        if not c.parents or r.head_oid() in self.start:
            return None
        return self.git("commit", "-q", "--amend", "--no-edit", env={"GIT_COMMITTER_DATE": c.committer.decode().rsplit("> ", 1)[1]})

    def do_revert(self, a, b):
        r = self.r
        if len(r.commit(r.head_oid()).parents) != 1:
            return None
        return self.git("revert", "--no-edit", r.head_oid(), env=self.env())

    def do_am(self, a, b):
        r = self.r
        o = pick(self.known, a)
        if len(r.commit(o).parents) != 1:
            return None
        patch = os.path.join(r.gitdir, "P")
        with open(patch, "w") as f:
            f.write(r.git("format-patch", "-1", o, "--stdout").out)
        res = self.git("am", "-q", patch, env=self.env())
        if res.code != 0:
            self.git("am", "--abort")
        return res

    def do_stash(self, a, b):
        r = self.r
        r.put_file("f0", "100644", b"stashed %d\n" % self.n)
        res = self.git("stash", "push", "-q", env=self.env())
        if a % 2:
            self.git("checkout", "-q", "--detach", pick(self.known, b))
        self.git("stash", "drop", "-q")
        return res

    def do_rebase(self, a, b):
        res = self.git("rebase", *(["--no-ff"] if b % 5 == 0 else []), pick(self.known, a), env=self.env())
        return self.finish(res, b)

    def finish(self, res, b):
        r = self.r
        for _ in range(12):
            if res.code == 0 or not os.path.isdir(os.path.join(r.gitdir, "rebase-merge")):
                return res
            how = b % 4
            if how == 0:
                return self.git("rebase", "--abort")
            if how == 1:
                res = self.git("rebase", "--skip", env=self.env())
            else:
                for (p, s) in list(r.index()):
                    if s:
                        r.put_file(p, "100644", b"resolved %d\n" % (self.n if how == 2 else 0))
                r.run("git", "add", "-A")
                res = self.git("rebase", "--continue", env=dict(self.env(), GIT_EDITOR="true"))
                if res.code != 0 and "--skip" in res.text:
                    res = self.git("rebase", "--skip", env=self.env())
        return self.git("rebase", "--abort")

    def do_rebase_i(self, a, b):
        r = self.r
        head = r.head_oid()
        depth = 2 + a % 2
        o = head
        for _ in range(depth):
            if len(r.commit(o).parents) != 1:
                return None
            o = r.commit(o).parents[0]
        script = ["sed -i '2s/^pick/fixup/'", "sed -i '1s/^pick/drop/'", "sed -i '1{h;d};2{G}'", "sed -i '2s/^pick/squash/'", "sed -i '1s/^pick/edit/;2s/^pick/fixup/'"][b % 5]
        onto = ["--onto", pick(self.known, a // 3)] if b % 7 == 3 else []
        res = self.git("rebase", "-i", *onto, o, env=dict(self.env(), GIT_SEQUENCE_EDITOR=script, GIT_EDITOR="true"))
        if res.code == 0 and os.path.isdir(os.path.join(r.gitdir, "rebase-merge")):
            # stopped for editing
            if a % 3 == 0:
                self.edit(a, b)
                self.git("commit", "-q", "--amend", "--no-edit", env=self.env())
            res = self.git("rebase", "--continue", env=dict(self.env(), GIT_EDITOR="true"))
        return self.finish(res, b // 5)

    def do_merge(self, a, b):
        o = pick(self.known, a)
        if o in self.replaced:
            return None
        res = self.git("merge", "-q", *(["--no-ff"] if b % 2 else []), "-m", "merge %d" % self.n, o, env=self.env())
        if res.code != 0:
            self.git("merge", "--abort")
        return res

    def do_worktree(self, a, b):
        """A commit made in a linked worktree, which is then removed."""
        r = self.r
        wt = os.path.join(r.gitdir, "wt%d" % self.n)
        self.git("worktree", "add", "-q", "--detach", wt, pick(self.known, a))
        with open(os.path.join(wt, "in-worktree"), "w") as f:
            f.write("%d\n" % self.n)
        r.run("git", "add", "-A", cwd=wt)
        self.trace.append("commit in worktree")
        res = r.run("git", "commit", "-q", "-m", "worktree %d" % self.n, cwd=wt, env=self.env())
        if res.code == 0:
            new = r.run("git", "rev-parse", "HEAD", cwd=wt).out.strip()
            self.active.add(new)
            self.note(new)
            self.fancy += 1
        r.run("git", "worktree", "remove", "--force", wt)
        return res


def run(ctx, case):
    r, p0 = ops.start(ctx.arena, drafts=max(0, case["start"] - 1))
    if case["start"] == 1:
        r.git("checkout", "-q", "--detach")
    t = Tracker(r, bool(case["wrap"]))
    t.known = list(p0.known)
    t.start = set(r.ancestors([r.branches()["master"]]))
    t.active = set(t.known) - t.start
    labels = set()
    for op in case["ops"]:
        n = len(t.trace)
        res = t.step(op)
        if res is None:
            continue
        labels.add(op[0])
        for wt in ("rebase-merge", "rebase-apply", "CHERRY_PICK_HEAD", "MERGE_HEAD"):
            if os.path.exists(os.path.join(r.gitdir, wt)):
                r.run("git", "rebase", "--abort")
                r.run("git", "reset", "-q", "--hard")
        main = r.ancestors([r.branches()["master"]])
        expect = r.ancestors(list(t.active) + [r.head_oid()] + list(r.branches().values())) - main
        have = r.visible()
        if have != expect:
            name = lambda s: ["%s (%s)" % (r.commit(o).subject, o[:8]) for o in sorted(s)]
            raise Violation("P10:visible", "after %s: %s\nvisible but should not be: %s; not visible: %s\nreplaced: %s\n%r" % (
                op, " ; ".join(t.trace), name(have - expect), name(expect - have), {k[:8]: v[:8] for k, v in t.replaced.items()}, res))
    # What was replaced is reported as such where it is still needed.
    out = r.gb("smartlog", check=0).out
    abandoned = 0
    for o in r.visible():
        for p in r.commit(o).parents:
            if p in t.replaced and p not in t.active and o in t.active:
                abandoned += 1
                new = p
                while new in t.replaced:
                    new = t.replaced[new]
                line = [l for l in out.splitlines() if p[:12] in l]
                if not any("(rewritten as %s)" % new[:8] in l for l in line):
                    raise Violation("P10:abandoned", "%s is on %s, which was replaced by %s, but the smartlog says %s\n%s\n%s" % (o[:8], p[:8], new[:8], line, " ; ".join(t.trace), out))
    away = [o for o in t.active if o not in r.ancestors([r.head_oid()])]
    return {"nontrivial": t.fancy >= 2 and bool(abandoned or away), "labels": sorted(labels) + (["abandoned"] if abandoned else []) + (["away"] if away else [])}


PARTS = [Part("git", CASE, run, 500, 25000)]
