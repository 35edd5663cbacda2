"""Random operations of a user on one repository (for stateful checks).

An operation is a JSON list [kind, a, b]; it is resolved against the current
repository when it is applied, so that every sequence makes sense.
"""
import os

from hypothesis import strategies as st

from .scenario import SEL, pick

GIT_OPS = ("commit", "commit", "commit", "commit", "amend", "checkout", "checkout", "checkout-b", "branch", "branch-d", "branch-f",
           "branch-m", "branch-dd", "pack-refs", "reset", "cherry-pick", "rebase", "merge", "tag")
GB_OPS = ("move-s", "move-x", "hide", "hide-r", "unhide", "reword", "restack", "next", "prev", "gb-amend", "record", "sync", "gb-switch")


def op_strategy(kinds):
    return st.tuples(st.sampled_from(list(kinds)), SEL, SEL).map(list)


class Player:
    """Applies operations. `wrap` runs Git commands through `git branchless
    wrap`, as the documented alias does."""

    def __init__(self, r, wrap=True):
        self.r, self.wrap, self.n = r, wrap, 0
        self.known = []          # every commit ever seen, in order
        self.trace = []
        self.note(r.head_oid())

    def note(self, *oids):
        for o in oids:
            if o and o not in self.known:
                self.known.append(o)

    def observe(self):
        r = self.r
        self.note(r.head_oid(), *sorted(r.branches().values()))

    def git(self, *args, env=None):
        self.trace.append("git " + " ".join(args))
        if self.wrap:
            return self.r.gb("wrap", "--", *args, env=env)
        return self.r.run("git", *args, env=env)

    def gb(self, *args):
        self.trace.append("git-branchless " + " ".join(args))
        return self.r.gb(*args)

    def env(self):
        t = "%d +0000" % (1600001000 + 60 * self.n)
        return {"GIT_AUTHOR_DATE": t, "GIT_COMMITTER_DATE": t}

    def edit(self, a, b):
        """A change to a tracked file or a new file; staged."""
        r = self.r
        path = "n%d" % self.n if a % 3 else "f%d" % (b % 3)
        r.put_file(path, "100644", ("line %d\n" % self.n).encode())
        r.git("add", path)

    def visible(self):
        return sorted(self.r.visible(), key=lambda o: (self.known.index(o) if o in self.known else -1, o))

    def user_branches(self):
        return sorted(b for b in self.r.branches() if b != "master")

    def branch_name(self, a):
        """Sometimes a continuation of another name."""
        bs = self.user_branches()
        return pick(bs, a) + "x%d" % self.n if bs and a % 3 == 0 else "br%d" % self.n

    def apply(self, op):
        """Returns the result of the command, or None if it does not apply."""
        kind, a, b = op
        r = self.r
        self.n += 1
        res = self._apply(kind, a, b)
        self.observe()
        return res

    def _apply(self, kind, a, b):
        r, n, env = self.r, self.n, self.env()
        if kind == "commit":
            self.edit(a, b)
            return self.git("commit", "-q", "-m", "commit %d" % n, env=env)
        if kind == "amend":
            if not r.commit(r.head_oid()).parents:
                return None
            if b % 3:
                self.edit(a, b)
            return self.git("commit", "-q", "--amend", "-m", "amended %d" % n, env=env)
        if kind == "checkout":
            return self.git("checkout", "-q", "--detach", pick(self.known, a))
        if kind == "checkout-br":
            return self.git("checkout", "-q", pick(sorted(r.branches()), a))
        if kind == "checkout-b":
            return self.git("checkout", "-q", "-b", self.branch_name(a))
        if kind == "branch":
            return self.git("branch", self.branch_name(b), pick(self.known, a))
        if kind == "branch-dd":
            bs = [x for x in self.user_branches() if x != r.head()[1]]
            if len(bs) < 2:
                return None
            return self.git("branch", "-q", "-D", *bs[a % (len(bs) - 1):][:2])
        if kind == "pack-refs":
            return self.git("pack-refs", "--all")
        if kind in ("branch-d", "branch-f", "branch-m"):
            bs = self.user_branches()
            if not bs:
                return None
            name = pick(bs, a)
            head = r.head()[1]
            if kind == "branch-d":
                if head == name:
                    return None
                return self.git("branch", "-q", "-D", name)
            if kind == "branch-m":
                return self.git("branch", "-m", name, "mv%d" % n)
            if head == name:
                return None
            return self.git("branch", "-f", name, pick(self.known, b))
        if kind == "reset":
            return self.git("reset", "-q", "--hard", pick(self.known, a))
        if kind == "tag":
            return self.git("tag", "t%d" % n, pick(self.known, a))
        if kind == "cherry-pick":
            o = pick(self.known, a)
            if len(r.commit(o).parents) != 1:
                return None
            res = self.git("cherry-pick", o, env=env)
            if res.code != 0:
                self.git("cherry-pick", "--abort")
            return res
        if kind == "rebase":
            base = pick(self.known, a)
            res = self.git("rebase", "-q", base, env=env)
            if res.code != 0:
                self.git("rebase", "--abort")
            return res
        if kind == "merge":
            res = self.git("merge", "-q", "--no-ff", "-m", "merge %d" % n, pick(self.known, a), env=env)
            if res.code != 0:
                self.git("merge", "--abort")
            return res
        if kind in ("move-s", "move-x", "hide", "hide-r", "reword"):
            vis = self.visible()
            if not vis:
                return None
            o = pick(vis, a)
            if kind in ("move-s", "move-x"):
                return self.gb("move", "-" + kind[-1], o, "-d", pick(self.known, b))
            if kind == "reword":
                return self.gb("reword", "-m", "reworded %d" % n, o)
            args = ["hide"] + (["-r"] if kind == "hide-r" else []) + (["--no-delete-branches"] if b % 3 == 0 else [])
            return self.gb(*args, o)
        if kind == "unhide":
            return self.gb("unhide", *(["-r"] if b % 2 else []), pick(self.known, a))
        if kind == "restack":
            return self.gb("restack")
        if kind in ("next", "prev"):
            return self.gb(kind, *([["1"], ["2"], ["-a"]][a % 3]), *(["--newest"] if kind == "next" else []))
        if kind == "gb-switch":
            return self.gb("switch", pick(self.known, a))
        if kind == "gb-amend":
            self.edit(a, b)
            res = self.gb("amend")
            return res
        if kind == "record":
            self.edit(a, b)
            return self.gb("record", "-m", "recorded %d" % n, *([[], ["-c", "rec%d" % n], ["-I"]][a % 3]))
        if kind == "sync":
            return self.gb("sync")
        raise AssertionError(kind)


def start(arena, wrap=True, drafts=0):
    """A repository with a short main branch, checked out; with `drafts`, also
    some draft commits, and HEAD detached on one of them (1) or on a branch of
    theirs (2)."""
    r = arena.new_repo()
    mains = []
    for i in range(3):
        files = {"f%d" % j: ("100644", b"base %d\n" % (i if j == i else 0)) for j in range(3)}
        mains.append(r.write_commit(r.write_tree(files), mains[-1:], "m%d\n" % i, time=1600000000 + i))
    r.write_ref("refs/heads/master", mains[-1])
    known = mains[1:]
    if drafts:
        parents = {"a": mains[1], "d": mains[2]}
        for i, (name, parent) in enumerate((("a", None), ("b", "a"), ("c", "b"), ("d", None), ("e", "a"))):
            base = parents[name] if parent is None else parents["=" + parent]
            files = {p: (m, r.blob(o)) for p, (m, o) in r.flat(r.commit(base).tree).items()}
            files["file-" + name] = ("100644", b"draft\n")
            parents["=" + name] = r.write_commit(r.write_tree(files), [base], "%s\n" % name, time=1600000100 + i)
        ds = [parents["=" + n] for n in "abcde"]
        r.gb("unhide", *ds, check=0)
        r.git("branch", "feat", ds[1])
        r.git("branch", "other", ds[4])
        head = ["", ds[1], "refs/heads/feat"][drafts]
        with open(os.path.join(r.gitdir, "HEAD"), "w") as f:
            f.write(head + "\n" if drafts == 1 else "ref: %s\n" % head)
        known = known + ds
    r.checkout_files("HEAD")
    p = Player(r, wrap)
    p.known = known
    return r, p
