"""Generated states of index and working copy, on top of a commit."""
from hypothesis import strategies as st

from .scenario import SEL, pick

NAMES = ["new", "d/new", "sp ace", "d/é", 'q"uote', "a/q", "d", "n/e/w", "b", "-dash", "tab\tname"]
KINDS = ["mod", "mod", "mod", "del", "new", "new", "x", "ln", "mv", "empty", "cp"]


def op_strategy(kinds=KINDS):
    return st.tuples(st.sampled_from(list(kinds)), SEL, st.integers(0, len(NAMES) - 1)).map(list)


def strategy(staged=3, unstaged=3, untracked=2, kinds=KINDS):
    ops = lambda n: st.one_of(st.just([]), st.lists(op_strategy(kinds), min_size=1, max_size=n)) if n else st.just([])
    return st.fixed_dictionaries({"staged": ops(staged), "unstaged": ops(unstaged), "untracked": st.lists(st.integers(0, len(NAMES) - 1), max_size=untracked)})


def place(files, path, value):
    t = {p: v for p, v in files.items() if not p.startswith(path + "/") and not path.startswith(p + "/")}
    t[path] = value
    return t


def apply_op(files, op, uid):
    kind, sel, name = op
    paths = sorted(files)
    tag = ("%s change\n" % uid).encode()
    if kind == "new" or not paths:
        return place(files, NAMES[name], ("100644", tag + b"new\n" * (name % 3)))
    p = pick(paths, sel)
    mode, data = files[p]
    t = dict(files)
    if kind == "mod":
        if mode == "120000":
            t[p] = (mode, b"to-" + uid.encode())
        else:
            t[p] = (mode, [data + tag, tag + data, tag, data.rstrip(b"\n") + b" " + tag.rstrip(b"\n")][name % 4])
    elif kind == "del":
        del t[p]
    elif kind == "x":
        t[p] = ("100644" if mode == "100755" else "100755", data) if mode != "120000" else ("100755", data)
    elif kind == "ln":
        t[p] = ("120000", [b"b", b"missing", b"d", b"../outside-" + uid.encode()][name % 4]) if mode != "120000" else ("100644", tag)
    elif kind in ("mv", "cp"):
        if kind == "mv":
            del t[p]
        return place(t, NAMES[name], (mode, data))
    elif kind == "empty":
        t[p] = ("100644", b"")
    return t


class State:
    """head/index/work: {path: (mode, bytes)}; work holds tracked files only."""

    def __init__(self, head, case):
        self.head = dict(head)
        self.index = dict(head)
        for i, op in enumerate(case["staged"]):
            self.index = apply_op(self.index, op, "staged%d" % i)
        full = dict(self.index)
        for i, op in enumerate(case["unstaged"]):
            full = apply_op(full, op, "unstaged%d" % i)
        for i, n in enumerate(case["untracked"]):
            full = place(full, NAMES[n], ("100644", b"untracked %d\n" % i)) if NAMES[n] not in self.index else full
        self.work = {p: v for p, v in full.items() if p in self.index}
        # Untracked files, as long as they do not stand where the commit or
        # the index has something.
        tracked = set(self.index) | set(self.head)
        self.untracked = {p: v for p, v in full.items() if p not in tracked and not any(
            q.startswith(p + "/") or p.startswith(q + "/") for q in tracked)}

    @property
    def has_staged(self):
        return self.index != self.head

    @property
    def has_unstaged(self):
        return self.work != self.index

    @property
    def files(self):
        return dict(self.work, **self.untracked)

    def index_entries(self, r):
        return {(p, 0): (m, r.write_object(b"blob", d)) for p, (m, d) in self.index.items()}

    def install(self, r):
        """HEAD is checked out and clean."""
        lines = []
        for p in self.head:
            if p not in self.index:
                lines.append("0 %s\t%s" % ("0" * 40, p))
        for p, v in self.index.items():
            if self.head.get(p) != v:
                lines.append("%s %s\t%s" % (v[0], r.write_object(b"blob", v[1]), p))
        if lines:
            # Removals first, so that files can take the place of directories.
            r.git("update-index", "-z", "--index-info", input="".join(l + "\0" for l in lines))
        have = r.worktree()
        want = self.files
        for p in have:
            if p not in want:
                r.remove_file(p)
        for p, v in want.items():
            if have.get(p) != v:
                r.put_file(p, *v)

    def kinds(self):
        res = []
        if self.has_staged:
            res.append("staged")
        if self.has_unstaged:
            res.append("unstaged")
        if self.untracked:
            res.append("untracked")
        if any(v[0] == "120000" for p, v in self.work.items() if v != self.head.get(p)):
            res.append("symlink")
        if any(p in self.head and self.head[p][0] != v[0] for p, v in self.work.items()):
            res.append("mode")
        return res or ["clean"]


def diff(want, have):
    return ["%r: %s, expected %s" % (p, short(have.get(p)), short(want.get(p))) for p in sorted(set(want) | set(have)) if want.get(p) != have.get(p)]


def short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:60] + "..." + s[-50:]
