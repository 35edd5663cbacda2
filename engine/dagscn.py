"""Random commit graphs (merges, several roots, hidden commits) without
interesting contents, and set operations on them."""
import os

from hypothesis import strategies as st

from .gitrepo import HarnessError
from .scenario import SEL, pick

MESSAGES = ["add parser", "fix parser", "fix crash in lexer", "docs", "add lexer docs", "Revert \"docs\"", "wip [1]", "refactor*", "fix crash\n\nIn the parser."]
AUTHORS = [("Alice Doe", "alice@example.com"), ("Bob Roe", "bob@example.org"), ("Ann Doe", "ann@example.com")]
FILES = ["a.txt", "src/b.rs", "src/deep/c.rs", "docs/d.md"]
DAY = 86400
T0 = 1600000000 - 1600000000 % DAY + DAY // 2       # noon


def graph_strategy(max_main=3, max_commits=8, min_commits=1, merges=True, roots=True, hidden=True, branches=4, main_merges=True):
    commit = st.fixed_dictionaries({
        "p": SEL, "q": SEL, "kind": st.integers(0, 9), "msg": SEL, "who": SEL, "day": SEL, "file": SEL, "hide": st.integers(0, 4)})
    return st.fixed_dictionaries({
        "main": st.integers(1, max_main),
        "commits": st.lists(commit, min_size=min_commits, max_size=max_commits),
        "branches": st.lists(SEL, max_size=branches),
        "head": SEL, "attach": st.booleans(),
        "opts": st.just([int(merges), int(roots), int(hidden), int(main_merges)])})


class N:
    __slots__ = ("name", "parents", "message", "author", "day", "files", "oid", "touched", "committer_day")


class Graph:
    """Nodes in creation order; `parents` are indices."""

    def __init__(self, g):
        merges, roots, hidden, main_merges = g["opts"]
        self.nodes, self.hidden, self.branches = [], set(), {}
        n_main = g["main"]
        for i in range(n_main):
            self._add([i - 1] if i else [], {"msg": i, "who": i, "day": i, "file": i})
        self.main = n_main - 1
        for c in g["commits"]:
            ps = [pick(list(range(len(self.nodes))), c["p"])]
            # Prefer recent parents, so that stacks appear.
            if c["kind"] >= 6 and len(self.nodes) > n_main:
                ps = [len(self.nodes) - 1]
            if merges and c["kind"] == 1:
                q = pick(list(range(len(self.nodes))), c["q"])
                if q not in ps:
                    ps.append(q)
            if roots and c["kind"] == 2 and c["q"] % 3 == 0:
                ps = []
            i = self._add(ps, c)
            if hidden and c["hide"] == 4:
                self.hidden.add(i)
        if main_merges and merges and g["attach"] and g["head"] % 4 == 3 and len(self.nodes) > n_main:
            # The main branch merged some draft.
            q = n_main + g["head"] % (len(self.nodes) - n_main)
            self.main = self._add([self.main, q], {"msg": 1, "who": 0, "day": 20, "file": 0})
        self.branches = {"master": self.main}
        for i, s in enumerate(g["branches"]):
            self.branches["br%d" % i if i % 2 else "feature/%d" % i] = pick(list(range(len(self.nodes))), s)
        self.head = pick(list(range(len(self.nodes))), g["head"])
        on = sorted(b for b, n in self.branches.items() if n == self.head)
        self.head_branch = on[0] if on and g["attach"] else None
        self.kids = {i: set() for i in range(len(self.nodes))}
        for i, n in enumerate(self.nodes):
            for p in n.parents:
                self.kids[p].add(i)

    def _add(self, parents, c):
        n = N()
        n.name = "c%d" % len(self.nodes)
        n.parents = parents
        n.message = "%s\n" % pick(MESSAGES, c["msg"])
        n.author = pick(AUTHORS, c["who"])
        n.day = 2 * (c["day"] % 10)
        n.committer_day = 2 * (c["day"] // 3 % 10)
        base = dict(self.nodes[parents[0]].files) if parents else {}
        f = pick(FILES, c["file"])
        base[f] = ("100644", b"%d\n" % len(self.nodes))
        n.files = base
        n.touched = set() if parents else set(base)
        for p in parents:
            other = self.nodes[p].files
            n.touched |= {f for f in set(base) | set(other) if base.get(f) != other.get(f)}
        n.oid = None
        self.nodes.append(n)
        return len(self.nodes) - 1

    # -- sets ------------------------------------------------------------
    def anc(self, s):
        out, todo = set(), list(s)
        while todo:
            i = todo.pop()
            if i not in out:
                out.add(i)
                todo.extend(self.nodes[i].parents)
        return out

    def desc(self, s):
        out, todo = set(), list(s)
        while todo:
            i = todo.pop()
            if i not in out:
                out.add(i)
                todo.extend(self.kids[i])
        return out

    def all(self):
        return set(range(len(self.nodes)))

    def visible(self, hidden=None):
        hidden = self.hidden if hidden is None else hidden
        return self.anc((self.all() - hidden) | {self.head} | set(self.branches.values()))

    def public(self):
        return self.anc({self.main})

    # -- building --------------------------------------------------------
    def build(self, arena, config=()):
        r = arena.new_repo()
        for i, n in enumerate(self.nodes):
            a = "%s <%s> %d +0000" % (n.author[0], n.author[1], T0 + n.day * DAY)
            c = "Com %s <com-%s> %d +0000" % (n.author[0], n.author[1], T0 + n.committer_day * DAY + 60 * i)
            lines = ["tree " + r.write_tree(n.files)] + ["parent " + self.nodes[p].oid for p in n.parents]
            n.oid = r.write_object(b"commit", "\n".join(lines + ["author " + a, "committer " + c, "", n.message]).encode())
        if len({n.oid for n in self.nodes}) != len(self.nodes):
            raise HarnessError("equal commits")
        for b, i in self.branches.items():
            r.write_ref("refs/heads/" + b, self.nodes[i].oid)
        with open(os.path.join(r.gitdir, "HEAD"), "w") as f:
            f.write("ref: refs/heads/%s\n" % self.head_branch if self.head_branch else self.nodes[self.head].oid + "\n")
        if config:
            with open(os.path.join(r.gitdir, "config"), "a") as f:
                for sec, key, value in config:
                    f.write("[%s]\n\t%s = \"%s\"\n" % (sec, key, value.replace("\\", "\\\\").replace('"', '\\"')))
        drafts = sorted(self.all() - self.public())
        if drafts:
            r.gb("unhide", *[self.nodes[i].oid for i in drafts], check=0)
        hid = sorted(self.hidden - self.public())
        self.hidden = set(hid)
        if hid:
            r.gb("hide", "--no-delete-branches", *[self.nodes[i].oid for i in hid], check=0)
        self.index = {n.oid: i for i, n in enumerate(self.nodes)}
        return r

    def describe(self):
        out = ["%s %s parents=%s%s %r" % (n.name, (n.oid or "?")[:10], [self.nodes[p].name for p in n.parents],
                                         " hidden" if i in self.hidden else "", n.message) for i, n in enumerate(self.nodes)]
        return "\n".join(out + ["branches=%s head=%s%s" % ({b: self.nodes[i].name for b, i in self.branches.items()}, self.nodes[self.head].name,
                                                          " (%s)" % self.head_branch if self.head_branch else "")])
