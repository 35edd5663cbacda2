"""Generated repositories.

A scenario is plain JSON; `build` turns it into a repository plus a symbolic
description (`World`) used by the oracles.
"""
import os

from hypothesis import strategies as st

from . import model
from .gitrepo import HarnessError

MESSAGES = [
    "plain", "two\n\nparagraphs here\n", "unicode é中文", "trailing spaces   ", "# hash line\n\n# another",
    "quote \" and ' and \\ back", "fixup! plain", "tab\tinside", "a\n\nb\n\n\nc\n",
]


BRANCHES = ["br0", "feature/master", "origin/br2", "heads/é3", "not-master", "br5"]


def edit_strategy(paths=len(model.PATHS), kinds=model.EDIT_KINDS, small_values=True):
    return st.tuples(
        st.sampled_from(list(kinds)),
        st.one_of(st.integers(0, min(paths, 4) - 1), st.integers(0, paths - 1)),
        st.integers(0, model.SLOTS - 1),
        st.sampled_from([0, 0, 0, 1, 2]) if small_values else st.just(0),
    ).map(list)


def edits_strategy(max_edits=3, **kw):
    """Mostly line edits spread over all files (which rarely conflict), and
    some of everything."""
    gentle = st.tuples(st.just("own"), st.integers(0, 3), st.integers(0, 3), st.just(0)).map(list)
    return st.one_of(
        st.lists(gentle, min_size=1, max_size=max_edits),
        st.lists(gentle, min_size=1, max_size=max_edits),
        st.lists(edit_strategy(**kw), min_size=1, max_size=max_edits))


# How the parent of a draft commit is chosen: 0 = the previous commit.
SEL = st.integers(0, 40)


def scenario_strategy(max_main=3, max_commits=7, min_commits=1, edits=None, branches=4, merges=False, ghosts=False, dups=6, inverses=0):
    edits = edits if edits is not None else edits_strategy()
    commit = st.fixed_dictionaries({
        "p": st.one_of(st.just(0), st.just(0), SEL),
        "e": edits,
        "m": st.integers(0, len(MESSAGES) - 1),
        "merge": (st.one_of(st.none(), st.none(), st.none(), SEL) if merges else st.none()),
        # Repeats the change of another commit.
        "dup": (st.one_of(*([st.none()] * dups), SEL) if dups else st.none()),
        # Takes back the change of another commit.
        "inv": (st.one_of(*([st.none()] * inverses), st.just(0), SEL) if inverses else st.none()),
    })
    return st.fixed_dictionaries({
        "main": st.lists(edits, min_size=0, max_size=max_main),
        "commits": st.lists(commit, min_size=min_commits, max_size=max_commits),
        "branches": st.lists(SEL, max_size=branches),
        "head": st.tuples(SEL, st.integers(0, 2)).map(list),
        # A subtree that was hidden before.
        "ghost": st.one_of(st.none(), st.none(), SEL) if ghosts else st.none(),
    })


class C:
    """A symbolic commit."""

    def __init__(self, name, parents, tree, message, author, time, main):
        self.name, self.parents, self.tree = name, parents, tree
        self.message, self.author, self.time, self.main = message, author, time, main
        self.oid = None


class World:
    def __init__(self):
        self.commits = []        # in creation order, main first
        self.by_name = {}
        self.by_oid = {}
        self.branches = {}       # name -> commit name
        self.head = None         # (commit name, branch or None)
        self.hidden = set()
        self.ghosts = []         # hidden commits nothing else builds on

    def add(self, c):
        self.commits.append(c)
        self.by_name[c.name] = c

    @property
    def drafts(self):
        return [c for c in self.commits if not c.main]

    @property
    def mains(self):
        return [c for c in self.commits if c.main]

    def children(self, name):
        return [c.name for c in self.commits if name in c.parents]

    def descendants(self, name):
        res, todo = set(), [name]
        while todo:
            n = todo.pop()
            if n not in res:
                res.add(n)
                todo.extend(self.children(n))
        return res

    def ancestors(self, name):
        res, todo = set(), [name]
        while todo:
            n = todo.pop()
            if n not in res:
                res.add(n)
                todo.extend(self.by_name[n].parents)
        return res


def pick(seq, sel):
    """0 is the last element, 1 the one before, ..."""
    return seq[len(seq) - 1 - (sel % len(seq))]


def plan(scn):
    """The symbolic world of a scenario (no repository yet)."""
    w = World()
    t0 = 1600000000
    n = 0

    def author(i):
        return ["Gen Author <author@example.com>", "Al Ö <al@x.org>", "B. C. <b+c@example.com>"][i % 3].encode()

    base = C("m0", [], dict(model.BASE), "m0 base\n", author(0), t0, True)
    w.add(base)
    for i, edits in enumerate(scn["main"]):
        parent = w.commits[-1]
        n += 1
        tree = model.apply_edits(parent.tree, edits, "m%d" % (i + 1))
        if tree == parent.tree:
            tree = model.apply_edit(tree, ["slot", 0, 0, 0], "m%dz" % (i + 1))
        w.add(C("m%d" % (i + 1), [parent.name], tree, "m%d main\n" % (i + 1), author(i), t0 + 60 * n, True))
    for i, cm in enumerate(scn["commits"]):
        parent = pick(w.commits, cm["p"])
        n += 1
        name = "c%d" % i
        parents = [parent.name]
        tree = model.apply_edits(parent.tree, cm["e"], name)
        if cm.get("dup") is not None:
            other = pick(w.commits[1:] or w.commits, cm["dup"])
            if other.parents:
                try:
                    tree = model.merge3(w.by_name[other.parents[0]].tree, parent.tree, other.tree)
                except model.Conflict:
                    pass
        if cm.get("inv") is not None:
            other = pick(w.commits[1:] or w.commits, cm["inv"])
            if other.parents:
                try:
                    tree = model.merge3(other.tree, parent.tree, w.by_name[other.parents[0]].tree)
                except model.Conflict:
                    pass
        if tree == parent.tree:
            tree = model.apply_edit(tree, ["slot", i, i, 0], name + "z")
        if cm.get("merge") is not None:
            other = pick(w.commits, cm["merge"])
            if other.name not in w.ancestors(parent.name) and parent.name not in w.ancestors(other.name):
                parents.append(other.name)
        msg = name + " " + MESSAGES[cm["m"] % len(MESSAGES)]
        if cm["m"] % 2 == 0 and not msg.endswith("\n"):
            msg += "\n"
        w.add(C(name, parents, tree, msg, author(i + cm["m"]), t0 + 60 * n + (cm["m"] % 3) * 100, False))
    for i, sel in enumerate(scn["branches"]):
        c = pick(w.commits, sel)
        if not c.main:
            w.branches[BRANCHES[i % len(BRANCHES)]] = c.name
    main_tip = w.mains[-1].name
    w.branches["master"] = main_tip
    sel, attach = scn["head"]
    c = pick(w.commits, sel)
    br = sorted(b for b, n in w.branches.items() if n == c.name)
    w.head = (c.name, br[attach % len(br)] if (attach and br) else None)
    if scn.get("ghost") is not None:
        taken = set(w.branches.values()) | {w.head[0]}
        cand = [c.name for c in w.drafts if not w.descendants(c.name) & taken and len(w.descendants(c.name)) <= len(w.drafts) - 2]
        if cand:
            gone = w.descendants(pick(cand, scn["ghost"]))
            w.ghosts = [c for c in w.commits if c.name in gone]
            w.commits = [c for c in w.commits if c.name not in gone]
            w.by_name = {c.name: c for c in w.commits}
    return w


def build(arena, scn, world=None, register=True, checkout=True):
    w = world or plan(scn)
    r = arena.new_repo()
    oids = {}
    for c in w.commits + w.ghosts:
        tree = r.write_tree(model.render_tree(c.tree))
        c.oid = oids[c.name] = r.write_commit(tree, [oids[p] for p in c.parents], c.message, author=c.author, time=c.time)
        w.by_oid[c.oid] = c.name
    for b, n in w.branches.items():
        r.write_ref("refs/heads/" + b, w.by_name[n].oid)
    head_name, head_branch = w.head
    with open(os.path.join(r.gitdir, "HEAD"), "w") as f:
        f.write("ref: refs/heads/%s\n" % head_branch if head_branch else w.by_name[head_name].oid + "\n")
    if checkout:
        r.checkout_files(w.by_name[head_name].oid)
    if register and w.drafts:
        # Makes the commits known and visible, without any branch.
        res = r.gb("unhide", *[c.oid for c in w.drafts + w.ghosts])
        if res.code != 0:
            raise HarnessError("could not register commits: %r" % res)
        hidden = [c.oid for c in w.drafts if c.name in w.hidden] + [c.oid for c in w.ghosts]
        if hidden:
            r.gb("hide", "--no-delete-branches", *hidden, check=0)
    return r, w
