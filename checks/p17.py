"""P17: amend and record take exactly the chosen changes."""
from hypothesis import strategies as st

from engine import observe, scenario, wc
from engine.runner import Part, Skip, Violation

ID = "P17"
LEVEL = "exploration"
RULE = ("Random forests with HEAD anywhere, and random index and working-copy states (as in P16, plus untracked files); `git amend` (also with --reparent) and "
        "`git record` (with -c, -d, -I, -s). The commit that takes the changes, what stays uncommitted, the commits above it (by path-wise merging, when the changes "
        "touch different paths), messages, authors, branches and HEAD are compared with a model. "
        "Non-trivial: there are staged and unstaged changes at once, or changes and commits above HEAD.")
ASSUMPTIONS = ["When the changes and a commit above HEAD touch the same path, only the amended commit itself and the uncommitted changes are checked.",
               "No file is removed from the index but kept in the working copy; no merge conflicts in the index.", "Interactive selection (`record -i`) is not driven."]


class Clash(Exception):
    pass


def merge_paths(base, ours, theirs):
    """Path-wise three-way merge of {path: value}."""
    out = {}
    for p in set(base) | set(ours) | set(theirs):
        b, o, t = base.get(p), ours.get(p), theirs.get(p)
        if o == t or t == b:
            v = o
        elif o == b:
            v = t
        else:
            raise Clash(p)
        if v is not None:
            out[p] = v
    for p in out:
        parts = p.split("/")
        if any("/".join(parts[:i]) in out for i in range(1, len(parts))):
            raise Clash(p)
    return out


SCN = scenario.scenario_strategy(max_commits=5, min_commits=1, branches=3, max_main=1, merges=False, inverses=5)
BASE = {"scn": SCN, "wc": wc.strategy()}
AMEND = st.fixed_dictionaries(dict(BASE, reparent=st.booleans()))
RECORD = st.fixed_dictionaries(dict(BASE, flags=st.sampled_from(["", "", "c", "d", "I", "I", "s", "cI", "dI", "sI"]), messages=st.sampled_from([["recorded"], ["recorded é", "second\nparagraph"]])))


class Run:
    def __init__(self, ctx, case):
        self.w = w = scenario.plan(case["scn"])
        self.r, _ = scenario.build(ctx.arena, case["scn"], w)
        r = self.r
        self.head0 = r.head()
        self.s = s = wc.State(r.files(self.head0[2]), case["wc"])
        s.install(r)
        self.before = observe.full_state(r)
        self.taken = s.index if s.has_staged else s.work
        self.status = r.git("status", "--short").out
        self.vis0 = r.visible()

    def command(self, *args):
        self.res = self.r.gb(*args)
        w = self.w
        self.what = "graph: %s\nHEAD %s branches %s\nstatus before:\n%s%r" % ("; ".join("%s <- %s" % (c.name, c.parents) for c in w.commits), w.head, w.branches, self.status, self.res)

    def unchanged(self, sig):
        after = observe.full_state(self.r)
        if after != self.before or self.r.visible() != self.vis0:
            raise Violation(sig, "nothing was to be done, but: %s\n%s" % (observe.diff_state(self.before, after), self.what))

    def leftovers(self, index):
        """Uncommitted state: all bytes still there, the index as given."""
        r, s = self.r, self.s
        work = r.worktree()
        if work != s.files:
            raise Violation(self.prop + ":work", "the working copy changed: %s\n%s" % (wc.diff(s.files, work), self.what))
        got = {p: (m, r.blob(o)) for (p, st_), (m, o) in r.index().items()}
        if got != index:
            raise Violation(self.prop + ":index", "the index is not what remains: %s\n%s" % (wc.diff(index, got), self.what))


def labels_of(s):
    return s.kinds()


def find(r, vis, parents, tree, c, message, sig, what):
    cand = [o for o in vis if r.commit(o).parents == parents and r.commit(o).author == r.commit(c.oid).author and r.commit(o).message == message]
    good = [o for o in cand if r.files(o) == tree]
    if len(good) != 1:
        raise Violation(sig, "%s has %d versions with the expected contents; at its place: %s\n%s" % (
            c.name, len(good), [(o, wc.diff(tree, r.files(o))) for o in cand], what))
    return good[0]


def check_above(m, prop, new_head, new_files, base_name, reparent, skip=()):
    """The commits above `base_name` must now stand on `new_head`."""
    r, w = m.r, m.w
    vis = r.visible() | {new_head}
    new, files = {base_name: new_head}, {base_name: new_files}
    above = [c for c in w.commits if c.name in w.descendants(base_name) and c.name != base_name]
    try:
        for c in above:
            p = c.parents[0]
            files[c.name] = r.files(c.oid) if reparent else merge_paths(r.files(w.by_name[p].oid), files[p], r.files(c.oid))
    except Clash:
        return None
    if any(files[c.name] == files[c.parents[0]] for c in above):
        return None         # a commit that became empty is dropped
    for c in above:
        new[c.name] = find(r, vis, [new[c.parents[0]]], files[c.name], c, r.commit(c.oid).message, prop + ":above", m.what)
    return new


def check_refs(m, prop, new, head):
    """new: {name: oid}; head: (branch or None, oid)"""
    r, w = m.r, m.w
    want = dict(m.before["refs"])
    for b, n in w.branches.items():
        want["refs/heads/" + b] = new.get(n, w.by_name[n].oid)
    return want


def run_amend(ctx, case):
    m = Run(ctx, case)
    m.prop = "P17:amend"
    r, w, s = m.r, m.w, m.s
    name = w.head[0]
    c = w.by_name[name]
    m.command("amend", *(["--reparent"] if case["reparent"] else []))
    if c.main:
        if m.res.code == 0:
            raise Violation("P17:amend:public", "a public commit was amended\n" + m.what)
        m.unchanged("P17:amend:refused")
        return {"labels": ["amend:refused"]}
    if not s.has_staged and not s.has_unstaged:
        m.unchanged("P17:amend:nothing")
        return {"labels": ["amend:nothing"]}
    head = r.head()
    hc, old = r.commit(head[2]), r.commit(c.oid)
    got = r.files(head[2])
    if got != m.taken:
        raise Violation("P17:amend:contents", "the amended commit differs: %s\n%s" % (wc.diff(m.taken, got), m.what))
    if hc.message != old.message or hc.author != old.author or hc.parents != old.parents:
        raise Violation("P17:amend:commit", "message, author or parents of the amended commit changed: %s\n%s" % ((hc.message, hc.author, hc.parents), m.what))
    if head[:2] != m.head0[:2] and not (m.head0[1] is None and head[1] in r.branches()):
        raise Violation("P17:amend:head", "HEAD was %s, now %s\n%s" % (m.head0, head, m.what))
    m.leftovers(m.taken)
    new = check_above(m, "P17:amend", head[2], m.taken, name, case["reparent"])
    above = w.descendants(name) - {name}
    if new is not None:
        if m.res.code != 0:
            raise Violation("P17:amend:failed", m.what)
        refs = check_refs(m, "P17", new, None)
        have = r.user_refs()
        if have != refs:
            raise Violation("P17:amend:refs", "%s\n%s" % (wc.diff(refs, have), m.what))
    return {"nontrivial": (s.has_staged and s.has_unstaged) or bool(above),
            "labels": ["amend" + (":reparent" if case["reparent"] else ""), "above:%d" % min(len(above), 3), "above:checked" if new else "above:clash"] + labels_of(s)}


def run_record(ctx, case):
    m = Run(ctx, case)
    m.prop = "P17:record"
    r, w, s = m.r, m.w, m.s
    name = w.head[0]
    flags = case["flags"]
    args = [a for msg in case["messages"] for a in ("-m", msg)]
    for f in flags:
        args += ["-c", "created"] if f == "c" else ["-" + f]
    m.command("record", *args)
    if not s.has_staged and not s.has_unstaged:
        if "c" in flags:
            raise Skip("nothing to record")
        m.unchanged("P17:record:nothing")
        return {"labels": ["record:nothing"]}
    message = "\n\n".join(case["messages"]) + "\n"
    old_head = m.head0[2]
    fresh = [o for o in r.visible() | {r.head_oid()} | set(r.branches().values()) if o not in m.vis0 and r.commit(o).message.decode() == message and r.commit(o).parents == [old_head]]
    if len(fresh) != 1:
        raise Violation("P17:record:commit", "%d new commits on top of HEAD\n%s" % (len(fresh), m.what))
    oid = fresh[0]
    got = r.files(oid)
    if got != m.taken:
        raise Violation("P17:record:contents", "the new commit differs: %s\n%s" % (wc.diff(m.taken, got), m.what))
    labels = ["record:" + flags] + labels_of(s)
    # Where HEAD and the branches are.
    branch = m.head0[1]
    want_refs = dict(m.before["refs"])
    if "c" in flags:
        want_refs["refs/heads/created"] = oid
        want_head = ("branch", "created", oid)
    elif "d" in flags:
        want_head = ("detached", None, oid)
    elif "s" in flags:
        want_head = m.head0
    else:
        if branch:
            want_refs["refs/heads/" + branch] = oid
        want_head = (m.head0[0], branch, oid)
    above = [c for c in w.commits if name in c.parents]
    new = {}
    clash = False
    if "I" in flags and above:
        if any(c.main for c in above):
            clash = True
        else:
            new = check_above(m, "P17:record", oid, m.taken, name, False)
            if new is None:
                clash, new = True, {}
            else:
                new = {k: v for k, v in new.items() if k != name}
                for b, n in w.branches.items():
                    if n in new:
                        want_refs["refs/heads/" + b] = new[n]
    head = r.head()
    if "s" in flags and m.res.code != 0 and s.has_staged and s.has_unstaged and "would be overwritten" in m.res.err:
        # The remaining changes do not fit the previous commit.
        m.leftovers(m.taken)
        return {"nontrivial": True, "labels": labels + ["record:stash-refused"]}
    if not clash:
        have = r.user_refs()
        if have != want_refs:
            raise Violation("P17:record:refs", "%s\n%s" % (wc.diff(want_refs, have), m.what))
        if head != want_head and not (want_head[0] == "detached" and head[2] == want_head[2]):
            raise Violation("P17:record:head", "HEAD is %s, expected %s\n%s" % (head, want_head, m.what))
        if m.res.code != 0:
            raise Violation("P17:record:failed", m.what)
        if "s" in flags:
            # Only what was not recorded may remain.
            if not (s.has_staged and s.has_unstaged):
                work = r.worktree()
                want = dict(s.head, **s.untracked)
                if work != want:
                    raise Violation("P17:record:stash-work", "%s\n%s" % (wc.diff(want, work), m.what))
        else:
            m.leftovers(m.taken)
    return {"nontrivial": (s.has_staged and s.has_unstaged) or bool(above), "labels": labels + (["clash"] if clash else [])}


PARTS = [Part("amend", AMEND, run_amend, 1200, 40000), Part("record", RECORD, run_record, 1200, 40000)]
