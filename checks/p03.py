"""P03: branches and HEAD follow rewritten commits and nothing else moves."""
from hypothesis import strategies as st

from checks import movecommon, p02
from engine import model, scenario
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P03"
LEVEL = "exploration"
RULE = ("Random forests with several branches per commit, tags, remote-tracking branches and attached/detached HEADs; a random rewriting command "
        "(move in memory or on disk, reword, restack after an amended commit) whose changes apply cleanly. Every reference is compared with the model. "
        "Non-trivial: a branch or HEAD was on a commit that got rewritten or dropped.")
ASSUMPTIONS = ["A detached HEAD may become attached to a branch that points to the same commit (autoSwitchBranches).",
               "The branch of a dropped commit is deleted; the main branch never is."]


def place_refs(case):
    def prepare(r, w):
        names = [c.name for c in w.commits]
        for i, (kind, sel) in enumerate(case["refs"]):
            oid = w.by_name[pick(names, sel)].oid
            r.write_ref({"tag": "refs/tags/t%d", "remote": "refs/remotes/origin/r%d", "other": "refs/custom/x%d"}[kind] % i, oid)
    return prepare


def check_refs(prop, r, w, before, expect, context, dropped=()):
    """expect: {name: oid} for rewritten or dropped commits (position after)."""
    target = lambda n: expect.get(n, w.by_name[n].oid)
    want = dict(before["refs"])
    for b, n in w.branches.items():
        ref = "refs/heads/" + b
        if n in dropped:
            del want[ref]
        else:
            want[ref] = target(n)
    have = r.user_refs()
    if have != want:
        diff = ["%s: %s, expected %s" % (k, have.get(k), want.get(k)) for k in sorted(set(have) | set(want)) if have.get(k) != want.get(k)]
        raise Violation(prop + ":refs", "%s\n%s" % ("; ".join(diff), context))
    name, branch = w.head
    kind, hb, hoid = r.head()
    if hoid != target(name):
        raise Violation(prop + ":head", "HEAD is at %s, expected %s (%s)\n%s" % (hoid, target(name), name, context))
    if branch is not None and name not in dropped:
        if hb != branch:
            raise Violation(prop + ":head-branch", "HEAD was on branch %s, now on %s\n%s" % (branch, hb, context))
    elif kind == "branch" and have.get("refs/heads/" + hb) != hoid:
        raise Violation(prop + ":head-branch", "HEAD is on %s which is elsewhere\n%s" % (hb, context))
    # The working copy follows.
    files = r.files(hoid)
    work = r.worktree()
    if files != work:
        paths = [p for p in set(files) | set(work) if files.get(p) != work.get(p)]
        raise Violation(prop + ":work", "the working copy does not match HEAD at %s\n%s" % (sorted(paths), context))
    index = {p: v for (p, s), v in r.index().items()}
    if index != r.flat(r.commit(hoid).tree):
        raise Violation(prop + ":index", "the index does not match HEAD\n%s" % context)


def interesting(w, names):
    return any(n in names for n in w.branches.values()) or w.head[0] in names


REFS = st.lists(st.tuples(st.sampled_from(["tag", "remote", "other"]), SEL).map(list), max_size=3)


def run_move(ctx, case):
    m = movecommon.MoveRun(ctx, case, need=("ok",), prepare=place_refs(case))
    m.require_success("P03")
    got = m.versions("P03")
    expect = {}
    for n in m.out.rewritten:
        p = m.out.pos[n]
        if p in m.out.rewritten and p not in got:
            raise Violation("P03:lost", "%s has no version\n%s" % (p, m.context()))
        expect[n] = got[p] if p in m.out.rewritten else m.w.by_name[p].oid
    check_refs("P03", m.r, m.w, m.before, expect, m.context(), m.out.dropped)
    return {"nontrivial": interesting(m.w, m.out.rewritten), "labels": m.labels + (["head-dropped"] if m.w.head[0] in m.out.dropped else [])}


def run_fixup(ctx, case):
    m = p02.FixupRun(ctx, case, prepare=place_refs(case))
    if m.conflict:
        raise Skip("conflict")
    m.require_success("P03")
    got = m.versions("P03")
    # The squashed commits live on in the destination, or go with it.
    for n in m.folded:
        m.out.rewritten.add(n)
        m.out.pos[n] = m.out.pos[m.dst]
        if m.dst in m.out.dropped:
            m.out.dropped.add(n)
    expect = {n: got[m.out.pos[n]] if m.out.pos[n] in m.out.rewritten else m.w.by_name[m.out.pos[n]].oid for n in m.out.rewritten}
    check_refs("P03", m.r, m.w, m.before, expect, m.context(), m.out.dropped)
    return {"nontrivial": interesting(m.w, m.out.rewritten), "labels": m.labels}


REWORD = st.fixed_dictionaries({
    "scn": scenario.scenario_strategy(max_commits=7, min_commits=2, merges=False, inverses=6),
    "refs": REFS,
    "targets": st.lists(SEL, min_size=1, max_size=3),
})


def run_reword(ctx, case):
    from engine import observe
    w = scenario.plan(case["scn"])
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    place_refs(case)(r, w)
    drafts = [c.name for c in w.drafts]
    targets = sorted({pick(drafts, s) for s in case["targets"]})
    before = observe.full_state(r)
    res = r.gb("reword", "-m", "new message", *[w.by_name[n].oid for n in targets])
    context = "graph: %s\nHEAD %s branches %s\nreword %s\n%r" % ("; ".join("%s <- %s" % (c.name, c.parents) for c in w.commits), w.head, w.branches, targets, res)
    if res.code != 0:
        raise Violation("P03:reword-failed", context)
    rewritten = set()
    for n in targets:
        rewritten |= w.descendants(n)
    # Follow the graph: commits are found again by their tree and parent.
    new = {}
    vis = r.visible()
    for c in w.commits:
        if c.name not in rewritten:
            new[c.name] = c.oid
            continue
        tree = r.commit(c.oid).tree
        cand = [o for o in vis if r.commit(o).parents == [new[c.parents[0]]] and r.commit(o).tree == tree and r.commit(o).author == r.commit(c.oid).author]
        cand = [o for o in cand if (r.commit(o).message.split(b"\n")[0] == b"new message") if c.name in targets or r.commit(o).message == r.commit(c.oid).message] \
            if c.name in targets else [o for o in cand if r.commit(o).message == r.commit(c.oid).message]
        if len(cand) != 1:
            raise Violation("P03:reword-version", "%s has %d new versions\n%s" % (c.name, len(cand), context))
        new[c.name] = cand[0]
    check_refs("P03", r, w, before, {n: new[n] for n in rewritten}, context)
    return {"nontrivial": interesting(w, rewritten), "labels": ["reword", "rewritten:%d" % min(len(rewritten), 5)]}


MOVE = st.tuples(movecommon.case_strategy(dups=2), REFS).map(lambda t: dict(t[0], refs=t[1]))

FIXUP = st.tuples(p02.FIXUP, REFS).map(lambda t: dict(t[0], refs=t[1]))

PARTS = [
    Part("move", MOVE, run_move, 1500, 60000),
    Part("fixup", FIXUP, run_fixup, 600, 20000),
    Part("reword", REWORD, run_reword, 200, 10000),
]
