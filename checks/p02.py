"""P02: `git move` produces exactly the requested commit graph."""
import itertools

from hypothesis import strategies as st

from checks import movecommon
from engine import model, moves, observe, scenario
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P02"
LEVEL = "exploration"
RULE = ("Random commit forests (forks, stacks, several roots) and random -s/-b/-x, --insert and --fixup requests, in memory and on disk; the expected "
        "parent of every commit is computed by an independent model. Non-trivial: the request is accepted and at least one commit changes its parent "
        "(or is folded), or the request is one that has to be refused.")
ASSUMPTIONS = ["`-s` sources are never ancestors of one another (their combination has no documented meaning).",
               "No merge commits; conflicts are the subject of P04."]


def check_graph(m, out, prop="P02", folded=()):
    r, w = m.r, m.w
    got = m.versions(prop)
    oid = lambda n: got.get(n) if n in out.rewritten else w.by_name[n].oid
    want = {c.name for c in w.drafts if c.name not in out.dropped and c.name not in folded}
    if set(got) != want:
        raise Violation(prop + ":set", "visible commits are %s, expected %s\n%s" % (sorted(got), sorted(want), m.context()))
    for n in sorted(want):
        c = w.by_name[n]
        if n not in out.rewritten:
            if got[n] != c.oid:
                raise Violation(prop + ":identity", "%s was not concerned but was rewritten\n%s" % (n, m.context()))
            continue
        have = r.commit(got[n]).parents
        need = [oid(out.parent[n])]
        if have != need:
            names = [k for k in got if got[k] in have] or [w.by_oid.get(h, h) for h in have]
            raise Violation(prop + ":parent", "%s has parent %s, expected %s\n%s" % (n, names, out.parent[n], m.context()))
    vis = set(got.values())
    for n in out.rewritten | set(folded):
        old = w.by_name[n].oid
        if old in vis and not (n in want and got[n] == old):
            raise Violation(prop + ":old-visible", "the old version of %s is still visible\n%s" % (n, m.context()))


def run_move(ctx, case):
    m = movecommon.MoveRun(ctx, case, need=("ok", "refused"))
    if m.kind == "refused":
        if m.res.code == 0:
            raise Violation("P02:accepted", "the request cannot be satisfied (%s) but succeeded\n%s" % (m.refused, m.context()))
        if m.r.visible() != m.visible_before or observe.full_state(m.r) != m.before:
            raise Violation("P02:refused-changed", "refused (%s) but something changed\n%s" % (m.refused, m.context()))
        return {"nontrivial": True, "labels": m.labels + ["refused:" + m.refused]}
    m.require_success("P02")
    check_graph(m, m.out)
    changed = [n for n in m.out.rewritten if m.w.by_name[n].parents != [m.out.parent.get(n)]]
    return {"nontrivial": bool(changed), "labels": m.labels}


# -- fixups ----------------------------------------------------------------

FIXUP = st.fixed_dictionaries({
    "scn": scenario.scenario_strategy(max_commits=7, min_commits=3, dups=False, inverses=4, ghosts=True),
    "src": st.lists(SEL, min_size=1, max_size=3), "dst": SEL, "disk": st.just(False), "mode": st.sampled_from(["x", "x", "s"]),
})


def orders(w, names):
    """The orders of `names` in which no commit precedes its ancestors."""
    for seq in itertools.permutations(names):
        if not any(seq[i] in w.descendants(seq[j]) and i < j for j in range(len(seq)) for i in range(j)):
            yield seq


class FixupRun(movecommon.MoveRun):
    def __init__(self, ctx, case, prepare=None):
        self.w = w = scenario.plan(case["scn"])
        names = [c.name for c in w.drafts]
        src = []
        for s in case["src"]:
            n = pick(names, s)
            if n not in src:
                src.append(n)
        src = src[:len(names) - 1]
        mode = case["mode"]
        if mode == "s":
            src = src[:1]
        self.folded = set(src) if mode == "x" else set(w.descendants(src[0]))
        rest = [n for n in names if n not in self.folded]
        if not rest or len(self.folded) > 4:
            raise Skip("nothing to fold into, or too much to fold")
        dst = pick(rest, case["dst"])
        self.rq = moves.Request.__new__(moves.Request)
        self.rq.mode, self.rq.src, self.rq.dst = mode, src, dst
        self.rq.insert, self.rq.fixup, self.rq.disk = False, True, case["disk"]
        self.dst = dst
        np = {c.name: (c.parents[0] if c.parents else None) for c in w.commits}
        explicit = {dst}
        for n in rest:
            while np[n] in self.folded:
                np[n] = w.by_name[np[n]].parents[0]
                explicit.add(n)
        out = moves.Outcome()
        order, done = [], set()

        def visit(n):
            if n not in done:
                if np[n] is not None:
                    visit(np[n])
                done.add(n)
                order.append(n)
        for n in np:
            visit(n)
        self.conflict = None
        try:
            for n in order:
                c = w.by_name[n]
                if n in self.folded or not (n in explicit or np[n] in out.rewritten):
                    out.tree[n], out.parent[n], out.pos[n] = c.tree, np[n], n
                    continue
                p = out.pos[np[n]]
                out.rewritten.add(n)
                if n == dst:
                    # The changes combine in history order; where that leaves
                    # a choice, it must not matter.
                    alt = []
                    for seq in orders(w, sorted(self.folded | {dst})):
                        try:
                            t = self.combine(out.tree[p], seq)
                        except model.Conflict:
                            t = None
                        if t not in alt:
                            alt.append(t)
                    if len(alt) > 1:
                        raise Skip("order of combination matters")
                    if alt[0] is None:
                        raise model.Conflict(["?"])
                    t = alt[0]
                else:
                    t = self.combine(out.tree[p], [n])
                if t == out.tree[p]:
                    out.dropped.add(n)
                    out.pos[n] = p
                else:
                    out.tree[n], out.parent[n], out.pos[n] = t, p, n
        except model.Conflict as e:
            self.conflict = e
        self.out = out
        if self.conflict and self.rq.disk:
            raise Skip("on-disk conflict")
        keys = [model.patch_key(w.by_name[c.parents[0]].tree, c.tree) for c in w.commits if c.parents]
        if len(set(keys)) != len(keys):
            raise Skip("repeated patches")
        self.r, _ = scenario.build(ctx.arena, case["scn"], w)
        if prepare:
            prepare(self.r, w)
        self.before = observe.full_state(self.r)
        self.visible_before = self.r.visible()
        self.res = self.r.gb(*self.rq.args(w))
        rel = "below" if all(dst in w.descendants(n) for n in src) else "above" if all(n in w.descendants(dst) for n in src) else "aside"
        if dst in out.dropped:
            rel += "-cancels"
        self.labels = ["fixup:" + rel, "folds:%d" % len(self.folded)] + (["hidden"] if w.ghosts else []) + ["subtree"] * (mode == "s") + ["fixup-conflict" if self.conflict else "fixup-ok"] + (["on-disk"] if case["disk"] else [])


    def combine(self, tree, names):
        for n in names:
            c = self.w.by_name[n]
            tree = model.merge3(self.w.by_name[c.parents[0]].tree, tree, c.tree)
        return tree


def run_fixup(ctx, case):
    m = FixupRun(ctx, case)
    if m.conflict:
        if m.res.code == 0 or observe.full_state(m.r) != m.before or m.r.visible() != m.visible_before:
            raise Violation("P02:fixup-conflict", "the fixup conflicts but was not refused untouched\n" + m.context())
        return {"nontrivial": False, "labels": m.labels}
    m.require_success("P02")
    check_graph(m, m.out, folded=m.folded)
    got = m.versions("P02")
    for n in sorted(m.out.rewritten - m.out.dropped):
        want, have = model.render_tree(m.out.tree[n]), m.r.files(got[n])
        if want != have:
            paths = sorted(p for p in set(have) | set(want) if have.get(p) != want.get(p))
            raise Violation("P02:fixup-contents", "%s has the wrong contents at %s\n%s" % (n, paths, m.context()))
        old, new = m.r.commit(m.w.by_name[n].oid), m.r.commit(got[n])
        if old.message != new.message or old.author != new.author:
            raise Violation("P02:fixup-metadata", "%s: message or author changed\n%s" % (n, m.context()))
    return {"nontrivial": True, "labels": m.labels}


PARTS = [
    Part("move", movecommon.case_strategy(), run_move, 1900, 60000),
    Part("fixup", FIXUP, run_fixup, 800, 30000),
]
