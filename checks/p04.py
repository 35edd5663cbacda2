"""P04: a rewrite that conflicts or is refused leaves the repository untouched."""
import os

from checks import movecommon
from engine import observe, scenario
from engine.runner import Part, Skip, Violation

ID = "P04"
LEVEL = "exploration"
RULE = ("Random forests with overlapping edits (same line, modify/delete, add/add, file/directory) and random in-memory rewrite requests; the model "
        "decides whether the changes conflict. Conflicting requests must fail and leave all references, HEAD, index, working copy and the visible "
        "set as they were; the others must not be reported as conflicts. Non-trivial: the request conflicts (at any depth) or is refused.")
ASSUMPTIONS = ["Conflicts are generated at the granularity of the slot model; no renames."]


def run_move(ctx, case):
    m = movecommon.MoveRun(ctx, case, need=("ok", "conflict", "refused"))
    r = m.r
    if m.kind == "ok":
        m.require_success("P04")
        return {"nontrivial": False, "labels": m.labels}
    if m.res.code == 0:
        raise Violation("P04:accepted", "the request must fail (%s) but succeeded\n%s" % (m.conflict or m.refused, m.context()))
    untouched("P04", m)
    return {"nontrivial": True, "labels": m.labels + ([] if m.refused else ["conflicts:%d" % len(m.conflict.paths)])}


def untouched(prop, m):
    after = observe.full_state(m.r)
    if after != m.before:
        raise Violation(prop + ":changed", "%s\n%s" % (observe.diff_state(m.before, after), m.context()))
    if m.r.visible() != m.visible_before:
        raise Violation(prop + ":visible", "the set of visible commits changed\n%s" % m.context())
    for d in ("rebase-merge", "rebase-apply", "CHERRY_PICK_HEAD", "MERGE_HEAD"):
        if os.path.exists(os.path.join(m.r.gitdir, d)):
            raise Violation(prop + ":in-progress", "%s exists\n%s" % (d, m.context()))


PARTS = [Part("move", movecommon.case_strategy(disk=False), run_move, 4000, 60000)]
