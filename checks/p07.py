"""P07: git undo returns to the state before the last operation."""
from hypothesis import strategies as st

from engine import observe, ops
from engine.runner import Part, Skip, Violation

ID = "P07"
LEVEL = "exploration"
RULE = ("Random sequences of Git commands (run through the documented wrapper) and git-branchless commands; after each operation that changed a "
        "branch, the checked-out commit or the visible set, `git undo` must restore all three, and a second undo must bring them back. "
        "Non-trivial: at least two operations were undone and redone in the sequence.")
ASSUMPTIONS = ["The attachment of HEAD to a branch is not part of the compared state.", "The working copy is clean when undo runs.",
               "`git branch -m` is not generated: Git reports only the deletion of the old name to the reference-transaction hook."]

OPS = [k for k in ops.GIT_OPS + ops.GB_OPS if k != "branch-m"]      # Git does not report the new name to the hook
SEQ = st.fixed_dictionaries({"start": st.sampled_from([1, 0, 1, 2]), "ops": st.lists(ops.op_strategy(OPS), min_size=1, max_size=8)})


def state(r):
    q = r.gb("query", "-r", "draft()")
    return {"branches": r.branches(), "head": r.head_oid(), "visible": sorted(q.out.split()) if q.code == 0 else "query fails"}


def run(ctx, case, redo_attached=False):
    r, p = ops.start(ctx.arena, drafts=case["start"])
    checked, labels = 0, []
    before = state(r)
    for op in case["ops"]:
        attached = r.head()[1] is not None
        if r.git("status", "--porcelain").out:       # an undo brings uncommitted changes back
            r.run("git", "-c", "core.hooksPath=/nonexistent", "reset", "-q", "--hard")
            r.git("clean", "-fdq")
        res = p.apply(op)
        if res is None:
            continue
        after = state(r)
        if res.code != 0:
            if after != before:
                break
            continue
        if after == before:
            before = after
            continue
        u1 = r.gb("undo", "-y")
        s1 = state(r)
        trace = "\n".join(p.trace)
        if u1.code != 0:
            raise Violation("P07:undo-failed:" + op[0], "undo of the last of:\n%s\nfailed\n%r" % (trace, u1))
        if s1 != before:
            raise Violation("P07:undo:" + op[0], "undo of the last of:\n%s\ndid not restore: %s\n%r" % (trace, observe.diff_state(before, s1), u1))
        if attached and not redo_attached:
            # Undoing an undo that restored a checked-out branch is a known
            # finding; the operation is left undone here.
            checked += 1
            labels.append("undone:" + op[0])
            p.observe()
            continue
        u2 = r.gb("undo", "-y")
        s2 = state(r)
        if s2 != after:
            raise Violation("P07:redo%s:%s" % ("-attached" if attached else "", op[0]), "undoing the undo of the last of:\n%s\ndid not bring back: %s\n%r" % (trace, observe.diff_state(after, s2), u2))
        checked += 1
        labels.append("op:" + op[0])
        before = after
    return {"nontrivial": checked >= 2, "labels": ["start:%d" % case["start"]] + labels + ["checked:%d" % min(checked, 6)]}


def run_attached(ctx, case):
    return run(ctx, case, redo_attached=True)


PARTS = [Part("sequence", SEQ, run, 360, 20000),
         Part("attached", st.just({"start": 0, "ops": [["prev", 0, 0]]}), run_attached, 1, 1)]
