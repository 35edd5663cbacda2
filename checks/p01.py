"""P01: moving commits preserves each commit's change and metadata."""
from checks import movecommon
from engine import model
from engine.runner import Part, Violation

ID = "P01"
LEVEL = "exploration"
RULE = ("Random commit forests with random edits (line edits, adds, deletes, mode flips, symlinks, file<->directory) and random `git move` requests "
        "whose model outcome is a clean rewrite; non-trivial: at least one commit really changes parent, so its contents are recomputed.")
ASSUMPTIONS = ["File contents are slot-structured so that line merging equals the model's slot merging; no renames are generated.",
               "Duplicate patches whose effect was later undone upstream, and patches differing in modes only, are set aside."]


def run(ctx, case):
    m = movecommon.MoveRun(ctx, case, need=("ok",))
    m.require_success("P01")
    r, w, out = m.r, m.w, m.out
    got = m.versions("P01")
    moved = 0
    for n in sorted(out.rewritten):
        c = w.by_name[n]
        if n in out.dropped:
            if n in got:
                raise Violation("P01:not-dropped", "%s is already contained in its new parent but is still there\n%s" % (n, m.context()))
            continue
        if n not in got:
            raise Violation("P01:lost", "%s has no visible version after the move\n%s" % (n, m.context()))
        new = r.commit(got[n])
        want = model.render_tree(out.tree[n])
        have = r.files(got[n])
        if have != want:
            paths = sorted(p for p in set(have) | set(want) if have.get(p) != want.get(p))
            raise Violation("P01:contents", "%s has the wrong contents at %s: has %s, should have %s\n%s" % (
                n, paths, {p: (have.get(p) or ("absent",))[0] for p in paths}, {p: (want.get(p) or ("absent",))[0] for p in paths}, m.context()))
        old = r.commit(c.oid)
        if new.message != old.message:
            raise Violation("P01:message", "%s: message %r became %r\n%s" % (n, old.message, new.message, m.context()))
        if new.author != old.author:
            raise Violation("P01:author", "%s: author %r became %r\n%s" % (n, old.author, new.author, m.context()))
        if got[n] != c.oid:
            moved += 1
    return {"nontrivial": moved > 0, "labels": m.labels + ["moved:%d" % min(moved, 5)]}


PARTS = [Part("move", movecommon.case_strategy(), run, 3000, 60000)]
