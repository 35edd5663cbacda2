"""P08: visible commits survive garbage collection and hidden ones stay hidden."""
import os

from hypothesis import strategies as st

from engine import ops
from engine.gitrepo import HarnessError
from engine.runner import Part, Violation
from engine.scenario import pick

ID = "P08"
LEVEL = "exploration"
RULE = ("Random sequences of Git and git-branchless commands (commits, rewrites, hide/unhide, undo, branch deletion, checkouts) with git-branchless' gc, expired reflogs and pruning of "
        "unreachable objects interleaved. Each collection must leave the visible set, the references, HEAD, the smartlog and all objects of visible commits as they were, and no command may "
        "crash later. Non-trivial: something was pruned while a commit without any branch on it or above it was visible.")
ASSUMPTIONS = ["Reflogs are expired first, so that only references keep commits.", "The main branch is never deleted."]

KINDS = ("commit",) * 4 + ("amend", "amend", "checkout", "checkout-b", "branch", "branch-d", "branch-d", "branch-f", "reset", "cherry-pick", "rebase", "merge",
                           "move-s", "move-x", "hide", "hide", "hide-r", "unhide", "unhide", "reword", "restack", "gb-amend", "record", "sync") + ("undo", "undo") + ("bgc",) * 4 + ("prune",) * 4 + ("gc",)
CASE = st.fixed_dictionaries({"look": st.booleans(), "start": st.integers(0, 2), "ops": st.lists(ops.op_strategy(KINDS), min_size=3, max_size=12)})


def objects(r, oids):
    res = r.run("git", "rev-list", "--objects", "--stdin", input="".join(o + "\n" for o in oids))
    return res.code == 0, res


def run(ctx, case):
    r, p = ops.start(ctx.arena, drafts=case["start"])
    r.gb("smartlog", check=0)
    labels, pruned, lonely = set(), 0, False
    last = None
    todo = list(case["ops"]) + [["bgc", 0, 0], ["prune", 0, 0]]
    for op in todo:
        kind = op[0]
        vis = r.visible()
        if kind in ("bgc", "prune", "gc"):
            # The smartlog has effects of its own (it refreshes what keeps commits).
            smartlog = (lambda: r.gb("smartlog").out) if case["look"] else (lambda: "")
            before = {"visible": vis, "refs": r.user_refs(), "head": r.head(), "index": r.index(), "work": r.worktree(), "smartlog": smartlog()}
            count = r.git("count-objects", "-v").out if kind != "bgc" else ""
            p.trace.append(kind)
            if kind == "bgc":
                res = r.gb("gc")
            else:
                r.run("git", "reflog", "expire", "--expire=now", "--expire-unreachable=now", "--all")
                res = r.run("git", "prune", "--expire=now") if kind == "prune" else r.run("git", "gc", "-q", "--prune=now")
            r.cache, r.tree_cache = {}, {}
            what = "%s\n%r\nbefore:\n%s" % (" ; ".join(p.trace), res, before["smartlog"])
            if res.code != 0:
                raise Violation("P08:failed", what)
            ok, res2 = objects(r, sorted(vis) + [r.head_oid()] + sorted(r.branches().values()))
            if not ok:
                raise Violation("P08:lost", "%r\n%s" % (res2, what))
            after = {"visible": r.visible(), "refs": r.user_refs(), "head": r.head(), "index": r.index(), "work": r.worktree(), "smartlog": smartlog()}
            for k in before:
                if before[k] != after[k]:
                    raise Violation("P08:changed:" + k, "%s: %s -> %s\n%s" % (k, before[k], after[k], what))
            if count and r.git("count-objects", "-v").out != count:
                pruned += 1
                kept = r.ancestors(list(r.branches().values()) + [r.head_oid()])
                lonely = lonely or bool(vis - kept)
            labels.add(kind)
            p.known = [o for o in p.known if r.exists(o)]
            continue
        if kind == "undo":
            if last == "undo":
                continue       # P07 is about undoing undo
            p.trace.append("undo")
            res = r.gb("undo", "-y")
        else:
            if kind in ("hide", "hide-r") and not vis:
                continue
            res = p.apply(op)
        if res is None:
            continue
        labels.add(kind)
        last = kind
        p.observe()
        if kind == "undo" and "commit not available" in res.text:
            break      # it would need what was collected
        if res.code == 101 or res.code < 0 or "panicked" in res.text:
            raise Violation("P08:crash", "%s\n%r" % (" ; ".join(p.trace), res))
        if "master" not in r.branches():
            break
    return {"nontrivial": bool(pruned and lonely), "labels": sorted(labels)}


PARTS = [Part("gc", CASE, run, 400, 20000)]
