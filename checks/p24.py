"""P24: every prefix of the event log replays to the state at that time."""
import os
import re
import sqlite3

from hypothesis import strategies as st

from engine import lineproc, ops
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P24"
LEVEL = "exploration"
HARNESS = ["libdrive"]
RULE = ("(replay) Random event logs over 8 commits and a few references, grouped into operations, fed to the replayer: the state of each cursor position of the whole "
        "log must be the state computed from the events before it and the one reported when only those were recorded; cursor steps are compared with a model, "
        "and the events with what the database returns. (smartlog) Random sequences of real operations: the smartlog printed after each is compared with "
        "`smartlog --event-id` of that position at the end. Non-trivial: a log with at least 3 operations, one of them with several events, "
        "and a commit or reference changed twice; for the smartlog, at least 3 different past views.")
ASSUMPTIONS = ["The main branch is never deleted.", "The mark of the checked-out branch (`>`) is not part of the recorded state.",
               "`git branch -m` is not generated: Git reports only the deletion of the old name to the hook."]

REFS = ["HEAD", "refs/heads/a", "refs/heads/master", "refs/heads/ab", "refs/heads/b/c", "refs/tags/t", "refs/remotes/o/a", "ORIG_HEAD", "refs/branchless/x"]
O = st.integers(1, 8)
EVENT = st.one_of(
    st.tuples(st.just("c"), O), st.tuples(st.just("o"), O), st.tuples(st.just("u"), O),
    st.tuples(st.just("w"), st.integers(0, 8), st.integers(0, 8)),
    st.tuples(st.just("r"), st.sampled_from(REFS), st.integers(0, 8), st.integers(0, 8)),
    st.tuples(st.just("r"), st.sampled_from(REFS[:3]), st.integers(0, 8), st.integers(0, 8)),
    st.tuples(st.just("r"), st.sampled_from(["refs/heads/a", "refs/heads/ab"]), O, st.just(0)),
    st.tuples(st.just("s"), st.integers(0, 8), O, st.sampled_from(["-", "refs/heads/a"]))).map(list)
LOG = st.lists(st.tuples(st.sampled_from([0, 0, 1, 1, 2, -1]), EVENT).map(list), min_size=0, max_size=14)


def model_state(events, status):
    """events: those that count, up to the position."""
    act, seen, refs, head, main = ["I"] * 9, set(), {}, "-", "X"
    for e in events:
        k, a = e[0], e[2:]
        if k in "cu":
            act[int(a[0])] = "A"
            seen.add(a[0])
        elif k == "o":
            act[int(a[0])] = "O"
            seen.add(a[0])
        elif k == "w":
            if a[0] != "0":
                act[int(a[0])] = "O"
                seen.add(a[0])
            if a[1] != "0":
                act[int(a[1])] = "A"
                seen.add(a[1])
        if k == "r":
            name, new = a[0].replace("%", "/"), a[2]
            if new == "0":
                refs.pop(name, None)
            else:
                refs[name] = new
            if name == "HEAD" and new != "0":
                head = new
            if name == "refs/heads/master" and new != "0":
                main = new
        elif k == "c":
            head = a[0]
        elif k == "s" and a[0] != "0":
            head = a[0]
    branches = {n: o for n, o in refs.items() if n.startswith("refs/heads/")}
    branches["refs/heads/master"] = main
    return ";".join(["".join(act[1:]), ",".join(sorted(seen)), head, main, ",".join(sorted("%s=%s" % b for b in branches.items()))])


def run_replay(ctx, case):
    tx, toks = 1, []
    for step, e in case:
        tx = max(1, tx + step)
        if e[0] == "r" and e[1] == "refs/heads/master" and e[3] == 0:
            e = e[:3] + [1]
        toks.append("/".join([e[0], str(tx)] + [str(x).replace("/", "%") for x in e[1:]]))
    home = os.path.join(ctx.arena.home, "replay")
    if not os.path.exists(home):
        os.makedirs(home)
        import subprocess
        env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b",
                   GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
        subprocess.run("git init -q -b master . && git commit -q --allow-empty -m x", shell=True, cwd=home, env=env, check=True)
    proc = lineproc.get(ctx.extra["libdrive"], cwd=home)
    out = proc.ask(" ".join(toks))
    if out is None:
        raise Violation("P24:crash", "replaying %s failed: %s" % (toks, proc.err[-1500:]))
    prefixes, states, by_tx, by_event, before, db = (f.split(" ") if f else [] for f in out.split("|"))
    what = "events %s\nanswers %s" % (" ".join(toks), out.replace("|", "\n"))

    # Which events count: updates of internal references and repeated
    # deletions are left out.
    events, counts = [], [0]
    for t in toks:
        e = t.split("/")
        skip = e[0] == "r" and (e[2] in ("ORIG_HEAD",) or e[2].startswith("refs%branchless%"))
        if e[0] == "r" and e[4] == "0" and events and events[-1][0] == "r" and events[-1][2] == e[2] and events[-1][4] == "0":
            skip = True
        if not skip:
            events.append(e)
        counts.append(len(events))
    n = len(events)
    for i, c in enumerate(counts):
        want = "%d;%s" % (c, model_state(events[:c], None))
        if prefixes[i] != want:
            raise Violation("P24:state", "after %d events: %s, expected %s\n%s" % (i, prefixes[i], want, what))
    if len(states) != n + 1:
        raise Violation("P24:positions", "%d positions for %d events\n%s" % (len(states), n, what))
    for c in range(n + 1):
        want = "%d;%s" % (c, model_state(events[:c], None))
        if states[c] != want:
            raise Violation("P24:past", "position %d: %s, expected %s\n%s" % (c, states[c], want, what))
    clamp = lambda i: max(0, min(n, i))
    ends = [0] + [i for i in range(1, n + 1) if i == n or events[i - 1][1] != events[i][1]]
    snap = lambda c: next(e for e in ends if e >= c)
    for item in by_tx:
        key, got = item.split(":")
        c, k = map(int, key.split(","))
        i = ends.index(snap(c))
        want = ends[max(0, min(len(ends) - 1, i + k))]
        if got != str(want):
            raise Violation("P24:step-operation", "%d operations from %d leads to %s, expected %d\n%s" % (k, c, got, want, what))
    for item in by_event:
        key, got = item.split(":")
        c, k = key.split(",")
        want = clamp(int(k)) if c == "make" else clamp(int(c) + int(k))
        if got != str(want):
            raise Violation("P24:step-event", "%s leads to %s, expected %d\n%s" % (key, got, want, what))
    for item in before:
        c, got = item.split(":")
        c = int(c)
        if c in ends:
            i = ends.index(c)
            want = "-" if i == 0 else "%d,%d" % (ends[i - 1] + 1, c - ends[i - 1])
            if got != want:
                raise Violation("P24:operation-events", "the operation before %d: %s, expected %s\n%s" % (c, got, want, what))
    if db != toks:
        raise Violation("P24:database", "read back: %s\n%s" % (db, what))
    size = max([b - a for a, b in zip(ends, ends[1:])] or [0])
    return {"nontrivial": len(ends) > 3 and size > 1, "labels": ["events:%d" % (n // 3 * 3), "operations:%d" % min(len(ends) - 1, 6)]}


OPS = [k for k in ops.GIT_OPS + ops.GB_OPS if k not in ("branch-m", "tag")]
SEQ = st.fixed_dictionaries({"ops": st.lists(ops.op_strategy(OPS), min_size=3, max_size=9), "views": st.lists(SEL, min_size=4, max_size=4)})
IGNORED = {"ORIG_HEAD", "CHERRY_PICK", "REBASE_HEAD", "CHERRY_PICK_HEAD", "AUTO_MERGE", "FETCH_HEAD"}


def count_events(r):
    path = os.path.join(r.gitdir, "branchless", "db.sqlite3")
    db = sqlite3.connect(path)
    rows = db.execute("SELECT type, new_ref, ref_name, message FROM event_log ORDER BY rowid").fetchall()
    db.close()
    n, last = 0, None
    for typ, new, name, message in rows:
        delete = None
        if typ == "ref-move":
            if name in IGNORED or name.startswith("refs/branchless/"):
                continue
            if new is None or set(new) == {"0"}:
                delete = (name, message)
                if delete == last:
                    continue
        last = delete
        n += 1
    return n


def view(r, *args):
    res = r.gb("smartlog", *args)
    if res.code != 0:
        return None, res
    # The hints are about the present; which branch was checked out is not recorded.
    def names(m):
        return "(" + ", ".join(sorted(n.strip("> ") for n in m.group(1).split(","))) + ")"
    return re.sub(r"\(([^()]*)\)", names, re.sub(r"(?m)^hint: .*\n", "", res.out)), res


def run_smartlog(ctx, case):
    r, p = ops.start(ctx.arena, drafts=0)
    # So that master and HEAD have been observed.
    p.git("checkout", "-q", "--detach", "HEAD~1")
    p.git("branch", "-f", "master", "master~1")
    saved = []
    for op in case["ops"]:
        if r.git("status", "--porcelain").out:
            r.run("git", "-c", "core.hooksPath=/nonexistent", "reset", "-q", "--hard")
            r.git("clean", "-fdq")
        res = p.apply(op)
        if res is None:
            continue
        text, _ = view(r)
        if text is None:
            continue
        saved.append((count_events(r), text, list(p.trace)))
    if not saved:
        raise Skip("nothing applied")
    total = count_events(r)
    checked = set()
    for i in [len(saved) - 1] + [s % len(saved) for s in case["views"]]:
        n, want, trace = saved[i]
        if i in checked:
            continue
        checked.add(i)
        for args in (["--event-id=%d" % n], ["--event-id=%d" % (n - total)] if n < total else ["--event-id=%d" % (n + 5)]):
            got, res = view(r, *args)
            if got != want:
                raise Violation("P24:smartlog", "the smartlog after\n%s\nwas\n%s\nafter\n%s\nsmartlog %s shows\n%r" % (
                    "\n".join(trace), want, "\n".join(p.trace), args[0], res))
    return {"nontrivial": len({saved[i][1] for i in checked}) >= 3, "labels": ["views:%d" % len(checked), "total:%d" % (total // 10 * 10)]}


PARTS = [Part("replay", LOG, run_replay, 12000, 400000, harness="libdrive"), Part("smartlog", SEQ, run_smartlog, 160, 8000)]
