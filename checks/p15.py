"""P15: git test reports the command's true result for each commit."""
import hashlib
import os
import re

from hypothesis import strategies as st

from engine import model, observe, scenario
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P15"
LEVEL = "exploration"
RULE = ("Random forests (also with equal trees) and sequences of `git test run` with several commands whose exit code is a known function of command and contents, with different commit selections, "
        "strategies, job counts, caching options and configuration, interleaved with amending, uncommitted and untracked files; the command records the files it was given. `git test run --search` with "
        "monotone results that arrive at random times, and `git test fix` with commands that change the contents. Compared: the set of commits the command saw and their files, the reported results and "
        "counts, the exit code, the search bounds, the contents and references after a fix, and the unchanged rest. Non-trivial: at least two runs, or two jobs, or a search over 3 commits with both outcomes, "
        "or a fix that changed a commit.")
ASSUMPTIONS = ["The command's exit code is a function of the command and the files.", "Commands do not move HEAD or leave untracked or staged files.", "Interactive mode is not covered.",
               "Situations of the known findings (see known_findings.json) are only exercised by their recorded inputs."]

# The known findings and how each shows itself. Generated inputs are kept away
# from their situations; the recorded inputs of the findings carry the name.
KNOWN = {
    "config-jobs": ("count", "not-run", "missing"),            # branchless.test.jobs and the working copy
    "same-tree": ("not-run", "missing"),                # two jobs on commits with equal contents
    "race": (),
    "untracked": ("changed",),                          # untracked files overwritten in the working copy
}

# Two jobs that call `git worktree add` at the same time.
RACE = re.compile(r'"worktree", "add",(.|\n)*failed to read \S*worktrees/')


def known(run):
    def wrapped(ctx, case):
        try:
            return run(ctx, case)
        except Violation as v:
            if RACE.search(v.detail):
                raise Violation("P15:known:race", v.detail)
            name = case.get("known")
            if name and v.sig.split(":")[1] in KNOWN[name]:
                raise Violation("P15:known:" + name, v.detail)
            raise
    return wrapped

# Commands that differ in ways a file name may not show.
VARIANTS = ["", " a b", " a/b", " a__b", " 'a\nb'", " a", " " + "x" * 260, " " + "x" * 259 + "y", " ..", " a'  'b"]
CODES = [0, 0, 0, 0, 0, 1, 1, 3, 125, 126, 127, 137]

STEP = st.fixed_dictionaries({
    "cmd": st.integers(0, len(VARIANTS) - 1),
    "select": st.one_of(st.just(None), st.just("draft()"), st.lists(SEL, min_size=1, max_size=4)),
    "strategy": st.sampled_from([None, None, "working-copy", "worktree"]),
    "jobs": st.sampled_from([None, None, 1, 2, 3]),
    "no_cache": st.sampled_from([0, 0, 0, 1]),
    "before": st.sampled_from([None, None, None, "amend", "dirty", "untracked", "clash", "alias"]),
})
RUN = st.fixed_dictionaries({
    "scn": scenario.scenario_strategy(max_commits=5, min_commits=1, max_main=1, branches=2, dups=3, inverses=3),
    "steps": st.lists(STEP, min_size=1, max_size=3),
    "salt": st.integers(0, 10000),
    "config_jobs": st.sampled_from([None, None, None, 2, 0]),
    "config_strategy": st.sampled_from([None, None, "worktree"]),
    "slow": st.booleans(),
})
SEARCH = st.fixed_dictionaries({
    "scn": scenario.scenario_strategy(max_commits=9, min_commits=3, max_main=0, branches=0, dups=0),
    "fail": st.lists(SEL, max_size=2),
    "indet": st.lists(SEL, max_size=2),
    "leave_out": st.lists(SEL, max_size=2),
    "search": st.sampled_from(["linear", "reverse", "binary", "bisect"]),
    "jobs": st.sampled_from([1, 2, 3, 4]),
    "no_cache": st.sampled_from([0, 0, 1]),
    "delays": st.lists(st.integers(0, 4), min_size=9, max_size=9),
    "again": st.booleans(),
})
FIX = st.fixed_dictionaries({
    "scn": scenario.scenario_strategy(max_commits=6, min_commits=1, max_main=1, branches=3, dups=8, inverses=5),
    "select": st.one_of(st.just("draft()"), st.just("draft()"), st.lists(SEL, min_size=1, max_size=3)),
    "edits": st.lists(st.tuples(st.sampled_from(["append", "replace", "delete", "chmod", "sub", "once"]), st.integers(0, 3)).map(list), min_size=1, max_size=2),
    "strategy": st.sampled_from(["working-copy", "worktree"]),
    "jobs": st.sampled_from([None, 2]),
    "fails": st.one_of(st.none(), st.none(), st.none(), SEL),
    "run_first": st.sampled_from([0, 0, 1]),
    "dry": st.sampled_from([0, 0, 0, 0, 1]),
})

LIST = r"""find . -name .git -prune -o -type f -exec sha1sum {} + ; find . -name .git -prune -o -type l -printf 'link:%l  %p\n' ; find . -name .git -prune -o -type f -perm -u+x -printf 'exec  %p\n'"""


class Log:
    """What the command saw."""

    def __init__(self, ctx, r):
        self.dir = ctx.arena.new_dir("testlog")
        self.seen = os.path.join(self.dir, "seen")
        self.script = os.path.join(self.dir, "t.sh")
        self.r = r
        os.makedirs(self.seen)

    def write(self, table, delays, extra=""):
        """table: {(arguments, tree): code}"""
        lines = ["#!/bin/sh", "tree=$(git rev-parse 'HEAD^{tree}') || exit 99", "{ git rev-parse HEAD; %s; } > %s/$BRANCHLESS_TEST_COMMIT.$$" % (LIST, self.seen), extra, "case \"$*|$tree\" in"]
        for (arg, tree), code in table.items():
            d = delays.get(tree, 0)
            pre = "sleep %.2f; " % d if d else ""
            lines.append("'%s|%s') %s%s;;" % (arg, tree, pre, "kill -9 $$" if code == 137 else "exit %d" % code))
        lines += ["esac", "exit 98"]
        with open(self.script, "w") as f:
            f.write("\n".join(lines) + "\n")

    def take(self):
        """[(commit, HEAD, {path: entry})], and forgets them."""
        res = []
        for n in sorted(os.listdir(self.seen)):
            p = os.path.join(self.seen, n)
            with open(p) as f:
                lines = f.read().splitlines()
            files = {}
            for l in lines[1:]:
                k, _, path = l.partition("  ")
                files.setdefault(path[2:], []).append(k)
            res.append((n.split(".")[0], lines[0], {k: sorted(v) for k, v in files.items()}))
            os.unlink(p)
        return res


def listing(files):
    res = {}
    for p, (mode, data) in files.items():
        if mode == "120000":
            res[p] = ["link:" + data.decode()]
        else:
            res[p] = sorted([hashlib.sha1(data).hexdigest()] + (["exec"] if mode == "100755" else []))
    return res


def check_seen(r, runs, chosen, untracked, what):
    for oid, head, files in runs:
        if oid not in chosen:
            raise Violation("P15:foreign", "the command ran on %s, which is not selected\n%s" % (oid, what))
        want = listing(r.files(oid))
        if head != oid or {p: v for p, v in files.items() if p not in untracked or p in want} != want:
            diff = sorted(p for p in set(files) | set(want) if files.get(p) != want.get(p))
            raise Violation("P15:files", "for %s the command saw HEAD %s, and different files: %s\n%s" % (oid, head, diff, what))


LINE = re.compile(r"^\S (Passed|Failed|Exit code indicated to skip this commit|Exit code indicated to abort command|Command terminated by signal)(?: \((.*?)\))?: ([0-9a-f]{12}) ")
OTHER = re.compile(r"^\S (Could not check out|Failed to spawn|Command already in progress|Could not read cached)")


def reported(res, what):
    """{short id: (word, details)}"""
    got = {}
    for l in res.out.splitlines():
        m = LINE.match(l)
        if m:
            if m.group(3) in got:
                raise Violation("P15:twice", "%s is reported twice\n%s" % (m.group(3), what))
            got[m.group(3)] = (m.group(1), (m.group(2) or "").split(", "))
        elif OTHER.match(l) or "skipped" in l and "already" in l:
            raise Violation("P15:not-run", "%s\n%s" % (l, what))
    return got


WORD = {0: "Passed", 125: "Exit code indicated to skip this commit", 127: "Exit code indicated to abort command"}


def check_report(got, chosen, table, arg, r, res, what, complete=True):
    short = {o[:12]: o for o in chosen}
    for s, (word, details) in got.items():
        if s not in short:
            raise Violation("P15:foreign", "%s is reported but not selected\n%s" % (s, what))
        code = table[(arg, r.commit(short[s]).tree)]
        if word != WORD.get(code, "Failed") or (code != 0 and "exit code %d" % code not in details):
            raise Violation("P15:result", "%s is reported as %s %s, the command's exit code is %s\n%s" % (s, word, details, code, what))
    if complete and set(got) != set(short):
        raise Violation("P15:missing", "no result for %s\n%s" % (sorted(set(short) - set(got)), what))
    words = [w for w, _ in got.values()]
    np = words.count("Passed")
    nf = words.count("Failed") + words.count(WORD[127])
    ns = len(words) - np - nf
    m = re.search(r"(\d+) passed, (\d+) failed, (\d+) skipped", res.out)
    if not m or tuple(map(int, m.groups())) != (np, nf, ns):
        raise Violation("P15:count", "summary %s, expected %s\n%s" % (m and m.groups(), (np, nf, ns), what))
    return np, nf, ns


def code_of(salt, vi, tree):
    h = hashlib.sha1(("%d %d %s" % (salt, vi, tree)).encode()).digest()
    return CODES[h[0] % len(CODES)]


def select(r, sel, pool):
    if sel is None:
        return [], set(r.query("stack() | @"))
    if isinstance(sel, str):
        return [sel], set(r.query(sel))
    oids = sorted({pick(pool, s) for s in sel})
    return [" + ".join(oids)], set(oids)


def run(ctx, case):
    w = scenario.plan(case["scn"])
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    log = Log(ctx, r)
    if case["config_jobs"] is not None:
        r.git("config", "branchless.test.jobs", str(case["config_jobs"]))
    if case["config_strategy"]:
        r.git("config", "branchless.test.strategy", case["config_strategy"])
    trace, labels = [], []
    done = set()                        # (command, tree) with a recorded result
    table = {}
    untracked = set()
    n = 0
    for step in case["steps"]:
        n += 1
        pool = r.query("draft() + ancestors(main())")
        dirty = False
        alias = False
        if step["before"] == "amend" and not r.run("git", "status", "--porcelain").out and r.head()[1] != "master" and r.commit(r.head_oid()).parents:
            r.put_file("amended%d" % n, "100644", b"x%d\n" % n)
            r.git("add", "amended%d" % n)
            r.git("commit", "-q", "--amend", "--no-edit")
        elif step["before"] == "dirty":
            p = sorted(p for p, v in r.files(r.head_oid()).items() if v[0] == "100644")
            if p:
                r.put_file(p[0], "100644", b"uncommitted %d\n" % n)
        elif step["before"] == "untracked":
            r.put_file("untracked%d" % n, "100644", b"u\n")
            untracked.add("untracked%d" % n)
        elif step["before"] == "clash":
            # A file that is untracked here, but tracked in another commit.
            here = r.files(r.head_oid())
            there = sorted({p for o in pool for p in r.files(o)} - set(here))
            there = [p for p in there if not any(q.startswith(p + "/") or p.startswith(q + "/") for q in here)]
            if there and not os.path.exists(os.path.join(r.path, there[0])):
                r.put_file(there[0], "100644", b"precious %d\n" % n)
                untracked.add(there[0])
        elif step["before"] == "alias":
            alias = True
        dirty = any(not l.startswith("??") for l in r.run("git", "status", "--porcelain").out.splitlines())
        arg = VARIANTS[step["cmd"]]
        shown = arg.strip().replace("'", "")
        key = {" a'  'b": "a  b"}.get(arg, shown)
        pool = r.query("draft() + ancestors(main())")
        args, chosen = select(r, step["select"], pool)
        for o in chosen:
            t = r.commit(o).tree
            table[(key, t)] = code_of(case["salt"], step["cmd"], t)
        codes = {o: table[(key, r.commit(o).tree)] for o in chosen}
        log.write(table, {r.commit(o).tree: 0.05 for o in list(chosen)[:2]} if case["slow"] else {})
        command = "sh %s%s" % (log.script, arg)
        strategy = step["strategy"]
        jobs = step["jobs"]
        if strategy == "working-copy" and (jobs or 1) > 1:
            jobs = None
        if not case.get("known"):
            trees = [r.commit(o).tree for o in chosen]
            several = jobs > 1 if jobs else case["config_jobs"] is not None
            if several and len(set(trees)) < len(trees):
                jobs = 1
            inplace = (strategy or ("worktree" if (jobs or 1) > 1 else None) or case["config_strategy"] or "working-copy") == "working-copy"
            if inplace and any(p in r.files(o) for o in chosen for p in untracked):
                raise Skip("untracked files in the way")
            if inplace and not jobs and not strategy and case["config_jobs"] is not None:
                jobs = 1
        opts = (["--strategy", strategy] if strategy else []) + (["--jobs", str(jobs)] if jobs else []) + (["--no-cache"] if step["no_cache"] else [])
        if alias:
            r.git("config", "branchless.test.alias.default" if n % 2 else "branchless.test.alias.mine", command)
            what_cmd = [] if n % 2 else ["-c", "mine"]
        else:
            what_cmd = ["-x", command]
        real = strategy or ("worktree" if (jobs or 1) > 1 else None) or case["config_strategy"] or "working-copy"
        before, vis = observe.full_state(r), r.visible()
        res = r.gb("test", "run", *what_cmd, *opts, *args)
        trace.append("%s (untracked %s, %s)\nexit codes by commit: %s\n%r" % (step, sorted(untracked), real, {o[:12]: c for o, c in codes.items()}, res))
        what = "graph: %s; HEAD %s; config jobs %s, strategy %s\n%s" % (
            "; ".join("%s %s <- %s" % (c.name, c.oid[:12], c.parents) for c in w.commits), r.head(), case["config_jobs"], case["config_strategy"], "\n".join(trace))
        runs = log.take()
        after = observe.full_state(r)
        if after != before or r.visible() != vis:
            raise Violation("P15:changed", "%s, visible %s\n%s" % (observe.diff_state(before, after), sorted(vis ^ r.visible()), what))
        if res.code == 101 or res.code < 0:
            raise Violation("P15:crash", what)
        if real == "working-copy" and dirty:
            if res.code == 0 or runs:
                raise Violation("P15:dirty", "ran with uncommitted changes\n" + what)
            labels.append("dirty")
            continue
        clash = real == "working-copy" and any(p in r.files(o) for o in chosen for p in untracked)
        if clash:
            # It may refuse, but not lie or lose anything.
            labels.append("clash")
            check_seen(r, runs, chosen, untracked, what)
            if any(p in r.files(o) for o, _, _ in runs for p in untracked):
                raise Violation("P15:clash", "ran on a commit with a file that is untracked here\n" + what)
            continue
        check_seen(r, runs, chosen, untracked if real == "working-copy" else set(), what)
        got = reported(res, what)
        abort = any(c == 127 for c in codes.values())
        np, nf, ns = check_report(got, chosen, table, key, r, res, what, complete=not abort)
        ran = {o for o, _, _ in runs}
        if len(runs) != len(ran):
            raise Violation("P15:repeated", "the command ran more than once on a commit: %s\n%s" % (sorted(o for o, _, _ in runs), what))
        if not abort:
            due = {o for o in chosen if step["no_cache"] or (key, r.commit(o).tree) not in done}
            # Commits with equal contents share a result.
            lacking = {r.commit(o).tree for o in due} - {r.commit(o).tree for o in ran}
            if lacking or (step["no_cache"] and due != ran):
                raise Violation("P15:skipped", "the command was not run on %s\n%s" % (sorted(due - ran), what))
        if (res.code == 0) != (not nf and not ns and not abort):
            raise Violation("P15:exit", "exit code %d\n%s" % (res.code, what))
        if not step["no_cache"]:
            # Also those that were still running when another one aborted.
            done |= {(key, r.commit(o).tree) for o in ran}
            done |= {(key, r.commit(o).tree) for o in chosen if o[:12] in got}
        # The cached results are shown truly, too.
        if step["cmd"] % 2 and not step["no_cache"] and not abort:
            show = r.gb("test", "show", *what_cmd, *args)
            what += "\n%r" % show
            sh = reported(show, what)
            for o in chosen:
                g = sh.get(o[:12])
                if g is None or g[0] != WORD.get(codes[o], "Failed"):
                    raise Violation("P15:show", "%s is shown as %s, the exit code is %s\n%s" % (o[:12], g, codes[o], what))
        labels += ["jobs:%s" % jobs, real] + (["abort"] if abort else []) + (["cached"] if any("cached" in d for _, d in got.values()) else [])
    return {"nontrivial": len(case["steps"]) > 1 or any((s["jobs"] or 1) > 1 for s in case["steps"]), "labels": labels}


def run_search(ctx, case):
    w = scenario.plan(case["scn"])
    if len({str(sorted(c.tree.items())) for c in w.commits}) != len(w.commits):
        raise Skip("equal trees")
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    log = Log(ctx, r)
    drafts = [c.name for c in w.drafts]
    out = {pick(drafts, s) for s in case["leave_out"]}
    nodes = [n for n in drafts if n not in out]
    if not nodes:
        raise Skip("nothing left")
    fail = set()
    for s in case["fail"]:
        fail |= w.descendants(pick(drafts, s))
    indet = {pick(drafts, s) for s in case["indet"]}
    table, delays = {}, {}
    for i, n in enumerate(nodes):
        t = r.commit(w.by_name[n].oid).tree
        table[("", t)] = 125 if n in indet else 1 if n in fail else 0
        delays[t] = case["delays"][i % 9] * 0.02
    log.write(table, delays)
    chosen = {w.by_name[n].oid for n in nodes}
    opts = ["--jobs", str(case["jobs"])] if case["jobs"] > 1 else []
    opts += ["--bisect"] if case["search"] == "bisect" else ["--search", case["search"]]
    opts += ["--no-cache"] if case["no_cache"] else []
    ancs = lambda n: w.ancestors(n) - {n}
    decided = [n for n in nodes if n not in indet]
    good, bad = [n for n in decided if n not in fail], [n for n in decided if n in fail]
    want_s = {w.by_name[n].oid[:12] for n in good if not any(n in ancs(m) for m in good)}
    want_f = {w.by_name[n].oid[:12] for n in bad if not any(m in ancs(n) for m in bad)}
    trace = []
    for again in range(2 if case["again"] else 1):
        before, vis = observe.full_state(r), r.visible()
        res = r.gb("test", "run", "-x", "sh " + log.script, *opts, " + ".join(sorted(chosen)))
        trace.append(repr(res))
        what = "graph: %s\nselected %s, failing %s, indeterminate %s, delays %s\n%s" % (
            "; ".join("%s %s <- %s" % (c.name, c.oid[:12], c.parents) for c in w.drafts), nodes, sorted(bad), sorted(indet), case["delays"], "\n".join(trace))
        runs = log.take()
        after = observe.full_state(r)
        if after != before or r.visible() != vis:
            raise Violation("P15:changed", "%s\n%s" % (observe.diff_state(before, after), what))
        if res.code != 0:
            raise Violation("P15:search-failed", what)
        check_seen(r, runs, chosen, set(), what)
        if len({o for o, _, _ in runs}) != len(runs):
            raise Violation("P15:repeated", "the command ran more than once on a commit: %s\n%s" % (sorted(o for o, _, _ in runs), what))
        got = reported(res, what)
        check_report(got, chosen, table, "", r, res, what, complete=False)
        sb, fb, cur = set(), set(), None
        for l in res.out.splitlines():
            if l.startswith("Last passing"):
                cur = sb
            elif l.startswith("First failing"):
                cur = fb
            elif l.startswith("There were no"):
                cur = None
            elif cur is not None and re.match(r"^\S+ [0-9a-f]{12} ", l):
                cur.add(l.split()[1])
        if (sb, fb) != (want_s, want_f):
            raise Violation("P15:bounds", "last passing %s, first failing %s; expected %s and %s\n%s" % (sorted(sb), sorted(fb), sorted(want_s), sorted(want_f), what))
        if case["search"] == "binary" and case["jobs"] == 1 and not indet and len(nodes) >= 8 and len(runs) == len(nodes):
            linear = all(len([m for m in nodes if w.by_name[m].parents[0] == n]) <= 1 for n in nodes) and len([n for n in nodes if w.by_name[n].parents[0] not in nodes]) == 1
            if linear and not again:
                raise Violation("P15:exhaustive", "a binary search tested every commit\n" + what)
    return {"nontrivial": len(nodes) >= 3 and bool(good) and bool(bad), "labels": [case["search"], "jobs:%d" % case["jobs"], "nodes:%d" % (len(nodes) // 3 * 3), "runs:%s" % ("all" if len(runs) == len(nodes) else "some")]}


def apply_fix(files, edits):
    """The model of the fixing command."""
    res = dict(files)
    for kind, i in edits:
        names = sorted(q for q, v in res.items() if "/" not in q and v[0] in ("100644", "100755"))
        if kind == "sub":
            names = sorted(q for q, v in res.items() if "/" in q and v[0] in ("100644", "100755"))
        if i >= len(names):
            continue
        p = names[i]
        mode, data = res[p]
        if kind in ("append", "sub"):
            res[p] = (mode, data + b"fixed\n")
        elif kind == "once":
            if b"fixed once" not in data:
                res[p] = (mode, data + b"fixed once\n")
        elif kind == "replace":
            res[p] = (mode, b"all new\n")
        elif kind == "delete":
            del res[p]
        elif kind == "chmod":
            res[p] = ("100755", data)
    return res


def run_fix(ctx, case):
    w = scenario.plan(case["scn"])
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    log = Log(ctx, r)
    args, chosen = select(r, case["select"], [c.oid for c in w.drafts])
    if not chosen:
        raise Skip("nothing selected")
    # The command: for each tree, puts down the files the model says.
    body = ["case $tree in"]
    fixed = {}
    for o in chosen:
        t = r.commit(o).tree
        if t in fixed:
            continue
        old = r.files(o)
        new = apply_fix(old, case["edits"])
        fixed[t] = new
        acts = []
        for p in sorted(set(old) | set(new)):
            if old.get(p) == new.get(p):
                continue
            if p not in new:
                acts.append("rm -f '%s'" % p)
                continue
            mode, data = new[p]
            src = os.path.join(log.dir, hashlib.sha1(data).hexdigest())
            with open(src, "wb") as f:
                f.write(data)
            acts.append("cat %s > '%s'; chmod %s '%s'" % (src, p, "755" if mode == "100755" else "644", p))
        body.append("%s) %s;;" % (t, "; ".join(acts) or ":"))
    body.append("esac")
    bad = pick(sorted(chosen), case["fails"]) if case["fails"] is not None else None
    table = {("", t): (1 if bad and r.commit(bad).tree == t else 0) for t in fixed}
    log.write(table, {}, extra="\n".join(body))
    before, vis = observe.full_state(r), r.visible()
    trace = []
    several = case["jobs"] and case["strategy"] == "worktree" and len(fixed) == len(chosen)
    opts = ["--strategy", case["strategy"]] + (["--jobs", "2"] if several else [])
    if case["run_first"]:
        res = r.gb("test", "run", "-x", "sh " + log.script, *opts, *args)
        trace.append(repr(res))
        mid = observe.full_state(r)
        if mid != before or r.visible() != vis:
            raise Violation("P15:changed", "%s\n%s" % (observe.diff_state(before, mid), trace))
        log.take()
    res = r.gb("test", "fix", "-x", "sh " + log.script, *opts, *(["--dry-run"] if case["dry"] else []), *args)
    trace.append(repr(res))
    what = "graph: %s; branches %s, HEAD %s\nselected %s\n%s" % (
        "; ".join("%s %s <- %s" % (c.name, c.oid[:12], c.parents) for c in w.commits), w.branches, w.head, sorted(o[:12] for o in chosen), "\n".join(trace))
    runs = log.take()
    check_seen(r, runs, chosen, set(), what)
    after = observe.full_state(r)
    if res.code == 101 or res.code < 0:
        raise Violation("P15:crash", what)
    if bad or case["dry"]:
        if (res.code == 0) == bool(bad):
            raise Violation("P15:fix-exit", "exit code %d\n%s" % (res.code, what))
        if after != before or r.visible() != vis:
            raise Violation("P15:fix-applied", "%s\n%s" % (observe.diff_state(before, after), what))
        return {"nontrivial": True, "labels": ["fails" if bad else "dry"]}
    if res.code != 0:
        raise Violation("P15:fix-exit", "exit code %d\n%s" % (res.code, what))
    # Every commit is there once, with the right contents and parent.
    groups = observe.by_subject(r, set(r.query("draft()")))
    got = {c.name: c.oid for c in w.mains}
    changed = 0
    for c in w.drafts:
        y = r.commit(c.oid)
        parents = [got[p] for p in c.parents]
        want = fixed[y.tree] if c.oid in chosen else r.files(c.oid)
        must = want != r.files(c.oid) or parents != y.parents
        have = groups.pop(c.name, [])
        if len(have) != 1:
            raise Violation("P15:fix-graph", "%s is there %d times\n%s" % (c.name, len(have), what))
        got[c.name] = have[0]
        x = r.commit(have[0])
        if x.parents != parents:
            raise Violation("P15:fix-parent", "%s has parents %s\n%s" % (c.name, x.parents, what))
        now = r.files(have[0])
        if now != want:
            raise Violation("P15:fix-contents", "%s differs in %s\n%s" % (c.name, sorted(p for p in set(now) | set(want) if now.get(p) != want.get(p)), what))
        if (x.message, x.author) != (y.message, y.author):
            raise Violation("P15:fix-metadata", "%s\n%s" % (c.name, what))
        if (have[0] != c.oid) != must:
            raise Violation("P15:fix-identity", "%s %s\n%s" % (c.name, "was not rewritten" if must else "did not have to change", what))
        changed += must
    if groups:
        raise Violation("P15:fix-graph", "unexpected commits: %s\n%s" % (groups, what))
    refs = dict(before["refs"])
    for b, n in w.branches.items():
        refs["refs/heads/" + b] = got[n]
    if r.user_refs() != refs:
        raise Violation("P15:fix-refs", "%s, expected %s\n%s" % (r.user_refs(), refs, what))
    hn, hb = w.head
    kind, b, oid = r.head()
    if oid != got[hn] or (hb and b != hb):
        raise Violation("P15:fix-head", "HEAD is %s, expected %s on %s\n%s" % ((kind, b, oid), got[hn], hb, what))
    if r.worktree() != r.files(oid) or {p: v for (p, s), v in r.index().items()} != r.flat(r.commit(oid).tree):
        raise Violation("P15:fix-work", "working copy or index do not match HEAD\n" + what)
    return {"nontrivial": changed > 0, "labels": ["changed:%d" % min(changed, 3), case["strategy"]] + (["cached"] if case["run_first"] else [])}


PARTS = [Part("run", RUN, known(run), 220, 12000), Part("search", SEARCH, known(run_search), 160, 8000), Part("fix", FIX, known(run_fix), 160, 8000)]
