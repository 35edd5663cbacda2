"""P21: submit pushes exactly the selected branches, and nothing unseen is overwritten."""
import os
import re
import shutil

from hypothesis import strategies as st

from engine import observe, scenario
from engine.gitrepo import Repo
from engine.runner import Part, Skip, Violation
from engine.scenario import SEL, pick

ID = "P21"
LEVEL = "exploration"
RULE = ("Random forests with branches on any commit (also several on one, and on main commits), two bare remotes, and for each branch a state of its remote counterpart: none, equal, at "
        "another known commit, moved by somebody else to a commit not known locally, created by somebody else, deleted, configured but never fetched. `git submit` with any selection and flags, "
        "optionally with a remote branch moving between the fetch and the push. All references of both remotes, the local references, HEAD, the visible commits and the reported categories are "
        "compared with the model, and submitting again must change nothing. Non-trivial: a branch was pushed, refused, or left alone because it was not selected or not created.")
ASSUMPTIONS = ["Branch forge; the remote branch has the local one's name.", "A commit with several (non-main) branches is left alone by submit.",
               "The push itself is Git's: when one branch is refused, the others pushed at the same time may or may not arrive."]

NAMES = ["feat", "fix/one", "fix/two", "a-b", "z", "Feat2", "up/stream/x", "feat-2", "master-2", "x/master"]
STATES = ["new", "new", "new-foreign", "new-older", "same", "same", "known", "known", "known", "foreign", "foreign", "gone", "unfetched"]

CASE = st.fixed_dictionaries({
    "scn": scenario.scenario_strategy(max_commits=5, min_commits=1, max_main=2, branches=0),
    "branches": st.lists(st.tuples(SEL, st.integers(0, len(NAMES) - 1), st.sampled_from(STATES), SEL, st.sampled_from(["origin", "origin", "origin", "fork"])).map(list),
                         min_size=1, max_size=5),
    "main": st.sampled_from(["upstream", "upstream", "default", "both", "none"]),
    "select": st.one_of(st.just(None), st.just("draft()"), st.just("draft()"), st.just("all()"), st.just("branches()"), st.lists(SEL, min_size=1, max_size=3)),
    "create": st.booleans(),
    "dry": st.sampled_from([0, 0, 0, 1]),
    "forge": st.sampled_from([0, 0, 1]),
    "race": st.one_of(st.none(), st.none(), st.none(), SEL),
    "head": st.sampled_from([0, 1]),
})


class Remote:
    def __init__(self, ctx, r, name):
        self.name = name
        self.path = ctx.arena.new_dir(name)
        r.run("git", "init", "-q", "--bare", self.path, check=0)
        shutil.rmtree(os.path.join(self.path, "objects"))
        shutil.copytree(os.path.join(r.gitdir, "objects"), os.path.join(self.path, "objects"))
        self.repo = Repo(self.path, r.vbin, r.home)
        self.repo.gitdir = self.path
        r.git("config", "remote.%s.url" % name, self.path)
        r.git("config", "remote.%s.fetch" % name, "+refs/heads/*:refs/remotes/%s/*" % name)

    def foreign(self, base, label):
        """A commit of somebody else."""
        c = self.repo.commit(base)
        return self.repo.write_commit(c.tree, [base], "foreign %s\n" % label, author=b"Some Body <some@body.org>", time=1650000000)

    def refs(self):
        return self.repo.refs()


def run(ctx, case):
    w = scenario.plan(case["scn"])
    r, _ = scenario.build(ctx.arena, case["scn"], w)
    remotes = {n: Remote(ctx, r, n) for n in ("origin", "fork")}
    master = w.by_name[w.branches["master"]].oid
    local, state, where = {}, {}, {}
    foreign, refused_create = {}, {}
    for sel, ni, kind, other, remote in case["branches"]:
        name = NAMES[ni]
        if name in local or any(n.startswith(name + "/") or name.startswith(n + "/") for n in local):
            continue
        oid = pick(w.commits, sel).oid
        if kind.startswith("new"):
            remote = None
        local[name], state[name], where[name] = oid, kind, remote
    # What a new branch is created on.
    if case["main"] in ("upstream", "both"):
        r.git("config", "branch.master.remote", "origin")
        r.git("config", "branch.master.merge", "refs/heads/master")
        r.write_ref("refs/remotes/origin/master", master)
    if case["main"] in ("default", "both"):
        r.git("config", "remote.pushDefault", "fork")
    default = {"upstream": "origin", "both": "origin", "default": "fork", "none": None}[case["main"]]
    for rem in remotes.values():
        rem.repo.write_ref("refs/heads/master", w.mains[0].oid)
        rem.repo.write_ref("refs/heads/theirs", rem.foreign(w.mains[0].oid, "theirs"))
        rem.repo.write_ref("refs/tags/v1", w.mains[0].oid)
    others = [c.oid for c in w.commits]
    for (sel, ni, kind, other, _) in case["branches"]:
        name = NAMES[ni]
        if name not in local or state[name] != kind or name in foreign:
            continue
        oid = local[name]
        r.write_ref("refs/heads/" + name, oid)
        rem = remotes[where[name] or default or "origin"]
        track = "refs/remotes/%s/%s" % (rem.name, name)
        known = pick(others, other)
        foreign[name] = rem.foreign(known, name)
        if where[name]:
            r.git("config", "branch.%s.remote" % name, rem.name)
            r.git("config", "branch.%s.merge" % name, "refs/heads/" + name)
        if kind == "new-foreign":
            rem.repo.write_ref("refs/heads/" + name, foreign[name])
        elif kind == "new-older":
            rem.repo.write_ref("refs/heads/" + name, (r.commit(oid).parents + [oid])[0])
        elif kind == "same":
            rem.repo.write_ref("refs/heads/" + name, oid)
            r.write_ref(track, oid if other % 3 else known)
        elif kind == "known":
            rem.repo.write_ref("refs/heads/" + name, known)
            r.write_ref(track, known)
        elif kind == "foreign":
            rem.repo.write_ref("refs/heads/" + name, foreign[name])
            r.write_ref(track, known if other % 3 else oid)
        elif kind == "gone":
            r.write_ref(track, known)
        elif kind == "unfetched":
            rem.repo.write_ref("refs/heads/" + name, known if other % 2 else foreign[name])
    if case["head"]:
        on = sorted(n for n, o in local.items() if o == r.head_oid())
        if on:
            with open(os.path.join(r.gitdir, "HEAD"), "w") as f:
                f.write("ref: refs/heads/%s\n" % on[0])
    # The selection.
    sel = case["select"]
    if sel is None:
        revs, chosen = [], set(r.query("stack()"))
    elif isinstance(sel, str):
        revs, chosen = [sel], set(r.query(sel))
    else:
        revs = sorted({pick(w.commits, s).oid for s in sel})
        chosen = set(revs)
    considered = {n for n, o in local.items() if o in chosen}
    per_commit = {}
    for n in considered:
        per_commit.setdefault(local[n], []).append(n)
    single = {n for n in considered if len(per_commit[local[n]]) == 1}
    # The model.
    before = {n: rem.refs() for n, rem in remotes.items()}
    ref = lambda n: "refs/heads/" + n
    at = {n: before[where[n] or default or "origin"].get(ref(n)) for n in local}
    gone = any(state[n] == "gone" for n in considered)
    new = {n for n in single if state[n].startswith("new")}
    update = {n for n in single if not state[n].startswith("new") and state[n] != "gone" and at[n] != local[n]}
    skip = {n for n in single if not state[n].startswith("new") and at[n] == local[n]}
    pushed = (set(new) if case["create"] else set()) | update
    no_remote = case["create"] and new and default is None
    refused = {n for n in new if case["create"] and state[n] == "new-foreign"}
    race = None
    if case["race"] is not None and pushed and not case["dry"] and not gone and not no_remote:
        race = pick(sorted(pushed), case["race"])
    fail = gone or ((no_remote or bool(refused) or race is not None) and not case["dry"])
    env = None
    if race:
        rem = remotes[where[race] or default]
        over = rem.foreign(at[race] or w.mains[0].oid, "race")
        wrap = ctx.arena.new_dir("wrap")
        path = os.path.join(rem.path, ref(race))
        with open(os.path.join(wrap, "git"), "w") as f:
            f.write("#!/bin/sh\nif [ \"$1\" = push ] && [ ! -e %s/done ]; then\n  : > %s/done\n  mkdir -p %s\n  echo %s > %s\nfi\nexec /usr/bin/git \"$@\"\n" % (
                wrap, wrap, os.path.dirname(path), over, path))
        os.chmod(os.path.join(wrap, "git"), 0o755)
        env = {"PATH": wrap + ":" + r.env["PATH"]}
    st0, vis0 = observe.full_state(r), r.visible()
    args = ["submit"] + (["--create"] if case["create"] else []) + (["--dry-run"] if case["dry"] else []) + (["--forge", "branch"] if case["forge"] else []) + revs
    res = r.gb(*args, env=env)
    what = "branches (remote, state, at): %s\nselected: %s\nfor update %s, new %s, up to date %s; default remote %s; race on %s\n%r" % (
        {n: (where[n], state[n], (local[n] or "")[:8], (at[n] or "")[:8]) for n in sorted(local)}, sorted(considered), sorted(update), sorted(new), sorted(skip), default, race, res)
    if res.code not in (0, 1) and not (fail and res.code < 129 and res.code > 0 and res.code != 101):
        raise Violation("P21:crash", what)
    if (res.code != 0) != bool(fail):
        raise Violation("P21:exit", "exit code %d\n%s" % (res.code, what))
    # The remotes.
    for rn, rem in remotes.items():
        now = rem.refs()
        for k in sorted(set(now) | set(before[rn])):
            n = k[len("refs/heads/"):] if k.startswith("refs/heads/") else None
            old = before[rn].get(k)
            allowed = [old]
            if n in pushed and rn == (where[n] or default) and not case["dry"]:
                if n == race:
                    allowed = [over]
                elif n in refused or gone or no_remote:
                    allowed = [old]
                elif fail:
                    allowed = [old, local[n]]
                else:
                    allowed = [local[n]]
            if now.get(k) not in allowed:
                kind = "lost" if n in pushed and allowed == [old] else "missing" if n in pushed else "other"
                raise Violation("P21:remote:" + kind, "%s of %s: %s -> %s, expected %s\n%s" % (k, rn, old, now.get(k), allowed, what))
            if old and now.get(k) != old and n != race and not r.exists(old):
                raise Violation("P21:unseen", "%s of %s was overwritten, and %s is not available locally\n%s" % (k, rn, old, what))
    # Locally.
    local_only = lambda s: {k: v for k, v in s["refs"].items() if not k.startswith("refs/remotes/")}
    st1 = observe.full_state(r)
    d = observe.diff_state(dict(st0, refs=local_only(st0)), dict(st1, refs=local_only(st1)))
    if d:
        raise Violation("P21:local", "%s\n%s" % (d, what))
    if r.visible() != vis0:
        raise Violation("P21:visible", "visible commits changed: %s\n%s" % (sorted(r.visible() ^ vis0), what))
    if not fail:
        created = new if case["create"] else set()
        if not case["dry"]:
            for n in created:
                got = (r.run("git", "config", "branch.%s.remote" % n).out.strip(), r.run("git", "config", "branch.%s.merge" % n).out.strip())
                if got != (default, ref(n)):
                    raise Violation("P21:upstream", "%s tracks %s\n%s" % (n, got, what))
        want = {"submitted": sorted(created), "updated": sorted(update), "current": sorted(skip), "unsubmitted": sorted(new - created)}
        got = report(res.out, bool(case["dry"]))
        if got != want:
            raise Violation("P21:report", "reported %s, expected %s\n%s" % (got, want, what))
        if not case["dry"]:
            mid = {n: rem.refs() for n, rem in remotes.items()}
            res2 = r.gb(*args)
            if res2.code != 0 or {n: rem.refs() for n, rem in remotes.items()} != mid:
                raise Violation("P21:again", "submitting again: %r\n%s" % (res2, what))
            got = report(res2.out, False)
            want2 = {"submitted": [], "updated": [], "current": sorted(created | update | skip), "unsubmitted": sorted(new - created)}
            if got != want2:
                raise Violation("P21:report", "the second time reported %s, expected %s\n%s\n%r" % (got, want2, what, res2))
    labels = ["fail"] if fail else []
    labels += ["%s:%s" % (k, bool(v)) for k, v in (("pushed", pushed and not fail and not case["dry"]), ("refused", refused), ("unselected", set(local) - considered))]
    labels += (["race"] if race else []) + (["dry"] if case["dry"] else []) + (["several"] if considered - single else []) + ["state:" + state[n] for n in single]
    return {"nontrivial": bool(pushed or refused or (considered and set(local) - considered) or (new and not case["create"])), "labels": labels}


def report(out, dry):
    got = {"submitted": [], "updated": [], "current": [], "unsubmitted": []}
    for line in out.splitlines():
        m = re.match(r"(Would submit|Submitted|Would update|Updated|Would skip|Skipped) (\d+) commits?(?: \((.*?)\))?: (.*)$", line)
        if not m:
            continue
        verb, n, why, names = m.groups()
        if verb.startswith("Would") != dry:
            got["tense"] = [line]
        key = "submitted" if "ubmit" in verb else "updated" if "pdate" in verb else "current" if why == "already up-to-date" else "unsubmitted"
        got[key] += names.split(", ")
        if int(n) != len(names.split(", ")):
            got["count"] = [line]
    return got


PARTS = [Part("submit", CASE, run, 900, 40000)]
