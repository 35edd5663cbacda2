"""Runs one property's check: parallel Hypothesis workers, shrinking, replay
files, known findings, evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import seed as hyp_seed  # noqa: E402

from engine import build, gitrepo  # noqa: E402
from engine.gitrepo import HarnessError  # noqa: E402

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    """The property does not hold on this case. `sig` names the kind of
    failure and is what known findings are keyed on."""

    def __init__(self, sig, detail=""):
        Exception.__init__(self, "%s: %s" % (sig, detail))
        self.sig, self.detail = sig, detail


class Skip(Exception):
    """The case is outside of what the oracle decides."""


class Part:
    def __init__(self, name, strategy, run, quick, thorough, harness=None):
        self.name, self.strategy, self.run, self.harness = name, strategy, run, harness
        self.n = {"quick": quick, "thorough": thorough}


class Ctx:
    def __init__(self, arena, tier, extra):
        self.arena, self.tier, self.extra = arena, tier, extra


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def load_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f) if e["property"] == prop and e.get("status") == "finding"]


def matches(finding, v):
    return v.sig == finding["signature"]


# -- worker --------------------------------------------------------------

def run_one(part, ctx, case):
    """Returns info dict; raises Violation/Skip/HarnessError."""
    try:
        return part.run(ctx, case) or {}
    except HarnessError as e:
        if e.kind:
            raise Violation(e.kind, str(e))
        raise
    finally:
        ctx.arena.clear()


def worker(mod, tier, seed, index, root, out_path, vbin, extra, budget, shrink_s, scale):
    arena = gitrepo.Arena.__new__(gitrepo.Arena)
    arena.vbin, arena.n, arena.template, arena.keep = vbin, 0, None, False
    arena.root = os.path.join(root, "w%d" % index)
    arena.home = os.path.join(arena.root, "home")
    os.makedirs(arena.home)
    ctx = Ctx(arena, tier, extra)
    findings = load_findings(mod.ID)
    res = {"evaluations": 0, "skipped": 0, "nontrivial": [], "labels": {}, "samples": [], "errors": [],
           "known": {}, "violation": None, "unreproduced": [], "parts": {}, "truncated": False}
    labels = collections.Counter()
    nontrivial = set()
    t_start = time.time()

    for part in mod.PARTS:
        n = part.n[tier] * scale
        n = int(n // WORKERS + (1 if index < n % WORKERS else 0))
        if n <= 0 or res["violation"]:
            continue
        h = int(hashlib.sha256(("%d/%s/%s/%d" % (seed, mod.ID, part.name, index)).encode()).hexdigest()[:12], 16)
        memo = {}
        fail = {"t": None, "best": None}
        done = [0]

        def execute(case):
            key = case_key(case)
            if key in memo:
                if memo[key] is not None:
                    raise memo[key]
                return
            now = time.time()
            if fail["t"] is not None and now - fail["t"] > shrink_s:
                return
            if fail["t"] is None and now - t_start > budget:
                res["truncated"] = True
                return
            if fail["t"] is None:
                res["evaluations"] += 1
                done[0] += 1
            try:
                info = run_one(part, ctx, case)
            except Skip as s:
                res["skipped"] += 1
                labels["skip:" + str(s)] += 1
                memo[key] = None
                return
            except Violation as v:
                for f in findings:
                    if matches(f, v):
                        res["known"][f["signature"]] = res["known"].get(f["signature"], 0) + 1
                        memo[key] = None
                        return
                if fail["t"] is None:
                    fail["t"] = time.time()
                v = Violation(v.sig, v.detail)
                memo[key] = v
                fail["best"] = (case, v)
                raise v
            except HarnessError as e:
                if fail["t"] is None:
                    res["errors"].append("%s: %s\ncase: %s" % (part.name, str(e)[:1500], json.dumps(case)[:2000]))
                memo[key] = None
                if len(res["errors"]) > 3:
                    raise
                return
            memo[key] = None
            if fail["t"] is None:
                for lab in info.get("labels", ()):
                    labels[lab] += 1
                if info.get("nontrivial"):
                    if key not in nontrivial:
                        nontrivial.add(key)
                        if len(res["samples"]) < 2 and len(nontrivial) % 7 == 1:
                            res["samples"].append({"part": part.name, "case": case, "note": info.get("note", "")})

        test = settings(
            max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
            phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck), print_blob=False,
        )(hyp_seed(h)(given(part.strategy)(lambda case: execute(case))))
        try:
            test()
        except Violation:
            pass
        except HarnessError:
            pass
        except BaseException as e:  # an error of the harness itself
            if fail["best"] is None:
                res["errors"].append("%s: %s" % (part.name, "".join(traceback.format_exception(e))[-3000:]))
        res["parts"][part.name] = done[0]
        if fail["best"] is not None:
            case, v = fail["best"]
            # Confirm on the real code, without the library.
            confirmed = None
            for _ in range(5):
                try:
                    run_one(part, ctx, case)
                except Violation as v2:
                    if not any(matches(f, v2) for f in findings):
                        confirmed = v2
                        break
                except (Skip, HarnessError):
                    pass
            if confirmed is not None:
                res["violation"] = {"part": part.name, "case": case, "sig": confirmed.sig,
                                    "detail": confirmed.detail[:6000]}
            else:
                res["unreproduced"].append({"part": part.name, "case": case, "sig": v.sig, "detail": v.detail[:3000]})
    res["labels"] = dict(labels)
    res["nontrivial"] = sorted(nontrivial)
    arena.close()
    tmp = out_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out_path)


# -- parent --------------------------------------------------------------

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0, help="multiplies the number of cases")
    ap.add_argument("--shrink", type=float, default=None)
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    mod = importlib.import_module("checks." + args.property.lower())
    try:
        vbin = build.build_binary()
    except build.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return 2
    extra, unbuilt = {}, []
    for n in getattr(mod, "HARNESS", []):
        try:
            extra[n] = build.build_harness(n)
        except build.BuildError as e:
            # The library's interface changed; what goes through the binary is
            # still decided.
            unbuilt.append(n)
            print("NOTE: the in-process harness %r does not build against this tree; its part is left out" % n)
    mod.PARTS = [p for p in mod.PARTS if p.harness not in unbuilt]
    if not mod.PARTS:
        print("ERROR: nothing left to run")
        return 2
    t_built = time.time()
    root = tempfile.mkdtemp(prefix="gbv-%s-" % mod.ID, dir=gitrepo.scratch_root())
    procs = {}
    try:
        findings = load_findings(mod.ID)
        if args.replay:
            return replay(mod, args.replay, tier, root, vbin, extra)
        known_seen = {}
        # Known findings are replayed first: the line is printed while they last.
        arena = gitrepo.Arena(vbin)
        ctx = Ctx(arena, tier, extra)
        try:
            parts = {p.name: p for p in mod.PARTS}
            for f in findings:
                try:
                    run_one(parts[f["part"]], ctx, f["case"])
                except Violation as v:
                    if matches(f, v):
                        known_seen[f["signature"]] = f
                except (Skip, HarnessError):
                    pass
        finally:
            arena.close()
        for f in findings:
            if f["signature"] in known_seen:
                print("KNOWN-FINDING: property=%s %s" % (mod.ID, f["what"]))
        sys.stdout.flush()

        budget = 600 if tier == "quick" else 3 * 3600
        shrink_s = args.shrink if args.shrink is not None else (45 if tier == "quick" else 300)
        for i in range(WORKERS):
            out = os.path.join(root, "out%d.json" % i)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setsid()
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    worker(mod, tier, seed, i, root, out, vbin, extra, budget, shrink_s, args.scale)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            procs[pid] = out
        results, errors = [], []
        violation = None
        while procs:
            pid, status = os.wait()
            if pid not in procs:
                continue
            out = procs.pop(pid)
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r["violation"] and violation is None:
                    violation = r["violation"]
                    break
            else:
                errors.append("worker died with status %d" % status)
        kill_all(procs)
        return finish(mod, tier, seed, t0, t_built, results, errors, violation, known_seen, unbuilt)
    finally:
        kill_all(procs)
        shutil.rmtree(root, ignore_errors=True)


def kill_all(procs):
    for pid in list(procs):
        try:
            # Each worker leads its own session; its children have theirs.
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        procs.pop(pid, None)


def finish(mod, tier, seed, t0, t_built, results, errors, violation, known_seen, unbuilt):
    labels = collections.Counter()
    nontrivial, samples, known, unrep = set(), [], collections.Counter(), []
    parts = collections.Counter()
    evaluations = skipped = 0
    for r in results:
        labels.update(r["labels"])
        nontrivial.update(r["nontrivial"])
        samples.extend(r["samples"])
        known.update(r["known"])
        parts.update(r["parts"])
        unrep.extend(r["unreproduced"])
        errors.extend(r["errors"])
        evaluations += r["evaluations"]
        skipped += r["skipped"]
    for f in load_findings(mod.ID):
        if f["signature"] in known and f["signature"] not in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, f["what"]))
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples[:5],
            "set_aside": skipped,
            "per_part": dict(parts),
            "distribution": dict(labels.most_common(60)),
            "known_findings_hit": dict(known),
            "truncated_by_time": any(r["truncated"] for r in results),
            "unreproduced": unrep[:5],
            "harness_errors": errors[:5],
            "parts_left_out": unbuilt,
            "build_s": round(t_built - t0, 1),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", mod.ID + ".json")
    if violation:
        rp = os.path.join(VERIF, "evidence", "%s.replay.json" % mod.ID)
        with open(rp, "w") as f:
            json.dump({"property": mod.ID, "part": violation["part"], "case": violation["case"],
                       "signature": violation["sig"], "detail": violation["detail"]}, f, indent=1)
        ev["coverage"]["violation"] = violation
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d set aside, %.1fs (build %.1fs)" % (
        mod.ID, tier, seed, evaluations, len(nontrivial), skipped, time.time() - t0, t_built - t0))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(ev["coverage"]["distribution"], indent=1))
        for u in unrep[:3]:
            print("UNREPRODUCED:", json.dumps(u)[:3000])
    if violation:
        print(violation["sig"])
        print(violation["detail"])
        print("case: " + json.dumps(violation["case"]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, rp))
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR:", e)
        return 2
    return 0


def replay(mod, path, tier, root, vbin, extra):
    with open(path) as f:
        rep = json.load(f)
    part = {p.name: p for p in mod.PARTS}[rep["part"]]
    arena = gitrepo.Arena(vbin)
    try:
        info = run_one(part, Ctx(arena, tier, extra), rep["case"])
        print("holds:", json.dumps(info)[:2000])
        return 0
    except Violation as v:
        print(v.sig)
        print(v.detail)
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    except Skip as s:
        print("skipped:", s)
        return 0
    finally:
        arena.close()


if __name__ == "__main__":
    sys.exit(main())
