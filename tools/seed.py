"""Developer tool for planted bugs (not used by any check).

  seed.py capture ID      writes seeded/ID/patch.diff from /repo's working tree and reverts it
  seed.py tests ID...     applies all the patches together, builds, runs the test suite, reverts
  seed.py demo ID...      each: demo on the unchanged tree and with the patch (build.sh each time)
  seed.py check ID...     each: runs the property's quick check with the patch applied
"""
import json
import os
import subprocess
import sys
import time

V = "/verif"
R = "/repo"


def sh(*a, **kw):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def revert():
    sh("git", "-C", R, "checkout", "--", ".")


def apply(i):
    p = sh("git", "-C", R, "apply", "%s/seeded/%s/patch.diff" % (V, i))
    if p.returncode:
        raise SystemExit("%s does not apply:\n%s" % (i, p.stdout))


def clean():
    s = sh("git", "-C", R, "status", "--porcelain", "--untracked-files=no").stdout
    if s.strip():
        raise SystemExit("/repo is not clean:\n" + s)


def build():
    p = sh("bash", "/opt/vp/build.sh")
    if p.returncode:
        print(p.stdout[-3000:])
    return p.returncode


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "capture":
        d = "%s/seeded/%s" % (V, ids[0])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
        assert diff.strip()
        open(d + "/patch.diff", "wb").write(diff)
        revert()
        return
    clean()
    try:
        if cmd == "tests":
            for i in ids:
                apply(i)
            if build():
                return
            sh("bash", "/opt/vp/test.sh", "/tmp/seed/out.json")
            out = json.load(open("/tmp/seed/out.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(out.get("passed", []))
            bad = [t for t in stable if t not in passed]
            print("tests:", "all %d stable tests pass" % len(stable) if not bad else "FAILING: %s" % bad)
        elif cmd == "demo":
            if build():
                return
            for i in ids:
                p = sh("bash", "%s/seeded/%s/demo.sh" % (V, i), cwd=R)
                print(i, "unchanged:", p.returncode, "OK" if p.returncode == 0 else "BAD\n" + p.stdout[-3000:])
            for i in ids:
                apply(i)
                if build() == 0:
                    t = time.time()
                    p = sh("bash", "%s/seeded/%s/demo.sh" % (V, i), cwd=R)
                    print(i, "patched:", p.returncode, "OK" if p.returncode else "BAD\n" + p.stdout[-3000:], "%.0fs" % (time.time() - t))
                revert()
        elif cmd == "check":
            for i in ids:
                prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
                apply(i)
                p = sh("./run.sh", os.environ.get("PROP", prop), cwd=V)
                revert()
                lines = p.stdout.splitlines()
                print(i, prop, "CAUGHT" if p.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in lines) else "MISSED (%d)" % p.returncode)
                print("   ", [l for l in lines if l.startswith(prop)][:2])
                sys.stdout.flush()
    finally:
        revert()


main()
