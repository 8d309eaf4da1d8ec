#!/usr/bin/env python3
"""plant.py ID [--check]: confirms a planted bug that lies in seeded/ID (patch.diff, demo.sh, meta.json): the patch applies,
the tests pass with it, the demo passes without and fails with it.  With --check: also that the property's check catches it.
/repo is restored afterwards."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(*c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    b = run("bash", "/opt/vp/build.sh")
    if b.returncode: return "build fails: " + b.stdout[-1500:]
    run("bash", "/opt/vp/test.sh", "/tmp/plant.json")
    o = json.load(open("/tmp/plant.json")); s = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    m = [x for x in s if x not in o["passed"]]
    return "tests fail: " + str(m[:8]) if m else None
def main():
    for sid in [a for a in sys.argv[1:] if not a.startswith("-")]:
        d = os.path.join(V, "seeded", sid); patch = os.path.join(d, "patch.diff")
        meta = json.load(open(os.path.join(d, "meta.json")))
        assert not run("git", "-C", "/repo", "status", "--short").stdout, "dirty /repo"
        res = []
        demo = lambda: run("bash", os.path.join(d, "demo.sh"), cwd="/repo")
        if "--nodemo" not in sys.argv:
            run("bash", "/opt/vp/build.sh")
            c = demo(); res.append("demo clean %d" % c.returncode)
            if c.returncode: print(c.stdout[-1500:])
        a = run("git", "-C", "/repo", "apply", patch)
        if a.returncode: print(sid, "patch does not apply", a.stdout); continue
        try:
            if "--nodemo" not in sys.argv:
                t = tests(); res.append(t or "tests pass")
                c = demo(); res.append("demo patched %d" % c.returncode)
            if "--check" in sys.argv:
                for p in [meta["property"]] + [x[2:] for x in sys.argv if x.startswith("+P") or x.startswith("-+")]:
                    c = run("python3", os.path.join(V, "tools/check.py"), p)
                    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or "violation:" in l]
                    res.append("check %s exit %d %s" % (p, c.returncode, str(v)[:500]))
                    if c.returncode not in (0, 1): res.append(c.stdout[-1500:])
        finally:
            run("git", "-C", "/repo", "checkout", "--", ".")
        print(sid, "|", " | ".join(res), flush=True)
main()
