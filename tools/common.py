"""Shared by the checks: building the mirror of /repo, running the harness and TLC, reporting."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()


class Broken(Exception):
    """The check itself cannot give an answer."""


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, file=sys.stderr, flush=True)


def cpu():
    return os.cpu_count() or 4


# ---------------------------------------------------------------- building

def sync():
    os.makedirs(WORK, exist_ok=True)
    r = sh(". tools/env.sh; python3 tools/sync.py")
    if r.returncode:
        raise Broken("sync: " + r.stderr[-2000:])


def build_aqh():
    sync()
    r = sh(". tools/env.sh; cd harness/aqh && cargo build --offline -q")
    if r.returncode:
        raise Broken("harness build failed:\n" + r.stderr[-3000:])
    log("harness built")


# ---------------------------------------------------------------- harness

def aqh(mode, files, *flags, shard=None, timeout=600):
    """Runs the harness over the files (in parallel) and yields its records."""
    files = list(files)
    n = shard or max(1, min(8, -(-len(files) // (2 * cpu()))))
    groups = [files[i:i + n] for i in range(0, len(files), n)]

    def one(group):
        p = subprocess.run(["bash", os.path.join(VERIF, "tools/aqh.sh"), mode, *group, *flags],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        recs = [json.loads(l) for l in p.stdout.decode().split("\n") if l.startswith("{")]
        ended = {r["file"] for r in recs if "done" in r}
        if ended != set(group):
            if len(group) == 1:
                # The process died: that is the code's doing.
                return recs + [{"file": group[0], "name": "?", "panic": "the process died: " + p.stderr.decode()[-300:]}]
            out = []
            for f in group:
                out += one([f])
            return out
        return recs

    with cf.ThreadPoolExecutor(cpu()) as ex:
        for recs in ex.map(one, groups):
            yield from recs


# ---------------------------------------------------------------- TLC

def tlc(spec, cfg, env=None, workers=None, args=(), timeout=700, heap="6g", tag=None):
    """Returns TLC's result: ok, violated (name or None), out, states, distinct."""
    d = os.path.dirname(os.path.join(VERIF, spec))
    tag = tag or re.sub(r"\W", "_", os.path.basename(cfg))
    meta = os.path.join(WORK, "tlc", f"{tag}.{os.getpid()}")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ, **(env or {}))
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:+UseParallelGC"
    cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers or cpu()), "-metadir", meta, "-config",
           os.path.join(VERIF, os.path.dirname(spec), cfg) if not os.path.isabs(cfg) else cfg, *args, os.path.basename(spec)]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC took longer than {timeout} s on {spec} {cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode(errors="replace")
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    v = re.search(r"Error: (?:Invariant|Action property|Temporal properties|Property|Postcondition) ?(\w*)[^\n]*(?:violated|false)", out)
    ok = p.returncode == 0 and "No error has been found" in out
    if not ok and not v and "-simulate" in args and p.returncode == 0:
        ok = True
    if not ok and not v:
        raise Broken(f"TLC failed on {spec} {cfg} (exit {p.returncode}):\n" + out[-3000:])
    log(f"TLC {cfg}: {'ok' if ok else 'VIOLATED ' + v.group(1)}", m[-1] if m else "")
    return {"ok": ok, "violated": None if ok else v.group(1), "out": out,
            "states": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0}


# ---------------------------------------------------------------- reporting

def known(pid):
    """The listed findings of a property: the text after `KNOWN property=<id> key=<key>`."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def told(f, *args):
    """f(*args), or what is wrong with the output that it cannot make sense of."""
    try:
        return f(*args)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError) as e:
        import traceback
        return Malformed(f"{type(e).__name__} {e} at {traceback.extract_tb(e.__traceback__)[-1].line!r}")


class Malformed(Exception):
    pass


class Report:
    last = None

    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.violations = []
        self.found = {}
        self.known = known(pid)
        self.cov = {}
        self.assumptions = []
        Report.last = self

    def violation(self, what, key=None, **detail):
        """A violation; `key` identifies it among the known findings."""
        if key is not None and key in self.known:
            self.found[key] = self.known[key]
            return
        self.violations.append(dict(what=what, key=key, **detail))

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1),
              "violations": len(self.violations)}
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, what in self.known.items():
            if k in self.found:
                print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            rd = os.path.join(WORK, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + ".json")
            with open(path, "w") as f:
                json.dump(self.violations[:50], f, indent=1, default=str)
            for v in self.violations[:10]:
                log("violation:", str(v["what"])[:600])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        log("held")
        return 0


def corpus(*names):
    return sorted(f for n in names for f in glob.glob(os.path.join(VERIF, "corpus", n, "*.rs")))
