"""P04-P06: what the library reports for generated programs of the ownership language, against specs/lang/Ownership.tla."""
import json
import os
import re
import shutil
from common import *
import own_gen

SPEC = "specs/lang/Ownership.tla"


def perm(p):
    return [c for c, k in zip("RWO", ("read", "write", "drop")) if p[k]]


def errors(path):
    """rustc's own verdict: the errors with code, position and end of the primary span (1-based, end exclusive)."""
    p = sh(f". tools/env.sh; rustc --edition 2021 --crate-type lib --emit=metadata -o {path}.rmeta -A warnings --error-format=json {path}")
    if os.path.exists(path + ".rmeta"):
        os.unlink(path + ".rmeta")
    out = []
    for l in p.stderr.splitlines():
        d = json.loads(l)
        if d.get("level") == "error" and d["spans"]:
            s = [x for x in d["spans"] if x["is_primary"]][0]
            out.append({"code": (d["code"] or {}).get("code", "?"), "l": s["line_start"], "c": s["column_start"], "el": s["line_end"], "ec": s["column_end"], "msg": d["message"]})
    return sorted(out, key=lambda e: (e["l"], e["c"]))


def programs(n, nfn, seed, tag, nbad=0):
    """Path -> records of the functions; the last program has the functions that show the known findings."""
    d = os.path.join(WORK, "own_" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = {}
    for i in range(n + 1):
        if i < n:
            text, recs = own_gen.program(seed * 100003 + i, nfn, nbad if i % 3 == 0 else 0)
        else:
            text, fns = own_gen.findings()
            recs = [own_gen.record(g) for g in fns]
        p = os.path.join(d, f"p{i}.rs")
        with open(p, "w") as f:
            f.write(text)
        out[p] = recs
    return out


STEP = ("More than one collection open", "no open collection dominates root location")


def result(r):
    """A body's result: its kind and, for a build error, where."""
    if "panic" in r:
        return {"k": "panic", "msg": str(r["panic"])[:200]}
    if "Ok" in r["r"]:
        return {"k": "ok"}
    e = r["r"]["Err"]
    if e["type"] == "BuildError":
        g = e["range"]
        return {"k": "build", "l": g["start"]["line"] + 1 if g else 0, "c": g["start"]["column"] + 1 if g else 0}
    return {"k": "step-early-exit" if any(m in e["msg"] for m in STEP) else "error", "msg": e["msg"][:200]}


def observe(progs, *flags):
    """Fills in what the library and rustc say about each function; returns the records."""
    with cf.ThreadPoolExecutor(cpu()) as ex:
        errs = dict(zip(progs, ex.map(errors, progs)))
    got = {}
    for r in aqh("run", progs, *flags):
        if "name" in r:
            got.setdefault(r["file"], {}).setdefault(r["name"], []).append(r)
    recs = []
    for p, fns in progs.items():
        for e in errs[p]:
            if not any(f["first"] <= e["l"] <= f["last"] and (f["bad"] or e["code"] in BORROWCK) for f in fns):
                raise Broken(f"generated program {p} is not well typed: {e}")
        for f in fns:
            rs = got.get(p, {}).get(f["name"], []) + [r for r in got.get(p, {}).get("?", []) if "panic" in r]
            f["file"] = os.path.relpath(p, VERIF)
            f["res"] = [result(r) for r in rs]
            f["obs"], f["errs"], f["cut"] = [], [], {"l": 0, "c": 0}
            if [r["k"] for r in f["res"]] == ["ok"] and not f["bad"]:
                ok = rs[0]["r"]["Ok"]
                f["obs"] = [{"l": b["location"]["line"] + 1, "c": b["location"]["column"] + 1, "exp": perm(b["expected"]), "act": perm(b["actual"])} for b in ok["boundaries"]]
                f["errs"] = [e for e in errs[p] if f["first"] <= e["l"] <= f["last"]]
                if f["errs"]:
                    f["cut"] = {"l": f["errs"][0]["el"], "c": f["errs"][0]["ec"]}
                f["raw"] = ok
            recs.append(f)
    return recs


BORROWCK = {"E0381", "E0382", "E0384", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0509", "E0594", "E0596", "E0597", "E0716", "E0713", "E0510"}


def facts(recs, tag):
    path = os.path.join(WORK, f"own_{tag}.ndjson")
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps({k: v for k, v in r.items() if k not in ("raw", "names")}) + "\n")
    return path


def unquote(line):
    return line.strip().strip('"').replace('\\"', '"').replace("\\\\", "\\")


def printed(out, what):
    return [unquote(l) for l in out.splitlines() if re.match(r'"?<<\\?"' + what + r'\\?"', l)]


def run(pid):
    rep = Report(pid, "model_checking")
    build_aqh()
    n = 1200 if THOROUGH else 100
    progs = programs(n, 4, SEED, pid, 2 if pid == "P06" else 0)
    recs = observe(progs)
    good = [r for r in recs if [x["k"] for x in r["res"]] == ["ok"] and not r["bad"]]
    log(f"{len(recs)} functions, {sum(len(r['obs']) for r in recs)} boundaries, {sum(1 for r in good if not r['errs'])} accepted by rustc")
    t = tlc(SPEC, f"Ownership_{pid}.cfg", env={"FACTS": facts(recs, pid)}, timeout=3000)
    if not t["ok"]:
        m = printed(t["out"], "MISMATCH")
        rep.violation(f"{t['violated']}: " + (m[0] if m else "see trace"), trace=t["out"][-6000:])
    for k in sorted(set(re.findall(r'^<<"KNOWN", "([\w-]+)"', "\n".join(printed(t["out"], "KNOWN")), re.M))):
        rep.violation(f"{k}: " + [x for x in printed(t["out"], "KNOWN") if f'"{k}"' in x][0], key=k)
    uses = {}
    for r in good:
        for b in r["obs"]:
            key = "".join(b["exp"]) + " has " + ("".join(b["act"]) or "nothing")
            uses[key] = uses.get(key, 0) + 1
    rep.cov = {"states": t["distinct"], "transitions": t["states"], "traces_validated_against_impl": len(recs),
               "boundaries_compared": sum(len(r["obs"]) for r in good), "boundaries_by_kind": dict(sorted(uses.items())),
               "accepted_by_rustc": sum(1 for r in good if not r["errs"]), "rejected_by_rustc": sum(1 for r in good if r["errs"]),
               "not_well_typed": sum(1 for r in recs if r["bad"]), "programs": len(progs)}
    rep.assumptions = ["rustc's error positions (JSON diagnostics of the pinned toolchain) are taken as the borrow checker's verdict",
                       "the generated language has no closures, indexing, pattern matches or generic user types"]
    return rep.finish()
