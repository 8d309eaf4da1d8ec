"""P01-P03: the recorded permission facts of every body against specs/perm/MirPerms.tla."""
import json
import os
import re
from common import *
import check_own

SPEC = "specs/perm/MirPerms.tla"


def run(pid):
    rep = Report(pid, "model_checking")
    build_aqh()
    # Generated programs.  P01: not the functions that use something without a value, or assign a part of it, which is an
    # error: what such a part is worth is decided where it is used (see Ownership.tla), not by the place's own record.
    progs = check_own.programs(400 if THOROUGH else 24, 4, SEED + 50, pid)
    files = corpus("repo", "hand") + list(progs)
    skip = set()
    if pid == "P01":
        with cf.ThreadPoolExecutor(cpu()) as ex:
            for (p, fns), es in zip(progs.items(), ex.map(check_own.errors, progs)):
                skip |= {(p, f["name"]) for f in fns for e in es if e["code"] in ("E0381", "E0382") and f["first"] <= e["l"] <= f["last"]}
    facts = os.path.join(WORK, f"facts_{pid}.ndjson")
    bodies = tainted = pairs = points = 0
    samples = []
    with open(facts, "w") as f:
        for r in aqh("facts", files):
            if "panic" in r:
                rep.violation(f"{r['name']} in {r['file']}: the analysis panics: {r['panic']}", key=f"{os.path.basename(r['file'])}::{r['name']}")
            elif "tainted" in r:
                tainted += 1
            elif "np" in r and (r["file"], r["name"]) not in skip:
                r["file"] = os.path.relpath(r["file"], VERIF)
                f.write(json.dumps(r) + "\n")
                bodies += 1
                points += r["np"]
                pairs += sum(1 for row in r["rec"] for x in row if x)
                if len(samples) < 3 and r["moves"] and r["loans"]:
                    samples.append(f"{r['file']} {r['name']}: {r['np']} points, {len(r['places'])} places, {len(r['loans'])} borrows")
    log(f"{bodies} bodies, {pairs} (point, place) pairs, {tainted} bodies that do not type-check left out")
    if bodies < 100 and not rep.violations:
        raise Broken(f"only {bodies} bodies")
    t = tlc(SPEC, f"MirPerms_{pid}.cfg", env={"FACTS": facts})
    if not t["ok"]:
        m = re.findall(r'<<\\"MISMATCH\\".*', t["out"])
        rep.violation(f"{t['violated']}: " + (m[0] if m else "see trace"), trace=t["out"][-6000:])
    rep.cov = {"states": t["distinct"], "transitions": t["states"], "traces_validated_against_impl": bodies,
               "points": points, "recorded_pairs_compared": pairs, "files": len(files), "samples": samples}
    rep.assumptions = ["rustc's move data, borrow set, liveness inputs and control-flow graph describe the body",
                       "overlap of constant-index and subslice patterns is taken as undecided"]
    return rep.finish()
