"""P10: the points and regions of loans and moves that the library reports for generated programs, against specs/lang/Regions.tla."""
from common import *
import check_own

SPEC = "specs/lang/Regions.tla"
LOANS = ("loan_read_refined", "loan_write_refined", "loan_drop_refined")


def rng(g):
    return {"l": g["start"]["line"] + 1, "c": g["start"]["column"] + 1, "el": g["end"]["line"] + 1, "ec": g["end"]["column"] + 1}


def entries(ok, kind):
    """The entries about loans or moves: key, point and ranges (none: not there)."""
    ps, rs = ok[f"{kind}_points"], ok[f"{kind}_regions"]
    out = []
    for k in sorted(set(ps) | set(rs), key=int):
        if k in rs and rs[k]["refiner_point"] != {kind.capitalize(): int(k)}:
            out.append({"k": int(k), "p": [], "r": []})
            continue
        out.append({"k": int(k), "p": [rng(ps[k])] if k in ps else [], "r": [[rng(x) for x in rs[k]["refined_ranges"]]] if k in rs else []})
    return out


def blamed(ok):
    """What boundaries and steps blame."""
    bs, ls, ms = [], set(), set()
    for b in ok["boundaries"]:
        d = b["data"]
        l = {d[x] for x in LOANS if d.get(x) is not None}
        m = {d[x] for x in ("path_moved",) if d.get(x) is not None}
        ls |= l
        ms |= m
        bs.append({"l": b["location"]["line"] + 1, "c": b["location"]["column"] + 1, "loans": sorted(l), "moves": sorted(m)})
    for s in ok["steps"]:
        for t in s["state"]:
            for _, d in t["state"]:
                ls |= {d[x]["value"] for x in LOANS if d[x].get("value") is not None}
                ms |= {d[x]["value"] for x in ("path_moved",) if d[x].get("value") is not None}
    return bs, sorted(ls), sorted(ms)


def regions(r):
    ok = r["raw"]
    bs, ls, ms = blamed(ok)
    return {"body": rng(ok["body_range"]), "loans": entries(ok, "loan"), "moves": entries(ok, "move"), "blames": bs, "bloans": ls, "bmoves": ms}


EMPTY = {"bad": False, "res": [{"k": "ok"}], "vars": [], "lines": [], "uses": [], "spans": [], "obs": [], "errs": [], "cut": {"l": 0, "c": 0}}


def run(pid):
    rep = Report(pid, "model_checking")
    build_aqh()
    progs = check_own.programs(1000 if THOROUGH else 100, 4, SEED + 300, pid)
    recs = []
    for r in check_own.observe(progs):
        if [x["k"] for x in r["res"]] != ["ok"]:
            continue
        e = told(regions, r)
        if not isinstance(e, dict):
            rep.violation(f"{r['file']} {r['name']}: {e}", file=r["file"])
            continue
        recs.append(dict(r, **e))
    # Programs that are not generated: their entries only have to be complete and in order.
    shapes = []
    for r in aqh("run", corpus("repo", "hand")):
        if "Ok" in r.get("r", {}):
            e = told(regions, {"raw": r["r"]["Ok"]})
            if not isinstance(e, dict):
                rep.violation(f"{r['file']} {r['name']}: {e}", file=r["file"])
                continue
            shapes.append(dict(EMPTY, file=os.path.relpath(r["file"], VERIF), name=r["name"], **e))
    log(f"{len(recs)} functions, {sum(len(r['loans']) for r in recs)} loans, {sum(len(r['moves']) for r in recs)} moves")
    t = tlc(SPEC, "Regions.cfg", env={"FACTS": check_own.facts(recs + shapes, pid)}, timeout=3000)
    if not t["ok"]:
        m = check_own.printed(t["out"], "MISMATCH")
        at = re.match(r'<<"MISMATCH", "[^"]*", "([^"]*)"', m[0]) if m else None
        rep.violation(f"{t['violated']}: " + (m[0] if m else "see trace"), trace=t["out"][-6000:], text=open(os.path.join(VERIF, at[1])).read() if at else None)
    for k in sorted(set(re.findall(r'^<<"KNOWN", "([\w-]+)"', "\n".join(check_own.printed(t["out"], "KNOWN")), re.M))):
        rep.violation(f"{k}: " + [x for x in check_own.printed(t["out"], "KNOWN") if f'"{k}"' in x][0], key=k)
    rep.cov = {"states": t["distinct"], "transitions": t["states"], "traces_validated_against_impl": len(recs) + len(shapes), "bodies_in_order_only": len(shapes), "programs": len(progs),
               "loans": sum(len(r["loans"]) for r in recs), "moves": sum(len(r["moves"]) for r in recs),
               "ranges": sum(len(x["r"][0]) for r in recs for x in r["loans"] + r["moves"] if x["r"]),
               "blamed": sum(len(r["bloans"]) + len(r["bmoves"]) for r in recs)}
    rep.assumptions = ["one statement per line", "the generated language has no closures, matches and generic user types"]
    return rep.finish()
