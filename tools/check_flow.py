"""P11: the flow permissions the library reports for generated functions about lifetimes, against specs/flow/Flow.tla."""
import shutil
from common import *
import check_own
import flow_gen

SPEC = "specs/flow/Flow.tla"


def marked(ok):
    """The boundaries that are marked as violating flow."""
    out = []
    for b in ok["boundaries"]:
        x = b.get("expecting_flow")
        if x is not None and x["is_violation"] != (x["kind"] != "Ok"):
            raise ValueError(f"is_violation and kind do not agree: {x}")
        if x is not None and x["is_violation"]:
            out.append({"l": b["location"]["line"] + 1, "c": b["location"]["column"] + 1, "kind": x["kind"]})
    return out


def about(ok):
    """How much is said about flows."""
    return sum(b.get("expecting_flow") is not None for b in ok["boundaries"])


def records(n, nfn, seed, tag, rep):
    d = os.path.join(WORK, "flow_" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    progs = {}
    for i in range(n + 1):
        text, recs = flow_gen.program(seed * 100003 + i, nfn) if i < n else flow_gen.findings()
        p = os.path.join(d, f"p{i}.rs")
        with open(p, "w") as f:
            f.write(text)
        progs[p] = recs
    with cf.ThreadPoolExecutor(cpu()) as ex:
        errs = dict(zip(progs, ex.map(check_own.errors, progs)))
    with_, without = ({(r["file"], r["name"]): r["r"] for r in aqh("run", list(progs), *fl) if "r" in r} for fl in (["--flows"], []))
    out = []
    for p, fns in progs.items():
        for r in fns:
            es = [e for e in errs[p] if r["first"] <= e["l"] <= r["last"]]
            if any(e["code"] not in ("?", "E0515", "E0597", "E0621", "E0521") for e in es):
                raise Broken(f"generated program {p} is not well typed: {es}")
            a, b = (x.get((p, r["name"]), {}).get("Ok") for x in (with_, without))
            if a is None or b is None:
                rep.violation(f"{p} {r['name']}: no result", file=p, text=open(p).read())
                continue
            obs, quiet = told(marked, a), told(about, b)
            if not isinstance(obs, list):
                rep.violation(f"{p} {r['name']}: {obs}", file=p, text=open(p).read())
                continue
            out.append(dict(r, file=os.path.relpath(p, VERIF), errs=len(es), obs=obs, quiet=quiet if isinstance(quiet, int) else -1))
    return out


def run(pid):
    rep = Report(pid, "model_checking")
    build_aqh()
    recs = records(400 if THOROUGH else 60, 8, SEED, pid, rep)
    log(f"{len(recs)} functions, {sum(len(r['obs']) for r in recs)} marks")
    t = tlc(SPEC, "Flow.cfg", env={"FACTS": check_own.facts(recs, pid)}, timeout=3000)
    if not t["ok"]:
        m = check_own.printed(t["out"], "MISMATCH")
        at = re.match(r'<<"MISMATCH", "[^"]*", "([^"]*)"', m[0]) if m else None
        rep.violation(f"{t['violated']}: " + (m[0] if m else "see trace"), trace=t["out"][-6000:], text=open(os.path.join(VERIF, at[1])).read() if at else None)
    for k in sorted(set(re.findall(r'^<<"KNOWN", "([\w-]+)"', "\n".join(check_own.printed(t["out"], "KNOWN")), re.M))):
        rep.violation(f"{k}: " + [x for x in check_own.printed(t["out"], "KNOWN") if f'"{k}"' in x][0], key=k)
    kinds = {}
    for r in recs:
        for o in r["obs"]:
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    rep.cov = {"states": t["distinct"], "transitions": t["states"], "traces_validated_against_impl": len(recs), "marks_by_kind": kinds,
               "rejected_by_rustc": sum(1 for r in recs if r["errs"]), "accepted_by_rustc": sum(1 for r in recs if not r["errs"])}
    rep.assumptions = ["shared references, one struct with a lifetime, vectors of references; no closures, traits or branches as values"]
    return rep.finish()
