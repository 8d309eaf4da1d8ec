"""P07, P08: the permission steps the library reports for generated programs of the ownership language, against specs/lang/Steps.tla."""
from common import *
import check_own

SPEC = "specs/lang/Steps.tla"
KEYS = (("R", "read"), ("W", "write"), ("O", "drop"))


def before(x):
    return x["type"] == "Low" or x["type"] == "None" and bool(x.get("value"))


def after(x):
    return x["type"] == "High" or x["type"] == "None" and bool(x.get("value"))


def rows(r):
    """The rows of the tables of a function; a text instead if there is something that cannot be one."""
    out = []
    for s in r["raw"]["steps"]:
        if s["location"]["start"] != s["location"]["end"]:
            return f"a table is located at {s['location']}"
        for t in s["state"]:
            for name, d in t["state"]:
                p = r["names"].get(name)
                if p is None:
                    return f"a row is about {name}"
                out.append({"l": s["location"]["start"]["line"] + 1, "v": p["v"], "pr": p["pr"], "lb": before(d["is_live"]), "la": after(d["is_live"]),
                            "b": [c for c, k in KEYS if before(d["permissions"][k])], "a": [c for c, k in KEYS if after(d["permissions"][k])]})
    return out


def records(n, pid, rep, every):
    """Functions with their rows."""
    progs = check_own.programs(n, 4, SEED + (700 if every else 0), pid + ("all" if every else ""))
    out = []
    for r in check_own.observe(progs, *(["--all"] if every else [])):
        if [x["k"] for x in r["res"]] != ["ok"]:
            continue
        ss = told(rows, r)
        if not isinstance(ss, list):
            rep.violation(f"{r['file']} {r['name']}: {ss}", file=r["file"], text=open(os.path.join(VERIF, r["file"])).read())
            continue
        out.append(dict(r, steps=ss, places=list(r["names"].values()), all=every))
    return out, len(progs)


def run(pid):
    rep = Report(pid, "model_checking")
    build_aqh()
    recs, n1 = records(1000 if THOROUGH else 90, pid, rep, False)
    more, n2 = records(200 if THOROUGH else 16, pid, rep, True)
    recs += more
    log(f"{len(recs)} functions, {sum(len(r['steps']) for r in recs)} rows")
    t = tlc(SPEC, f"Steps_{pid}.cfg", env={"FACTS": check_own.facts(recs, pid)}, timeout=3000)
    if not t["ok"]:
        m = check_own.printed(t["out"], "MISMATCH")
        at = re.match(r'<<"MISMATCH", "[^"]*", "([^"]*)"', m[0]) if m else None
        rep.violation(f"{t['violated']}: " + (m[0] if m else "see trace"), trace=t["out"][-6000:], text=open(os.path.join(VERIF, at[1])).read() if at else None)
    for k in sorted(set(re.findall(r'^<<"KNOWN", "([\w-]+)"', "\n".join(check_own.printed(t["out"], "KNOWN")), re.M))):
        rep.violation(f"{k}: " + [x for x in check_own.printed(t["out"], "KNOWN") if f'"{k}"' in x][0], key=k)
    if sum(len(r["steps"]) for r in recs) < 2000 and not rep.violations:
        raise Broken("too few rows")
    lines = {}
    for r in recs:
        kinds = {l["line"]: l["k"] for l in r["lines"]}
        for s in r["steps"]:
            k = kinds.get(s["l"], "entry")
            lines[k] = lines.get(k, 0) + 1
    rep.cov = {"states": t["distinct"], "transitions": t["states"], "traces_validated_against_impl": len(recs), "programs": n1 + n2,
               "rows": sum(len(r["steps"]) for r in recs), "rows_by_kind_of_line": lines, "rows_with_all_places": sum(len(r["steps"]) for r in recs if r["all"]),
               "rejected_by_rustc": sum(1 for r in recs if r["errs"])}
    rep.assumptions = ["one statement per line", "whether the condition belongs to the step on a branch's line is left open", "rows on the line of the first error may be missing",
                       "the generated language has no closures, matches and generic user types"]
    return rep.finish()
