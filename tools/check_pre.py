"""P15: pages that TLC generates from specs/md/Preprocess.tla are processed by the real preprocessor with a stand-in for the
analysis command; what it did and what the page shows has to be a behaviour of the specification (PreTrace.tla, TLC)."""
import json
import os
import shutil
import tempfile
from common import *
import check_md
from check_md import Element, mdh

STUB = {"slow": "slow 150", "long": "slow 6000", "big": "big 300000", "bigerr": "bigerr 300000"}


def program(c, beh):
    """The program that behaves as told."""
    lines = [f"//stub {op} {STUB.get(b, b)}" for op, b in sorted(beh.items())]
    return "\n".join([f"fn program_{c}() {{}}", *lines[:1], "", f'static S: &str = "{c}→ü";', *lines[1:], "fn main() {}"])


def page(case):
    out = ["# Page", ""]
    for b in case["page"]:
        out += ["```aquascope," + "+".join(b["ops"]) + "".join("," + s for s in b["cfg"]), program(b["code"], case["beh"][b["code"] - 1]), "```", "", "Text.", ""]
    return "\n".join(out)


def split(args):
    """The options before and after the operation."""
    rest = args[args.index("aquascope") + 1:] if "aquascope" in args else args
    i = next((i for i, a in enumerate(rest) if not a.startswith("-")), len(rest) - 1)
    return rest[:i], rest[i] if rest else "", rest[i + 1:]


def replay(env, case):
    """Processes the page; the recorded events."""
    d = tempfile.mkdtemp(prefix="pre")
    try:
        log = os.path.join(d, "log")
        os.makedirs(os.path.join(d, "book"))
        codes = {program(c + 1, b): c + 1 for c, b in enumerate(case["beh"])}
        text = page(case)
        rs, p = mdh(env, [text], "pages", cwd=os.path.join(d, "book"), extra={"STUB_LOG": log})
        events, dirs, pids = [], {}, {}
        for r in map(json.loads, open(log)) if os.path.exists(log) else []:
            if r["what"] == "new":
                name = [a for a in r["args"] if not a.startswith("-")][-1]
                path = os.path.join(r["cwd"], name)
                events.append({"e": "new", "dir": dirs.setdefault(path, len(dirs) + 1)})
            else:
                before, op, after = split(r["args"])
                ev = {"e": r["what"], "dir": dirs.setdefault(r["cwd"], len(dirs) + 1), "op": op}
                if r["what"] == "run":
                    pids[r["pid"]] = True
                    ev.update(code=codes.get(r["code"], -1), before=before, after=after)
                else:
                    pids.pop(r["pid"], None)
                events.append(ev)
        alive = 0
        for pid in pids:
            try:
                stat = open(f"/proc/{pid}/stat").read()
                if "(cargo)" in stat and stat.split(") ")[1][0] != "Z":
                    alive += 1
                    os.kill(pid, 9)
            except OSError:
                pass
        r = rs[0] if rs else {"panic": "the process died"}
        note = None
        if "rs" in r:
            shown = []
            def answer(op, v):
                nonlocal note
                try:
                    v = (v[0] if isinstance(v, list) else v)["Ok"]
                    before, o, after = split(v["args"])
                    want = case["beh"][b["code"] - 1].get(op)
                    if (o != op or v["op"] != op) or (want == "big") != ("pad" in v) or (want == "odd") != ("Err" in v):
                        note = f"a response of {op} is one of {o}"
                    return {"op": op, "code": codes.get(v["code"], -1), "before": before, "after": after}
                except (KeyError, IndexError, TypeError, AttributeError):
                    note = f"the block shows as its response of {op}: {str(v)[:300]}"
                    return {"op": op, "code": -1, "before": [], "after": []}
            for (s, e, h), b in zip(r["rs"], case["page"]):
                x = Element(h).tags[0][1]
                got = []
                if json.loads(x["data-code"]) != program(b["code"], case["beh"][b["code"] - 1]) or json.loads(x["data-operations"]) != b["ops"] \
                        or json.loads(x["data-config"]) != {k: "true" for k in b["cfg"]}:
                    note = f"the block shows {x}"
                for op, v in json.loads(x["data-responses"]).items():
                    got.append(answer(op, v))
                shown.append(got)
            if len(r["rs"]) != len(case["page"]):
                note = f"{len(r['rs'])} replacements for {len(case['page'])} blocks"
            events.append({"e": "page", "shown": shown})
        elif "err" in r:
            events.append({"e": "error", "blames": [c for t, c in codes.items() if t in r["err"]], "alive": alive})
        else:
            note = str(r)[:300]
            events.append({"e": "died"})
        return {"page": case["page"], "beh": case["beh"], "events": events, "note": note, "said": r.get("err", "")[:300]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(pid):
    rep = Report(pid, "model_checking")
    env = check_md.build_mdh()
    env["RUSTC_PATH"] = "/bin/echo"
    design = tlc("specs/md/PreModel.tla", "Preprocess.cfg")
    if not design["ok"]:
        raise Broken("the specification violates " + str(design["violated"]))
    if THOROUGH:
        d3 = tlc("specs/md/PreModel.tla", "Preprocess_3.cfg", timeout=900)
        if not d3["ok"]:
            raise Broken("the specification violates " + str(d3["violated"]))
    gen, t = [], 0
    for num, consts in ((1000 if THOROUGH else 75, {}), (10 if THOROUGH else 2, {"Behs": "Hanging", "MaxBlocks": 3})):
        cs, r = check_md.simulate("specs/md/PreModel.tla", "Preprocess_sim.cfg", num, 60, consts)
        t += r["states"]
        for c in cs:
            pg, cfgs, beh = c["text"]
            gen.append({"page": [dict(b, cfg=sorted(k)) for b, k in zip(pg, cfgs)], "beh": beh, "fails": c["fails"]})
    # The ones that take long first; they only wait.
    gen.sort(key=lambda c: -sum(x in ("hang", "long") for b in c["beh"] for x in b.values()))
    n = {"pages": len(gen), "pages that fail": sum(c["fails"] for c in gen), "blocks": sum(len(c["page"]) for c in gen)}
    with cf.ThreadPoolExecutor(12) as ex:
        recs = list(ex.map(lambda c: told(replay, env, c), gen))
    for c, r in zip(gen, recs):
        if isinstance(r, Malformed):
            rep.violation(f"malformed output: {r}", page=c["page"], beh=c["beh"])
    recs = [r for r in recs if not isinstance(r, Malformed)]
    n["runs"] = sum(e["e"] == "run" for r in recs for e in r["events"])
    n["runs at the same time"] = sum(overlaps(r["events"]) for r in recs)
    log(f"replayed: {n}")
    f = os.path.join(WORK, f"pre.{os.getpid()}.json")
    with open(f, "w") as o:
        json.dump([{k: r[k] for k in ("page", "beh", "events")} for r in recs], o)
    try:
        v = tlc("specs/md/PreTrace.tla", "PreTrace.cfg", env={"TRACES": f})
    finally:
        os.unlink(f)
    if not v["ok"]:
        rep.violation(f"a recorded execution violates {v['violated']}", out=v["out"][-3000:])
    far = {}
    for m in re.finditer(r"AT (\d+) (\d+)", v["out"]):
        far[int(m.group(1))] = max(far.get(int(m.group(1)), 0), int(m.group(2)))
    for i, r in enumerate(recs):
        if v["ok"] and far.get(i + 1, 0) != len(r["events"]) + 1:
            k = far.get(i + 1, 1)
            rep.violation(f"not a behaviour of the specification from event {k} on: {json.dumps(r['events'][k - 1])[:300]}; said {r['said'][:200]!r}", **r)
        if r["note"]:
            rep.violation(r["note"], **r)
    if n["runs at the same time"] < 50:
        raise Broken("too few runs took place at the same time")
    rep.cov = {"states": design["distinct"], "transitions": design["states"] + t, "traces_validated_against_impl": len(recs), **n,
               "trace_states": v["distinct"], "samples": [recs[-1]["events"][:4], recs[0]["events"][-1:]]}
    rep.assumptions = ["the analysis command is a stand-in", "interleavings are those that real scheduling with runs of different lengths produced"]
    return rep.finish()


def overlaps(events):
    live, n = set(), 0
    for e in events:
        if e["e"] == "run":
            live.add(e["dir"])
            n += len(live) > 1
        elif e["e"] == "end":
            live.discard(e["dir"])
    return n
