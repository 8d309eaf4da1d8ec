"""P17: programs that TLC generates from specs/cli/Command.tla, given to the real permissions command; what it prints against
what the library has for each item alone (specs/cli/CommandTrace.tla, TLC)."""
import copy
import json
import os
import shutil
import tempfile
from common import *
import check_md

ITEMS = os.path.join(VERIF, "corpus/items")
OPTS = [(f, a) for a in (False, True) for f in (False, True)]
MANIFEST = '[package]\nname = "d"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'


def text(item):
    with open(os.path.join(ITEMS, item + ".rs")) as f:
        return f.read()


def build():
    build_aqh()
    r = sh(". tools/env.sh; cd work/ws && cargo build --offline -q --bin aquascope-driver --bin cargo-aquascope")
    if r.returncode:
        raise Broken("the command does not build:\n" + r.stderr[-3000:])
    log("command built")
    r = sh('. tools/env.sh; rustc --print sysroot; env -0')
    head, env = r.stdout.split("\n", 1)
    env = dict(x.split("=", 1) for x in env.split("\0") if "=" in x)
    for k in ("CARGO_TARGET_DIR", "RUST_LOG"):
        env.pop(k, None)
    env["LD_LIBRARY_PATH"] = head + "/lib"
    env["PATH"] = os.path.join(WORK, "target/debug") + ":" + env["PATH"]
    return env


def command(env, prog, o, times):
    """What the command prints for a program, each time."""
    d = tempfile.mkdtemp(prefix="cmd")
    try:
        os.makedirs(os.path.join(d, "src"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(MANIFEST)
        with open(os.path.join(d, "src/lib.rs"), "w") as f:
            f.write("".join(map(text, prog)))
        args = ["cargo-aquascope", "aquascope", "permissions"] + ["--show-flows"] * o[0] + (["--steps-include-mode", "All"] if o[1] else [])
        return [subprocess.run(args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200).stdout.decode(errors="replace") for _ in range(times)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(r):
    """The range of an entry's body, if it tells."""
    if "Ok" in r:
        return r["Ok"]["body_range"]
    return r["Err"].get("range")


def moved(x, by):
    """An entry with all its lines moved; file numbers mean nothing."""
    if isinstance(x, dict):
        return {k: (v - by if k == "line" else moved(v, by)) for k, v in x.items() if k != "filename"}
    if isinstance(x, list):
        return [moved(v, by) for v in x]
    return x


class Numbers:
    """The same number for the same content."""
    def __init__(self):
        self.of = {}

    def __call__(self, x):
        return self.of.setdefault(json.dumps(x, sort_keys=True), len(self.of) + 1)


def entry(num, item, start, r):
    """An entry in the terms of the specification."""
    r = moved(r, start)
    if "Ok" not in r:
        return {"i": item, "k": num(r["Err"]), "b": [], "s": 0, "r": 0}
    ok = dict(r["Ok"])
    bs = []
    for b in ok.pop("boundaries"):
        f = b.pop("expecting_flow", None)
        bs.append({"k": num(b), "f": num(f) if f is not None else 0})
    steps = ok.pop("steps")
    return {"i": item, "k": 0, "b": bs, "s": num(steps), "r": num(ok)}


def whose(prog, r):
    """The item that an entry is about, and its first line (0-based)."""
    line, g = 0, body(r)
    for x in prog:
        n = text(x).count("\n")
        if g and line <= g["start"]["line"] < line + n:
            return x, line
        line += n
    return None, 0


ALONE = {"early": "early"}      # Items without a range in their result: told by their name.


def entries(num, prog, rs):
    out = []
    for r in rs:
        x, start = whose(prog, r)
        if x is None and "Err" in r and body(r) is None:
            x, start = next((i for i in prog if i in ALONE), None), 0
        out.append(entry(num, x or "?", start, r))
    return out


def reference(num, items, needs):
    """What the library has for each item alone (next to what it needs, free of errors)."""
    d = os.path.join(WORK, f"cmd.{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = {}
    try:
        for x in items:
            p = os.path.join(d, x + ".rs")
            with open(p, "w") as f:
                f.write(text(x) + "".join(text(y) for y in needs.get(x, [])))
            files[p] = x
        ref = {x: [] for x in items}
        for o in OPTS:
            got = {x: [] for x in items}
            for r in aqh("run", files, *(["--flows"] * o[0] + ["--all"] * o[1])):
                x = files[r["file"]]
                if "panic" in r:
                    got[x].append({"Err": {"type": "panic", "msg": r["panic"]}})
                elif "r" in r and whose([x, *needs.get(x, [])], r["r"])[0] in (x, None):
                    got[x].append(r["r"])
            for x in items:
                ref[x].append(entries(num, [x], got[x]))
        return ref
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(pid):
    rep = Report(pid, "model_checking")
    env = build()
    design = tlc("specs/cli/CommandModel.tla", "Command.cfg")
    if not design["ok"]:
        raise Broken("the specification violates " + str(design["violated"]))
    gen, sim_states = [], 0
    for cfg in ("Command_sim.cfg", "Command_linked.cfg"):
        cs, t = check_md.simulate("specs/cli/CommandModel.tla", cfg, 300 if THOROUGH else 16, 40, {})
        sim_states += t["states"]
        gen += [(c["text"][0], (c["text"][1]["flows"], c["text"][1]["all"])) for c in cs]
    items = sorted(f[:-3] for f in os.listdir(ITEMS))
    num = Numbers()
    ref = reference(num, items, {"useopaque": ["opaque_ok"], "useopaquety": ["opaquety_ok"], "useopaquemet": ["opaquemet_ok"],
                                "useconstfn": ["constfn_ok"]})
    log(f"{len(items)} items alone")
    with cf.ThreadPoolExecutor(cpu()) as ex:
        outs = list(ex.map(lambda x: command(env, *x[1], 2 if x[0] % 8 == 0 else 1), enumerate(gen)))
    runs, raw = [], []
    for (prog, o), texts in zip(gen, outs):
        for s in texts:
            rs = told(json.loads, s)
            ok = isinstance(rs, list) and s.count("\n") == 1 and all(isinstance(r, dict) and len(r) == 1 for r in rs)
            es = told(entries, num, prog, copy.deepcopy(rs)) if ok else []
            if isinstance(es, Malformed):
                ok, es = False, []
            runs.append({"prog": prog, "o": OPTS.index(o) + 1, "out": es, "json": ok})
            raw.append(s[:20000])
    n = {"programs": len(gen), "runs": len(runs), "results": sum(len(r["out"]) for r in runs)}
    log(f"run: {n}")
    f = os.path.join(WORK, f"cmd.{os.getpid()}.json")
    left, trace_states = list(range(len(runs))), 0
    try:
        for _ in range(6):
            with open(f, "w") as h:
                json.dump({"ref": ref, "runs": [runs[i] for i in left]}, h)
            v = tlc("specs/cli/CommandTrace.tla", "CommandTrace.cfg", env={"TRACES": f}, workers=1)
            trace_states += v["distinct"]
            if v["ok"]:
                break
            at = int((re.findall(r"^\W*at = (\d+)", v["out"], re.M) or ["0"])[-1])
            if at == 0:
                rep.violation("the options change more than they name", options=v["violated"])
                break
            i = left.pop(at - 1)
            exp = sum((ref[x][runs[i]["o"] - 1] for x in runs[i]["prog"]), [])
            rep.violation(f"{v['violated']}: {runs[i]['prog']} with {OPTS[runs[i]['o'] - 1]} prints {[(e['i'], 'other' if e not in exp else 'right') for e in runs[i]['out']]}",
                          prog=runs[i]["prog"], text="".join(map(text, runs[i]["prog"])), said=raw[i])
    finally:
        os.unlink(f)
    if n["results"] < 300 and not rep.violations:
        raise Broken("too few results")
    rep.cov = {"states": design["distinct"], "transitions": design["states"] + sim_states, "traces_validated_against_impl": len(runs), **n,
               "trace_states": trace_states, "items": len(items), "samples": [gen[0], gen[1]]}
    rep.assumptions = ["programs are made of the items in corpus/items", "one crate with one target"]
    return rep.finish()
