"""P12, P13: pages and block texts that TLC generates from specs/md/{Marks,Page}.tla, replayed in the real preprocessor."""
import html.parser
import json
import os
import re
import shutil
import tempfile
from common import *

REAL = {"U2": "é", "U3": "→", "U4": "𝔘", "LS": "\u2028"}


def real(units):
    return "".join(REAL.get(u, u) for u in units)


def build_mdh():
    env = build_stub()
    r = sh(". tools/env.sh; cd harness/mdh && cargo build --offline -q")
    if r.returncode:
        raise Broken("harness build failed:\n" + r.stderr[-3000:])
    log("harness built")
    return env


def build_stub():
    sync()
    d = os.path.join(WORK, "stub")
    os.makedirs(d, exist_ok=True)
    r = sh(f"gcc -O1 -static -o {d}/cargo.{os.getpid()} harness/stub/cargo.c && mv {d}/cargo.{os.getpid()} {d}/cargo")
    if r.returncode:
        raise Broken("stub build failed:\n" + r.stderr[-3000:])
    r = sh(". tools/env.sh; rustup which rustc")
    return {"PATH": d + ":" + os.environ["PATH"], "MIRI_SYSROOT": "/nonexistent/miri", "RUSTC_PATH": r.stdout.strip(), "HOME": os.environ.get("HOME", "/root")}


MDH = os.path.join(WORK, "target/debug/mdh")


def mdh(env, pages, mode="pages", cwd=None, timeout=300, extra=None):
    """Runs the preprocessor over the pages; a list of results."""
    tmp = cwd or tempfile.mkdtemp(prefix="mdh")
    t2 = tempfile.mkdtemp(prefix="mdt")
    try:
        p = subprocess.run([MDH, mode], cwd=tmp, env=dict(env, TMPDIR=t2, **(extra or {})), timeout=timeout,
                           input="".join(json.dumps({"id": i, "page": x}) + "\n" for i, x in enumerate(pages)).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    finally:
        if not cwd:
            shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(t2, ignore_errors=True)
    return [json.loads(l) for l in p.stdout.decode().split("\n") if l.startswith("{")], p


def pages(env, texts):
    n = max(1, -(-len(texts) // (cpu() * 2)))
    groups = [texts[i:i + n] for i in range(0, len(texts), n)]
    out = []
    with cf.ThreadPoolExecutor(cpu()) as ex:
        for g, (rs, p) in zip(groups, ex.map(lambda g: mdh(env, g), groups)):
            if len(rs) != len(g):
                if rs and "new" in rs[0]:
                    raise Broken("the preprocessor does not start: " + str(rs[0]))
                rs = rs + [{"panic": "the process died: " + p.stderr.decode()[-200:]}] + [{"skip": True}] * (len(g) - len(rs) - 1)
            out += rs
    return out


class Element(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__()
        self.tags, self.text, self.classes = [], "", []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, dict(attrs)))
        self.classes.append((dict(attrs).get("class") or "").split())

    def handle_data(self, d):
        self.text += d


def cases(spec, cfg, args=(), seed=None, timeout=600, consts=None):
    """The cases that TLC prints, and its counts."""
    if consts is not None:
        text = open(os.path.join(VERIF, os.path.dirname(spec), cfg)).read()
        for k, v in consts.items():
            text = re.sub(rf"\b{k} (=|<-) \w+", lambda m: f"{k} {m.group(1)} {v}", text)
        cfg = os.path.join(WORK, "_".join([os.path.basename(cfg)[:-4], *map(str, consts.values()), str(os.getpid())]) + ".cfg")
        with open(cfg, "w") as f:
            f.write(text)
    t = tlc(spec, cfg, args=args, timeout=timeout)
    if consts is not None:
        os.unlink(cfg)
    if not t["ok"]:
        raise Broken(f"the specification does not satisfy {t['violated']}:\n" + "\n".join(l for l in t["out"].splitlines() if "CASE" not in l)[-3000:])
    seen = {}
    for l in t["out"].splitlines():
        if l.startswith('"CASE '):
            c = json.loads(json.loads(l)[5:])
            seen.setdefault(json.dumps(c["text"]), c)
    t["out"] = ""
    return list(seen.values()), t


def simulate(spec, cfg, num, depth, consts):
    return cases(spec, cfg, ("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(SEED)), consts=consts)


def annotations(a):
    return {"hidden": a["hidden_lines"], "interp": a["interp"]["state_locations"], "focus": a["stepper"]["focused_lines"],
            "paths": sorted((int(k), m["type"], m["value"]) for k, v in a["stepper"]["focused_paths"].items() for m in v),
            "bounds": a["boundaries"]["focused_lines"]}


def marks(rep, env):
    if THOROUGH:
        gen = [cases("specs/md/Marks.tla", "Marks.cfg", consts={"MaxToks": 4}, timeout=1500), simulate("specs/md/Marks.tla", "Marks.cfg", 30000, 90, {"MaxToks": 14, "Tokens": "Long"})]
    else:
        gen = [cases("specs/md/Marks.tla", "Marks.cfg"), simulate("specs/md/Marks.tla", "Marks.cfg", 2500, 70, {"MaxToks": 9, "Tokens": "Long"})]
    cs = [c for g, _ in gen for c in g]
    for c in cs:
        c["page"] = "```aquascope,interpreter\n" + real(c["text"]) + "\n```"
    rs = pages(env, [c["page"] for c in cs])
    kinds = {}
    for c, r in zip(cs, rs):
        if "skip" in r:
            continue
        want = {"code": real(c["code"]), "hidden": c["hidden"], "interp": c["interp"], "focus": c["focus"],
                "paths": sorted((p["l"], p["t"], real(p["v"])) for p in c["paths"]), "bounds": c["bounds"]}
        if "rs" in r and len(r["rs"]) == 1:
            e = Element(r["rs"][0][2]).tags[0][1]
            got = dict(annotations(json.loads(e["data-annotations"])), code=json.loads(e["data-code"]))
        else:
            got = r
        if got != want:
            rep.violation(f"block text {real(c['text'])!r}: expected {want}, got {got}", page=c["page"], expected=want, got=got)
        for k in ("hidden", "interp", "focus", "paths", "bounds"):
            if c[k]:
                kinds[k] = kinds.get(k, 0) + 1
    log(f"{len(cs)} texts replayed, {len(rep.violations)} differ")
    rep.cov = {"states": sum(t["distinct"] for _, t in gen[:1]), "transitions": sum(t["states"] for _, t in gen), "traces_validated_against_impl": len(cs),
               "texts_with": kinds, "samples": [cs[len(cs) // 2], cs[-1]]}
    rep.assumptions = ["texts are made of 26 tokens; every text of up to %d tokens, and random longer ones" % (4 if THOROUGH else 3)]


VARIANT = {"none": (set(), ""), "gained": ({"perm-diff-add"}, "+"), "lost": ({"perm-diff-sub"}, ""), "missing": ({"missing"}, "")}
SPECIAL = {"perm-diff-add", "perm-diff-sub", "missing"}


def page_result(r):
    """What the replacements of a page are, as the specification tells it."""
    out = []
    for s, e, h in r["rs"]:
        el = Element(h)
        d = el.tags[0][1]
        if d.get("class") == "aquascope-embed":
            out.append(["block", s, e, json.loads(d["data-operations"]), json.loads(d["data-config"]), json.loads(d["data-code"]), sorted(json.loads(d["data-responses"]))])
        else:
            cl = set(sum(el.classes, []))
            out.append(["perm", s, e, sorted(cl & {"read", "write", "own", "flow"}), sorted(cl & SPECIAL), el.text])
    return out


def whole_pages(rep, env):
    if THOROUGH:
        gen = [cases("specs/md/Page.tla", "Page.cfg", timeout=900), simulate("specs/md/Page.tla", "Page.cfg", 60000, 180, {"MaxToks": 12, "Tokens": "Long"})]
    else:
        gen = [cases("specs/md/Page.tla", "Page.cfg", consts={"MaxToks": 2, "Tokens": "Long"}), simulate("specs/md/Page.tla", "Page.cfg", 4000, 140, {"MaxToks": 8, "Tokens": "Long"})]
    cs = [c for g, _ in gen for c in g]
    rs = pages(env, [real(c["text"]) for c in cs])
    n = {"block": 0, "perm": 0, "failed": 0, "several blocks": 0}
    for c, r in zip(cs, rs):
        if "skip" in r:
            continue
        want = []
        for x in c["found"]:
            if x["kind"] == "block":
                ops = [real(o) for o in x["ops"]]
                want.append(["block", x["s"], x["e"], ops, {real(k): real(v) for k, v in x["config"]}, real(x["code"]), sorted(set(ops))])
            else:
                opt = "".join(x["opt"])
                p = "".join(x["perm"])
                want.append(["perm", x["s"], x["e"], [p], sorted(VARIANT[opt][0]), VARIANT[opt][1] + p[0].upper()])
            n[x["kind"]] += 1
        n["several blocks"] += sum(1 for x in c["found"] if x["kind"] == "block") > 1
        n["failed"] += c["failed"]
        if c["failed"]:
            ok = "err" in r
        else:
            ok = "rs" in r and page_result(r) == want
        if not ok:
            got = page_result(r) if "rs" in r else r
            rep.violation(f"page {real(c['text'])!r}: expected {'an error' if c['failed'] else want}, got {got}", page=real(c["text"]), expected=want, got=got)
    log(f"{len(cs)} pages replayed, {len(rep.violations)} differ")
    rep.cov = {"states": sum(t["distinct"] for _, t in gen[:1]), "transitions": sum(t["states"] for _, t in gen), "traces_validated_against_impl": len(cs),
               "replacements": n, "samples": [cs[len(cs) // 2]["text"], cs[-1]["text"]]}
    rep.assumptions = ["pages are made of 40 tokens; every page of up to two, and random longer ones", "the analysis command is a stand-in"]


def run(pid):
    rep = Report(pid, "model_checking")
    env = build_mdh()
    {"P12": marks, "P13": whole_pages}[pid](rep, env)
    return rep.finish()
