"""P09: bodies that TLC generates from specs/cfg/Skel.tla, and those of the corpus; their control flow as rustc has it, and what
the IRMapper of /repo answers about it, which specs/cfg/Dom.tla (TLC) compares with dominance by paths."""
import glob
import os
import shutil
from common import *
import cfg_gen
import check_md
from check_own import printed



def bodies(rep):
    """Bodies with what was answered: of skeletons and of the corpus."""
    d = os.path.join(WORK, f"dom.{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        cs, t = check_md.cases("specs/cfg/Skel.tla", "Skel.cfg", consts={"Max": 3 if THOROUGH else 2})
        skels = [c["text"] for c in cs]
        exhaustive = len(skels)
        cs, t2 = check_md.simulate("specs/cfg/Skel.tla", "Skel_sim.cfg", 400 if THOROUGH else 60, 120, {})
        skels += [c["text"] for c in cs]
        files = cfg_gen.files(skels, d, 40)
        out = []
        for r in aqh("cfg", list(files) + sorted(glob.glob(os.path.join(VERIF, "corpus/*/*.rs")))):
            r["file"] = os.path.relpath(r["file"], VERIF)
            if "answers" in r:
                out.append(r)
            elif "panic" in r:
                rep.violation(f"no answers about {r['file']} {r.get('name')}: {r['panic']}", **{k: r[k] for k in ("file", "panic")})
        texts = {os.path.relpath(f, VERIF): open(f).read() for f in files}
        return out, {"skeletons": len(skels), "all_up_to_size": 3 if THOROUGH else 2, "exhaustive": exhaustive, "longest": max(map(len, skels))}, t["states"] + t2["states"], texts
    finally:
        shutil.rmtree(d, ignore_errors=True)


def source(texts, r):
    """The function that a body is."""
    t = texts.get(r["file"])
    i = t.find("fn " + r["name"].split("::")[0] + "(") if t else -1
    return t[i:t.find("\nfn ", i + 1)] if i >= 0 else None


def compare(rs, cfg):
    """TLC's result and the bodies that differ, with a mismatch."""
    f = os.path.join(WORK, f"dom.{os.getpid()}.ndjson")
    try:
        with open(f, "w") as h:
            for r in rs:
                h.write(json.dumps(r) + "\n")
        v = tlc("specs/cfg/Dom.tla", cfg, env={"FACTS": f})
    finally:
        if os.path.exists(f):
            os.unlink(f)
    if not v["ok"]:
        raise Broken("the specification violates " + str(v["violated"]))
    wrong = {}
    for m in re.finditer(r'<<"MISMATCH", "([^"]*)", "([^"]*)", (.*)>>$', "\n".join(printed(v["out"], "MISMATCH")), re.M):
        wrong.setdefault((m[1], m[2]), m[3][:200])
    if v["out"].count('"MISMATCH"') and not wrong:
        raise Broken("mismatches cannot be read")
    return v, wrong


def run(pid):
    rep = Report(pid, "model_checking")
    build_aqh()
    rs, n, gen_states, texts = bodies(rep)
    log(f"{len(rs)} bodies")
    if len(rs) < 1000 and not rep.violations:
        raise Broken("too few bodies")
    v, wrong = compare(rs, "Dom_goon.cfg")
    if wrong:
        # Known finding: the answers hold of the control flow with the edges that the compiler only pretends.
        alike = [r for r in rs if (r["file"], r["name"]) in wrong and any(b["next"] != b["pretended"] for b in r["blocks"])]
        w, other = compare(alike, "Dom_pretended.cfg") if alike else (v, {})
        log(f"{len(wrong)} bodies differ, {len(alike)} have pretended edges, {len(other)} of them differ even with these")
        for r in rs:
            key = (r["file"], r["name"])
            if key in wrong:
                known = r in alike and key not in other
                rep.violation(f"{r['file']} {r['name']}: {wrong[key]} differs from dominance by paths", key="imaginary-edges" if known else None,
                              file=r["file"], fn=r["name"], text=source(texts, r), answers=r)
    rep.cov = {"states": v["distinct"], "transitions": v["states"] + gen_states, "traces_validated_against_impl": len(rs), **n,
               "blocks": sum(len(r["blocks"]) for r in rs), "pairs_of_points": sum(len(r["points"]) ** 2 for r in rs),
               "constructs": sum(len(r["own"]) for r in rs), "samples": [source(texts, rs[5]), source(texts, rs[-1]) or rs[-1]["file"]]}
    rep.assumptions = ["the control flow that rustc reports for a body is the body's", "points are sampled: the first, middle and last one of each block"]
    return rep.finish()
