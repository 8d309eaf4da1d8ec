"""P14: histories of builds that TLC generates from specs/md/Cache.tla, replayed in the real preprocessor with real crashes."""
import gzip
import json
import os
import random
import shutil
import tempfile
from common import *
import check_md
from check_md import Element, annotations, cases, mdh

CACHE = ".aquascope-cache"
C1 = 'fn main() {\n  let one = "α";\n}'
C2 = "fn main() { let two = 2; }"


def fence(head, code):
    return f"```aquascope,{head}\n{code}\n```"


#: name -> (page text, code, operations, flags)
B = {
    "a": (fence("interpreter", C1), C1, ["interpreter"], []),
    "aMarked": (fence("interpreter", C1.replace('";', '";`[]``(focus,paths:one)`')), C1, ["interpreter"], []),
    "aHidden": (fence("interpreter", "#" + C1.replace("\n}", "\n#}`{}`")), C1, ["interpreter"], []),
    "aFail": (fence("interpreter,shouldFail", C1), C1, ["interpreter"], ["--should-fail"]),
    "aPerm": (fence("permissions", C1), C1, ["permissions"], []),
    "aBoth": (fence("permissions+interpreter", C1), C1, ["permissions", "interpreter"], []),
    "aFlows": (fence("permissions,showFlows", C1), C1, ["permissions"], ["--show-flows"]),
    "aOpt1": (fence("interpreter,foo=bar", C1), C1, ["interpreter"], []),
    "aOpt2": (fence("interpreter,fo=obar", C1), C1, ["interpreter"], []),
    "aOpSetting": (fence("permissions,interpreter", C1), C1, ["permissions"], []),
    "b": (fence("interpreter", C2), C2, ["interpreter"], []),
}
for name, what in (("bad", "fail"), ("flaky", "broken"), ("big", "big 150000")):
    B[name] = (fence("interpreter", f"//stub * {what}\nfn {name}() {{}}"), f"//stub * {what}\nfn {name}() {{}}", ["interpreter"], [])
KEY = {b: "a" if b in ("aMarked", "aHidden") else b for b in B}


def page(blocks):
    return "Some text.\n" + "\n\nMore.\n\n".join(B[b][0] for b in blocks) + "\n"


def shown(r):
    """What each block's place shows."""
    out = []
    for _, _, h in r["rs"]:
        d = Element(h).tags[0][1]
        out.append({"code": json.loads(d["data-code"]), "annotations": annotations(json.loads(d["data-annotations"])), "operations": json.loads(d["data-operations"]),
                    "config": json.loads(d["data-config"]), "responses": json.loads(d["data-responses"]), "keys": sorted(d)})
    return out


def fresh(env):
    """Each block processed by a build without cache."""
    out = {}
    for b in B:
        rs, p = mdh(env, [page([b])], "build")
        if b == "bad":
            if "err" not in rs[0]:
                raise Broken(f"the failing block does not fail: {rs}")
        elif "rs" not in rs[0] or len(rs[0]["rs"]) != 1:
            return b, rs[0]
        else:
            out[b] = shown(rs[0])[0]
            want = {op: [{"Ok": dict(x["Ok"])}] for op, x in zip(B[b][2], (out[b]["responses"].get(op, [{"Ok": {}}])[0] for op in B[b][2]))}
            if out[b]["code"] != B[b][1] or sorted(out[b]["responses"]) != sorted(B[b][2]) or any(x[0]["Ok"].get("code") != B[b][1] or x[0]["Ok"].get("op") != o for o, x in want.items()):
                return b, out[b]
    return out


def damage(path, rng):
    """Does something to the cache file; says what."""
    data = open(path, "rb").read() if os.path.exists(path) else b""
    how = rng.choice(["cut", "flip", "empty", "junk", "append", "null", "list", "types", "half", "remove", "zeros"])
    if how == "cut":
        data = data[:rng.randrange(len(data) + 1)]
    elif how == "flip" and data:
        i = rng.randrange(len(data))
        data = data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:]
    elif how == "empty":
        data = b""
    elif how == "junk":
        data = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 200)))
    elif how == "append":
        data += b"trailing"
    elif how == "null":
        data = gzip.compress(b"null")
    elif how == "list":
        data = gzip.compress(b"[1,2]")
    elif how == "types":
        data = gzip.compress(b'{"12": 13, "x": null}')
    elif how == "half":
        data = gzip.compress(b'{"1234": "{\\"interpreter')
    elif how == "zeros":
        data = bytes(len(data))
    if how == "remove":
        if os.path.exists(path):
            os.unlink(path)
    else:
        with open(path, "wb") as f:
            f.write(data)
    return how


def runs(logfile):
    if not os.path.exists(logfile):
        return []
    return [r for r in map(json.loads, open(logfile)) if r["what"] == "run"]


def sig(code, op, flags):
    return (code, op, tuple(sorted(flags)))


def build(env, so, d, pages, extra, n):
    """One build; its results, its runs and how it ended."""
    logf = os.path.join(d, f"log{n}")
    book = os.path.join(d, "book")
    e = dict(extra, STUB_LOG=logf)
    if "CRASH_OP" in e or "CRASH_BYTES" in e:
        e["LD_PRELOAD"] = so
    rs, p = mdh(env, pages, "build", cwd=book, extra=e)
    got = {}
    for r in runs(logf):
        rest = [x for x in r["args"] if x != "aquascope"]
        s = sig(r["code"], [x for x in rest if not x.startswith("-")][0], [x for x in rest if x.startswith("-")])
        got[s] = got.get(s, 0) + 1
    return rs, p.returncode, got


def replay(env, so, ref, hist, seed):
    """Replays one history; returns what went wrong (a list of messages) and counts."""
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix="cache")
    os.makedirs(os.path.join(d, "book"))
    wrong, n, story = [], {"builds": 0, "answers": 0, "crashes": 0, "damages": 0, "from cache": 0}, []
    try:
        for i, b in enumerate(hist):
            if b["how"] == "damaged":
                story.append("damage: " + damage(os.path.join(d, "book", CACHE), rng))
                n["damages"] += 1
                continue
            extra = {"STUB_BROKEN": "1"} if b["broken"] else {}
            at = None
            if b["how"] == "killed running":
                p, k = divmod(0, 1)
                at = [x for pg in b["pages"] for x in pg][b["upto"]]
                extra["STUB_KILL"] = B[at][1]
            if b["how"] == "killed saving":
                if rng.random() < 0.5:
                    extra["CRASH_OP"] = str(rng.randrange(4))
                else:
                    extra["CRASH_BYTES"] = str(rng.randrange(300))
            rs, rc, got = build(env, so, d, [page(p) for p in b["pages"]], extra, i)
            n["builds"] += 1
            ended = "completed" if rc == 0 and any(r.get("saved") for r in rs) else "failed" if rc == 0 else "killed" if rc in (-9, 77) else f"exit {rc}"
            story.append(f"build {b['pages']}{' broken' if b['broken'] else ''}: to be {b['how']} {({k: v for k, v in extra.items() if k.startswith('CRASH')}) or ''}, {ended}")
            n["crashes"] += ended == "killed"
            res = [r for r in rs if "id" in r]

            def bad(what):
                wrong.append({"what": what, "story": story[:]})
            allowed = {"completed": {"completed"}, "failed": {"failed"}, "killed running": {"killed"}, "killed saving": {"killed", "completed"}}[b["how"]]
            if ended not in allowed:
                bad(f"the build ended: {ended} ({rs[-1] if rs else ''})"[:600])
                return wrong, n
            if len(res) != len(b["pages"]) and ended != "killed":
                bad(f"{len(res)} of {len(b['pages'])} pages")
            for r in res:
                want = [o for o in b["outs"] if o[0] == r["id"] + 1]
                blocks = b["pages"][r["id"]]
                if any(o[2] == "error" for o in want):
                    if "err" not in r or not any(B[o[1]][1] in r["err"] for o in want if o[2] == "error"):
                        bad(f"page {blocks} has to fail with the error of a failing block: {str(r)[:300]}")
                elif "rs" not in r:
                    bad(f"page {blocks}: {str(r)[:300]}")
                else:
                    for x, s in zip(blocks, shown(r)):
                        n["answers"] += 1
                        if s != ref[x]:
                            bad(f"block {x} shows {str(s)[:400]} instead of {str(ref[x])[:400]}")
                    if len(r["rs"]) != len(blocks):
                        bad(f"page {blocks} has {len(r['rs'])} replacements")
            occ = {}
            for pg in b["pages"]:
                for x in pg:
                    occ[KEY[x]] = occ.get(KEY[x], 0) + 1
            lo, hi = {}, {}
            for k in occ:
                for op in B[k][2]:
                    s = sig(B[k][1], op, B[k][3])
                    lo[s] = lo.get(s, 0) + (k in b["ran"] and b["how"] != "killed running")
                    # Which runs of a failing page took place is open.
                    hi[s] = hi.get(s, 0) + (occ[k] if k in b["ran"] or k in b["mayRun"] or b["how"] == "killed running" and k not in b["sure"] else 0)
                n["from cache"] += k in b["sure"]
            for s in set(got) | set(hi):
                if not lo.get(s, 0) <= got.get(s, 0) <= hi.get(s, 0):
                    bad(f"{got.get(s, 0)} runs of {s[1]} {' '.join(s[2])} on {s[0]!r}, expected {lo.get(s, 0)} to {hi.get(s, 0)}")
            if wrong:
                return wrong, n
        return wrong, n
    finally:
        shutil.rmtree(d, ignore_errors=True)


def every_crash(env, so, ref, first, second):
    """Dies at every operation and after every byte of saving `second` over a cache with `first`; then builds with both."""
    base = tempfile.mkdtemp(prefix="cachex")
    points, wrong = [], []
    try:
        os.makedirs(os.path.join(base, "book"))
        build(env, so, base, [page(first)], {}, 0)
        old = open(os.path.join(base, "book", CACHE), "rb").read() if os.path.exists(os.path.join(base, "book", CACHE)) else b""

        def one(extra):
            d = tempfile.mkdtemp(prefix="cachex")
            try:
                os.makedirs(os.path.join(d, "book"))
                with open(os.path.join(d, "book", CACHE), "wb") as f:
                    f.write(old)
                _, rc, _ = build(env, so, d, [page(second)], extra, 0)
                after = None
                if rc == 77:
                    for i in (1, 2):    # the second one has to get everything from the cache
                        rs, rc2, got = build(env, so, d, [page(first + second)], {}, i)
                        if rc2 or "rs" not in rs[0] or [s for s in shown(rs[0])] != [ref[x] for x in first + second]:
                            after = f"build {i} after a crash at {extra} shows {str(rs)[:400]}"
                        elif i == 2 and got:
                            after = f"build {i} after a crash at {extra} analyses again: {list(got)[:2]}"
                return rc, after
            finally:
                shutil.rmtree(d, ignore_errors=True)
        with cf.ThreadPoolExecutor(cpu()) as ex:
            for kind, limit in (("CRASH_OP", 40), ("CRASH_BYTES", 4000)):
                step = cpu() * 4
                for lo in range(0, limit, step):
                    out = list(ex.map(lambda k: one({kind: str(k)}), range(lo, lo + step)))
                    points += [1 for rc, _ in out if rc == 77]
                    wrong += [a for _, a in out if a]
                    if all(rc != 77 for rc, _ in out):
                        break
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return len(points), wrong


def as_wrong(r):
    return ([{"what": f"malformed output: {r}", "story": []}], {}) if isinstance(r, Malformed) else r


def run(pid):
    rep = Report(pid, "model_checking")
    env = check_md.build_mdh()
    env["RUSTC_PATH"] = "/bin/echo"
    so = os.path.join(WORK, "stub", "crash.so")
    r = sh(f"gcc -O1 -w -shared -fPIC -o {so}.{os.getpid()} harness/stub/crash.c -ldl && mv {so}.{os.getpid()} {so}")
    if r.returncode:
        raise Broken("crash.so: " + r.stderr[-1000:])
    design = tlc("specs/md/Cache.tla", "Cache.cfg")
    if not design["ok"]:
        raise Broken("the specification violates " + str(design["violated"]))
    ref = fresh(env)
    if isinstance(ref, tuple):
        rep.violation(f"block {ref[0]} processed without cache: {str(ref[1])[:500]}")
        rep.cov = {"states": design["distinct"], "transitions": design["states"], "traces_validated_against_impl": 0, "samples": []}
        return rep.finish()
    cs, t = check_md.simulate("specs/md/Cache.tla", "Cache_sim.cfg", 600 if THOROUGH else 30, 120, {})
    hs = [c["text"] for c in cs]
    tot, done = {}, 0
    with cf.ThreadPoolExecutor(cpu()) as ex:
        for h, (wrong, n) in zip(hs, ex.map(lambda x: as_wrong(told(replay, env, so, ref, x[1], SEED * 1000003 + x[0])), enumerate(hs))):
            done += 1
            for k, v in n.items():
                tot[k] = tot.get(k, 0) + v
            for w in wrong[:1]:
                rep.violation(w["what"], story=w["story"], history=h)
    log(f"{done} histories: {tot}")
    points, wrong = every_crash(env, so, ref, ["a", "aPerm"], ["aMarked", "b"])
    for w in wrong:
        rep.violation(w)
    log(f"{points} crash points within one save")
    if not points:
        rep.violation("a build with new results does not save them: no operation of the save can be made to fail")
    elif tot.get("crashes", 0) < 20 or points < 50:
        raise Broken(f"too few crashes: {tot}, {points}")
    rep.cov = {"states": design["distinct"], "transitions": design["states"] + t["states"], "traces_validated_against_impl": done, **tot,
               "crash_points_in_one_save": points, "samples": [[b["how"] for b in h] for h in hs[:3]]}
    rep.assumptions = ["the analysis command is a deterministic stand-in", "a killed process leaves the writes it made, in order (no power failure)"]
    return rep.finish()
