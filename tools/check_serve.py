"""P16: histories of requests that TLC generates from specs/serve/Serve.tla, replayed against the real server with a stand-in
for the analysis command; what was seen has to be a behaviour of the specification (ServeTrace.tla, TLC)."""
import http.client
import json
import os
import random
import shutil
import signal
import socket
import tempfile
import threading
import time
from common import *
import check_md
from check_pre import split

OPS = ("permissions", "interpreter")
STUB = {"big": "big 300000", "bigerr": "bigerr 300000"}
ns = lambda: time.clock_gettime_ns(time.CLOCK_MONOTONIC)


def build():
    env = check_md.build_stub()
    r = sh(". tools/env.sh; cd work/ws && cargo build --offline -q --bin aquascope_serve")
    if r.returncode:
        raise Broken("server build failed:\n" + r.stderr[-3000:])
    log("server built")
    return env


class Server:
    def __init__(self, env):
        self.d = tempfile.mkdtemp(prefix="serve")
        for x in ("tmp", "ctl"):
            os.makedirs(os.path.join(self.d, x))
        self.logf = os.path.join(self.d, "log")
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
        e = dict(env, TMPDIR=os.path.join(self.d, "tmp"), STUB_LOG=self.logf, STUB_CTL=os.path.join(self.d, "ctl"), AQUASCOPE_SERVER_ADDRESS="127.0.0.1",
                 AQUASCOPE_SERVER_PORT=str(self.port), RUST_LOG="off")
        self.p = subprocess.Popen([os.path.join(WORK, "target/debug/aquascope_serve")], cwd=self.d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.seen = 0
        for _ in range(500):
            try:
                if self.ask("GET", "/hi", b"", {})[0] == 200:
                    return
            except OSError:
                pass
            if self.p.poll() is not None:
                break
            time.sleep(0.02)
        self.stop()
        raise Broken("the server does not start")

    def ask(self, method, path, body, headers, hold=None):
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=60)
        if hold is not None:
            hold.append(c)
        c.request(method, path, body, headers)
        r = c.getresponse()
        out = r.status, r.read()
        c.close()
        return out

    def records(self):
        if not os.path.exists(self.logf):
            return []
        out = []
        for l in open(self.logf):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
        return out

    def alive(self, recs):
        out = []
        for r in recs:
            if r["what"] in ("run", "alive"):
                try:
                    stat = open(f"/proc/{r['pid']}/stat").read()
                    if "(cargo)" in stat and stat.split(") ")[1][0] != "Z":
                        out.append(r)
                except OSError:
                    pass
        return out

    def stop(self):
        self.p.kill()
        self.p.wait()
        for r in self.alive(self.records()):
            try:
                os.kill(r["pid"], signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(self.d, ignore_errors=True)


def program(tag, c, beh):
    b = STUB.get(beh, beh)
    gate = [] if beh in ("hang", "hangtree") else [f"//gate {tag}-{c}"]
    return "\n".join(gate + [f"//stub * {b}", f'\tfn main() {{ let s = "{tag}→{c}", r = "\r\n\u2028 \\u{{0}}𝒳";', "}  ", "", "\n" * (c % 3)])


class History:
    """Replays one history against the server and records what it sees."""
    def __init__(self, srv, tag, beh, reqs, hist, rng):
        self.srv, self.tag, self.beh, self.reqs, self.hist, self.rng = srv, tag, beh, reqs, hist, rng
        self.codes = {program(tag, c + 1, b): c + 1 for c, b in enumerate(beh)}
        self.own, self.answers, self.conns, self.threads, self.left = [], {}, {}, [], set()
        self.start = ns()
        self.lock = threading.Lock()

    def note(self, t=None, **e):
        with self.lock:
            self.own.append((t or ns(), e))

    def query(self, r):
        q = self.reqs[r - 1]
        k, code = q["kind"], program(self.tag, q["code"], self.beh[q["code"] - 1])
        js = {"content-type": "application/json"}
        body = {"code": code}
        if q["odd"] == "fail":
            body["config"] = {"shouldFail": True}
        elif self.rng.random() < 0.5:
            body["config"] = self.rng.choice([None, {}, {"other": 1}, [1], "shouldFail"])
        full = json.dumps(body, ensure_ascii=self.rng.random() < 0.5).encode()
        return {"badjson": ("POST", "/permissions", full[:-3], js), "nofield": ("POST", "/interpreter", b'{"cod": "fn main() {}"}', js),
                "notype": ("POST", "/permissions", full, {}), "get": ("GET", "/permissions", b"", {}), "nowhere": ("POST", "/nowhere", full, js),
                "hi": ("GET", "/hi", b"", {}), "badutf8": ("POST", "/interpreter", b'{"code": "\xff\xfe"}', js), "text": ("POST", "/permissions", b'"fn main() {}"', js),
                "array": ("POST", "/permissions", b"[1]", js)}.get(k) or ("POST", "/" + k, full, js)

    def send(self, r):
        q = self.query(r)
        hold = self.conns[r] = []
        self.note(e="send", r=r)

        def go():
            try:
                status, body = self.srv.ask(*q, hold=hold)
            except (OSError, http.client.HTTPException, AttributeError, ValueError) as x:
                if r not in self.left:
                    self.answers[r] = 0
                    self.note(e="lost", r=r, error=str(x))
                return
            t = ns()
            ev = {"e": "answer", "r": r, "status": status, "ok": False, "what": "error", "code": 0, "op": ""}
            try:
                d = json.loads(body)
                ev["ok"] = d["success"] is True
                ev["what"] = "text" if d["stdout"].strip() else "nothing"
                try:
                    x = json.loads(d["stdout"])[0]["Ok"]
                    ev.update(what="result", code=self.codes.get(x["code"], -1), op=x["op"])
                    if ("pad" in x) != (self.beh[ev["code"] - 1] == "big"):
                        ev["op"] = "mutilated"
                except (ValueError, KeyError, TypeError, IndexError):
                    pass
            except (ValueError, KeyError, TypeError):
                if body == b"HELLO!":
                    ev["what"] = "hi"
            if r not in self.left:
                self.answers[r] = 1
                self.note(t=t, **ev)
        th = threading.Thread(target=go, daemon=True)
        self.threads.append(th)
        th.start()

    def wait(self, cond, limit):
        end = time.time() + limit
        while not cond() and time.time() < end:
            time.sleep(0.004)

    def mine(self):
        return [r for r in self.srv.records() if r["t"] >= self.start]

    def top(self, path):
        return os.path.relpath(path, os.path.join(self.srv.d, "tmp")).split(os.sep)[0]

    def settled(self):
        """Every request for an analysis that was sent got to its run."""
        n = sum(1 for r in self.conns if self.reqs[r - 1]["kind"] in OPS and self.reqs[r - 1]["odd"] != "bad")
        return sum(r["what"] == "run" for r in self.mine()) >= n

    def look(self):
        """What is there, once there is not more than the open requests need (or in a while)."""
        tmp = os.path.join(self.srv.d, "tmp")
        self.wait(self.settled, 5)
        going = lambda: len([r for r in self.conns if r not in self.answers and r not in self.left and self.reqs[r - 1]["kind"] in OPS])
        self.wait(lambda: len(os.listdir(tmp)) <= going() and len({r["cwd"] for r in self.srv.alive(self.mine())}) <= going(), 4)
        t = ns()
        there, recs = os.listdir(tmp), self.mine()
        self.note(t=t, e="look", dirs=there, procs=[r["cwd"] for r in self.srv.alive(recs) if r["t"] < t])

    def runs(self, code, op):
        text = program(self.tag, code, self.beh[code - 1])
        return sum(r["what"] == "run" and r["code"] == text and op in r["args"] for r in self.mine())

    def play(self):
        ctl = os.path.join(self.srv.d, "ctl")
        due = {}
        for what, x in self.hist:
            q = self.reqs[x - 1] if what != "open" else None
            if what == "send" and q["odd"] == "bad":
                self.wait(self.settled, 5)
                open(os.path.join(ctl, "newfail"), "w").close()
                self.send(x)
                self.wait(lambda: x in self.answers, 8)
                os.unlink(os.path.join(ctl, "newfail"))
            elif what == "send":
                self.send(x)
            elif what == "run":
                k = (q["code"], q["kind"])
                due[k] = due.get(k, 0) + 1
                self.wait(lambda: self.runs(*k) >= due[k], 5)
            elif what == "open":
                self.note(e="open", code=x)
                open(os.path.join(ctl, f"{self.tag}-{x}"), "w").close()
            elif what == "leave" and x not in self.answers:
                self.left.add(x)
                self.note(e="leave", r=x)
                sock = self.conns[x][0].sock
                if sock:
                    sock.shutdown(socket.SHUT_RDWR)
                    sock.close()
                self.look()
            elif what == "answer":
                self.wait(lambda: x in self.answers, 45)
                self.look()
        for r in self.conns:
            self.wait(lambda: r in self.answers or r in self.left, 45)
        self.look()
        return self.record()

    def record(self):
        dirs, events = {}, list(self.own)
        for r in self.mine():
            if r["what"] == "new":
                events.append((r["t"], {"e": "new", "dir": os.path.join(r["cwd"], [a for a in r["args"] if not a.startswith("-")][1])}))
            elif r["what"] in ("run", "end"):
                b, op, a = split(r["args"])
                events.append((r["t"], {"e": r["what"], "dir": r["cwd"], "code": self.codes.get(r["code"], -1), "op": op, "before": b + a}))
        events.sort(key=lambda x: x[0])
        tops, out, made = {}, [], {}
        for t, e in events:
            if "dir" in e:
                made.setdefault(self.top(e["dir"]), t)
                e["dir"] = dirs.setdefault(e["dir"], len(dirs) + 1)
        for path, i in dirs.items():
            tops.setdefault(self.top(path), i)
        for t, e in events:
            if e["e"] == "look":
                e["dirs"] = sorted(tops.get(x, 0) for x in e["dirs"] if made.get(x, 0) < t)
                e["procs"] = sorted({dirs.get(x, 0) for x in e["procs"]})
            e["t"] = (t - self.start) // 1000000
            out.append(e)
        return {"beh": self.beh, "reqs": self.reqs, "events": out}


def several(env, n, group):
    srv = Server(env)
    try:
        out = []
        for i, h in group:
            if time.time() - T0 > (700 if THOROUGH else 300):    # Waiting for what does not come takes long.
                break
            out.append(History(srv, f"h{i}", *h, random.Random(SEED * 7919 + i)).play())
            if srv.p.poll() is not None:
                out[-1]["events"].append({"e": "died", "t": 0})
                break
        return out
    finally:
        srv.stop()


def run(pid):
    rep = Report(pid, "model_checking")
    env = build()
    design = tlc("specs/serve/ServeModel.tla", "Serve.cfg")
    if not design["ok"]:
        raise Broken("the specification violates " + str(design["violated"]))
    cs, t = check_md.simulate("specs/serve/ServeModel.tla", "Serve_sim.cfg", 60 if THOROUGH else 12, 140, {})
    hs = [(i, tuple(c["text"])) for i, c in enumerate(cs)]
    slow = lambda h: any(h[1][0][q["code"] - 1] in ("hang", "hangtree") and q["kind"] in OPS for q in h[1][1])
    hs.sort(key=slow)
    k = 24
    groups = [hs[i::k] for i in range(k)]
    recs = []
    with cf.ThreadPoolExecutor(k) as ex:
        for r in ex.map(lambda g: several(env, *g), list(enumerate(groups))):
            recs += r
    n = {"histories": len(recs), "requests": sum(len(r["reqs"]) for r in recs)}
    for e in ("run", "answer", "leave", "look", "lost"):
        n[e] = sum(x["e"] == e for r in recs for x in r["events"])
    n["late"] = sum(x["e"] == "answer" and x["t"] > 19000 for r in recs for x in r["events"])
    log(f"replayed: {n}")
    f = os.path.join(WORK, f"serve.{os.getpid()}.json")
    with open(f, "w") as o:
        json.dump(recs, o)
    try:
        v = tlc("specs/serve/ServeTrace.tla", "ServeTrace.cfg", env={"TRACES": f})
    finally:
        os.unlink(f)
    if not v["ok"]:
        rep.violation(f"a recorded history violates {v['violated']}", out=v["out"][-3000:])
    far = {}
    for m in re.finditer(r"AT (\d+) (\d+)", v["out"]):
        far[int(m.group(1))] = max(far.get(int(m.group(1)), 0), int(m.group(2)))
    for i, r in enumerate(recs):
        if v["ok"] and far.get(i + 1, 0) != len(r["events"]) + 1:
            x = far.get(i + 1, 1)
            rep.violation(f"not a behaviour of the specification from event {x} on: {json.dumps(r['events'][x - 1])[:300]}", at=x, **r)
    if n["run"] < 100 and not rep.violations:
        raise Broken("too few runs")
    rep.cov = {"states": design["distinct"], "transitions": design["states"] + t["states"], "traces_validated_against_impl": len(recs), **n,
               "trace_states": v["distinct"], "samples": [recs[0]["events"][:6]]}
    rep.assumptions = ["the analysis command is a stand-in", "what is left of a request is looked for up to four seconds after its answer"]
    return rep.finish()
