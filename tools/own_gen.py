"""Random programs of the ownership language of specs/lang/Ownership.tla, and their rendering to Rust.

A program is a list of functions; a function is a list of lines (see Ownership.tla for the kinds).  The generator knows
nothing about permissions but what it takes to make programs that type-check and are not hopelessly wrong: it keeps a
rough idea of what is moved.  Everything that matters is computed by the specification."""
import random

PRELUDE = '''#![allow(warnings)]
pub struct P { pub s: String, pub k: i32 }
pub struct S { pub a: String, pub n: i32, pub p: P }
pub struct D { pub a: String, pub n: i32, pub p: P }
impl Drop for D { fn drop(&mut self) {} }
pub fn mk<T>() -> T { loop {} }
pub fn cond() -> bool { true }
pub fn eat<T>(_: T) {}
pub fn see<T>(_: &T) {}
pub fn see2<T, U>(_: &T, _: &U) {}
pub fn chg<T>(_: &mut T) {}
pub fn mix<T, U>(_: &mut T, _: &U) {}
pub fn mixv<T, U>(_: &mut T, _: U) {}
pub fn both<'a, T>(a: &'a T, b: &'a T) -> &'a T { a }
pub fn same<'a, T>(a: &'a mut T) -> &'a mut T { a }
pub trait M: Sized { fn look(&self) -> i32 { 0 } fn look1(&self, k: i32) -> i32 { 0 } fn poke(&mut self) {} fn poke1(&mut self, k: i32) {} fn take(self) -> i32 { 0 } }
impl M for String {} impl M for P {} impl M for S {} impl M for D {}
'''

# ---------------------------------------------------------------- types


class Ty:
    def __init__(self, k, rust, cp=False, fs=(), to=None, dt=False):
        self.k, self.rust, self.cp, self.fs, self.to, self.dt = k, rust, cp, list(fs), to, dt


INT = Ty("int", "i32", cp=True)
STR = Ty("str", "String")
P = Ty("adt", "P", fs=[("s", STR), ("k", INT)])
S = Ty("adt", "S", fs=[("a", STR), ("n", INT), ("p", P)])
D = Ty("adt", "D", fs=[("a", STR), ("n", INT), ("p", P)], dt=True)
BP = Ty("box", "Box<P>", to=P)
TUP = Ty("adt", "(String, i32)", fs=[("0", STR), ("1", INT)])
ARR = Ty("arr", "[i32; 3]", cp=True, to=INT)
_refs = {}


def REF(t, m=False):
    key = (id(t), m)
    if key not in _refs:
        _refs[key] = Ty("m" if m else "s", ("&mut " if m else "&") + t.rust, cp=not m, to=t)
    return _refs[key]


def isref(t):
    return t.k in "sm"


BASE = [INT, STR, P, S, D, BP, TUP, ARR]
WEIGHT = [3, 4, 3, 5, 2, 2, 1, 1]

# ---------------------------------------------------------------- places


class Var:
    def __init__(self, i, name, ty, mut, arg):
        self.i, self.name, self.ty, self.mut, self.arg = i, name, ty, mut, arg


class Place:
    """A variable and projections: (kind, number, base has a destructor, name)."""

    def __init__(self, var, pr=(), ty=None):
        self.var, self.pr, self.ty = var, tuple(pr), ty or var.ty

    def proj(self):
        out = []
        t = self.ty
        if t.k == "adt":
            out = [Place(self.var, self.pr + (("f", i, t.dt, n),), ft) for i, (n, ft) in enumerate(t.fs)]
        elif t.k in ("box", "s", "m"):
            out = [Place(self.var, self.pr + (("b" if t.k == "box" else t.k, 0, False, "*"),), t.to)]
        return out

    def json(self):
        return {"v": self.var.i, "pr": [{"k": k, "n": n, "dt": dt} for k, n, dt, _ in self.pr]}

    def text(self, receiver=False):
        """`receiver`: leave a final dereference to the compiler."""
        pr = list(self.pr)
        if receiver:
            while pr and pr[-1][0] in "smb":
                pr.pop()
        s = self.var.name
        for j, (k, n, dt, name) in enumerate(pr):
            if k in ("s", "m", "b"):
                if any(q[0] == "f" for q in pr[j + 1:]):
                    continue          # the field access dereferences
                s = "*" + s
            else:
                s = f"{s}.{name}"
        return s

    def key(self):
        return (self.var.i,) + tuple((k, n) for k, n, _, _ in self.pr)


# ---------------------------------------------------------------- generator

class Gen:
    def __init__(self, rng, size=8, valid=0.85):
        self.r, self.size, self.valid = rng, size, valid
        self.vars, self.lines = [], []
        self.scopes = [[]]
        self.gone = set()       # places thought to be moved or not initialised
        self.lent = {}          # place key -> name of variable holding a borrow (thought)
        self.uid = 0
        self.loops = []
        self.depth = 0

    # -- helpers
    def id(self):
        self.uid += 1
        return self.uid

    def new_var(self, ty, mut, arg=False):
        v = Var(len(self.vars) + 1, "abcdefghijklmnopqrstuvwxyz"[len(self.vars) % 26] + ("" if len(self.vars) < 26 else str(len(self.vars) // 26)), ty, mut, arg)
        self.vars.append(v)
        self.scopes[-1].append(v)
        return v

    def places(self):
        out = []
        for sc in self.scopes:
            for v in sc:
                todo = [Place(v)]
                while todo:
                    p = todo.pop()
                    out.append(p)
                    if len(p.pr) < 4:
                        todo += p.proj()
        return out

    def is_gone(self, pl):
        k = pl.key()
        return any(k[:len(g)] == g or g[:len(k)] == k for g in self.gone)

    def pick(self, pred, ok=True):
        """A place that satisfies pred, mostly one that is thought usable."""
        c = [p for p in self.places() if pred(p)]
        if not c:
            return None
        if self.r.random() < self.valid:
            good = [p for p in c if not self.is_gone(p)]
            c = good or c
        return self.r.choice(c)

    @staticmethod
    def movable(pl):
        return all(k not in "sm" and not dt for k, n, dt, _ in pl.pr)

    @staticmethod
    def mutable(pl):
        via = False
        for k, n, dt, _ in reversed(pl.pr):
            if k == "s":
                return False
            if k == "m":
                via = True
        return via or pl.var.mut

    def wantmut(self, pl):
        return self.mutable(pl) or self.r.random() > self.valid

    # -- expressions (dicts; "pl" holds Place objects until rendering)
    def use(self, pl):
        if not pl.ty.cp:
            self.gone.add(pl.key())
        return {"k": "use", "pl": pl, "id": self.id(), "cp": pl.ty.cp}

    def int_expr(self, d=0):
        c = self.r.random()
        if c < .5:
            p = self.pick(lambda p: p.ty is INT)
            if p:
                return self.use(p)
        if c < .7 and d < 2:
            a = self.int_expr(d + 1)
            b = self.int_expr(d + 1)
            return {"k": "call", "f": "bin", "args": [a, b], "bor": []}
        if c < .9 and d < 2:
            p = self.pick(lambda p: p.ty in (STR, P, S, D))
            if p:
                return self.method(p, self.r.choice(["look", "look1"]), d + 1)
        return {"k": "lit", "t": str(self.r.randrange(9))}

    def method(self, p, name, d=0):
        rc = {"k": "ref", "pl": p, "id": self.id(), "m": name.startswith("poke"), "auto": True, "tp": True}
        if name == "take":
            rc = dict(self.use(p), recv=True)
        args = [rc] + ([self.int_expr(d + 1)] if name.endswith("1") else [])
        return {"k": "call", "f": "." + name, "args": args, "bor": []}

    def ref(self, p, m):
        return {"k": "ref", "pl": p, "id": self.id(), "m": m, "auto": False, "tp": False}

    def coerced(self, e, arg=False):
        """The expression where a reference is expected: it is reborrowed, not copied or moved (a shared one only
        when it is an argument)."""
        if e["k"] == "use" and (e["pl"].ty.k == "m" or arg and e["pl"].ty.k == "s"):
            p = e["pl"]
            m = p.ty.k == "m"
            if not p.ty.cp:
                self.gone.discard(p.key())
            return {"k": "ref", "pl": p.proj()[0], "id": e["id"], "m": m, "auto": False, "tp": m and arg, "co": True}
        return e

    def argref(self, p, m):
        """`&p` or `&mut p` as an argument; sometimes a variable that is such a reference instead."""
        if self.r.random() < .35:
            q = self.pick(lambda q: q.ty.k == ("m" if m else "s") and q.ty.to is p.ty)
            if q:
                return self.coerced({"k": "use", "pl": q, "id": self.id(), "cp": q.ty.cp}, True)
        return self.ref(p, m)

    def value(self, ty):
        """An expression of the type."""
        r = self.r.random()
        if isref(ty):
            m = ty.k == "m"
            if not m and r < .2:
                p = self.pick(lambda p: p.ty is ty)
                if p:
                    return self.use(p)
            if not m and r < .3:
                p, q = (self.pick(lambda p: p.ty is ty.to) for _ in "12")
                if p:
                    return {"k": "call", "f": "both", "args": [self.argref(p, False), self.argref(q, False)], "bor": [1, 2]}
            if m and r < .15:
                p = self.pick(lambda p: p.ty is ty and self.movable(p))
                if p:
                    return self.use(p)
            p = self.pick(lambda p: p.ty is ty.to and (not m or self.wantmut(p)))
            if p is None:
                return {"k": "lit", "t": f"mk::<{ty.rust}>()"}
            if m and r > .9:
                return {"k": "call", "f": "same", "args": [self.argref(p, m)], "bor": [1]}
            return self.ref(p, m)
        if ty is INT:
            return self.int_expr()
        if r < .35:
            p = self.pick(lambda p: p.ty is ty and (self.movable(p) or self.r.random() > self.valid))
            if p:
                return self.use(p)
        if ty.k == "adt" and r < .6:
            return {"k": "call", "f": "agg:" + ty.rust, "args": [self.value(t) for _, t in ty.fs], "bor": [], "names": [n for n, _ in ty.fs]}
        if ty.k == "box" and r < .6:
            return {"k": "call", "f": "Box::new", "args": [self.value(ty.to)], "bor": []}
        if ty is ARR and r < .6:
            return {"k": "call", "f": "arr", "args": [self.int_expr() for _ in range(3)], "bor": []}
        return {"k": "lit", "t": f"mk::<{ty.rust}>()"}

    def some_type(self, refs=True):
        t = self.r.choices(BASE, WEIGHT)[0]
        if refs and self.r.random() < .35:
            p = self.pick(lambda p: not isref(p.ty) and p.ty is not ARR)
            if p:
                return REF(p.ty, self.r.random() < .45)
        return t

    # -- statements
    def stmt(self):
        r = self.r.random()
        deep = self.depth < 2
        if r < .24:
            return self.let()
        if r < .37:
            return self.assign()
        if r < .42:
            p = self.pick(lambda p: p.ty is INT and self.wantmut(p))
            if p:
                e = self.int_expr()
                return self.line(k="op", pl=p, e=e, id=self.id())
            return self.let()
        if r < .80:
            return self.line(k="ex", e=self.call())
        if r < .90 and deep:
            return self.branch()
        if r < .96 and deep:
            return self.loop()
        if r < .975 and self.loops:
            return self.jump()
        if r < .99 and deep:
            return self.ret()
        return self.line(k="ex", e=self.call())

    def line(self, **k):
        k.setdefault("dead", [])
        self.lines.append(k)
        return len(self.lines)

    def let(self):
        ty = self.some_type()
        if self.r.random() < .1:
            v = self.new_var(ty, self.r.random() < .6)
            self.gone.add((v.i,))
            return self.line(k="let", v=v, e={"k": "none"}, ann=True)
        e = self.value(ty)
        v = self.new_var(ty, self.r.random() < .6)
        self.line(k="let", v=v, e=e, ann=True)

    def assign(self):
        p = self.pick(lambda p: not (p.var.arg and isref(p.ty)) and (self.wantmut(p) or p.key() in self.gone) and len(p.pr) < 4 and not (isref(p.ty) and self.r.random() < .6))
        if p is None:
            return self.let()
        e = self.coerced(self.value(p.ty))
        if e["k"] == "use" and e["pl"].ty.k == "s":
            e["alt"] = True
        text = p.text()
        deref = text.startswith("*")
        self.gone = {g for g in self.gone if g[:len(p.key())] != p.key()}
        self.line(k="set", pl=p, e=e, id=self.id() if deref else 0)

    def call(self):
        r = self.r.random()
        if r < .2:
            p = self.pick(lambda p: self.movable(p) or p.ty.cp or self.r.random() > self.valid)
            return {"k": "call", "f": "eat", "args": [self.use(p)], "bor": []} if p else self.int_expr()
        if r < .35:
            p = self.pick(lambda p: True)
            return {"k": "call", "f": "see", "args": [self.argref(p, False)], "bor": []} if p else self.int_expr()
        if r < .5:
            p = self.pick(self.wantmut)
            return {"k": "call", "f": "chg", "args": [self.argref(p, True)], "bor": []} if p else self.int_expr()
        if r < .58:
            p = self.pick(self.wantmut)
            q = self.pick(lambda q: True)
            if p and self.r.random() < .5:
                return {"k": "call", "f": "mix", "args": [self.argref(p, True), self.argref(q, False)], "bor": []}
            if p:
                return {"k": "call", "f": "mixv", "args": [self.argref(p, True), self.int_expr()], "bor": []}
        if r < .9:
            name = self.r.choice(["look", "look1", "poke", "poke1", "poke1", "take"])
            p = self.pick(lambda p: p.ty in (STR, P, S, D) and (not name.startswith("poke") or self.wantmut(p)) and (name != "take" or self.movable(p)))
            if p:
                return self.method(p, name)
        return self.int_expr() if r < .93 else {"k": "call", "f": "eat", "args": [self.value(self.some_type())], "bor": []}

    def block(self, n, close):
        self.scopes.append([])
        self.depth += 1
        start = len(self.lines)
        for _ in range(n):
            self.stmt()
            if self.lines[-1]["k"] in ("brk", "cont", "ret"):
                break
        self.depth -= 1
        return [v.i for v in self.scopes.pop()]

    def cond(self):
        if self.r.random() < .5:
            return {"k": "call", "f": "cond", "args": [], "bor": []}
        return {"k": "call", "f": "lt", "args": [self.int_expr(), self.int_expr()], "bor": []}

    def branch(self):
        i = self.line(k="if", e=self.cond(), els=0, end=0) - 1
        before = set(self.gone)
        dead = self.block(self.r.randrange(1, 4), "}")
        after = self.gone
        if self.r.random() < .6:
            self.gone = set(before)
            j = self.line(k="else", dead=dead, end=0) - 1
            self.lines[i]["els"] = j + 1
            dead = self.block(self.r.randrange(1, 4), "}")
            n = self.line(k="end", dead=dead, of="if", to=0)
            self.lines[j]["end"] = n
        else:
            n = self.line(k="end", dead=dead, of="if", to=0)
        self.lines[i]["end"] = n
        self.gone |= after | before if self.r.random() < .5 else after

    def loop(self):
        w = self.r.random() < .7
        i = self.line(k="while", e=self.cond(), end=0) if w else self.line(k="loop", end=0)
        rec = {"i": i, "scopes": len(self.scopes), "brk": [], "cont": []}
        self.loops.append(rec)
        self.scopes.append([])
        self.depth += 1
        for _ in range(self.r.randrange(1, 4)):
            self.stmt()
            if self.lines[-1]["k"] in ("brk", "cont", "ret"):
                break
        if not w and not rec["brk"] and self.lines[-1]["k"] not in ("brk", "cont", "ret"):
            # some way out
            self.jump("brk")
        self.depth -= 1
        dead = [v.i for v in self.scopes.pop()]
        self.loops.pop()
        n = self.line(k="end", dead=dead, of="loop", to=i)
        self.lines[i - 1]["end"] = n
        for b in rec["brk"]:
            self.lines[b - 1]["to"] = n

    def jump(self, kind=None):
        rec = self.loops[-1]
        kind = kind or self.r.choice(["brk", "brk", "cont"])
        dead = [v.i for sc in self.scopes[rec["scopes"]:] for v in sc]
        n = self.line(k=kind, dead=dead, to=rec["i"])
        rec["brk" if kind == "brk" else "cont"].append(n)

    def ret(self):
        dead = [v.i for sc in self.scopes for v in sc]
        if self.retty is None:
            self.line(k="ret", e={"k": "none"}, dead=dead, tail=False)
        else:
            self.line(k="ret", e=self.value(self.retty), dead=dead, tail=False)

    def fn(self, name):
        self.name = name
        self.params = []
        for _ in range(self.r.randrange(1, 4)):
            ty = self.r.choices(BASE, WEIGHT)[0]
            if self.r.random() < .4:
                ty = REF(ty if ty is not ARR else S, self.r.random() < .6)
            self.params.append(self.new_var(ty, self.r.random() < .5, True))
        self.retty = self.r.choice([None, None, None, INT, STR, S])
        for _ in range(self.r.randrange(2, self.size)):
            self.stmt()
            if self.lines[-1]["k"] in ("brk", "cont", "ret"):
                break
        if not (self.lines and self.lines[-1]["k"] == "ret"):
            dead = [v.i for v in self.scopes[0]]
            e = {"k": "none"} if self.retty is None else self.value(self.retty)
            self.line(k="ret", e=e, dead=dead, tail=True)
        return self


# ---------------------------------------------------------------- rendering

def mark(i):
    return f"\x01{i}\x02" if i else ""


def ex(e):
    """The text of an expression; that of a use or borrow is put in between marks of its own."""
    if e["k"] in ("use", "ref"):
        return f"\x03{e['id']}\x02" + ex1(e) + f"\x04{e['id']}\x02"
    return ex1(e)


def ex1(e):
    k = e["k"]
    if k == "lit":
        return e["t"]
    if k == "use":
        if e.get("recv"):
            t = e["pl"].text()
            return (f"({t})" if t.startswith("*") else t) + mark(e["id"])
        return mark(e["id"]) + e["pl"].text()
    if k == "ref":
        if e["auto"]:
            return e["pl"].text(receiver=True) + mark(e["id"])
        if e.get("co"):
            return mark(e["id"]) + Place(e["pl"].var, e["pl"].pr[:-1]).text()
        return ("&mut " if e["m"] else "&") + mark(e["id"]) + e["pl"].text()
    f, a = e["f"], [ex(x) for x in e["args"]]
    if f == "bin":
        return f"({a[0]} + {a[1]})"
    if f == "lt":
        return f"{a[0]} < {a[1]}"
    if f == "arr":
        return "[" + ", ".join(a) + "]"
    if f.startswith("agg:("):
        return "(" + ", ".join(a) + ")"
    if f.startswith("agg:"):
        return f[4:] + " { " + ", ".join(f"{n}: {x}" for n, x in zip(e["names"], a)) + " }"
    if f.startswith("."):
        r = a[0]
        return f"{r}{f}({', '.join(a[1:])})"
    return f"{f}({', '.join(a)})"


def render(g, first):
    """The text of a function whose first line is number `first`; fills in positions of uses and lines."""
    out = []
    ps = ", ".join(("mut " if v.mut else "") + f"{v.name}: {v.ty.rust}" for v in g.params)
    out.append(f"pub fn {g.name}({ps})" + (f" -> {g.retty.rust}" if g.retty else "") + " {")
    ind = 1
    g.pos, g.span = {}, {}
    for n, l in enumerate(g.lines):
        k = l["k"]
        if k in ("else", "end"):
            ind -= 1
        if k == "let":
            t = f"let {'mut ' if l['v'].mut else ''}{l['v'].name}" + (f": {l['v'].ty.rust}" if l["e"]["k"] == "none" else " = " + ex(l["e"])) + ";"
        elif k == "set":
            t = f"{mark(l['id'])}{l['pl'].text()} = {ex(l['e'])};"
        elif k == "op":
            t = f"{mark(l['id'])}{l['pl'].text()} += {ex(l['e'])};"
        elif k == "ex":
            t = ex(l["e"]) + ";"
        elif k == "if":
            t = f"if {ex(l['e'])} {{"
        elif k == "else":
            t = "} else {"
        elif k == "end":
            t = "}"
        elif k == "while":
            t = f"while {ex(l['e'])} {{"
        elif k == "loop":
            t = "loop {"
        elif k == "brk":
            t = "break;"
        elif k == "cont":
            t = "continue;"
        elif k == "ret":
            v = "" if l["e"]["k"] == "none" else ex(l["e"])
            t = v if l.get("tail") else ("return " + v).strip() + ";"
        t = "  " * ind + t
        if k in ("if", "else", "while", "loop"):
            ind += 1
        # Marks become positions.
        s = ""
        i = 0
        while i < len(t):
            if t[i] in "\x01\x03\x04":
                j = t.index("\x02", i)
                n, at = int(t[i + 1:j]), (first + len(out), len(s) + 1)
                if t[i] == "\x01":
                    g.pos[n] = at
                elif t[i] == "\x03":
                    g.span[n] = at
                else:
                    g.span[n] += at
                i = j + 1
            else:
                s += t[i]
                i += 1
        l["line"] = first + len(out)
        l["col"] = 2 * ind + 1
        out.append(s)
    out.append("}")
    g.first, g.last = first, first + len(out) - 1
    return out


def jx(e):
    e = dict(e)
    if "pl" in e:
        e["pl"] = e["pl"].json()
    if "args" in e:
        e["args"] = [jx(a) for a in e["args"]]
    e.pop("names", None)
    e.pop("alt", None)
    e.pop("t", None)
    return e


def record(g):
    """The function as Ownership.tla reads it."""
    lines = []
    for l in g.lines:
        l = dict(l)
        l.pop("ann", None)
        if "v" in l:
            l["v"] = l["v"].i
        if "pl" in l:
            l["pl"] = l["pl"].json()
        if "e" in l:
            l["e"] = jx(l["e"])
        lines.append(l)
    return {"name": g.name, "bad": False, "vars": [{"n": v.name, "mt": v.mut, "arg": v.arg, "ref": isref(v.ty)} for v in g.vars], "lines": lines,
            "uses": [{"l": g.pos[i][0], "c": g.pos[i][1]} if i in g.pos else {"l": 0, "c": 0} for i in range(1, g.uid + 1)],
            "spans": [dict(zip(("l", "c", "el", "ec"), g.span.get(i, (0, 0, 0, 0)))) for i in range(1, g.uid + 1)], "first": g.first, "last": g.last, "names": {t: p for v in g.vars for t, p in all_places(v).items()},
            "alt": sorted(x["id"] for l in g.lines for x in [l.get("e", {})] if x.get("alt"))}


def all_places(v):
    """The places of a variable by the text that Aquascope gives them."""
    out, todo = {}, [(v.name, Place(v))]
    while todo:
        s, p = todo.pop()
        out[s] = p.json()
        for q in p.proj():
            k, n, dt, name = q.pr[-1]
            todo.append(("*" + s if name == "*" else ("(" + s + ")" if s.startswith("*") else s) + "." + name, q))
        if p.ty.k == "arr":
            out[("(" + s + ")" if s.startswith("*") else s) + "[_]"] = {"v": v.i, "pr": p.json()["pr"] + [{"k": "i", "n": 0, "dt": False}]}
    return out


def hand(name, params, build):
    """A function written by hand: `build` adds its lines."""
    g = Gen(random.Random(0), valid=1)
    g.name, g.retty = name, None
    g.params = [g.new_var(ty, mut, True) for ty, mut in params]
    build(g, *map(Place, g.params))
    g.line(k="ret", e={"k": "none"}, dead=[v.i for v in g.scopes[0]], tail=True)
    return g


def finding_refill_box(g, a):
    """The contents of a Box are moved out and given a new value."""
    b = a.proj()[0]
    g.line(k="ex", e={"k": "call", "f": "eat", "args": [g.use(b)], "bor": []})
    g.line(k="set", pl=b, e={"k": "lit", "t": "mk::<P>()"}, id=g.id())


def finding_reserve(g, a):
    """A method needs `&mut` while a shared borrow is in force that ends with the evaluation of its argument."""
    p = a.proj()[2]
    e = g.ref(p.proj()[1], False)
    v = g.new_var(REF(INT), False)
    g.line(k="let", v=v, e=e, ann=True)
    rc = {"k": "ref", "pl": p, "id": g.id(), "m": True, "auto": True, "tp": True}
    g.line(k="ex", e={"k": "call", "f": ".poke1", "args": [rc, g.use(Place(v).proj()[0])], "bor": []})


def finding_early_exit(g, a):
    """A conditional `break`, with statements after it in the loop."""
    i = g.line(k="loop", end=0)
    c = g.line(k="if", e={"k": "call", "f": "cond", "args": [], "bor": []}, els=0, end=0)
    b = g.line(k="brk", dead=[], to=i)
    n = g.line(k="end", dead=[], of="if", to=0)
    g.lines[c - 1]["end"] = n
    g.line(k="ex", e={"k": "call", "f": "see", "args": [g.ref(a, False)], "bor": []})
    n = g.line(k="end", dead=[], of="loop", to=i)
    g.lines[i - 1]["end"] = n
    g.lines[b - 1]["to"] = n


def if_(g, build, els=None):
    """A conditional with what `build` (and `els`) adds inside."""
    c = g.line(k="if", e={"k": "call", "f": "cond", "args": [], "bor": []}, els=0, end=0)
    build()
    if els:
        j = g.line(k="else", dead=[], end=0)
        g.lines[c - 1]["els"] = j
        els()
    n = g.line(k="end", dead=[], of="if", to=0)
    g.lines[c - 1]["end"] = n
    if els:
        g.lines[j - 1]["end"] = n


def loop_(g, build, kind="loop"):
    """A loop; `build` gets its first line."""
    i = g.line(k="loop", end=0) if kind == "loop" else g.line(k="while", e={"k": "call", "f": "cond", "args": [], "bor": []}, end=0)
    build(i)
    g.lines[i - 1]["end"] = g.line(k="end", dead=[], of="loop", to=i)


def do(g, f, e):
    g.line(k="ex", e={"k": "call", "f": f, "args": [e], "bor": []})


def finding_left(g, a):
    """A conditional `return`, with a statement after it."""
    if_(g, lambda: g.line(k="ret", e={"k": "none"}, dead=[v.i for v in g.scopes[0]], tail=False))
    do(g, "see", g.ref(a, False))


def finding_go_on(g, a):
    """A loop that is left unless a branch goes on with it."""
    def body(i):
        if_(g, lambda: g.line(k="cont", dead=[], to=i), lambda: do(g, "see", g.ref(a, False)))
        body.b = g.line(k="brk", dead=[], to=0)
    loop_(g, body)
    g.lines[body.b - 1]["to"] = len(g.lines)


def finding_endless(g, a):
    """A loop that is never left, after a statement that consists of several blocks."""
    g.line(k="op", pl=a, e={"k": "lit", "t": "1"}, id=g.id())
    loop_(g, lambda i: do(g, "eat", g.use(a)))


def finding_endless_branch(g, a):
    """A branch, and then a loop that is never left."""
    s, n, p = a.proj()
    if_(g, lambda: do(g, "eat", g.use(p)), lambda: do(g, "see", g.ref(n, False)))
    if_(g, lambda: loop_(g, lambda i: g.line(k="cont", dead=[], to=i)))
    do(g, "see", g.ref(n, False))


def findings():
    """A program with the functions that show the known findings."""
    text = PRELUDE.splitlines()
    fns = [hand("refill_box", [(BP, True)], finding_refill_box), hand("reserve", [(S, True)], finding_reserve),
           hand("early_exit", [(S, True)], finding_early_exit), hand("left", [(S, True)], finding_left), hand("go_on", [(S, True)], finding_go_on),
           hand("endless", [(INT, True)], finding_endless), hand("endless_branch", [(S, True)], finding_endless_branch)]
    for g in fns:
        text += render(g, len(text) + 1)
    return "\n".join(text) + "\n", fns


BAD = ["    let x: i32 = \"a\";", "    let x: String = 1 + 1;", "    mk::<S>().nope();", "    see(1, 2);", "    let x = mk::<S>().q;", "    if 3 {}"]


def bad(rng, name, first):
    """A function that is not well typed: its text and its record."""
    out = [f"pub fn {name}(a: S) {{"] + ["    eat(a);"] * rng.randrange(3)
    out.insert(rng.randrange(1, len(out) + 1), rng.choice(BAD))
    out.append("}")
    return out, {"name": name, "bad": True, "first": first, "last": first + len(out) - 1}


def program(seed, nfn, nbad=0, **kw):
    """The text of a program and the records of its functions."""
    rng = random.Random(seed)
    text = PRELUDE.splitlines()
    recs = []
    isbad = [False] * nfn + [True] * nbad
    if nbad:
        rng.shuffle(isbad)
    for i, b in enumerate(isbad):
        if b:
            t, r = bad(rng, f"g{i}", len(text) + 1)
            text += t
            recs.append(r)
            continue
        g = Gen(rng, valid=rng.choice([1.0, 1.0, .97, .9, .7]), **kw).fn(f"g{i}")
        text += render(g, len(text) + 1)
        recs.append(record(g))
    return "\n".join(text) + "\n", recs


if __name__ == "__main__":
    import sys
    t, f = program(int(sys.argv[1]), int(sys.argv[2]))
    print(t)
