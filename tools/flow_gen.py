"""Random functions about lifetimes, as specs/flow/Flow.tla reads them, and their rendering to Rust."""
import random

PRELUDE = '''#![allow(warnings)]
#[derive(Clone, Copy)]
pub struct H<'h> { pub r: &'h i32 }
pub fn id<'x>(x: &'x i32) -> &'x i32 { x }
pub fn pick<'x>(x: &'x i32, y: &'x i32) -> &'x i32 { x }
pub fn first<'x, 'y>(x: &'x i32, y: &'y i32) -> &'x i32 { x }
pub fn same<'x>(x: &'x mut i32) -> &'x mut i32 { x }
pub fn mk<'x>() -> &'x mut i32 { loop {} }
pub fn see<T>(_: T) {}
pub fn cond() -> bool { true }
pub static ST: i32 = 1;
'''


class Gen:
    def __init__(self, rng, name):
        self.r, self.name = rng, name
        self.vars, self.stmts, self.uid = [], [], 0
        self.dead = set()       # vectors that have been reborrowed
        self.depth = 0
        self.shared = set()     # mutable references that have been read, and must not be used up
        self.left = False       # whether there was an early return (known finding of the steps: nothing may branch after it)

    def id(self):
        self.uid += 1
        return self.uid

    def var(self, k, arg, a=0, b=0):
        self.vars.append({"k": k, "arg": arg, "a": a, "b": b, "n": "abcdefghijklmnopqrstuvwxyz"[len(self.vars)]})
        return len(self.vars)

    def of(self, *ks):
        return [i + 1 for i, v in enumerate(self.vars) if v["k"] in ks and i + 1 not in self.dead]

    def ref(self, d=0):
        """An expression of type &i32."""
        x = self.r.random()
        if x < .08:
            return {"k": "st"}
        if x < .2 and d < 2:
            return {"k": "id", "args": [self.ref(d + 1)]}
        if x < .34 and d < 2:
            return {"k": "pick", "args": [self.ref(d + 1), self.ref(d + 1)]}
        if x < .4 and d < 2:
            return {"k": "first", "args": [self.ref(d + 1), self.ref(d + 1)]}
        c = [("var", v) for v in self.of("R")] * 3 + [("der", v) for v in self.of("RR", "MM")] + [("reb", v) for v in self.of("M")] \
            + [("fld", v) for v in self.of("H", "G")] + [("loc", v) for v in self.of("I")] + [("idx", v) for v in self.of("V", "LV")]
        if not c:
            return {"k": "st"}
        k, v = self.r.choice(c)
        if k == "reb":
            self.shared.add(v)
        return {"k": k, "v": v, "id": self.id()}

    def mut(self):
        """An expression of type &mut i32; None if there is nothing left for one."""
        c = [v for v in self.of("M") if v not in self.shared]
        if not c or self.depth:
            return None
        v = self.r.choice(c)
        self.dead.add(v)
        e = {"k": self.r.choice(["var", "mreb"]), "v": v, "id": self.id()}
        return {"k": "same", "args": [e]} if self.r.random() < .3 else e

    def struct(self):
        c = self.of("H")
        if c and self.r.random() < .5:
            return {"k": "var", "v": self.r.choice(c), "id": self.id()}
        return {"k": "H", "args": [self.ref()]}

    def value(self, k):
        return self.struct() if k == "H" else self.mut() if k == "M" else self.ref()

    def ret(self, tail):
        k = self.retk
        if tail and k == "R" and self.r.random() < .2 and not self.left:
            return self.stmts.append({"k": "retif", "es": [self.ref(), self.ref()], "tail": True})
        es = [] if k == "none" else [self.value("R" if k == "T" else k) for _ in self.ret_as]
        if es == [None]:
            es = [{"k": "mk"}]
        self.stmts.append({"k": "ret", "es": es, "tail": tail})

    def stmt(self):
        x = self.r.random()
        if x < .05:
            e = self.mut()
            if e:
                return self.stmts.append({"k": "let", "v": self.var("M", False), "e": e})
        if x < .08 and not self.left:
            es = [self.ref(), self.ref()]
            return self.stmts.append({"k": "sel", "v": self.var("R", False), "es": es})
        if x < .11:
            return self.stmts.append({"k": "vec", "v": self.var("LV", False)})
        if x < .3:
            k = self.r.choice(["R", "R", "R", "H"])
            e = self.value(k)
            v = self.var(k, False)
            return self.stmts.append({"k": "let", "v": v, "e": e})
        if x < .38:
            v = self.var("I", False)
            return self.stmts.append({"k": "int", "v": v})
        if x < .55:
            c = self.of("R", "H")
            if c:
                v = self.r.choice(c)
                return self.stmts.append({"k": "set", "v": v, "e": self.value(self.vars[v - 1]["k"])})
        if x < .72:
            c = self.of("V", "LV")
            if c:
                v = self.r.choice(c)
                if self.r.random() < .2 and not self.depth and self.vars[v - 1]["k"] == "V":
                    e = {"k": "var", "v": v, "id": self.id()}
                    self.dead.add(v)
                    return self.stmts.append({"k": "alias", "v": self.var("V", False), "e": e})
                return self.stmts.append({"k": "push", "v": v, "e": self.ref()})
        if x < .84:
            c = self.of("G", "H", "MM")
            if c:
                return self.stmts.append({"k": "store", "v": self.r.choice(c), "e": self.ref()})
        if x < .94 and self.depth < 2 and not self.left:
            self.stmts.append({"k": "if"})
            n = len(self.vars)
            self.depth += 1
            for _ in range(self.r.randrange(1, 3)):
                self.stmt()
            if self.r.random() < .3 and self.depth == 1:
                self.ret(False)
                self.left = True
            self.depth -= 1
            self.dead |= set(range(n + 1, len(self.vars) + 1))
            return self.stmts.append({"k": "end"})
        self.stmts.append({"k": "see", "e": self.ref()})

    def fn(self):
        r = self.r
        self.nl = self.named = r.randrange(1, 5)
        lt = lambda: 0 if r.random() < .06 else r.randrange(1, self.named + 1)
        self.out = sorted({(a, b) for a in range(1, self.nl + 1) for b in range(1, self.nl + 1) if a != b and r.random() < .16})
        for _ in range(r.randrange(1, 6)):
            k = r.choice(["R", "R", "R", "M", "RR", "H", "V", "V", "G", "I", "MM"])
            self.var(k, True, lt(), lt())
            if k != "I" and r.random() < .12:       # a lifetime without a name
                self.nl += 1
                self.vars[-1]["a"] = self.nl
            if k in ("RR", "MM") and r.random() < .1:
                self.nl += 1
                self.vars[-1]["b"] = self.nl
        self.where = r.random() < .3
        self.retk = r.choice(["none", "R", "R", "R", "H", "T", "M"])
        self.ret_as = [] if self.retk == "none" else [lt() for _ in range(2 if self.retk == "T" else 1)]
        for _ in range(r.randrange(1, 7)):
            self.stmt()
        self.ret(True)
        return self


def life(a, named=4):
    return "'static" if a == 0 else "'" + "abcd"[a - 1] if a <= named else "'_"


def render(g, first):
    """The lines of the function; fills in the positions of uses."""
    def name(v):
        return g.vars[v - 1]["n"]

    def m(e):
        return f"\x01{e['id']}\x02"

    def ex(e):
        k = e["k"]
        if k in ("st", "mk"):
            return "&ST" if k == "st" else "mk()"
        if k == "var":
            return m(e) + name(e["v"])
        if k == "fld":
            return m(e) + name(e["v"]) + ".r"
        if k == "der":
            return m(e) + "*" + name(e["v"])
        if k == "reb":
            return "&" + m(e) + "*" + name(e["v"])
        if k == "mreb":
            return "&mut " + m(e) + "*" + name(e["v"])
        if k == "idx":
            return m(e) + name(e["v"]) + "[0]"
        if k == "loc":
            return "&" + m(e) + name(e["v"])
        a = [ex(x) for x in e["args"]]
        return "H { r: " + a[0] + " }" if k == "H" else f"{k}({', '.join(a)})"

    def ty(v):
        a, b = life(v["a"], g.named), life(v["b"], g.named)
        return {"R": f"&{a} i32", "M": f"&{a} mut i32", "RR": f"&{a} &{b} i32", "H": f"H<{a}>", "V": f"&mut Vec<&{a} i32>", "G": f"&mut H<{a}>", "I": "i32", "MM": f"&{a} mut &{b} i32"}[v["k"]]

    out = []
    bounds = {a: ": " + " + ".join(life(y) for x, y in g.out if x == a) for a in range(1, g.named + 1) if any(x == a for x, _ in g.out)}
    ls = ", ".join(life(a) + ("" if g.where else bounds.get(a, "")) for a in range(1, g.named + 1))
    wh = " where " + ", ".join(life(a) + b for a, b in bounds.items()) if g.where and bounds else ""
    ps = ", ".join(("mut " if v["k"] in "RH" else "") + f"{v['n']}: {ty(v)}" for v in g.vars if v["arg"])
    rt = {"none": "", "R": lambda: f" -> &{life(g.ret_as[0])} i32", "M": lambda: f" -> &{life(g.ret_as[0])} mut i32", "H": lambda: f" -> H<{life(g.ret_as[0])}>", "T": lambda: f" -> (&{life(g.ret_as[0])} i32, &{life(g.ret_as[1])} i32)"}[g.retk]
    out.append(f"pub fn {g.name}<{ls}>({ps}){rt() if rt else ''}{wh} {{")
    ind = 1
    g.pos = {}
    for s in g.stmts:
        k = s["k"]
        if k == "end":
            ind -= 1
        if k == "let":
            t = f"let mut {name(s['v'])} = {ex(s['e'])};"
        elif k == "int":
            t = f"let {name(s['v'])} = 1;"
        elif k == "set":
            t = f"{name(s['v'])} = {ex(s['e'])};"
        elif k == "push":
            t = f"{name(s['v'])}.push({ex(s['e'])});"
        elif k == "store":
            t = ("*" + name(s["v"]) if g.vars[s["v"] - 1]["k"] == "MM" else name(s["v"]) + ".r") + f" = {ex(s['e'])};"
        elif k == "alias":
            t = f"let {name(s['v'])} = &mut {m(s['e'])}*{name(s['e']['v'])};"
        elif k == "sel":
            t = f"let mut {name(s['v'])} = if cond() {{ {ex(s['es'][0])} }} else {{ {ex(s['es'][1])} }};"
        elif k == "retif":
            t = f"if cond() {{ {ex(s['es'][0])} }} else {{ {ex(s['es'][1])} }}"
        elif k == "vec":
            t = f"let mut {name(s['v'])} = Vec::<&i32>::new();"
        elif k == "see":
            t = f"see({ex(s['e'])});"
        elif k == "if":
            t = "if cond() {"
        elif k == "end":
            t = "}"
        elif k == "ret":
            v = [ex(e) for e in s["es"]]
            v = "" if not v else v[0] if len(v) == 1 else f"({', '.join(v)})"
            t = v if s["tail"] else ("return " + v).strip() + ";"
        t = "  " * ind + t
        if k == "if":
            ind += 1
        txt, i = "", 0
        while i < len(t):
            if t[i] == "\x01":
                j = t.index("\x02", i)
                g.pos[int(t[i + 1:j])] = (first + len(out), len(txt) + 1)
                i = j + 1
            else:
                txt += t[i]
                i += 1
        out.append(txt)
    out.append("}")
    g.first, g.last = first, first + len(out) - 1
    return out


def record(g):
    return {"name": g.name, "nl": g.nl, "out": [list(p) for p in g.out], "vars": g.vars, "ret": {"k": g.retk, "as": g.ret_as}, "stmts": g.stmts,
            "uses": [{"l": g.pos[i][0], "c": g.pos[i][1]} for i in range(1, g.uid + 1)], "first": g.first, "last": g.last}


def hand(name, lifetimes, params, retk, ret_as, stmts, out=()):
    """A function written by hand."""
    g = Gen(random.Random(0), name)
    g.nl, g.named, g.out, g.where, g.retk, g.ret_as = lifetimes, lifetimes, list(out), False, retk, ret_as
    for k, a, b in params:
        g.var(k, True, a, b)
    for s in stmts:
        g.stmts.append(s(g))
    return g


def findings():
    """A program with the functions that show the known findings."""
    v = lambda g, n: {"k": "var", "v": n, "id": g.id()}
    merged = hand("merged", 2, [("V", 1, 0), ("V", 2, 0), ("R", 1, 0), ("R", 2, 0)], "none", [],
                  [lambda g: {"k": "push", "v": 1, "e": v(g, 4)}, lambda g: {"k": "push", "v": 2, "e": v(g, 3)}, lambda g: {"k": "ret", "es": [], "tail": True}])
    text = PRELUDE.splitlines()
    text += render(merged, len(text) + 1)
    return "\n".join(text) + "\n", [record(merged)]


def program(seed, nfn):
    rng = random.Random(seed)
    text, recs = PRELUDE.splitlines(), []
    for i in range(nfn):
        g = Gen(rng, f"g{i}").fn()
        text += render(g, len(text) + 1)
        recs.append(record(g))
    return "\n".join(text) + "\n", recs


if __name__ == "__main__":
    import sys
    print(program(int(sys.argv[1]), 6)[0])
