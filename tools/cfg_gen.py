"""Writes the skeletons of specs/cfg/Skel.tla as Rust functions."""

HEAD = """fn c(_k: i32) -> bool { true }
fn u(_k: i32) {}
"""
ARMS = {"mint": ["0", "1 | 2", "3..=9"], "mopt": ["Some(1)", "Some(p) if c(p)", "Some(_)"], "mtup": ["(0, 1)", "(1, _)", "(_, 2)"],
        "mstr": ['"a"', '"b" | "cd"', "t if t.len() > 3"], "mguard": ["Some(ref p) if *p > 1 && c(*p)", "Some(p) if c(1) || c(p)", "ref q @ Some(0..=3) if q.is_some()"]}
ON = {"mint": "n", "mopt": "o", "mtup": "(n, a)", "mstr": "s", "mguard": "o"}
LOOPS = {"while", "whilelet", "loop", "lab", "for"}


def function(name, skel):
    out, stack, k, ind = [f"fn {name}(n: i32, a: i32, o: Option<i32>, s: &str, v: &mut Vec<i32>) -> Option<i32> {{", "  let mut x = 0;"], [], 0, 1
    jumped = False

    def put(s, i=None):
        out.append("  " * (ind if i is None else i) + s)
    for t in skel:
        k += 1
        if t == "s":
            put(f"u({k});" if k % 2 else f"x += {k};")
        elif t == "?":
            put("x += o?;")
        elif t == "letelse":
            put(f"let Some(y{k}) = o else {{ return None; }};")
            put(f"x += y{k};")
        elif t == "clos":
            put(f"let f{k} = |z: i32| if z > 0 {{ z }} else {{ 1 }};")
            put(f"x += f{k}(x);")
        elif t in ("if", "ifand", "ifor", "iflet"):
            put({"if": f"if c({k}) {{", "ifand": f"if c({k}) && a > 1 && c(0) {{", "ifor": f"if c({k}) || n > 1 {{", "iflet": "if let Some(p) = o {"}[t])
            if t == "iflet":
                put("  u(p);")
            stack.append([t, k, 1])
            ind += 1
        elif t == "val":
            put(f"let y{k}: i32 = if c({k}) {{")
            stack.append([t, k, 1])
            ind += 1
        elif t in LOOPS:
            put(f"'l{k}: " + {"while": f"while c({k}) {{", "whilelet": "while let Some(p) = v.pop() {", "loop": "loop {", "lab": "loop {" if k % 2 else f"while x < {k} {{", "for": f"for i in 0..n {{"}[t])
            stack.append([t, k, 1])
            ind += 1
        elif t == "blk":
            put(f"'b{k}: {{")
            stack.append([t, k, 1])
            ind += 1
        elif t in ON:
            put(f"match {ON[t]} {{")
            put(f"  {ARMS[t][0]} => {{")
            stack.append([t, k, 1])
            ind += 2
        elif t == "else":
            top = stack[-1]
            if top[0] == "val" and not jumped:
                put(f"{k}")
            put("} else {", ind - 1)
            top[2] = 2
        elif t == "arm":
            top = stack[-1]
            i = top[2]
            put("}", ind - 1)
            put((ARMS[top[0]][i] if i < 3 else f"_ if c({k})") + " => {", ind - 1)
            top[2] += 1
        elif t == "end":
            what, n, i = stack.pop()
            if what == "val":
                if not jumped:
                    put(f"{k}")
                put("};" if i == 2 else "} else { 0 };", ind - 1)
                ind -= 1
                put(f"x += y{n};")
            elif what in ON:
                put("}", ind - 1)
                put("_ => {}", ind - 1)
                put("}", ind - 2)
                ind -= 2
            else:
                put("}", ind - 1)
                ind -= 1
        elif t in ("brk", "cont", "brkl", "contl"):
            i = max(i for i, w in enumerate(stack) if w[0] in (LOOPS if t in ("brk", "cont") else {"lab"}))
            plain = not any(w[0] in LOOPS or w[0] == "blk" for w in stack[i + 1:])
            put(("break" if t[0] == "b" else "continue") + ("" if plain else f" 'l{stack[i][1]}") + ";")
        elif t == "brkb":
            put(f"break 'b{[w for w in stack if w[0] == 'blk'][-1][1]};")
        elif t == "ret":
            put("return None;")
        elif t == "panic":
            put("panic!();")
        else:
            raise ValueError(t)
        jumped = t in ("brk", "cont", "brkl", "contl", "brkb", "ret", "panic")
    put("Some(x)")
    return "\n".join(out) + "\n}\n"


def files(skels, d, per):
    """Writes them into files; path -> the skeletons of its functions."""
    import os
    out = {}
    for i in range(0, len(skels), per):
        p = os.path.join(d, f"c{i // per}.rs")
        with open(p, "w") as f:
            f.write(HEAD + "\n".join(function(f"f{j}", s) for j, s in enumerate(skels[i:i + per])))
        out[p] = skels[i:i + per]
    return out
