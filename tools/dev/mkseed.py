"""mkseed(id, prop, edits=[(file, old, new)], needs, breaks, prog, test): writes seeded/<id>."""
import os, subprocess, json, shutil
V='/verif/seeded/'
AQ='''# aq FILE.rs [OPTIONS]: prints the JSON that the permissions command prints for a crate made of the file.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/sync.py || exit 99
(cd "$WS" && cargo build --offline -q --bin aquascope-driver --bin cargo-aquascope) || exit 99
BIN=$CARGO_TARGET_DIR/debug
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
aq() {
  f=$1; shift
  mkdir -p "$T/c/src"; cp "$f" "$T/c/src/lib.rs"
  printf '[package]\\nname="d"\\nversion="0.1.0"\\nedition="2021"\\n[workspace]\\n' > "$T/c/Cargo.toml"
  (cd "$T/c" && unset CARGO_TARGET_DIR && LD_LIBRARY_PATH=$(rustc --print sysroot)/lib PATH=$BIN:$PATH cargo-aquascope aquascope permissions "$@" 2>/dev/null)
}
'''
PY='''import json, sys
F = [x["Ok"] for x in json.load(sys.stdin) if "Ok" in x]
perm = lambda p: "".join(c for c, k in zip("RWO", ("read", "write", "drop")) if p[k])
def boundary(fn, line, col=None):
    """The boundaries of one line (1-based) of a function, as (column, expected, actual)."""
    return sorted((b["location"]["column"] + 1, perm(b["expected"]), perm(b["actual"])) for f in F for b in f["boundaries"] if b["location"]["line"] + 1 == line)
'''
def mkseed(id, prop, edits, needs, breaks, prog=None, test=None, opts='', demo=None, files={}):
    d=V+id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(['git','-C','/repo','checkout','--','.'])
    for f,o,n in edits:
        p='/repo/'+f; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout)
    subprocess.run(['git','-C','/repo','checkout','--','.'])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    if prog is not None:
        open(d+'/prog.rs','w').write(prog)
        open(d+'/judge.py','w').write(PY+test)
        demo='#!/bin/bash\n'+AQ+f'aq "$HERE/prog.rs" {opts} > "$T/out.json" || exit 1\npython3 "$HERE/judge.py" < "$T/out.json"\n'
    open(d+'/demo.sh','w').write(demo)
    for k,v in files.items(): open(d+'/'+k,'w').write(v)

# ---- demos with the preprocessor: `book.py` beside the demo drives it.
MDMAIN='''use std::io::{BufRead, Write};
fn main() {
  let mut pre = mdbook_aquascope::AquascopePreprocessor::new().unwrap();
  let mut good = true;
  for line in std::io::stdin().lock().lines() {
    let page: String = serde_json::from_str(&line.unwrap()).unwrap();
    let v = match pre.replacements(&page) {
      Ok(rs) => serde_json::json!({"rs": rs.iter().map(|(r, h)| serde_json::json!([r.start, r.end, h])).collect::<Vec<_>>()}),
      Err(e) => { good = false; serde_json::json!({"err": format!("{e:#}")}) }
    };
    writeln!(std::io::stdout(), "{v}").unwrap();
  }
  if good { pre.save_cache(); }
}
'''
MDSH='''#!/bin/bash
# Drives the preprocessor (a small crate with a path dependency on it) with a stand-in for cargo.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/sync.py || exit 99
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/crate/src" "$T/bin" "$T/book" "$T/tmp"
cp "$HERE/driver.rs" "$T/crate/src/main.rs"
cat > "$T/crate/Cargo.toml" <<END
[package]
name = "book-demo"
version = "0.1.0"
edition = "2021"
[dependencies]
mdbook-aquascope = { path = "$WS/crates/mdbook-aquascope" }
serde_json = "1"
[workspace]
END
cp "$WS/Cargo.lock" "$T/crate/Cargo.lock"
(cd "$T/crate" && cargo build --offline -q) || exit 99
cp "$HERE/cargo.py" "$T/bin/cargo"; chmod +x "$T/bin/cargo"
export DEMO_BIN=$CARGO_TARGET_DIR/debug/book-demo DEMO_LOG=$T/log PATH=$T/bin:$PATH MIRI_SYSROOT=/nonexistent RUSTC_PATH=/bin/echo TMPDIR=$T/tmp
cd "$T/book" && timeout 200 python3 "$HERE/judge.py"
'''
MDCARGO='''#!/usr/bin/env python3
"""Stands in for cargo: makes projects, and "analyses" by echoing."""
import sys, os, json, time, re
a = sys.argv[1:]
if "new" in a:
    d = [x for x in a[a.index("new") + 1:] if not x.startswith("-")][0]
    os.makedirs(d + "/src"); open(d + "/src/main.rs", "w").write("fn main() {}"); sys.exit(0)
code = open("src/main.rs").read()
raw = open("src/main.rs", newline="").read()
op = [x for x in a[a.index("aquascope") + 1:] if not x.startswith("-")][0]
open(os.environ["DEMO_LOG"], "a").write(json.dumps({"cwd": os.getcwd(), "args": a, "code": code, "raw": raw}) + "\\n")
m = re.search(r"//wait ([0-9.]+)", code)
if m: time.sleep(float(m.group(1)))
m = re.search(r"//say " + op + " (.*)", code)
print(m.group(1) if m else json.dumps([{"Ok": {"op": op, "args": a, "code": code}}]))
'''
MDPY='''import json, os, subprocess, sys, html, re
def build(*pages):
    """One build of a book of these pages, in the current directory: what becomes of each page, and the runs of the analysis."""
    log = os.environ["DEMO_LOG"]
    if os.path.exists(log): os.unlink(log)
    p = subprocess.run([os.environ["DEMO_BIN"]], input="".join(json.dumps(x) + "\\n" for x in pages), stdout=subprocess.PIPE, text=True)
    out = [json.loads(l) for l in p.stdout.split("\\n") if l]
    runs = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
    return out + [{"died": p.returncode}] * (len(pages) - len(out)), runs
def data(h, name):
    """A data attribute of an embedded block."""
    m = re.search("data-" + name + "=(\\"[^\\"]*\\"|'[^']*')", h)
    return json.loads(html.unescape(m.group(1)[1:-1]))
def block(code, head="interpreter"): return "```aquascope," + head + "\\n" + code + "\\n```"
'''
def mdseed(id, prop, edits, needs, breaks, judge):
    mkseed(id, prop, edits, needs, breaks, demo=MDSH, files={'driver.rs':MDMAIN,'cargo.py':MDCARGO,'judge.py':MDPY+judge})

# ---- demos with the server
SRVSH='''#!/bin/bash
# Drives the server with a stand-in for cargo.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/sync.py || exit 99
(cd "$WS" && cargo build --offline -q --bin aquascope_serve) || exit 99
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/bin" "$T/tmp"
cp "$HERE/cargo.py" "$T/bin/cargo"; chmod +x "$T/bin/cargo"
export DEMO_BIN=$CARGO_TARGET_DIR/debug/aquascope_serve DEMO_LOG=$T/log PATH=$T/bin:$PATH MIRI_SYSROOT=/nonexistent RUSTC_PATH=/bin/echo TMPDIR=$T/tmp RUST_LOG=off
cd "$T" && timeout 200 python3 "$HERE/judge.py"
'''
SRVPY='''import json, os, socket, subprocess, sys, threading, time, urllib.request
with socket.socket() as s:
    s.bind(("127.0.0.1", 0)); PORT = s.getsockname()[1]
SRV = subprocess.Popen([os.environ["DEMO_BIN"]], env=dict(os.environ, AQUASCOPE_SERVER_ADDRESS="127.0.0.1", AQUASCOPE_SERVER_PORT=str(PORT)))
def get(path): return urllib.request.urlopen(f"http://127.0.0.1:{PORT}{path}", timeout=60).read()
for _ in range(200):
    try:
        get("/hi"); break
    except OSError: time.sleep(0.05)
def post(op, code, config=None, timeout=60):
    """The answer to a request, or the error."""
    q = urllib.request.Request(f"http://127.0.0.1:{PORT}/{op}", json.dumps({"code": code, "config": config}).encode(), {"content-type": "application/json"})
    try: return json.loads(urllib.request.urlopen(q, timeout=timeout).read())
    except Exception as e: return {"error": str(e)}
def end(good):
    SRV.kill(); sys.exit(0 if good else 1)
'''
SRVCARGO=MDCARGO.replace('m = re.search(r"//say "','''m = re.search(r"//warn (.*)", code)
if m: print(m.group(1), file=sys.stderr)
m = re.search(r"//say "''')
def srvseed(id, prop, edits, needs, breaks, judge):
    mkseed(id, prop, edits, needs, breaks, demo=SRVSH, files={'cargo.py':SRVCARGO,'judge.py':SRVPY+judge})
