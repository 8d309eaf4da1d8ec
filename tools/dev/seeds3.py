import sys; sys.path.insert(0,'/verif/tools/dev')
from mkseed import mkseed, mdseed
M='crates/mdbook-aquascope/src/'
mdseed('p12-last-colon','P12',[(M+'annotations.rs',"match s.split_once(':') {","match s.rsplit_once(':') {")],
 "an option whose value contains a colon, such as a qualified path",
 "`paths:Foo::bar` is recorded under the option `paths:Foo:` and so is lost.",
 '''rs, _ = build(block("let x = A::b;`(paths:A::b)`"))
m = data(rs[0]["rs"][0][2], "annotations")["stepper"]["focused_paths"]
print(m)
sys.exit(0 if m == {"1": [{"type": "Literal", "value": "A::b"}]} else 1)
''')
mdseed('p12-escape-shift','P12',[(M+'annotations.rs','''      add_fragment!("#");
      line = suffix;''','''      fragments.push("#");
      line = suffix;''')],
 "a mark for the interpreter somewhere after a line with an escaped #",
 "Every position after an escaped # is one too small.",
 '''rs, _ = build(block("let a = 1;\\n\\\\#[attr]\\nlet b = 2;`[]`"))
h = rs[0]["rs"][0][2]
code, at = data(h, "code"), data(h, "annotations")["interp"]["state_locations"]
print(repr(code), at)
sys.exit(0 if at == [len(code)] else 1)
''')
mdseed('p13-fence-line','P13',[(M+'block.rs','''take_until("```")),
      tag("```"),''','''take_until("\\n```")),
      tag("\\n```"),''')],
 "a block whose closing fence is not at the beginning of a line",
 "A block closed by a fence that follows code on its line swallows the page up to a later fence.",
 '''rs, _ = build("```aquascope,interpreter\\nfn main() {}```\\nText.\\n```rust\\n```\\n")
print(rs)
sys.exit(0 if [data(x[2], "code") for x in rs[0]["rs"]] == ["fn main() {}"] else 1)
''')
mdseed('p13-perm-prefix','P13',[(M+'permissions.rs','''if !VALID_PERMISSIONS.contains(&perm) {''','''if !VALID_PERMISSIONS.iter().any(|valid| perm.starts_with(valid)) {''')],
 "a permission mark with something after a valid permission",
 "`@Perm{reads}` is accepted.",
 '''rs, _ = build("a @Perm{reads} b")
print(rs)
sys.exit(0 if "err" in rs[0] else 1)
''')
mdseed('p14-key-config','P14',[(M+'block.rs','#[derive(PartialEq, Hash, Debug, Clone)]\npub struct AquascopeBlock {','#[derive(PartialEq, Debug, Clone)]\npub struct AquascopeBlock {'),
  (M+'block.rs','impl AquascopeBlock {','''impl Hash for AquascopeBlock {
  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
    // The settings do not change what the program does.
    self.operations.hash(state);
    self.code.hash(state);
  }
}

impl AquascopeBlock {''')],
 "two blocks, of one build or of two, with the same program and operations but other settings",
 "The cache answers a block with `showFlows` or `shouldFail` with the result of one without.",
 '''build(block("fn main() {}", "permissions"))
rs, runs = build(block("fn main() {}", "permissions,showFlows"))
args = data(rs[0]["rs"][0][2], "responses")["permissions"][0]["Ok"]["args"]
print(args)
sys.exit(0 if "--show-flows" in args else 1)
''')
mdseed('p14-save-no-truncate','P14',[(M+'cache.rs','''      self.cache_file.set_len(0)?;
      self.cache_file.rewind()?;''','''      self.cache_file.rewind()?;'''),
  (M+'cache.rs','''serde_json::from_reader(&mut decoder).unwrap_or_else(|e| {
        eprintln!("Warning: failed to read Aquascope cache with error {e}");
        HashMap::new()
      })''','''serde_json::from_reader(&mut decoder)?''')],
 "a cache file that is damaged (or was cut by a crash) before a build",
 "A damaged cache makes every later build fail.",
 '''rs, _ = build(block("fn main() {}"))
d = open(".aquascope-cache", "rb").read()
open(".aquascope-cache", "wb").write(d[:len(d) // 2])
rs, _ = build(block("fn main() {}"))
print(rs)
sys.exit(0 if "rs" in rs[0] else 1)
''')
mdseed('p14-failed-empty','P14',[(M+'cache.rs','''    self.cache.insert(hash(&key), value);
    self.dirty = true;''','''    self.dirty |= self.cache.is_empty();
    self.cache.insert(hash(&key), value);''')],
 "a build that adds a block to a book whose cache already holds another",
 "Results are only saved when the cache was empty before, so later blocks are analysed in every build.",
 '''build(block("fn main() {}"))
build(block("fn main() {}"), block("fn f() {}"))
rs, runs = build(block("fn main() {}"), block("fn f() {}"))
print(runs)
sys.exit(0 if not runs else 1)
''')
mdseed('p15-first-error','P15',[(M+'preprocessor.rs','''arr.iter().any(|obj| obj.get("Err").is_some())''','''arr.first().map_or(false, |obj| obj.get("Err").is_some())''')],
 "a program in which a function after the first one cannot be analysed",
 "A failed analysis of any function but the first does not fail the page.",
 '''rs, _ = build(block('//say permissions [{"Ok": {}}, {"Err": {"type": "AnalysisError"}}]', "permissions"))
print(rs)
sys.exit(0 if "err" in rs[0] else 1)
''')
mdseed('p15-shared-responses','P15',[(M+'preprocessor.rs','''    let tempdir = tempdir()?;
    let root = tempdir.path();
    let status = Command::new("cargo")''','''    let tempdir = tempdir()?;
    let root = &std::env::temp_dir()
      .join(format!("aquascope-{}-{}", std::process::id(), block.code.len()));
    let _ = fs::remove_dir_all(root);
    fs::create_dir_all(root)?;
    let status = Command::new("cargo")''')],
 "two blocks of the same length on one page, processed at the same time",
 "Blocks whose programs have the same length share a project directory: one is analysed with the other's program, or fails.",
 '''page = "\\n\\n".join(block("fn f%d() {} //wait 0.3" % i) for i in range(6))
rs, _ = build(page)
ok = "rs" in rs[0] and all(data(x[2], "code") == data(x[2], "responses")["interpreter"][0]["Ok"]["code"] for x in rs[0]["rs"])
print(ok, rs[0].get("err"))
sys.exit(0 if ok else 1)
''')
mdseed('p15-operation-response','P15',[(M+'preprocessor.rs','''    for operation in &block.operations {''','''    let mut should_fail = false;
    for operation in &block.operations {'''),(M+'preprocessor.rs','''      let should_fail = block.config.iter().any(|(k, _)| k == "shouldFail");
      if should_fail {''','''      should_fail =
        !should_fail && block.config.iter().any(|(k, _)| k == "shouldFail");
      if should_fail {''')],
 "a block with two operations and the setting shouldFail",
 "Only the first operation of a block gets the flag --should-fail.",
 '''rs, runs = build(block("fn main() {}", "permissions+interpreter,shouldFail"))
print(runs)
sys.exit(0 if len(runs) == 2 and all("--should-fail" in r["args"] for r in runs) else 1)
''')
