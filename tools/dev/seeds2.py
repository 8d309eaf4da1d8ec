import sys; sys.path.insert(0,'/verif/tools/dev')
from mkseed import mkseed
A='crates/aquascope/src/analysis/'
mkseed('p04-last-adjustment','P04',[(A+'boundaries/path_visitor.rs','''    let is_auto_borrow = adjs.iter().find_map(|adj| {
      if let Adjust::Borrow(AutoBorrow::Ref(m)) = adj.kind {''','''    let is_auto_borrow = adjs.last().and_then(|adj| {
      if let Adjust::Borrow(AutoBorrow::Ref(m)) = adj.kind {''')],
 "a method of slices called on an array, so that the receiver is first borrowed and then unsized",
 "The receiver of `a.sort()` with an array `a` is said to be moved rather than mutably borrowed.",
 '''pub fn f(mut a: [i32; 4]) -> usize {
  a.reverse();
  let n = a.len();
  n
}
''','''print(boundary("f", 2), boundary("f", 3))
sys.exit(0 if [e for c, e, a in boundary("f", 2)] == ["RW"] and [e for c, e, a in boundary("f", 3)] == ["R"] else 1)
''')
mkseed('p06-cutoff-start','P06',[(A+'boundaries/mod.rs','''pb.byte_location <= error_range.end''','''pb.byte_location <= error_range.start''')],
 "the use that is rejected lies inside a larger expression that the error is reported for",
 "Boundaries inside the range of the first error but after its start are left out: a rejected method call loses the very boundary that explains it.",
 '''pub fn f(s: String, r: &String) -> usize {
  s.clear();
  r.len()
}
''','''print(boundary("f", 2))
sys.exit(0 if [(e, a) for c, e, a in boundary("f", 2)] == [("RW", "RO")] else 1)
''')
mkseed('p02-no-parents','P02',[(A+'permissions/output.rs','''          // Moving a path makes its parent *moveable* paths partially initialized.
          .chain(move_path.parents(&ictxt.move_data.move_paths).map(
            move |(_, move_parent)| {''','''          // Moving a path makes its parent *moveable* paths partially initialized.
          .chain(move_path.parents(&ictxt.move_data.move_paths).take(1).map(
            move |(_, move_parent)| {''')],
 "a place two levels below its variable is moved out, and the variable is looked at",
 "A variable of which a field of a field was moved is not reported as moved.",
 '''pub struct P { s: String, k: i32 }
pub struct Q { p: P, n: i32 }
pub fn f(q: Q) -> i32 {
  let x = q.p.s;
  let y = q;
  1
}
''','''m = [b["data"]["path_moved"] for f in F for b in f["boundaries"] if b["location"]["line"] == 4]
print(m)
sys.exit(0 if len(m) == 1 and m[0] is not None else 1)
''')
mkseed('p05-mut-args','P05',[(A+'permissions/context.rs','''    self.body_with_facts.body.local_decls[place.local].mutability
      != Mutability::Mut''','''    let body = &self.body_with_facts.body;
    place.local.as_usize() > body.arg_count
      && body.local_decls[place.local].mutability != Mutability::Mut''')],
 "a parameter that is not declared `mut` and is used where a mutable place is needed",
 "Parameters that are not declared mutable are reported as writeable.",
 '''pub fn f(s: String) {
  s.clear();
}
''','''print(boundary("f", 2))
sys.exit(0 if [(e, a) for c, e, a in boundary("f", 2)] == [("RW", "RO")] else 1)
''')
mkseed('p05-late-location','P05',[(A+'boundaries/mod.rs','''  let mut mir_locations = mir_locations_opt?.values().collect::<Vec<_>>();
  mir_locations.sort_unstable();
''','''  let mut mir_locations = mir_locations_opt?.values().collect::<Vec<_>>();
  mir_locations.sort_unstable_by_key(|loc| (loc.block, usize::MAX - loc.statement_index));
''')],
 "an expression that uses the same place several times, with an effect on it between two of the uses",
 "Where an expression uses the same place more than once, the permissions shown for the first use can be those of a later one.",
 '''pub struct P { s: String, k: i32 }
pub fn eat<A, B>(_: A, _: B) {}
pub fn f(p: P) {
  eat(&p.s, p.s);
}
''','''print(boundary("f", 4))
sys.exit(0 if [(e, a) for c, e, a in boundary("f", 4)] == [("R", "RO"), ("RO", "R")] else 1)
''')
