macro_rules! twice { ($e:expr) => { { let a = $e; let b = &a; a.len() + b.len() } } }
macro_rules! make { ($n:ident) => { fn $n(s: String) -> String { let t = s; t } } }
make!(made);
fn macros(s: String) -> usize {
  let n = twice!(s.clone());
  println!("{s} {n}");
  n
}
