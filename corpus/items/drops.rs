struct D(String);
impl Drop for D {
  fn drop(&mut self) { let s = &mut self.0; s.clear(); }
}
fn drops(d: D) -> usize {
  let r = &d.0;
  let n = r.len();
  let s = d.0;
  n
}
