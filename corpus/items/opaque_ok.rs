fn opaque(s: String) -> impl Fn() -> usize {
  let t = s;
  let n = t.len();
  move || n
}
