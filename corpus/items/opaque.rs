fn opaque(s: String) -> impl Fn() -> usize {
  let t = s;
  let n = s.len();
  move || n
}
