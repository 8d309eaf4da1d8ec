fn useopaque(s: String) -> usize {
  let f = opaque(s);
  let g = &f;
  g() + f()
}
