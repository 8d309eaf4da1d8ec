fn moved(s: String) -> usize {
  let t = s;
  let n = s.len();
  drop(t);
  n
}
