async fn asynch(s: String) -> usize {
  let t = s;
  t.len()
}
