fn useopaquety(v: Vec<i32>) -> String {
  let d = opaquety(v[0]);
  let w = v;
  format!("{d}")
}
