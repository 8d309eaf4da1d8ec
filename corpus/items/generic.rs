fn generic<T: Clone + Into<String>, const N: usize>(t: [T; N]) -> Vec<String> {
  let mut out = Vec::new();
  for x in t.iter() {
    let y = x.clone();
    out.push(y.into());
  }
  let u = t;
  out
}
