fn useconstfn(s: String) -> usize {
  let a = [0u8; constfn(1)];
  let t = s;
  a.len() + t.len()
}
