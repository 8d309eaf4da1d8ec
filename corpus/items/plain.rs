fn plain(x: &mut Vec<i32>) -> usize {
  x.push(1);
  let y = &*x;
  let n = y.len();
  x.push(n as i32);
  x.len()
}
