fn main() {
  let mut v = vec![1, 2, 3];
  let num = &mut v[0];
  *num += 1;
  *num;
}
