const fn constfn(n: usize) -> usize {
  let a = n;
  let r = &a;
  let x = 1;
  x = 2;
  *r + 1
}
