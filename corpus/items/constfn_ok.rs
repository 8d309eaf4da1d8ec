const fn constfn(n: usize) -> usize {
  n + 1
}
