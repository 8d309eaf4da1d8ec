fn borrowerr(v: &mut Vec<i32>) -> i32 {
  let first = &v[0];
  v.push(2);
  let a = *first;
  let b = &v;
  a
}
