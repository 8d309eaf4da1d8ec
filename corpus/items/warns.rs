fn warns(a: i32) -> i32 {
  let unused = 3;
  let mut never = a;
  return never;
  let dead = 4;
}
