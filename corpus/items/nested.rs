fn nested(x: &mut i32) -> i32 {
  fn inner(y: &mut i32) -> i32 {
    *y += 1;
    *y
  }
  let z = &mut *x;
  inner(z) + inner(x)
}
