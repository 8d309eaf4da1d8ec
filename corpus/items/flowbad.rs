fn flowbad<'a, 'b>(x: &'a i32, y: &'b i32) -> &'a i32 {
  let z = if *x > *y { x } else { y };
  z
}
