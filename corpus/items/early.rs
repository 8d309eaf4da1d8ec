fn early(n: i32) -> i32 {
  let mut x = 0;
  let s = String::from("s");
  while x < n {
    if x == 3 {
      let t = &s;
      break;
    }
    x += 1;
  }
  let u = s;
  x
}
