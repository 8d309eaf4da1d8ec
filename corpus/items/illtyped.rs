fn illtyped(x: i32) -> i32 {
  let y: String = x;
  x + 1
}
