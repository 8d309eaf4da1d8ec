fn opaquety(x: i32) -> impl std::fmt::Display {
  let y: bool = x;
  x
}
