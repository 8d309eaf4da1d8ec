fn opaquety(x: i32) -> impl std::fmt::Display {
  x
}
