fn bar() {
  let mut s = String::from("a");
  let b = &mut s;
  let moved = b;
  moved.push_str("b");
  b.push_str("c");
}
