fn bar() {
  let mut s = String::from("a");
  let b = &mut s;
  let coerced: &mut String = b;
  coerced.push_str("b");
  b.push_str("c");
}
