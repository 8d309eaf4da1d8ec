fn foo(s: &mut String) {
  *s = String::new();
}
