fn use_s(s: String) {}
fn use_t<T>(t: (T, T)) {}

fn foo() {
  let mut t = (String::from("1"), String::from("2"));

  let s = t.0;

  let _a = &t;
  let _a = &t.0;
  let _a = &t.1;
  let _a = &s;

  use_s(s);

  let _a = &s;

  t.0 = String::from("viola");

  let _a = &t;
  let _a = &t.0;
  let _a = &t.1;

  use_t(t);
}
