use std::mem;

fn make_a_cloner<'a>(s_ref: &'a str)
  -> impl Fn() -> String + 'a {
  move || s_ref.to_string()
}

fn main() {
  let s_own = String::from("");
  let cloner = make_a_cloner(&s_own);

  drop(s_own);
  cloner();
}
