fn closures(v: &mut Vec<String>) -> usize {
  let pre = String::from("p");
  let mut n = 0;
  let mut add = |s: &str| {
    n += s.len();
    v.push(format!("{pre}{s}"));
  };
  add("a");
  add("b");
  let own = move || pre.len();
  own() + n
}
