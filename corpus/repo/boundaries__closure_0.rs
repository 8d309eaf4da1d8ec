fn main() {
  let mut s = String::from("");
  let mut yay = || {
    s.push_str("yay");
  };

  yay();
  yay();
  yay();
  println!("{}", s);
}
