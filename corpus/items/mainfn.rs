fn main() {
  let x = String::from("x");
  let y = x;
  println!("{y}");
}
