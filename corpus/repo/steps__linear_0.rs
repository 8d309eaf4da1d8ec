fn dummy_use(_n: &i32) {}

fn main() {
  let mut x: i32 = 0;

  let mut y: i32 = 0;

  let z = &mut x;

  *z = y;

  dummy_use(&z);
}
