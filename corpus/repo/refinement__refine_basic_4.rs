fn main() {
  let mut z: i32 = 1;

  let _a = &z;

  let x: &mut i32 = &mut z;

  let _a = &z;
  let _a = &x;
  let _a = &*x;

  let y: &i32 = &*x;

  let _a = &z;
  let _a = &x;
  let _a = &*x;
  let _a = &y;
  let _a = &*y;

  println!("{} = {}", x, *y);
}
