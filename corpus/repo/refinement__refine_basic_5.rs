fn main() {
  let mut z: i32 = 1;

  let _a = &z;

  let x: &mut i32 = &mut z;

  let _a = &z;
  let _a = &x;
  let _a = &*x;

  let y: &i32 = &*x;

  let _a = &z;
  let _a = &x;
  let _a = &*x;
  let _a = &y;
  let _a = &*y;

  *x += 1; // ERROR: *x doesn't have 'W' permissions

  // NOTE: after the error, the generated facts say that
  // we would have 'W' permission because the above statement
  // was "executed". The permissions below show that an error
  // occurred because there exists both read and write permission
  // to the same place in memory.

  let _a = &z;
  let _a = &x;
  let _a = &*x;
  let _a = &y;
  let _a = &*y;

  println!("{} = {}", x, *y);
}
