union U { a: u32, b: f32 }
fn unsafes(u: &mut U, p: *mut i32) -> u32 {
  unsafe {
    *p += 1;
    u.a = 2;
    let r = &mut u.b;
    *r = 1.0;
    u.a
  }
}
