fn flowok<'a>(v: &mut Vec<&'a i32>, x: &'a i32) -> &'a i32 {
  v.push(x);
  let r: &'a i32 = v[0];
  r
}
