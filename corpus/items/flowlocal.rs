fn flowlocal<'a>(v: &mut Vec<&'a i32>) {
  let k = 1;
  v.push(&k);
  let s = String::new();
  v.len();
}
