fn loans(m: &mut [String], k: usize) -> usize {
  let mut a = String::from("a");
  let mut b = String::from("b");
  let r1 = &mut a;
  let r2 = &mut b;
  let (p, q) = m.split_at_mut(k);
  let f = &mut p[0];
  let g = &mut q[0];
  r1.push_str(f);
  r2.push_str(g);
  f.push('x');
  let h = &a;
  let i = &b;
  h.len() + i.len()
}
