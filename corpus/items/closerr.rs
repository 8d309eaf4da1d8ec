fn closerr(s: String) -> usize {
  let a = String::from("a");
  let f = || {
    let t = a;
    let inner = |k: usize| {
      let u = t;
      u.len() + t.len() + k
    };
    inner(1)
  };
  s.len() + f()
}
