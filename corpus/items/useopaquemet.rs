fn useopaquemet(s: String) -> bool {
  let x = Om(s);
  let k = x.opaquemet();
  let w = &k;
  let e = &mut s;
  format!("{w:?}").len() > 1
}
