mod outer {
  pub mod deep {
    pub(crate) fn far(v: Vec<u8>) -> Vec<u8> {
      let mut w = v;
      w.push(1);
      w
    }
  }
  impl Default for T { fn default() -> Self { T(String::new()) } }
  pub struct T(pub String);
}
