struct Om(String);
impl Om {
  fn opaquemet(self) -> impl std::fmt::Debug {
    let t = self;
    let n = t.0.len();
    n
  }
}
