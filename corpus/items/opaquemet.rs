struct Om(String);
impl Om {
  fn opaquemet(self) -> impl std::fmt::Debug {
    let t = self;
    let n = self.0.len();
    n
  }
}
