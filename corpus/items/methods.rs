struct Stack { items: Vec<String>, top: Option<Box<i32>> }
trait Sized2 {
  const K: usize = 3;
  fn size(&self) -> usize;
  fn double(&self) -> usize {
    let a = self.size();
    a * 2 + Self::K
  }
}
impl Stack {
  fn push(&mut self, s: String) -> &mut Self {
    self.items.push(s);
    let t = &mut self.top;
    *t = None;
    self
  }
  fn take(self) -> Vec<String> {
    self.items
  }
}
impl Sized2 for Stack {
  fn size(&self) -> usize { self.items.len() }
}
