pub struct Pair { pub a: String, pub b: String }
pub struct Deep { pub p: Pair, pub q: Box<Pair>, pub n: i32 }
pub enum E { A(String, String), B { x: Box<i32> }, C }
pub struct Dr { pub s: String }
impl Drop for Dr { fn drop(&mut self) {} }
pub fn m1(p: Pair) -> String { let x = p.a; let y = p.b; drop(y); x }
pub fn m2(mut d: Deep, c: bool) -> usize {
    if c { drop(d.p.a); } else { drop(d.p); }
    let n = d.n;
    d.p = Pair { a: String::new(), b: String::new() };
    d.p.a.len() + n as usize + d.q.b.len()
}
pub fn m3(d: Deep) -> Box<Pair> { let q = d.q; let a = d.p.a; drop(a); q }
pub fn m4(d: Deep) -> String { let a = d.q.a; let b = d.q.b; drop(b); a }
pub fn m5(mut s: String, n: i32) -> String {
    let mut i = 0;
    while i < n { drop(s); s = String::new(); i += 1; }
    s
}
pub fn m6(e: E) -> i32 { match e { E::A(x, y) => { drop(x); y.len() as i32 } E::B { x } => *x, E::C => 0 } }
pub fn m7(e: E) -> i32 { match &e { E::A(x, _) => x.len() as i32, E::B { x } => **x, E::C => 0 } }
pub fn m8(d: Dr) -> usize { let r = &d.s; r.len() }
pub fn m9(c: bool) -> String { let s; if c { s = String::from("a"); } else { s = String::from("b"); } s }
pub fn m10(c: bool) -> usize { let s: String; if c { s = String::from("a"); return s.len(); } 0 }
pub fn m11(t: (String, (String, i32))) -> i32 { let (a, (b, n)) = t; drop(a); drop(b); n }
pub fn m12(v: Vec<String>) -> usize { let mut n = 0; for s in v { n += s.len(); } n }
pub fn m13(o: Option<String>) -> String { if let Some(s) = o { s } else { String::new() } }
pub fn m14(a: [String; 2]) -> String { let [x, y] = a; drop(y); x }
pub fn m15(s: String) -> usize { drop(s); s.len() }
pub fn m16(mut p: Pair) -> Pair { drop(p.a); p.a = String::new(); p }
pub fn m17(p: Pair) -> Pair { drop(p.a); p }
pub fn m18(mut s: String, c: bool) { loop { if c { drop(s); break; } s.push('a'); } }
pub fn m19(s: String) -> impl Fn() -> usize { move || s.len() }
pub fn m20(s: String) -> impl FnOnce() -> String { move || s }
pub fn m21(r: &mut Pair) -> String { std::mem::take(&mut r.a) }
pub fn m22(r: Option<&mut Pair>) -> usize { match r { Some(p) => { p.a.push('x'); p.a.len() } None => 0 } }
pub fn m23(mut b: Box<Pair>) -> Box<Pair> { let s = b.a; b.a = s; b }
pub fn m24(bb: Box<Box<Pair>>) -> String { let s = bb.a; s }
pub fn m25(mut x: Option<Box<Deep>>) -> i32 { while let Some(d) = x { if d.n > 3 { return d.n; } x = None; } 0 }
pub fn m26(s: String) { let f = |t: String| t.len(); f(s); }
pub fn m27(p: Pair) -> Pair { Pair { a: String::new(), ..p } }
pub fn m28(t: (i32, String)) -> (i32, String) { let n = t.0; let u = t; let _k = n + u.0; u }
pub fn m29(s: String) -> Result<String, String> { let r: Result<String, String> = Ok(s); let v = r?; Ok(v) }
pub union U { pub a: u32, pub b: f32 }
pub fn m30(mut u: U) -> u32 { u.b = 1.0; let r = unsafe { &mut u.a }; *r = 3; unsafe { u.a } }
pub fn m_scope1(c: bool) { while c { let d: Deep; drop(d.n); } }
pub fn m_scope2(c: bool) { while c { let x: String; if c { x = String::new(); drop(x); } drop(x); } }
pub fn m_scope3(c: bool, s: String) { loop { let x: String; if c { x = s; drop(x); break; } drop(x.len()); } }
