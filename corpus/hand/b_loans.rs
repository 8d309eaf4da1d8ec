pub struct Pair { pub a: String, pub b: String }
pub struct In { pub p: Pair, pub n: i32 }
pub fn l1(mut p: Pair) { let r = &mut p.a; p.b.push('x'); r.push('y'); p.a.push('z'); }
pub fn l2(p: &mut Pair) -> &mut String { let a = &mut p.a; let b = &p.b; a.push_str(b); &mut p.a }
pub fn l3(v: &mut Vec<i32>) { let n = &v[0]; let k = *n; v.push(k); }
pub fn l4(mut v: Vec<i32>) { v.push(v.len() as i32); let k = v.len(); v[k - 1] += 1; }
pub fn l5(mut s: String, c: bool) { let r; if c { r = &mut s; r.push('a'); } else { r = &mut s; } s.push('b'); }
pub fn l6(mut s: String) { let r = &s; let q = &s; drop(q.len()); drop(r.len()); let m = &mut s; m.push('x'); }
pub fn l7(x: &mut i32) -> i32 { let y = &mut *x; *y += 1; *x += 1; *x }
pub fn l8<'a>(x: &'a mut i32, y: &'a mut i32, c: bool) -> &'a mut i32 { if c { x } else { y } }
pub fn l9(mut a: [i32; 3], i: usize) { let r = &mut a[i]; *r = 2; let q = &a[0]; let k = *q; a[1] = k; }
pub fn l10(i: &mut In) { let p = &mut i.p; let a = &mut p.a; i.n += 1; a.push('z'); p.b.push('k'); }
pub fn l11(b: &mut Box<Pair>) { let r = &mut b.a; r.push('q'); let s = &b.b; drop(s.len()); }
pub fn l12(mut v: Vec<String>) { for s in v.iter_mut() { s.push('a'); } for s in &v { drop(s.len()); } }
pub fn l13(m: &mut Vec<i32>, k: i32) -> &mut i32 { m.push(k); let n = m.len(); &mut m[n - 1] }
pub fn l14(mut s: String) { let mut f = || s.push('a'); f(); f(); drop(s); }
pub fn l15(s: String) { let f = || s.len(); f(); drop(f()); drop(s); }
pub fn l16(mut o: Option<String>) { if let Some(s) = &mut o { s.push('a'); } if let Some(ref mut s) = o { s.push('b'); } drop(o); }
pub fn l17(t: &mut (i32, i32)) { let (a, b) = t; std::mem::swap(a, b); t.0 += 1; }
pub fn l18(mut x: i32) -> i32 { let r = &mut x; *r += 1; let s = &*r; let k = *s; *r = k; x }
pub fn l19(mut s: String) { let r = &mut s; drop(s); r.push('a'); }
pub fn l20(mut s: String) { let r = &s; s.push('a'); drop(r.len()); }
pub fn l21(s: String) { let r = &mut s; r.push('a'); }
pub fn l22(p: &Pair) { p.a.push('x'); }
pub fn l23<'a>(v: &'a mut Vec<String>, s: &'a str) -> &'a str { while v.len() > 0 { v.pop(); } s }
pub fn l24(mut n: i32) -> i32 { let mut r = &mut n; loop { *r += 1; if *r > 10 { break; } r = &mut *r; } n }
pub struct L { pub v: i32, pub next: Option<Box<L>> }
pub fn l25(mut l: &mut L) -> &mut i32 { while l.next.is_some() { l = l.next.as_mut().unwrap(); } &mut l.v }
pub fn l26(l: L) -> i32 { match l.next { Some(n) => { let k = n.v; l.v + k } None => l.v } }
pub fn l27(l: &L) -> i32 { match &l.next { Some(n) => l27(n), None => l.v } }
pub fn l28(p: *mut Pair, q: *const Pair) { unsafe { (*p).a.push('x'); let r = &mut (*p).b; r.push('y'); drop((*q).a.len()); } }
pub fn l29(c: &std::cell::RefCell<String>) { c.borrow_mut().push('a'); let n = c.borrow().len(); drop(n); }
pub fn l30(x: &mut &mut i32, y: &&mut i32) -> i32 { **x += **y; let z = &mut **x; *z += 1; **x }
pub fn l31(v: &mut [String]) { let (a, b) = v.split_at_mut(1); a[0].push('x'); b[0].push('y'); v[0].push('z'); }
pub fn l32(mut v: [String; 2]) { let [a, b] = &mut v; a.push('x'); b.push('y'); v[0].push('z'); }
pub enum T { L, N(Box<T>, i32, Box<T>) }
pub fn l33(t: &mut T, k: i32) { match t { T::L => *t = T::N(Box::new(T::L), k, Box::new(T::L)), T::N(l, x, r) => if k < *x { l33(l, k) } else { l33(r, k) } } }
pub fn l34(t: T) -> i32 { match t { T::L => 0, T::N(l, x, r) => l34(*l) + x + l34(*r) } }
pub fn l35(mut s: String, c: bool) -> String { { let r = &mut s; if c { r.push('x'); } } let t = &s; if c { return t.clone(); } s }
pub fn l36(s: &mut String) { let t = s; t.push('a'); let u = &mut *t; u.push('b'); t.push('c'); }
pub fn l37(v: &mut Vec<Vec<i32>>, i: usize) { v[i].push(1); let w = &mut v[i]; w.push(2); let n = v[i].len(); v.push(vec![n as i32]); }
pub async fn l38(s: String) -> usize { let r = &s; r.len() }
pub const K: usize = { let a = [1usize, 2]; a[0] };
pub static ST: &str = "a";
pub fn l39<T: Clone>(x: &T, mut v: Vec<T>) -> Vec<T> { v.push(x.clone()); let y = x.clone(); v.push(y); v }
pub fn l40(a: &mut Pair, b: &mut Pair) { std::mem::swap(&mut a.a, &mut b.a); std::mem::swap(a, b); *a = Pair { a: String::new(), b: String::new() }; }
