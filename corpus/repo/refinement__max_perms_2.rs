fn main() {
    let v = &mut vec![1];
    let a = &mut *v;
    let _a = v;
}
