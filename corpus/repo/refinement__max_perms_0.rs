fn main() {
    let mut v = vec![1];
    let _a = v;
}
