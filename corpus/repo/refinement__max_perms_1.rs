fn main() {
    let v = vec![1];
    let _a = v;
}
