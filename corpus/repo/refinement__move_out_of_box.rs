fn foo(b: Box<String>) -> String {
    let s = *b;
    let _a = s;
    s
}
