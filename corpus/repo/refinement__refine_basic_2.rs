fn main() {
    let mut v = vec![0];

    let _a = &v;

    let refine_write = &v;

    let _a = &refine_write;
    let _a = &*refine_write;
    let _a = &v;

    println!("{}", refine_write[0]);

    let _a = &v;
}
