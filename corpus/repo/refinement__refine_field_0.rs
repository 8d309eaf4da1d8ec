#[derive(Debug)]
struct Both {
    left: String,
    right: String,
}

fn main() {
    let s1 = String::from("left");
    let s2 = String::from("right");
    let mut both = Both { left: s1, right: s2 };

    let left = &mut both.left;

    let _a = &left;
    let _a = &*left;

    let _a = &both;
    let _a = &both.left;
    let _a = &both.right;

    println!("{left:?}");

    let _a = &both;
}
