// NOTE: this is the same as interior_move.test but using a struct.

#[derive(Debug)]
struct Both {
    left: String,
    right: String,
}

fn main() {
    let mut both = Both {
        left: "left".to_string(),
        right: "right".to_string()
    };

    let mut left = both.left;

    let _a = &left;

    let _a = &both;
    let _a = &both.left;
    let _a = &both.right;

    println!("{left:?}");

    let _a = &both;
    let _a = &both.left;
    let _a = &both.right;

    both.left = "again".to_string();

    let _a = &both;
    let _a = &both.left;
    let _a = &both.right;

    println!("{both:?}");
}
