const LIMIT: usize = 3;
static NAMES: [&str; 2] = ["a", "b"];
const TABLE: [fn(i32) -> i32; 1] = [|x| x + 1];
enum Kind { A = 1, B = 2 }
