fn main() {
    let mut v = vec![0];
    let refiner = &v;

    let _a = &v;

    println!("{}", refiner[0]);
}
