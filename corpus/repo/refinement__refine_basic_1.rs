fn main() {
    let mut v = vec![0];

    let refiner = &mut v;

    let _a = &v;

    println!("{}", refiner[0]);

    let _a = &v;
}
