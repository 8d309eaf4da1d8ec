fn add_big_strings(dst: &mut Vec<String>, src: &[String]) {
    let largest: &String =
      dst.iter().max_by_key(|s| s.len()).unwrap();
    for s in src {
        if s.len() > largest.len() {
            dst.push(s.clone());
        }
    }
}
