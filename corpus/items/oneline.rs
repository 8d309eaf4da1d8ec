fn ol1(s: &mut String) { s.push('a'); } fn ol2(s: String) -> String { s } struct Q; impl Q { fn ol3(self) {} }
