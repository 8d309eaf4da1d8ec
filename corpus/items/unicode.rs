fn ünïcode(größe: &mut String) -> usize { /* → ∀ */ let é = "𝒳→"; größe.push_str(é); let r = &*größe; r.len() }
