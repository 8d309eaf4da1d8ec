use std::collections::HashMap;
use std::hash::Hash;

/*
 * NOTE: this is the expected behavior as intended by the NLL RFC.
 * However, with a compiler running the non-polonius borrowck this
 * will still fail. This is a case when Aquascope may differ from
 * standard rustc results.
 */

fn get_default<'r, K: Hash + Eq + Copy, V: Default>(
    map: &'r mut HashMap<K,V>, key: K
) -> &'r mut V {
    match map.get_mut(&key) {
        Some(value) => value,
        None => {
            let _a = &map;
            let _a = &*map;
            map.insert(key, V::default());
            map.get_mut(&key).unwrap()
        }
    }
}
