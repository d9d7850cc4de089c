//! C03: indices, names and lookups of starting hands against the specification's list.
use crate::util::*;
use pokers::{COMBO_TO_INDEX, HAND_TO_INDEX, Hand, HandRange, INDEX_TO_COMBO, INDEX_TO_HAND, UnitResults, exact_equity, get_card_index, get_card_mask};
use serde_json::{Value, json};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, atomic::AtomicBool};

pub fn run(a: &Args) {
    let cur = Current::new(a);
    let text = std::fs::read_to_string(a.opt("--list").unwrap_or_else(|| tool("--list"))).unwrap();
    let mut n = 0u64;
    let mut names: HashMap<String, usize> = HashMap::new();
    let mut classes: HashMap<String, usize> = HashMap::new();
    for l in text.lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        cur.set(&v);
        let (i, name) = (v[0].as_u64().unwrap() as usize, v[1].as_str().unwrap());
        let (x, y) = (v[2].as_u64().unwrap() as u8, v[3].as_u64().unwrap() as u8);
        let (k, cname) = (v[4].as_u64().unwrap() as usize, v[5].as_str().unwrap());
        names.insert(name.into(), i);
        classes.insert(cname.into(), k);
        let got = guard(|| {
            let h = Hand::from_hole_cards(x, y);
            let h2 = Hand::from_hole_cards(y, x);
            let h3 = Hand::from_bit_mask(1 << x | 1 << y);
            let mut h4 = Hand::default();
            h4 += h;
            vec![get_card_index(x, y), get_card_index(y, x), h.get_card_index(), h2.get_card_index(), h3.get_card_index(), h4.get_card_index()]
        })
        .unwrap_or_else(|e| violation("asking for the index of a hand panics", json!({"hand": v, "panic": e})));
        if got.iter().any(|&g| g != i) {
            violation("the index of a hand is not its position in the published order", json!({"hand": v, "indices": got}));
        }
        if INDEX_TO_HAND[i] != name || HAND_TO_INDEX.get(name) != Some(&i) {
            violation("the published list of hand names is not in the order of the indices", json!({
                "hand": v, "listed": INDEX_TO_HAND[i], "lookup": HAND_TO_INDEX.get(name)}));
        }
        if INDEX_TO_COMBO[k] != cname || COMBO_TO_INDEX.get(cname) != Some(&k) {
            violation("the list of classes is not in the order of the hands", json!({
                "hand": v, "listed": INDEX_TO_COMBO[k], "lookup": COMBO_TO_INDEX.get(cname)}));
        }
        n += 1;
    }
    if n != 1326 || classes.len() != 169 {
        tool("the specification's list is incomplete");
    }
    if HAND_TO_INDEX.len() != 1326 || COMBO_TO_INDEX.len() != 169 || INDEX_TO_HAND.len() != 1326 || INDEX_TO_COMBO.len() != 169 {
        violation("there are other names than those of the hands and classes", json!({"hands": HAND_TO_INDEX.len(), "classes": COMBO_TO_INDEX.len()}));
    }
    // Looking up results: give every entry of a real result a mark of its own, and look each name up.
    let unit = |m: u64| UnitResults { total: m, wins: m / 2, ..UnitResults::default() };
    let mut lookups = 0u64;
    let mut r = Rng::new(a.seed, "c03");
    for players in 2..=9usize {
        let texts: Vec<String> = ["AA", "KK", "QQ", "JJ", "TT", "99", "88", "77", "66"][..players].iter().map(|s| s.to_string()).collect();
        cur.set(&json!({"players": players}));
        let mut res = guard(|| {
            exact_equity(&HandRange::from_strings(texts.iter().map(|t| format!("{}s{}h", &t[..1], &t[..1])).collect()),
                get_card_mask("2s3h4c5d2h"), 0, 1, Arc::new(AtomicBool::new(false)), |_| {})
        })
        .unwrap_or_else(|e| violation("a plain calculation panics", json!({"players": players, "panic": e})))
        .unwrap_or_else(|e| violation("a plain calculation is refused", json!({"players": players, "error": format!("{e:?}")})));
        if res.hand_results.len() != 1326 * players || res.combo_results.len() != 169 * players {
            violation("a result has not one entry per player and hand, and per player and class", json!({
                "players": players, "hands": res.hand_results.len(), "classes": res.combo_results.len()}));
        }
        // before marking: the hand each player holds is where its name says
        for (p, t) in texts.iter().enumerate() {
            let name = format!("{}s{}h", &t[..1], &t[..1]);
            for (nm, want) in [(name.clone(), true), (INDEX_TO_HAND[r.below(1326)].to_string(), false)] {
                if nm == name && !want {
                    continue;
                }
                match guard(|| res.get_hand_result(p, nm.clone())) {
                    Ok(Ok(u)) if u.valid == want => {}
                    x => violation("looking up a hand does not find the player's own result", json!({
                        "player": p, "hand": nm, "expected_valid": want, "found": format!("{x:?}")})),
                }
            }
        }
        for (i, h) in res.hand_results.iter_mut().enumerate() {
            *h = unit(1_000_000 + i as u64);
        }
        for (i, h) in res.combo_results.iter_mut().enumerate() {
            *h = unit(9_000_000 + i as u64);
        }
        for p in 0..players {
            for (name, &i) in &names {
                match guard(|| res.get_hand_result(p, name.clone())) {
                    Ok(Ok(u)) if u.total == 1_000_000 + (1326 * p + i) as u64 => {}
                    x => violation("looking up a hand returns another entry", json!({"player": p, "players": players, "hand": name, "found": format!("{x:?}")})),
                }
                lookups += 1;
            }
            for (name, &k) in &classes {
                match guard(|| res.get_combo_result(p, name.clone())) {
                    Ok(Ok(u)) if u.total == 9_000_000 + (169 * p + k) as u64 => {}
                    x => violation("looking up a class returns another entry", json!({"player": p, "players": players, "class": name, "found": format!("{x:?}")})),
                }
                lookups += 1;
            }
        }
        if players != 2 && !a.thorough {
            continue;
        }
        // Other names are refused.
        let mut other: HashSet<String> = HashSet::new();
        let rk = ["2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A"];
        let su = ["s", "h", "c", "d"];
        for c in 0..52 {
            for d in 0..52 {
                let t = format!("{}{}{}{}", rk[c / 4], su[c % 4], rk[d / 4], su[d % 4]);
                other.insert(t.to_lowercase());
                other.insert(t.to_uppercase());
                other.insert(format!("{t} "));
                other.insert(t);
            }
            for d in 0..13 {
                for k in ["", "s", "o", "S", "O", " "] {
                    other.insert(format!("{}{}{k}", rk[c / 4], rk[d]));
                    other.insert(format!("{}{}{k}", rk[c / 4], rk[d]).to_lowercase());
                }
            }
        }
        for t in ["", " ", "A", "As", "AsAhAc", "🂡🂱", "AAo", "22s", "0", "1325", "1326", "random", "AKs ", "\0", "AK"] {
            other.insert(t.into());
        }
        for _ in 0..2000 {
            let l = r.below(6);
            other.insert((0..l).map(|_| char::from_u32(r.below(0x250) as u32).unwrap_or('?')).collect());
        }
        for t in other {
            cur.set(&json!({"name": t}));
            let (is_h, is_c) = (names.contains_key(&t), classes.contains_key(&t));
            match guard(|| (res.get_hand_result(0, t.clone()).is_ok(), res.get_combo_result(0, t.clone()).is_ok())) {
                Ok((h, c)) if h == is_h && c == is_c => {}
                x => violation("a name that is not a hand's or class's is not refused", json!({"name": t, "accepted": format!("{x:?}"), "expected": [is_h, is_c]})),
            }
            lookups += 1;
        }
    }
    say(json!({"done": true, "evaluations": n * 6 + lookups, "traces": n, "lookups": lookups, "hands": n, "classes": classes.len()}));
}
