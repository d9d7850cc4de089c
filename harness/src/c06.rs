//! C06: card texts and sets of cards; recorded for the specification to judge, and round trips in volume.
use crate::util::*;
use pokers::hand_range::{Combo, card_from_chars, card_from_str, card_to_string, flop_from_str, hole_to_string, holes_to_strings, mask_to_string};
use pokers::get_card_mask;
use serde_json::{Value, json};

fn cps(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

fn call<T>(what: &str, arg: &Value, f: impl FnOnce() -> T) -> T {
    guard(f).unwrap_or_else(|e| violation("reading or writing cards panics", json!({"call": what, "argument": arg, "panic": e})))
}

fn cards_text(cards: &[u8]) -> String {
    cards.iter().map(|&c| card_to_string(c)).collect()
}

fn text(r: &mut Rng) -> String {
    const SYM: &[char] = &['2', '3', '9', 'T', 't', 'J', 'q', 'K', 'k', 'A', 'a', 's', 'h', 'c', 'd', 'S', 'D', ' ', '\t', '\u{a0}', '\u{3000}', '\u{212a}', '\u{130}', 'x', '1', '0', ',', 'é', '\u{1F0A1}', '\u{200b}'];
    match r.below(6) {
        0 => (0..r.below(9)).map(|_| *r.pick(SYM)).collect(),
        1 => (0..r.below(9)).map(|_| char::from_u32(r.below(0x3100) as u32).unwrap_or('a')).collect(),
        k => {
            let n = if k == 2 { r.below(8) } else { 3 };
            let cards: Vec<u8> = (0..n).map(|_| { let k = if r.chance(1, 6) { 3 } else { 52 }; r.below(k) as u8 }).collect();
            let mut t = String::new();
            for (i, &c) in cards.iter().enumerate() {
                if i > 0 && r.chance(1, 3) {
                    for _ in 0..r.below(3) {
                        t.push(*r.pick(&[' ', '\t', '\n', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}']));
                    }
                }
                t += &card_to_string(c);
            }
            let mut c: Vec<char> = t.chars().map(|c| if r.chance(1, 6) { c.to_ascii_lowercase() } else if r.chance(1, 20) { c.to_ascii_uppercase() } else { c }).collect();
            if r.chance(1, 3) && !c.is_empty() {
                let p = r.below(c.len());
                match r.below(3) {
                    0 => {
                        c.remove(p);
                    }
                    1 => c.insert(p, *r.pick(SYM)),
                    _ => c[p] = *r.pick(SYM),
                }
            }
            c.into_iter().collect()
        }
    }
}

pub fn run(a: &Args) {
    let cur = Current::new(a);
    let mut r = Rng::new(a.seed, "c06");
    let mut out: Vec<Value> = vec![];
    let mut n = 0u64;
    let err = |x: Result<u8, String>| x.unwrap_or(99);
    // All texts of at most two characters of a wide alphabet; texts with cards, damaged and arbitrary ones.
    let mut texts: Vec<String> = vec![String::new()];
    let wide: Vec<char> = (0u32..128).chain([0x212a, 0x130, 0x17f, 0xff21, 0x1F0A1]).map(|c| char::from_u32(c).unwrap()).collect();
    for &x in &wide {
        texts.push(x.to_string());
    }
    let two: Vec<String> = wide.iter().flat_map(|&x| wide.iter().map(move |&y| format!("{x}{y}"))).collect();
    for _ in 0..a.pick(4000, 60_000) {
        texts.push(text(&mut r));
    }
    let mut accepted = [0u64; 4];
    let ask = |t: &str, out: &mut Vec<Value>, acc: &mut [u64; 4]| {
        let v = json!(t);
        cur.set(&v);
        let m = call("get_card_mask", &v, || get_card_mask(t));
        if m >> 52 != 0 {
            violation("a card that does not exist was read", json!({"text": t, "mask": m}));
        }
        let c = err(call("card_from_str", &v, || card_from_str(t)));
        let f = err(call("card_from_chars", &v, || card_from_chars(&mut t.chars())));
        let fl = call("flop_from_str", &v, || flop_from_str(t)).map(|f| f.to_vec()).unwrap_or_default();
        acc[0] += (m != 0) as u64;
        acc[1] += (c != 99) as u64;
        acc[2] += (f != 99) as u64;
        acc[3] += !fl.is_empty() as u64;
        out.push(json!({"f": "mask", "t": cps(t), "r": cards_of(m)}));
        out.push(json!({"f": "card", "t": cps(t), "r": c}));
        out.push(json!({"f": "first", "t": cps(t), "r": f}));
        out.push(json!({"f": "flop", "t": cps(t), "r": fl}));
    };
    for t in &texts {
        ask(t, &mut out, &mut accepted);
    }
    // the two-character texts: those that read as something, and a sample of the others
    for t in &two {
        let some = guard(|| get_card_mask(t) != 0 || card_from_str(t).is_ok() || card_from_chars(&mut t.chars()).is_ok()).unwrap_or(true);
        let plausible = t.to_lowercase().chars().all(|c| "23456789tjqkashcd".contains(c));
        if some || plausible || r.chance(1, 40) {
            ask(t, &mut out, &mut accepted);
        }
        n += 1;
    }
    // Writers.
    for c in 0..52u8 {
        out.push(json!({"f": "one", "s": [c], "r": cps(&call("card_to_string", &json!(c), || card_to_string(c)))}));
    }
    let mut holes = vec![];
    for x in 0..52u8 {
        for y in 0..52u8 {
            if x != y {
                holes.push((x, y));
            }
        }
    }
    let hs = call("holes_to_strings", &json!("all"), || holes_to_strings(&holes)).unwrap_or_default();
    if hs.len() != holes.len() {
        violation("writing hole cards drops some", json!({"given": holes.len(), "written": hs.len()}));
    }
    for (i, &(x, y)) in holes.iter().enumerate() {
        let one = call("hole_to_string", &json!([x, y]), || hole_to_string((x, y)));
        if one.as_ref() != Ok(&hs[i]) {
            violation("writing hole cards one by one and together differ", json!({"hole": [x, y], "one": format!("{one:?}"), "together": hs[i]}));
        }
        if i % 3 == 0 {
            out.push(json!({"f": "hole", "s": [x, y], "r": cps(&hs[i])}));
            out.push(json!({"f": "combo", "s": [x, y], "r": cps(&call("to_string", &json!([x, y]), || Combo(x, y, 100).to_string()))}));
        }
        n += 1;
    }
    // Sets of cards: written, read back in any case.
    let mut back = 0u64;
    for k in 0..a.pick(200_000, 3_000_000) {
        let m = match k % 4 {
            0 => r.next() & ((1 << 52) - 1),
            1 => {
                let n = r.below(8);
                mask_of(&r.cards(n, 0))
            }
            2 => {
                let n = r.below(53);
                mask_of(&r.cards(n, 0))
            }
            _ => r.next() & r.next() & ((1 << 52) - 1),
        };
        let v = json!(m);
        let t = call("mask_to_string", &v, || mask_to_string(m));
        let forms = [t.clone(), t.to_lowercase(), t.to_uppercase()];
        for f in &forms {
            let b = call("get_card_mask", &v, || get_card_mask(f));
            if b != m {
                violation("a set of cards written and read back is another set", json!({"cards": cards_of(m), "text": f, "read": cards_of(b)}));
            }
        }
        // in any order, and with repetition
        let mut c = cards_of(m);
        r.shuffle(&mut c);
        if let Some(&x) = c.first() {
            c.push(x);
        }
        if get_card_mask(&cards_text(&c)) != m {
            violation("the order in which cards are written matters", json!({"text": cards_text(&c)}));
        }
        if k < 1000 {
            out.push(json!({"f": "text", "s": cards_of(m), "r": cps(&t)}));
        }
        back += 1;
    }
    n += back + out.len() as u64;
    std::fs::write(format!("{}/trace.ndjson", a.out), out.iter().map(|v| v.to_string() + "\n").collect::<String>()).unwrap();
    say(json!({"done": true, "evaluations": n, "round_trips": back, "accepted_by_mask_card_first_flop": accepted}));
}
