//! C02: hands put together by programs the specification generated, and everything that can be asked of them.
use crate::util::*;
use pokers::{CARDS, Hand};
use serde_json::{Value, json};
use std::collections::HashMap;

fn step(h: Option<Hand>, op: &str, cards: &[u8]) -> Hand {
    match op {
        "empty" => Hand::default(),
        "mask" => Hand::from_bit_mask(mask_of(cards)),
        "card" => h.unwrap() + CARDS[cards[0] as usize],
        "cardassign" => {
            let mut x = h.unwrap();
            x += CARDS[cards[0] as usize];
            x
        }
        "hole" => h.unwrap() + Hand::from_hole_cards(cards[0], cards[1]),
        "holeleft" => Hand::from_hole_cards(cards[0], cards[1]) + h.unwrap(),
        "holeassign" => {
            let mut x = h.unwrap();
            x += Hand::from_hole_cards(cards[0], cards[1]);
            x
        }
        _ => tool("unknown operation"),
    }
}

/// What can be asked of a hand, in the shape of the specification's Obs.
fn observe(h: &Hand) -> Value {
    let bits = |m: u16| (0..16).filter(|r| m & (1 << r) != 0).collect::<Vec<u8>>();
    json!({
        "count": h.count(),
        "suits": (0..4).map(|s| h.suit_count(s)).collect::<Vec<_>>(),
        "inSuit": (0..4).map(|s| bits(h.get_suit_mask(s))).collect::<Vec<_>>(),
        "ranks": bits(h.get_rank_mask()),
        "cards": (0..52u8).filter(|&c| h.contains(c)).collect::<Vec<_>>(),
        "flush": h.has_flush(),
        "inFlush": bits(h.get_flush_key() as u16),
    })
}

/// The same, of a set of cards; bound to the specification's Obs by the replayed programs.
fn obs_of(cards: &[u8]) -> Value {
    let mut s: Vec<u8> = cards.to_vec();
    s.sort();
    let suit = |k: u8| s.iter().filter(|&&c| c & 3 == k).map(|&c| c >> 2).collect::<Vec<_>>();
    let mut ranks: Vec<u8> = s.iter().map(|&c| c >> 2).collect();
    ranks.dedup();
    let fl = (0..4).find(|&k| suit(k).len() >= 5);
    json!({
        "count": s.len(),
        "suits": (0..4).map(|k| suit(k).len()).collect::<Vec<_>>(),
        "inSuit": (0..4).map(suit).collect::<Vec<_>>(),
        "ranks": ranks,
        "cards": s,
        "flush": fl.is_some(),
        "inFlush": fl.map_or(vec![], suit),
    })
}

type Prog = Vec<(String, Vec<u8>)>;

fn play(p: &Prog) -> Hand {
    let mut h = None;
    for (op, cards) in p {
        h = Some(step(h, op, cards));
    }
    h.unwrap()
}

fn random_prog(r: &mut Rng, cards: &[u8]) -> Prog {
    let mut c = cards.to_vec();
    r.shuffle(&mut c);
    let mut p: Prog = vec![];
    let m = if r.chance(1, 2) { 0 } else { r.below(c.len() + 1) };
    if m == 0 && r.chance(1, 2) {
        p.push(("empty".into(), vec![]));
    } else {
        p.push(("mask".into(), c[..m].to_vec()));
    }
    let mut i = m;
    while i < c.len() {
        if i + 1 < c.len() && r.chance(1, 2) {
            p.push((r.pick(&["hole", "holeleft", "holeassign"]).to_string(), vec![c[i], c[i + 1]]));
            i += 2;
        } else {
            p.push((r.pick(&["card", "cardassign"]).to_string(), vec![c[i]]));
            i += 1;
        }
    }
    p
}

fn check(p: &Prog, want: &Value, base: Option<(&Hand, u16)>) -> Hand {
    let r = guard(|| {
        let h = play(p);
        let o = observe(&h);
        (h, o, h.evaluate())
    });
    let (h, o, score) = r.unwrap_or_else(|e| violation("putting a hand together panics", json!({"program": p, "panic": e})));
    if &o != want {
        violation("a hand is not the set of cards put into it", json!({"program": p, "observed": o, "expected": want}));
    }
    if let Some((b, s)) = base {
        if &h != b || score != s {
            violation("the same cards put together differently make a different hand", json!({
                "program": p, "observed": [h.key, h.mask, score as u64], "from_mask": [b.key, b.mask, s as u64]}));
        }
    }
    h
}

pub fn run(a: &Args) {
    let cur = Current::new(a);
    let text = std::fs::read_to_string(a.opt("--progs").unwrap_or_else(|| tool("--progs"))).unwrap();
    let mut n = 0u64;
    let mut traces = 0u64;
    let mut ops: HashMap<String, u64> = HashMap::new();
    for l in text.lines() {
        let v: Value = serde_json::from_str(l).unwrap_or_else(|e| tool(&e.to_string()));
        let p: Prog = v["prog"].as_array().unwrap().iter()
            .map(|o| (o["op"].as_str().unwrap().to_string(), o["cards"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect()))
            .collect();
        for (op, _) in &p {
            *ops.entry(op.clone()).or_default() += 1;
        }
        cur.set(&v);
        check(&p, &v["obs"], None);
        // binds obs_of to the specification
        let cards: Vec<u8> = v["obs"]["cards"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect();
        if obs_of(&cards) != v["obs"] {
            tool(&format!("obs_of disagrees with the specification on {cards:?}"));
        }
        traces += 1;
    }
    // All sets of at most two cards, and of three; random sets of up to seven, each put together in several ways.
    let mut sets: Vec<Vec<u8>> = vec![vec![]];
    for i in 0..52 {
        sets.push(vec![i]);
        for j in 0..i {
            sets.push(vec![i, j]);
            for k in 0..j {
                sets.push(vec![i, j, k]);
            }
        }
    }
    let mut r = Rng::new(a.seed, "c02");
    for _ in 0..a.pick(60_000, 1_500_000) {
        let k = r.range(3, 7);
        // often many cards of one suit
        if r.chance(1, 2) {
            let s = r.below(4) as u8;
            let mut c: Vec<u8> = (0..13).map(|x| 4 * x + s).collect();
            r.shuffle(&mut c);
            c.truncate(r.range(0, k));
            let rest = r.cards(k - c.len(), mask_of(&c));
            c.extend(rest);
            sets.push(c);
        } else {
            sets.push(r.cards(k, 0));
        }
    }
    let chunks: Vec<&[Vec<u8>]> = sets.chunks(4096).collect();
    cur.set(&json!("random sets of cards"));
    let hands: Vec<Vec<(u64, u64, u64)>> = parallel(chunks.len(), |k| {
        let mut r = Rng::new(a.seed, &format!("c02-{k}"));
        let mut res = vec![];
        for cards in chunks[k] {
            let want = obs_of(cards);
            let b = guard(|| {
                let b = Hand::from_bit_mask(mask_of(cards));
                (b, b.evaluate())
            })
            .unwrap_or_else(|e| violation("from_bit_mask panics", json!({"cards": cards, "panic": e})));
            for _ in 0..3 {
                let p = random_prog(&mut r, cards);
                check(&p, &want, Some((&b.0, b.1)));
            }
            res.push((b.0.key, b.0.mask, mask_of(cards)));
        }
        res
    });
    n += 3 * sets.len() as u64;
    // Different sets are different hands: as the hands compare by key and mask, no two sets may share both.
    let mut seen: HashMap<(u64, u64), u64> = HashMap::new();
    for (key, mask, set) in hands.into_iter().flatten() {
        if let Some(&o) = seen.get(&(key, mask)) {
            let (x, y) = (Hand::from_bit_mask(o), Hand::from_bit_mask(set));
            if o != set && x == y {
                violation("two different sets of cards are equal hands", json!({"cards": cards_of(set), "other": cards_of(o)}));
            }
        } else {
            seen.insert((key, mask), set);
        }
    }
    // Neighbouring sets (one card exchanged) must compare different.
    for _ in 0..a.pick(200_000, 2_000_000) {
        let k = r.range(1, 7);
        let s = r.cards(k, 0);
        let mut t = s.clone();
        t[0] = r.cards(1, mask_of(&s))[0];
        if Hand::from_bit_mask(mask_of(&s)) == Hand::from_bit_mask(mask_of(&t)) {
            violation("two different sets of cards are equal hands", json!({"cards": s, "other": t}));
        }
        n += 1;
    }
    // Every two hands of at most two cards.
    let few: Vec<u64> = (0..52).flat_map(|x| (0..=x).map(move |y| 1u64 << x | 1u64 << y)).chain([0]).collect();
    let made: Vec<Hand> = few.iter().map(|&m| Hand::from_bit_mask(m)).collect();
    for i in 0..few.len() {
        for j in 0..few.len() {
            if (made[i] == made[j]) != (i == j) || (made[i] != made[j]) != (i != j) {
                violation(if i == j { "a hand is not equal to itself" } else { "two different sets of cards are equal hands" }, json!({"cards": cards_of(few[i]), "other": cards_of(few[j])}));
            }
        }
    }
    n += (few.len() * few.len()) as u64;
    // Sets that are alike in all but one way: the same ranks and as many cards of each suit, the same suits and as many
    // of each rank, the same set but one card, the same ranks in other suits, the same ranks and suits for all but two.
    for _ in 0..a.pick(300_000, 3_000_000) {
        let k = r.range(2, 7);
        let s = if r.chance(1, 3) {
            let suits = [r.below(4) as u8, r.below(4) as u8];
            let mut pool: Vec<u8> = (0..52).filter(|c| suits.contains(&(c & 3))).collect();
            r.shuffle(&mut pool);
            pool.truncate(k);
            pool
        } else { r.cards(k, 0) };
        let mut t = s.clone();
        match r.below(4) {
            0 => { let mut q: Vec<u8> = s.iter().map(|c| c & 3).collect(); r.shuffle(&mut q); for i in 0..s.len() { t[i] = s[i] & !3 | q[i]; } }
            1 => { let (i, j) = (r.below(s.len()), r.below(s.len())); t[i] = s[i] & !3 | s[j] & 3; t[j] = s[j] & !3 | s[i] & 3; }
            2 => { let x = 1 + r.below(3) as u8; for c in t.iter_mut() { *c ^= x; } }
            _ => { t.pop(); }
        }
        let (x, y) = (mask_of(&s), mask_of(&t));
        if (Hand::from_bit_mask(x) == Hand::from_bit_mask(y)) != (x == y) {
            violation("two different sets of cards are equal hands", json!({"cards": s, "other": t}));
        }
        n += 1;
    }
    say(json!({"done": true, "evaluations": n + traces, "traces": traces, "operations": ops, "distinct_sets": seen.len()}));
}
