//! C01: the score of every hand against the value the specification gives it.
use crate::table::{Abs, Table};
use crate::util::*;
use pokers::{CARDS, Hand};
use serde_json::json;

const VBASE: i32 = 537_824;
const TOP: usize = 10 * VBASE as usize;

struct Seen {
    score: Vec<u16>, // by value, 0 = not seen
    count: u64,
    plain: u64,
    known: Vec<String>,
}

fn visit(t: &Table, s: &mut Seen, h: Hand, a: Abs, mask: u64) {
    let score = h.evaluate();
    let v = t.value(&a);
    if v < 0 {
        tool(&format!("the table has no value for {:x}", mask));
    }
    s.count += 1;
    let old = s.score[v as usize];
    if old == 0 && score != 0 {
        s.score[v as usize] = score;
    } else if old != score {
        violation("two hands of equal strength have different scores", json!({
            "cards": cards_of(mask), "score": score, "value": v, "score_of_equal_hands": old}));
    }
    if i32::from(score >> 12) != v / VBASE {
        violation("the category of a hand's score is not the hand's", json!({
            "cards": cards_of(mask), "score": score, "category": score >> 12, "expected": v / VBASE}));
    }
    if a.flush_mask() == 0 {
        s.plain += 1;
        let e = h.evaluate_without_flush();
        if e != score {
            violation("the variant that ignores flushes differs on a hand without a flush", json!({
                "cards": cards_of(mask), "score": score, "without_flush": e}));
        }
    }
}

fn rec(t: &Table, s: &mut Seen, h: Hand, a: Abs, mask: u64, from: u8, left: usize) {
    if left == 0 {
        visit(t, s, h, a, mask);
        return;
    }
    for c in from..=(52 - left as u8) {
        rec(t, s, h + CARDS[c as usize], a.add(c), mask | 1 << c, c + 1, left - 1);
    }
}

pub fn run(a: &Args) {
    let t = a.table();
    let max = 7;
    // One task per first two cards; hands of two to seven cards.
    let mut pairs = vec![];
    for c in 0..52u8 {
        for d in c + 1..52 {
            pairs.push((c, d));
        }
    }
    let cur = Current::new(a);
    cur.set(&json!("all hands of two to seven cards"));
    let seen: Vec<Seen> = {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let pairs = &pairs;
        let t = &t;
        let next = &next;
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    sc.spawn(move || {
                        let mut s = Seen { score: vec![0; TOP], count: 0, plain: 0, known: vec![] };
                        loop {
                            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if k >= pairs.len() {
                                break s;
                            }
                            let (c, d) = pairs[k];
                            let h = Hand::default() + CARDS[c as usize] + CARDS[d as usize];
                            let ab = Abs::of(&[c, d]);
                            for n in 0..=(max - 2).min(51 - d as usize) {
                                let r = guard(|| rec(t, &mut s, h, ab, 1 << c | 1 << d, d + 1, n));
                                if let Err(e) = r {
                                    violation("the evaluator panics", json!({"first_cards": [c, d], "more": n, "panic": e}));
                                }
                            }
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    // Merge: one score per value over all threads, strictly increasing with the value.
    let mut all = vec![0u16; TOP];
    let (mut count, mut plain) = (0, 0);
    for s in &seen {
        count += s.count;
        plain += s.plain;
        for v in 0..TOP {
            if s.score[v] != 0 {
                if all[v] != 0 && all[v] != s.score[v] {
                    violation("two hands of equal strength have different scores", json!({"value": v, "scores": [all[v], s.score[v]]}));
                }
                all[v] = s.score[v];
            }
        }
    }
    let (mut last, mut last_v, mut classes) = (0u16, 0, 0u64);
    for v in 0..TOP {
        if all[v] != 0 {
            classes += 1;
            if all[v] <= last {
                violation("a stronger hand does not score higher", json!({
                    "value": v, "score": all[v], "weaker_value": last_v, "weaker_score": last}));
            }
            last = all[v];
            last_v = v;
        }
    }
    // Hands of no card and of one card: these too should rank below and above their neighbours.
    let mut bad = vec![];
    let mut small: Vec<(Vec<u8>, Hand)> = vec![(vec![], Hand::default())];
    for c in 0..52u8 {
        small.push((vec![c], Hand::default() + CARDS[c as usize]));
    }
    for (cards, h) in &small {
        count += 1;
        let v = t.value(&Abs::of(cards)) as usize;
        let score = h.evaluate();
        let below = (0..v).rev().find(|&x| all[x] != 0).map_or(0, |x| all[x]);
        let above = (v + 1..TOP).find(|&x| all[x] != 0).map_or(u16::MAX, |x| all[x]);
        if !(below < score && score < above && (score >> 12) as i32 == v as i32 / VBASE) {
            bad.push(json!({"cards": cards, "score": score}));
        }
    }
    if !bad.is_empty() {
        say(json!({"known": "hands-of-fewer-than-two-cards", "cases": bad}));
    }
    say(json!({"done": true, "evaluations": count, "traces": classes, "hands_without_flush": plain, "strength_classes": classes,
        "small_hands_misranked": bad.len(),
        "samples": [{"cards": [0, 4, 8, 12, 48, 20, 25], "score": Hand::from_bit_mask(mask_of(&[0, 4, 8, 12, 48, 20, 25])).evaluate(),
            "value": t.value(&Abs::of(&[0, 4, 8, 12, 48, 20, 25]))}]}));
}
