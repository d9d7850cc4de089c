//! C23: ranges as lists of hands: comparisons, sorting, removing repeats, taking cards out of play, texts; against the
//! places and histories of spec/RangeValueModel.tla. Filtering before a calculation changes nothing in its results.
use crate::deal::*;
use crate::util::*;
use pokers::HandRange;
use pokers::hand_range::Combo;
use serde_json::{Value, json};
use std::cmp::Ordering;

type H = (u8, u8, u8);

fn lines(a: &Args, name: &str) -> Vec<Value> {
    let p = a.opt(name).unwrap_or_else(|| tool(name));
    std::fs::read_to_string(p).unwrap_or_else(|e| tool(&e.to_string())).lines().map(|l| serde_json::from_str(l).unwrap()).collect()
}
fn nums(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn list(v: &Value) -> Vec<H> {
    v.as_array().unwrap().iter().map(|h| { let h = nums(h); (h[0], h[1], h[2]) }).collect()
}
fn range(v: &[H]) -> HandRange {
    let mut r = HandRange::from_string(String::new());
    r.hands = v.iter().map(|h| Combo(h.0, h.1, h.2)).collect();
    r
}
fn hands(r: &HandRange) -> Vec<H> {
    r.hands.iter().map(|h| (h.0, h.1, h.2)).collect()
}

/// The code under test, whose panic is a violation.
fn run_or<T>(what: &str, case: impl Fn() -> Value, f: impl FnOnce() -> T) -> T {
    guard(f).unwrap_or_else(|p| violation(&format!("{what} panics"), json!({"case": case(), "panic": p})))
}

fn compare(a: &Args, place: &[Vec<i64>]) -> u64 {
    let hs: Vec<(u8, u8)> = (0..52u8).flat_map(|x| (0..52u8).filter(move |&y| y != x).map(move |y| (x, y))).collect();
    let n: Vec<u64> = parallel(hs.len(), |i| {
        let mut r = Rng::new(a.seed, &format!("compare{i}"));
        let (x, y) = hs[i];
        let mut n = 0;
        for &(z, w) in &hs {
            let (u, v) = (r.below(101) as u8, r.below(101) as u8);
            let (g, h) = (Combo(x, y, u), Combo(z, w, v));
            let want = place[x as usize][y as usize].cmp(&place[z as usize][w as usize]);
            let case = || json!({"hands": [[x, y, u], [z, w, v]], "expected": format!("{want:?}")});
            let (cmp, part, eq, ne, ops) = run_or("comparing two hands", case, || (g.cmp(&h), g.partial_cmp(&h), g == h, g != h, (g < h, g <= h, g > h, g >= h)));
            if cmp != want || part != Some(want) {
                violation("hands are not in the order of their ranks and suits", case());
            }
            if eq != (want == Ordering::Equal) || ne == eq {
                violation("hands are not equal exactly when their cards are", case());
            }
            if ops != (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()) {
                violation("the comparisons of hands contradict each other", case());
            }
            n += 1;
        }
        n
    });
    n.iter().sum()
}

fn texts(v: &[Value]) -> u64 {
    let mut n = 0;
    for x in v {
        let c = x["x"].as_u64().unwrap() as u8;
        for (y, t) in x["t"].as_array().unwrap().iter().enumerate() {
            let y = y as u8;
            if c == y {
                continue;
            }
            let want: String = t.as_array().unwrap().iter().map(|k| char::from_u32(k.as_u64().unwrap() as u32).unwrap()).collect();
            let case = || json!({"hand": [c, y], "expected": want});
            let got = run_or("writing a hand", case, || format!("{}", Combo(c, y, 7)));
            if got != want {
                violation("a hand is not written as its two cards", json!({"hand": [c, y], "text": got, "expected": want}));
            }
            let r = run_or("reading a hand", case, || HandRange::from_string(got.clone()));
            let (a, b) = higher_first(c, y);
            if hands(&r) != vec![(a, b, 100)] {
                violation("a hand does not read back from its text", json!({"hand": [c, y], "text": got, "read": hands(&r)}));
            }
            n += 1;
        }
    }
    n
}

fn apply(r: &mut HandRange, op: &str, b: u64, d: u64) {
    match op {
        "filter" => r.remove_conflicting_combos(b, d),
        "sort" => r.hands.sort(),
        "once" => r.hands.dedup(),
        _ => tool(op),
    }
}

fn histories(hs: &[Value]) -> u64 {
    let mut steps = 0;
    for h in hs {
        let start = list(&h["start"]);
        let mut r = range(&start);
        let untouched = r.clone();
        for (k, s) in h["hist"].as_array().unwrap().iter().enumerate() {
            let op = s["op"].as_str().unwrap();
            let (b, d) = (mask_of(&nums(&s["b"])), mask_of(&nums(&s["d"])));
            let before = hands(&r);
            let case = || json!({"start": start, "step": k, "op": op, "board": s["b"], "dead": s["d"], "before": before});
            run_or("using a range", case, || apply(&mut r, op, b, d));
            let want = list(&s["r"]);
            if hands(&r) != want {
                violation("a range does not become the list it should", json!({"case": case(), "is": hands(&r), "expected": want}));
            }
            steps += 1;
        }
        if hands(&untouched) != start {
            violation("working on a range changes its copy", json!({"start": start, "copy": hands(&untouched)}));
        }
    }
    steps
}

/// Wide ranges, read from texts and made by hand, filtered at once and bit by bit.
fn filters(a: &Args, out: &mut Vec<Value>) -> u64 {
    let mut r = Rng::new(a.seed, "c23 filters");
    let all = ["random", "22+,A2+,K2+", "AKs,QQ@50,J5o@1", "A2s-A9s@30,55-99,AsKh@7", "32+,AA@0"];
    let mut n = 0;
    let rounds = a.pick(20_000, 300_000);
    for k in 0..rounds {
        let mut g = if k % 4 == 0 {
            let t = *r.pick(&all);
            HandRange::from_string(t.to_string())
        } else {
            let m = r.below(if k % 16 == 1 { 400 } else { 40 });
            range(&(0..m).map(|_| { let c = r.cards(2, 0); (c[0], c[1], r.below(101) as u8) }).collect::<Vec<_>>())
        };
        let start = hands(&g);
        let sizes: &[usize] = if r.chance(1, 8) { &[52, 51, 26, 0] } else { &[0, 1, 2, 3, 4, 5, 8] };
        let (nb, nd) = (*r.pick(sizes), *r.pick(sizes));
        let (b, d) = (mask_of(&r.cards(nb, 0)), mask_of(&r.cards(nd, 0)));
        let case = || json!({"range": start, "board": cards_of(b), "dead": cards_of(d)});
        let mode = r.below(5);
        run_or("taking cards out of a range", case, || match mode {
            0 => { g.remove_conflicting_combos(b, 0); g.remove_conflicting_combos(0, d) }
            1 => { g.remove_conflicting_combos(d, b) }
            2 => for c in cards_of(b | d) { if c % 2 == 0 { g.remove_conflicting_combos(1 << c, 0) } else { g.remove_conflicting_combos(0, 1 << c) } },
            _ => g.remove_conflicting_combos(b, d),
        });
        let want: Vec<H> = start.iter().copied().filter(|h| (1u64 << h.0 | 1u64 << h.1) & (b | d) == 0).collect();
        if hands(&g) != want {
            violation("taking cards out of play does not leave exactly the hands without them, as they were",
                json!({"case": case(), "left": hands(&g), "expected": want}));
        }
        if start.len() < 60 && out.len() < a.pick(1500, 6000) && k % 7 == 1 {
            out.push(json!({"f": "filter", "s": start, "b": cards_of(b), "d": cards_of(d), "r": hands(&g)}));
        }
        // sorted, and without repeats
        let mut s = g.clone();
        s.hands.sort();
        if start.len() < 60 && out.len() < a.pick(3000, 12000) && k % 7 == 2 {
            let mut t = s.clone();
            t.hands.dedup();
            out.push(json!({"f": "sort", "s": hands(&g), "r": hands(&s), "o": hands(&t)}));
        }
        n += 1;
    }
    n
}

/// A calculation with ranges from which the blocked hands were removed before.
fn calculations(a: &Args, names: &Names) -> u64 {
    let t = a.table();
    let mut r = Rng::new(a.seed, "c23 calculations");
    let cur = Active::new(a);
    let n = a.pick(150, 1500);
    let cases: Vec<(Scn, u64, u8)> = (0..n)
        .map(|_| {
            let sh = Shape { players: (2, 4), board: (2, 5), dead: (0, 12), hands: (2, 40), weights: true, cost: (1, a.pick(300_000, 3_000_000)) };
            (scenario(&mut r, &sh), r.next(), r.range(1, 4) as u8)
        })
        .collect();
    parallel(n, |k| {
        let (s, x, threads) = &cases[k];
        let (b, d) = (s.board, s.dead);
        cur.on(k, || s.json(), || {
            let want = tally(s, &t, names);
            let mut ranges = s.to_ranges();
            for (p, g) in ranges.iter_mut().enumerate() {
                if x >> p & 1 == 0 || p == 0 {
                    g.remove_conflicting_combos(b, d);
                }
            }
            let token = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
            let res = run_or("a calculation", || s.json(), || pokers::exact_equity(&ranges, b, d, *threads, token, |_| {}));
            match res {
                Err(e) => violation("ranges rid of blocked hands are refused", json!({"scenario": s.json(), "error": error_name(&e)})),
                Ok(res) => {
                    if let Err(e) = compare_players(s, &res, &want) {
                        violation("removing blocked hands beforehand changes the result", e);
                    }
                    if let Err(e) = compare_hands(s, names, &res, &want) {
                        violation("removing blocked hands beforehand changes the result of a hand", e);
                    }
                }
            }
        })
    });
    n as u64
}

pub fn run(a: &Args) {
    let places = lines(a, "--places");
    let mut place = vec![vec![]; 52];
    for v in &places {
        place[v["x"].as_u64().unwrap() as usize] = v["p"].as_array().unwrap().iter().map(|p| p.as_i64().unwrap()).collect();
    }
    let hs = lines(a, "--histories");
    let compared = compare(a, &place);
    let written = texts(&places);
    let steps = histories(&hs);
    let mut out = vec![];
    let filtered = filters(a, &mut out);
    let calculated = calculations(a, &Names::load(a));
    let f: Vec<String> = out.iter().map(|v| v.to_string()).collect();
    std::fs::write(format!("{}/cases.ndjson", a.out), f.join("\n") + "\n").unwrap_or_else(|e| tool(&e.to_string()));
    say(json!({"done": true, "evaluations": compared + written + steps + filtered + calculated, "traces": hs.len() as u64 + calculated, "compared": compared,
        "written": written, "steps": steps, "filtered": filtered, "calculated": calculated, "samples": [out[0]]}));
}
