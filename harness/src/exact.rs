//! C07 and C08: the exact calculation against every deal, one by one.
use crate::deal::*;
use crate::util::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// A result in the smallest whole numbers with the same proportions, for the specification to judge.
pub fn normal(s: &Scn, names: &Names, r: &pokers::SimulationResults) -> Option<Value> {
    let n = s.n();
    let mut g = 0u128;
    for &w in r.wins_by_mask.iter().chain(&r.wins) {
        g = gcd(g, w as u128);
    }
    for u in &r.hand_results {
        g = gcd(gcd(gcd(g, u.wins as u128), u.ties as u128), u.total as u128);
    }
    if g == 0 {
        return None;
    }
    let q = |x: u64| (x as u128 / g) as u64;
    // shares of split pots in 1/L of the unit; -1 if it is no such number
    let f = |x: f64| {
        let y = x * L as f64 / g as f64;
        if (y - y.round()).abs() <= 1e-4 && y >= 0.0 { y.round() as i64 } else { -1 }
    };
    let total: u64 = r.wins_by_mask.iter().map(|&x| q(x)).sum();
    if total as u128 * L > i32::MAX as u128 {
        return None;
    }
    let by: Vec<Value> = r.wins_by_mask.iter().enumerate().filter(|x| *x.1 > 0)
        .map(|(m, &w)| json!([(0..n).filter(|p| m >> p & 1 == 1).map(|p| p + 1).collect::<Vec<_>>(), q(w)])).collect();
    let hands: Vec<Value> = (0..n).map(|p| {
        let v: Vec<Value> = (0..HANDS).filter(|h| { let u = &r.hand_results[p * HANDS + h]; u.valid || u.total + u.wins + u.ties > 0 }).map(|h| {
            let u = &r.hand_results[p * HANDS + h];
            let (a, b) = names.hand[h];
            json!([a, b, u.valid as u8, u.weight, q(u.total), q(u.wins), q(u.ties), f(u.corrected_ties)])
        }).collect();
        json!(v)
    }).collect();
    Some(json!({"rg": s.ranges, "bd": cards_of(s.board), "dd": cards_of(s.dead), "by": by,
        "wins": r.wins.iter().map(|&x| q(x)).collect::<Vec<_>>(), "ties": r.ties.iter().map(|&x| f(x)).collect::<Vec<_>>(), "hands": hands}))
}

/// Whether TLC's 32-bit integers hold what the deals add up to.
pub fn judgeable(t: &Tally) -> bool {
    t.total() * L <= i32::MAX as u128
}

/// A result as the native executor has it, in the shape of a real one.
pub fn as_results(s: &Scn, t: &Tally, names: &Names) -> Value {
    let n = s.n();
    let mut g = 0u128;
    for &w in &t.by_mask {
        g = gcd(g, w);
    }
    for h in t.hand.iter().flat_map(|h| h.values()) {
        for x in &h[..3] {
            g = gcd(g, *x);
        }
    }
    let by: Vec<Value> = t.by_mask.iter().enumerate().filter(|x| *x.1 > 0)
        .map(|(m, &w)| json!([(0..n).filter(|p| m >> p & 1 == 1).map(|p| p + 1).collect::<Vec<_>>(), (w / g) as u64])).collect();
    let hands: Vec<Value> = (0..n).map(|p| {
        let v: Vec<Value> = s.ranges[p].iter().filter(|h| (1u64 << h.0 | 1u64 << h.1) & s.used() == 0).map(|h| {
            let e = t.hand[p].get(&names.of(h.0, h.1)).copied().unwrap_or([0; 4]);
            json!([h.0, h.1, 1, h.2, (e[0] / g) as u64, (e[1] / g) as u64, (e[2] / g) as u64, (e[3] / g) as u64])
        }).collect();
        json!(v)
    }).collect();
    json!({"rg": s.ranges, "bd": cards_of(s.board), "dd": cards_of(s.dead), "by": by,
        "wins": (0..n).map(|p| (t.wins(p) / g) as u64).collect::<Vec<_>>(), "ties": (0..n).map(|p| (t.share(p) / g) as u64).collect::<Vec<_>>(), "hands": hands})
}

pub fn shapes(a: &Args) -> Vec<(&'static str, usize, Shape)> {
    let k = a.pick(4, 20);
    let m = a.pick(20_000_000, 40_000_000);
    vec![
        ("large", 2 * k, Shape { players: (2, 4), board: (0, 2), dead: (0, 4), hands: (4, 60), weights: true, cost: (m, a.pick(300_000_000, 600_000_000)) }),
        ("preflop heads-up", 24 * k, Shape { players: (2, 2), board: (0, 0), dead: (0, 10), hands: (1, 4), weights: true, cost: (1000, m) }),
        ("preflop several players", 24 * k, Shape { players: (3, 9), board: (0, 0), dead: (0, 6), hands: (1, 2), weights: true, cost: (1000, m) }),
        ("preflop one hand each", 20 * k, Shape { players: (2, 9), board: (0, 0), dead: (0, 20), hands: (1, 1), weights: false, cost: (1000, m) }),
        ("one or two board cards", 60 * k, Shape { players: (2, 6), board: (1, 2), dead: (0, 12), hands: (1, 6), weights: true, cost: (1000, m / 2) }),
        ("flop", 150 * k, Shape { players: (2, 9), board: (3, 3), dead: (0, 20), hands: (1, 12), weights: true, cost: (100, m / 4) }),
        ("flop, wide ranges", 30 * k, Shape { players: (2, 3), board: (3, 3), dead: (0, 8), hands: (20, 120), weights: true, cost: (100_000, m) }),
        ("turn", 150 * k, Shape { players: (2, 9), board: (4, 4), dead: (0, 30), hands: (1, 20), weights: true, cost: (50, m / 8) }),
        ("turn, wide ranges", 30 * k, Shape { players: (2, 4), board: (4, 4), dead: (0, 8), hands: (30, 300), weights: true, cost: (100_000, m) }),
        ("river", 150 * k, Shape { players: (2, 9), board: (5, 5), dead: (0, 35), hands: (1, 30), weights: true, cost: (1, m / 8) }),
        ("river, wide ranges", 30 * k, Shape { players: (2, 4), board: (5, 5), dead: (0, 8), hands: (100, 900), weights: true, cost: (100_000, m) }),
        ("short deck", 300 * k, Shape { players: (2, 9), board: (0, 5), dead: (15, 43), hands: (1, 8), weights: true, cost: (1, m / 8) }),
    ]
}

/// Small decks: cheap enough for TLC to deal every way itself.
pub fn small(r: &mut Rng, cost: u64) -> Scn {
    loop {
        let nb = r.below(6);
        let n = r.range(2, 4);
        let deck = r.range(2 * n + 5, (2 * n + 5 + 4).min(17));
        let dead = 52 - deck; // board, hands and stub make the deck
        let sh = Shape { players: (n, n), board: (nb, nb), dead: (dead, dead), hands: (1, 4), weights: false, cost: (1, cost) };
        let mut s = scenario(r, &sh);
        let mode = r.below(3);
        if mode > 0 {
            for h in s.ranges.iter_mut().flatten() {
                h.2 = if mode == 1 { *r.pick(&[1, 2, 3]) } else { *r.pick(&[0, 20, 40, 100]) };
            }
        }
        if s.cost() <= cost {
            return s;
        }
    }
}

pub fn run(a: &Args, hands: bool) {
    let table = a.table();
    let names = Names::load(a);
    let what = if hands { "a hand's own result is not that of the deals it was in" } else { "an exact result is not that of all deals" };
    // Scenarios for TLC to judge: what the code said, and what the native executor says.
    let active = Active::new(a);
    let mut r = Rng::new(a.seed, if hands { "c08" } else { "c07" });
    let smalls: Vec<Scn> = (0..a.pick(1200, 12_000)).map(|_| small(&mut r, a.pick(4000, 12_000))).collect();
    let traces = parallel(smalls.len(), |k| {
        let s = &smalls[k];
        active.on(k, || json!({"scenario": s.json()}), || {
            let t = tally(s, &table, &names);
            let code = match exact(s, 1 + (k % 3) as u8) {
                Ok(res) => {
                    let j = normal(s, &names, &res);
                    if j.is_none() && t.total() > 0 {
                        violation(what, json!({"scenario": s.json(), "wins_by_mask": res.wins_by_mask, "note": "not comparable"}));
                    }
                    j
                }
                Err("ConflictingRanges") if t.selections == 0 => None,
                Err(e) => violation("a calculation with a possible deal is refused", json!({"scenario": s.json(), "error": e})),
            };
            code.filter(|_| judgeable(&t)).map(|c| (c, as_results(s, &t, &names)))
        })
    });
    let traces: Vec<_> = traces.into_iter().flatten().collect();
    std::fs::write(format!("{}/code.ndjson", a.out), traces.iter().map(|v| v.0.to_string() + "\n").collect::<String>()).unwrap();
    std::fs::write(format!("{}/native.ndjson", a.out), traces.iter().map(|v| v.1.to_string() + "\n").collect::<String>()).unwrap();
    // Real decks, against the native executor.
    let mut work: Vec<(&str, Scn, u8)> = vec![];
    for (name, count, sh) in shapes(a) {
        for k in 0..count {
            work.push((name, scenario(&mut r, &sh), [1, 1, 2, 3, 7][k % 5]));
        }
    }
    work.sort_by_key(|w| std::cmp::Reverse(w.1.cost()));
    let res = parallel(work.len(), |k| {
        let (name, s, threads) = &work[k];
        active.on(k, || json!({"scenario": s.json(), "threads": threads}), || {
            let t = tally(s, &table, &names);
            let res = match exact(s, *threads) {
                Ok(x) => x,
                Err("ConflictingRanges") if t.selections == 0 => return (*name, 0, 0, 0),
                Err(e) => violation("a calculation with a possible deal is refused", json!({"scenario": s.json(), "error": e})),
            };
            let v = if hands { compare_hands(s, &names, &res, &t) } else { compare_players(s, &res, &t).map(|_| s.n() as u64) };
            match v {
                Ok(n) => (*name, t.deals, t.selections, n),
                Err(e) => violation(what, e),
            }
        })
    });
    let mut by: BTreeMap<&str, [u64; 3]> = BTreeMap::new();
    let (mut deals, mut things) = (0, 0);
    for (name, d, s, n) in &res {
        let e = by.entry(name).or_default();
        e[0] += 1;
        e[1] += d;
        e[2] += s;
        deals += d;
        things += n;
    }
    say(json!({"done": true, "evaluations": deals, "traces": work.len(), "scenarios_deals_selections": by,
        "small_decks": traces.len(), (if hands {"hands_compared"} else {"players_compared"}): things,
        "samples": [work[work.len() / 2].1.json()]}));
}
