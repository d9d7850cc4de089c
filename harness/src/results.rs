//! C10, C11, C12: results of every kind, recorded for the specification to judge.
use crate::deal::*;
use crate::util::*;
use pokers::{SimulationResults, UnitResults, approx_equity, exact_equity};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;

/// Digits in base 10000, least significant first.
pub fn limbs(mut x: u128) -> Vec<u16> {
    let mut v = vec![];
    while x > 0 {
        v.push((x % 10000) as u16);
        x /= 10000;
    }
    v
}

struct Enc {
    bad: Vec<String>,
}
impl Enc {
    fn f(&mut self, name: &str, x: f64, scale: f64) -> Vec<u16> {
        if !x.is_finite() || x < 0.0 || x > 1e25 {
            self.bad.push(format!("{name}={x}"));
            return vec![];
        }
        // exact for whole numbers, rounded to the scale otherwise
        let whole = x.trunc();
        limbs(whole as u128 * scale as u128 + ((x - whole) * scale).round() as u128)
    }
    fn unit(&mut self, i: usize, u: &UnitResults) -> Value {
        json!({"i": i, "v": u.valid, "k": u.rank, "d": u.draw, "w": u.weight, "t": limbs(u.total as u128), "x": limbs(u.wins as u128),
            "y": limbs(u.ties as u128), "c": self.f("share", u.corrected_ties, 2520.0), "e": self.f("equity", u.equity, 1e12),
            "p": self.f("winrate", u.winrate, 1e12), "q": self.f("tierate", u.tierate, 1e12)})
    }
    /// The entries that say anything.
    fn units(&mut self, us: &[UnitResults], full: bool) -> Value {
        let zero = |u: &UnitResults| {
            u.total == 0 && u.wins == 0 && u.ties == 0 && u.corrected_ties == 0.0 && u.equity == 0.0 && u.winrate == 0.0 && u.tierate == 0.0 && u.weight == 0
                && (!full || !u.valid)
        };
        let v: Vec<Value> = us.iter().enumerate().filter(|(_, u)| !zero(u)).map(|(i, u)| self.unit(i, u)).collect();
        json!(v)
    }
}

pub fn encode(board: u64, r: &SimulationResults) -> Option<Value> {
    let n = r.equities.len();
    let mut e = Enc { bad: vec![] };
    if r.wins.len() != n || r.ties.len() != n || r.wins_by_mask.len() != 1 << n || r.hand_results.len() != n * HANDS
        || r.combo_results.len() != n * CLASSES || r.board_results.len() != n * 9 || r.board_draws.len() != n * 10 {
        return None;
    }
    let by: Vec<Value> = r.wins_by_mask.iter().enumerate().filter(|x| *x.1 > 0)
        .map(|(m, &w)| json!([(0..n).filter(|p| m >> p & 1 == 1).map(|p| p + 1).collect::<Vec<_>>(), limbs(w as u128)])).collect();
    let ties: Vec<_> = r.ties.iter().map(|&x| e.f("ties", x, 2520.0)).collect();
    let eq: Vec<_> = r.equities.iter().map(|&x| e.f("equities", x, 1e12)).collect();
    let mut part = |us: &Vec<UnitResults>, size: usize, full: bool| -> Vec<Value> { (0..n).map(|p| e.units(&us[p * size..(p + 1) * size], full)).collect() };
    let hands = part(&r.hand_results, HANDS, true);
    let classes = part(&r.combo_results, CLASSES, true);
    let ranks = part(&r.board_results, 9, false);
    let draws = part(&r.board_draws, 10, false);
    for (name, x) in [("batch_sum", r.batch_sum), ("batch_sum2", r.batch_sum2), ("batch_count", r.batch_count), ("stdev", r.stdev)] {
        e.f(name, x, 1.0);
    }
    Some(json!({"n": n, "nb": board.count_ones(), "bd": cards_of(board), "by": by, "wins": r.wins.iter().map(|&x| limbs(x as u128)).collect::<Vec<_>>(),
        "ties": ties, "eq": eq, "hands": hands, "classes": classes, "ranks": ranks, "draws": draws, "bad": e.bad}))
}

#[derive(Clone, Debug)]
pub struct Call {
    pub s: Scn,
    pub exact: bool,
    pub threads: u8,
    pub target: f64,
    pub cancel_after: Option<usize>, // progress reports before the token is set
}
impl Call {
    pub fn json(&self) -> Value {
        json!({"scenario": self.s.json(), "kind": if self.exact {"exact"} else {"approx"}, "threads": self.threads, "target": self.target, "cancel_after_reports": self.cancel_after})
    }
    pub fn run(&self) -> Outcome {
        let ranges = self.s.as_given();
        let token = Arc::new(AtomicBool::new(self.cancel_after == Some(0)));
        let seen = AtomicUsize::new(0);
        let cb = |_: u8| {
            if Some(seen.fetch_add(1, Ordering::SeqCst) + 1) == self.cancel_after {
                token.store(true, Ordering::SeqCst);
            }
        };
        guard(|| {
            if self.exact {
                exact_equity(&ranges, self.s.board, self.s.dead, self.threads, token.clone(), cb)
            } else {
                approx_equity(&ranges, self.s.board, self.s.dead, self.threads, self.target, token.clone(), cb)
            }
        })
        .unwrap_or_else(|e| violation("a calculation panics", json!({"call": self.json(), "panic": e})))
        .map_err(|e| error_name(&e))
    }
}

pub fn call(r: &mut Rng, board: (usize, usize), hands: (usize, usize), big: bool) -> Call {
    let exact = r.chance(1, 2);
    let players = if r.chance(1, 2) { (2, 3) } else { (2, 9) };
    let nb = r.range(board.0, board.1);
    let hands = if exact && (nb < 3 || players.1 > 3) { (1, hands.1.min(6)) } else { hands };
    let cost = if exact { (1, if big { 60_000_000 } else { 20_000_000 }) } else { (1, u64::MAX) };
    let dead = if r.chance(1, 2) { (0, 0) } else { (0, 25) };
    let mut s = scenario(r, &Shape { players, board: (nb, nb), dead, hands, weights: true, cost });
    // sampling gives up where one deal in thousands is possible (known finding C17 redeals)
    while !exact && s.acceptance(r) < 0.05 {
        s = scenario(r, &Shape { players, board: (nb, nb), dead, hands, weights: true, cost });
    }
    Call {
        s,
        exact,
        threads: *r.pick(&[1, 1, 2, 4, 8]),
        target: *r.pick(&[0.02, 0.01, 0.005]),
        cancel_after: if r.chance(1, 3) { Some(r.below(4)) } else { None },
    }
}

pub fn run(a: &Args, what: &str) {
    let names = Names::load(a);
    let active = Active::new(a);
    let mut r = Rng::new(a.seed, what);
    let n = a.pick(if what == "c10" { 260 } else { 200 }, 2500);
    let calls: Vec<Call> = (0..n)
        .map(|k| match what {
            "c12" => if k % 8 == 0 { call(&mut r, (0, 2), (1, 12), false) } else { call(&mut r, (3, 5), if k % 4 == 1 { (60, 400) } else { (1, 60) }, true) },
            "c11" => call(&mut r, (0, 5), if k % 3 == 1 { (100, 500) } else { (5, 60) }, true),
            _ => call(&mut r, (0, 5), if k % 5 == 1 { (100, 500) } else { (1, 40) }, true),
        })
        .collect();
    let mut calls = calls;
    // totals near the end of 64 bits
    for (k, c) in calls.iter_mut().enumerate() {
        if k % 6 == 3 {
            let mut s = scenario(&mut r, &Shape { players: (5, 9), board: (4, 5), dead: (0, 10), hands: (2, 4), weights: true, cost: (1, 5_000_000) });
            for range in s.ranges.iter_mut() {
                for h in range.iter_mut() { h.2 = r.range(60, 100) as u8 }
            }
            s.tame_exact(*r.pick(&[10u128.pow(14), 10u128.pow(17), 9 * 10u128.pow(18), 9 * 10u128.pow(18)]));
            *c = Call { s, exact: true, threads: *r.pick(&[1, 2, 8]), target: 0.01, cancel_after: if r.chance(1, 6) { Some(0) } else { None } };
        }
    }
    if what == "c11" {
        // whole classes, with weights of their own, some hands of them blocked
        for (i, c) in calls.iter_mut().enumerate() {
            if !c.exact || c.s.board.count_ones() >= 3 {
                let n = c.s.n();
                let p = r.below(n);
                let k = r.below(CLASSES);
                let w = r.range(1, 100) as u8;
                for h in 0..HANDS {
                    if names.class[h] == k {
                        let (x, y) = names.hand[h];
                        let (x, y) = higher_first(x, y);
                        if !c.s.ranges[p].iter().any(|z| (z.0, z.1) == (x, y)) {
                            let w = if r.chance(1, 2) { w } else { r.range(0, 100) as u8 };
                            c.s.ranges[p].push((x, y, w));
                        }
                    }
                }
                c.s.ranges[p].sort();
                if i % 6 == 3 { c.s.tame_exact(9 * 10u128.pow(18)) } else { c.s.tame() }
            }
        }
    }
    let res = parallel(calls.len(), |k| {
        let c = &calls[k];
        active.on(k, || c.json(), || c.run())
    });
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut out = String::new();
    let mut units = 0usize;
    for (c, r) in calls.iter().zip(&res) {
        let kind = format!("{}{}", if c.exact { "exact" } else { "approx" }, if c.cancel_after.is_some() { ", cancelled" } else { "" });
        match r {
            Ok(r) => {
                let mut e = encode(c.s.board, r).unwrap_or_else(|| violation("the shape of a result is wrong", c.json()));
                units += e["hands"].as_array().unwrap().iter().map(|h| h.as_array().unwrap().len()).sum::<usize>();
                e["call"] = json!(c.json().to_string());
                out += &(e.to_string() + "\n");
                *kinds.entry(format!("{kind}, {} board cards", c.s.board.count_ones())).or_default() += 1;
            }
            // every scenario can be dealt
            Err(e) => violation("a calculation with a possible deal is refused", json!({"call": c.json(), "error": e})),
        }
    }
    std::fs::write(format!("{}/trace.ndjson", a.out), out).unwrap();
    say(json!({"done": true, "evaluations": units, "results_by_kind": kinds}));
}
