//! C17: what is refused, and with which error: the table of spec/ValidationModel.tla on both calculations, small
//! ranges for spec/ValidationJudge.tla, and inputs of every size that have to yield a result.
use crate::deal::*;
use crate::util::*;
use pokers::{SimulationResults, approx_equity, exact_equity};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::{Arc, atomic::AtomicBool};

/// A result that can be one: something was counted, and the equities share the pot.
fn sane(r: &SimulationResults, n: usize) -> bool {
    r.eval_count > 0 && r.equities.len() == n && (r.equities.iter().sum::<f64>() - 1.0).abs() < 1e-6 && r.equities.iter().all(|e| (-1e-9..=1.0 + 1e-9).contains(e))
}

fn says(s: &Scn, kind: Option<f64>, threads: u8, what: &Value) -> &'static str {
    let ranges = s.to_ranges();
    let token = Arc::new(AtomicBool::new(false));
    let r = guard(|| match kind {
        None => exact_equity(&ranges, s.board, s.dead, threads, token, |_| {}),
        Some(t) => approx_equity(&ranges, s.board, s.dead, threads, t, token, |_| {}),
    });
    match r {
        Err(p) => violation("a calculation panics", json!({"case": what, "sampled": kind, "threads": threads, "panic": p})),
        Ok(Err(e)) => error_name(&e),
        Ok(Ok(r)) => {
            if !sane(&r, s.n()) {
                violation("a result is none", json!({"case": what, "sampled": kind, "threads": threads, "equities": r.equities, "evaluated": r.eval_count}));
            }
            "ok"
        }
    }
}

/// An input for a row of the table; none if there is no such input.
fn input(r: &mut Rng, n: usize, nb: usize, nd: usize, why: &str) -> Option<Scn> {
    let board = mask_of(&r.cards(nb, 0));
    let mut used = board;
    let mut ranges: Vec<Vec<Hand3>> = vec![];
    for p in 0..n {
        let mut v = vec![];
        for k in 0..if p < 2 && n < 5 { 1 + r.below(3) } else { 1 } {
            // the players' first hands share no card as long as there are enough
            let mut c = r.cards(2, if k == 0 { used } else { board });
            if c.len() < 2 { c = r.cards(2, 0); }
            if k == 0 { used |= mask_of(&c); }
            let h = higher_first(c[0], c[1]);
            if v.iter().all(|x: &Hand3| (x.0, x.1) != h) { v.push((h.0, h.1, *r.pick(&[100, 100, 1, 50]))); }
        }
        ranges.push(v);
    }
    let mut dead = r.cards(nd, used);
    if dead.len() < nd { dead = r.cards(nd, board); }
    if dead.len() < nd { return None; }
    let dead = mask_of(&dead);
    let v = r.below(n.max(1));
    match why {
        "dealable" => {}
        _ if n < 2 => {}
        "empty" => ranges[v] = vec![],
        "blocked" => {
            let b = cards_of(board | dead);
            if b.is_empty() { return None; }
            for h in ranges[v].iter_mut() {
                let x = *r.pick(&b);
                let y = loop { let y = r.below(52) as u8; if y != x { break y; } };
                let (a, c) = higher_first(x, y);
                *h = (a, c, h.2);
            }
            ranges[v].sort();
            ranges[v].dedup_by_key(|h| (h.0, h.1));
        }
        "weightless" => ranges[v].iter_mut().for_each(|h| h.2 = 0),
        "same hand" => {
            let w = (v + 1) % n;
            ranges[v].truncate(1);
            ranges[w] = ranges[v].clone();
        }
        _ => {
            if n < 3 { return None; }
            let c = r.cards(5, if (board | dead).count_ones() <= 40 { board | dead } else { 0 });
            let mut ps: Vec<usize> = (0..n).collect();
            r.shuffle(&mut ps);
            for &p in &ps[..3] {
                ranges[p] = vec![];
                for i in 0..5 { for j in 0..i { let (a, b) = higher_first(c[i], c[j]); ranges[p].push((a, b, 100)); } }
            }
        }
    }
    Some(Scn { ranges, board, dead })
}

fn dealable(s: &Scn, p: usize, used: u64) -> bool {
    p == s.n() || s.ranges[p].iter().any(|h| { let m = 1u64 << h.0 | 1u64 << h.1; h.2 > 0 && used & m == 0 && dealable(s, p + 1, used | m) })
}

/// Small ranges of few cards, which often cannot be dealt together.
fn small(r: &mut Rng) -> Scn {
    let n = match r.below(20) { 0 => 0, 1 => 1, 2 => r.range(10, 12), _ => r.range(2, 9) };
    let nb = match r.below(12) { 0 => r.range(6, 8), _ => r.below(6) };
    let mut d = r.cards(52, 0);
    let board = mask_of(&d.split_off(52 - nb));
    let k = r.range(2 * n.max(2), 2 * n + 6).min(d.len());
    let few: Vec<u8> = d.split_off(d.len() - k);
    let nd = match r.below(8) { 0 => r.below(48), 1 => (47usize).saturating_sub(2 * n), _ => r.below(6) }.min(d.len());
    let mut dead = d.split_off(d.len() - nd);
    if r.chance(1, 6) && k > 2 && !dead.is_empty() { dead[0] = few[0]; }
    let most = if n > 5 { 3 } else { 6 };
    let mode = r.below(4);
    let ranges = (0..n).map(|_| {
        let m = if r.chance(1, 40) { 0 } else { r.range(1, most) };
        let mut v: Vec<Hand3> = vec![];
        for _ in 0..m {
            let mut c = few.clone();
            if r.chance(1, 15) { c.extend(cards_of(board)); }
            r.shuffle(&mut c);
            let (a, b) = higher_first(c[0], c[1]);
            if v.iter().all(|x| (x.0, x.1) != (a, b)) {
                v.push((a, b, match mode { 0 => *r.pick(&[0, 100]), 1 => *r.pick(&[0, 0, 5]), _ => 100 }));
            }
        }
        v
    }).collect();
    let mut s = Scn { ranges, board, dead: mask_of(&dead) };
    if s.n() <= 9 { s.tame(); }
    s
}

pub fn run(a: &Args) {
    let active = Active::new(a);
    let mut count: BTreeMap<String, u64> = BTreeMap::new();
    let mut r = Rng::new(a.seed, "c17");
    // The table.
    let text = std::fs::read_to_string(a.opt("--table").unwrap_or_else(|| tool("no table"))).unwrap();
    let mut rows = vec![];
    for l in text.lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let g = |k: &str| v[k].as_u64().unwrap() as usize;
        for _ in 0..a.pick(2, 8) {
            if let Some(s) = input(&mut r, g("n"), g("nb"), g("nd"), v["why"].as_str().unwrap()) {
                rows.push((v.clone(), s));
            }
        }
    }
    parallel(rows.len(), |k| {
        let (v, s) = &rows[k];
        let what = json!({"row": v, "scenario": s.json()});
        active.on(k, || what.clone(), || {
            let want = v["says"].as_str().unwrap();
            for (kind, t) in [(None, 1 + (k % 3) as u8), (Some([0.01, 0.5, 3.0][k % 3]), 1 + (k / 3 % 2) as u8)] {
                let got = says(s, kind, t, &what);
                if got != want {
                    violation("an input is not refused with the first error that applies, or not accepted", json!({"case": what, "sampled": kind, "says": got, "expected": want}));
                }
            }
        })
    });
    for (v, _) in &rows { *count.entry(v["says"].as_str().unwrap().into()).or_default() += 2; }
    // Small ranges, for TLC.
    let cases: Vec<Scn> = (0..a.pick(3000, 30_000)).map(|_| loop {
        let s = small(&mut r);
        // sampling gives up where one deal in thousands is possible (known finding redeals)
        if s.n() < 2 || s.n() > 9 || s.acceptance(&mut r) >= 0.05 || !dealable(&s, 0, s.used()) { break s; }
    }).collect();
    let judged = parallel(cases.len(), |k| {
        let s = &cases[k];
        let what = s.json();
        active.on(k, || what.clone(), || {
            let mut v = what.clone();
            v["exact"] = json!(says(s, None, 1 + (k % 4) as u8, &what));
            v["approx"] = json!(says(s, Some([0.02, 1.0][k % 2]), 1 + (k % 4) as u8, &what));
            v
        })
    });
    std::fs::write(format!("{}/cases.ndjson", a.out), judged.iter().map(|v| v.to_string() + "\n").collect::<String>()).unwrap();
    *count.entry("small ranges".into()).or_default() += judged.len() as u64;
    // Inputs of every size that yield a result, with any number of threads and any target.
    let big: Vec<(Scn, Option<f64>, u8)> = (0..a.pick(160, 1600)).map(|k| loop {
        let exact_ = k % 3 == 0;
        let mut s = if exact_ {
            let sh = crate::exact::shapes(a);
            scenario(&mut r, &sh[1 + k % (sh.len() - 1)].2)
        } else {
            let n = r.range(2, 9);
            let nb = r.below(6);
            let nd = r.below(8);
            let c = r.cards(nb + nd, 0);
            let all: Vec<Hand3> = (0..52u8).flat_map(|x| (0..x).map(move |y| (x, y, 100))).collect();
            let ranges = (0..n).map(|_| {
                let m = *r.pick(&[30, 170, 400, 1326]);
                let mut v = all.clone();
                r.shuffle(&mut v);
                v.truncate(m);
                v
            }).collect();
            Scn { ranges, board: mask_of(&c[..nb]), dead: mask_of(&c[nb..]) }
        };
        // a dead card may lie on the board as well
        if r.chance(1, 6) && s.board != 0 && 2 * s.n() + 5 + (s.dead.count_ones() as usize) < 52 { s.dead |= 1 << r.pick(&cards_of(s.board)); }
        if exact_ && dealable(&s, 0, s.used()) || !exact_ && s.acceptance(&mut r) >= 0.05 {
            let t = *r.pick(&[1u8, 2, 3, 8, 17, 64, 255]);
            break (s, if exact_ { None } else { Some(*r.pick(&[1e-2, 4e-3, 0.2, 1.0, 1e3])) }, t);
        }
    }).collect();
    for (k, (s, kind, t)) in big.iter().enumerate() {
        let what = json!({"scenario": s.json()});
        active.on(k, || what.clone(), || {
            let got = says(s, *kind, *t, &what);
            if got != "ok" {
                violation("an input with a possible deal is refused", json!({"case": what, "sampled": kind, "threads": t, "says": got}));
            }
        });
    }
    *count.entry("any size".into()).or_default() += big.len() as u64;
    // Known finding: sampling gives up where deals are possible but rare.
    let c: Vec<u8> = (0..14).map(|k| 3 * k).collect();
    let hands: Vec<Hand3> = (0..14).flat_map(|i| (0..i).map({ let c = c.clone(); move |j| (c[i], c[j], 100) })).collect();
    let s = Scn { ranges: vec![hands; 7], board: 0, dead: 0 };
    let n = (0..4).filter(|_| says(&s, Some(0.01), 1, &json!({"scenario": s.json()})) == "ConflictingRanges").count();
    if n > 0 {
        say(json!({"known": "redeals", "what": "a sampled calculation with a possible deal is refused", "refused": n, "scenario": s.json()}));
    }
    let total: u64 = count.values().sum();
    say(json!({"done": true, "evaluations": total, "traces": rows.len(), "decisions": count, "samples": [judged[0], judged[judged.len() / 2]]}));
}
