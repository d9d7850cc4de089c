//! C15: a sampled calculation goes on until its deviation is below the target, and the deviation means something. The
//! recorded runs are judged by TLC (spec/SampleTrace.tla).
use crate::deal::*;
use crate::record::*;
use crate::util::*;
use pokers::verif::Event;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn digits(mut x: u128) -> Vec<u64> {
    let mut v = vec![];
    while x > 0 { v.push((x % 10000) as u64); x /= 10000; }
    v
}

/// The beginnings of the portions: of their first deals.
#[derive(Default)]
struct Start {
    left: u32,
    hash: u64,
}

struct Run {
    done: Done,
    rec: Arc<Recorder>,
    /// how many portions began with the same deals as another one
    alike: u64,
}

fn run_one(s: &Scn, names: &Names, table: &Arc<crate::table::Table>, threads: u8, target: f64, seed: u64, limit: u64, cur: &Current, what: &(dyn Fn() -> Value + Sync)) -> Run {
    cur.set(&what());
    let starts: Arc<Mutex<HashMap<usize, Start>>> = Default::default();
    let seen: Arc<Mutex<HashMap<u64, u64>>> = Default::default();
    let (s1, s2, seen2) = (starts.clone(), starts.clone(), seen.clone());
    let c = AtomicU64::new(seed);
    let rec = Recorder::start(s.n(), table.clone(), names, true,
        Some(Box::new(move |w, hands, board, _| {
            let mut g = s1.lock().unwrap();
            let st = g.entry(w).or_insert(Start { left: 24, hash: 0 });
            if st.left > 0 {
                st.left -= 1;
                st.hash = hands.iter().fold(st.hash ^ board, |h, &x| (h.rotate_left(7) ^ x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
                if st.left == 0 { *seen2.lock().unwrap().entry(st.hash).or_default() += 1; }
            }
        })),
        Some(Box::new(move |w, e| {
            if let Event::HandIn { .. } = e { s2.lock().unwrap().insert(w, Start { left: 24, hash: 0 }); }
            if seed != 0 && matches!(e, Event::HandInWant { .. } | Event::StopCheck { .. }) {
                let mut x = c.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
                x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                if (x >> 60) < 4 { std::thread::sleep(Duration::from_micros((x >> 8) % 3000)); }
            }
        })));
    let token = Arc::new(AtomicBool::new(false));
    let over = AtomicBool::new(false);
    let t0 = Instant::now();
    let d = std::thread::scope(|sc| {
        let over = &over;
        let tk = token.clone();
        sc.spawn(move || {
            while !over.load(Ordering::SeqCst) {
                if t0.elapsed() > Duration::from_secs(120) { violation("a sampled calculation does not end although its target was reached long ago", what()); }
                std::thread::sleep(Duration::from_millis(2));
                let _ = &tk;
            }
        });
        let d = call_with(s, Some(target), threads, &token, |n| if n as u64 >= limit { token.store(true, Ordering::SeqCst) });
        over.store(true, Ordering::SeqCst);
        d
    });
    rec.stop();
    let done = d.unwrap_or_else(|e| violation("a sampled calculation panics", json!({"case": what(), "panic": e})));
    let alike = seen.lock().unwrap().values().filter(|c| **c > 1).map(|c| c - 1).sum();
    Run { done, rec, alike }
}

/// How portions begin after those before them.
struct Boundaries {
    /// the last hands of a portion and the first of the same worker's next
    pairs: Vec<(Vec<usize>, Vec<usize>)>,
    /// how often each player holds each hand
    freq: Vec<Vec<f64>>,
    /// how often which hands are dealt, as long as there are not many
    all: HashMap<Vec<usize>, u64>,
    deals: u64,
}

fn boundaries(s: &Scn, names: &Names, table: &Arc<crate::table::Table>, threads: u8, limit: u64, cur: &Current, what: &(dyn Fn() -> Value + Sync)) -> Boundaries {
    cur.set(&what());
    #[derive(Default)]
    struct State { last: HashMap<usize, (Vec<usize>, bool)>, b: Vec<(Vec<usize>, Vec<usize>)>, freq: Vec<Vec<u64>>, all: HashMap<Vec<usize>, u64>, deals: u64 }
    let st: Arc<Mutex<State>> = Arc::new(Mutex::new(State { freq: vec![vec![0; HANDS]; s.n()], ..State::default() }));
    let (s1, s2) = (st.clone(), st.clone());
    let rec = Recorder::start(s.n(), table.clone(), names, true,
        Some(Box::new(move |w, hands, _, _| {
            let mut g = s1.lock().unwrap();
            let g = &mut *g;
            g.deals += 1;
            for (p, h) in hands.iter().enumerate() { g.freq[p][*h] += 1; }
            if g.all.len() < 5000 { *g.all.entry(hands.to_vec()).or_default() += 1; }
            match g.last.get_mut(&w) {
                Some((l, end)) => {
                    if *end { g.b.push((l.clone(), hands.to_vec())); *end = false; }
                    l.clear();
                    l.extend_from_slice(hands);
                }
                None => { g.last.insert(w, (hands.to_vec(), false)); }
            }
        })),
        Some(Box::new(move |w, e| if let Event::HandIn { .. } = e { if let Some(l) = s2.lock().unwrap().last.get_mut(&w) { l.1 = true; } })));
    let token = Arc::new(AtomicBool::new(false));
    let d = call_with(s, Some(1e-9), threads, &token, |n| if n as u64 >= limit { token.store(true, Ordering::SeqCst) });
    rec.stop();
    if let Err(e) = d { violation("a sampled calculation panics", json!({"case": what(), "panic": e})) }
    let st = std::mem::take(&mut *st.lock().unwrap());
    let freq = st.freq.iter().map(|v| v.iter().map(|c| *c as f64 / st.deals.max(1) as f64).collect()).collect();
    Boundaries { pairs: st.b, freq, all: st.all, deals: st.deals }
}

fn trace(run: &Run, target: f64) -> Option<Value> {
    let r = run.done.out.as_ref().ok()?;
    let nano = |x: f64| (x * 1e9).round().clamp(0.0, 2e9) as u64;
    let ev: Vec<Value> = run.rec.log().iter().filter_map(|e| match e {
        Rec::Locked(w) => Some(json!(["L", w + 1])),
        Rec::HandIn { w, evals, last, batch_count, stdev, stop, mean, .. } =>
            Some(json!(["H", w + 1, last, evals, (mean * 1e6).round() as u64, *batch_count as u64, nano(*stdev), stop])),
        Rec::Check(w, stop) => Some(json!(["C", w + 1, stop])),
        Rec::End(w) => Some(json!(["E", w + 1])),
        _ => None,
    }).collect();
    let fin = |x: f64| x.is_finite() && x >= 0.0;
    if !(fin(r.batch_sum) && fin(r.batch_sum2) && fin(r.batch_count) && fin(r.stdev)) { return None; }
    Some(json!({"workers": run.rec.workers.lock().unwrap().len(), "target": nano(target), "ev": ev,
        "result": [r.batch_count as u64, digits((r.batch_sum * 1e6).round() as u128), digits((r.batch_sum2 * 1e12).round() as u128), r.eval_count, nano(r.stdev)]}))
}

pub fn run(a: &Args) {
    let names = Names::load(a);
    let table = Arc::new(a.table());
    let cur = Current::new(a);
    let mut r = Rng::new(a.seed, "c15");
    let mut rows: Vec<Value> = vec![];
    let mut samples = vec![];
    let mut count: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut deals, mut z2, mut zn, mut zmax) = (0u64, 0.0, 0.0, 0f64);
    let runs = a.pick(64, 400);
    let m = a.pick(30_000_000, 60_000_000);
    for k in 0..runs {
        let s = loop {
            let sh = Shape { players: (2, *r.pick(&[2usize, 3, 6, 9])), board: (0, 5), dead: (0, 10), hands: (1, *r.pick(&[1usize, 4, 30, 150, 400])), weights: r.chance(1, 2), cost: (50, m) };
            let s = scenario(&mut r, &sh);
            if s.acceptance(&mut r) < 0.05 { continue; }
            break s;
        };
        let t = tally(&s, &table, &names);
        if t.total() == 0 { continue; }
        let exact0 = t.wins(0) as f64 / t.total() as f64 + t.share(0) as f64 / (L * t.total()) as f64;
        // how much the portions' means vary decides how many are needed
        let pilot = call_with(&s, Some(0.004), 2, &Arc::new(AtomicBool::new(false)), |_| {})
            .unwrap_or_else(|e| violation("a sampled calculation panics", json!({"scenario": s.json(), "panic": e})));
        let p = match &pilot.out { Ok(p) => p, Err(e) => violation("a calculation with a possible deal is refused", json!({"scenario": s.json(), "error": e})) };
        let spread = p.stdev * p.batch_count.sqrt();
        let portions = *r.pick(&[1.0, 12.0, 40.0, 120.0, 120.0, 250.0, 400.0]);
        let target = (spread / f64::sqrt(portions)).max(4e-7);
        let threads = *r.pick(&[1u8, 1, 2, 3, 4, 8]);
        let seed = if r.chance(2, 3) { r.next() | 1 } else { 0 };
        let what = || json!({"scenario": s.json(), "threads": threads, "target": target, "jitter": seed});
        let run = run_one(&s, &names, &table, threads, target, seed, 1_000_000, &cur, &what);
        let res = match &run.done.out { Ok(x) => x, Err(e) => violation("a calculation with a possible deal is refused", json!({"case": what(), "error": e})) };
        deals += run.rec.sums().deals;
        *count.entry("runs").or_default() += 1;
        let hand_ins = run.rec.log().iter().filter(|x| matches!(x, Rec::HandIn { evals, .. } if *evals > 0)).count();
        *count.entry("portions").or_default() += hand_ins as u64;
        // what was handed in is what was dealt
        for e in run.rec.log() {
            if let Rec::HandIn { evals, deals, .. } = e {
                if evals != deals { violation("the number of hands evaluated is not that of the deals", json!({"case": what(), "reported": evals, "deals": deals})); }
            }
        }
        if res.eval_count != run.rec.sums().deals {
            violation("the number of hands evaluated is not that of the deals", json!({"case": what(), "reported": res.eval_count, "deals": run.rec.sums().deals}));
        }
        let tal = run.rec.sums().tally();
        if let Err(e) = compare_players(&s, res, &tal).and_then(|_| compare_hands(&s, &names, res, &tal)) {
            violation("the results are not those of what was evaluated", json!({"case": what(), "what": e}));
        }
        if s.remaining() >= 3 && run.alike > 0 {
            violation("portions that are counted as different samples have the same deals", json!({"case": what(), "portions": run.alike}));
        }
        // The estimate is within a few deviations. These are estimated, too: what happens so rarely that it need not
        // have been seen is allowed for.
        let n = res.batch_count;
        let contrast: f64 = s.ranges.iter().map(|h| {
            let live: Vec<f64> = h.iter().filter(|x| x.2 > 0 && (1u64 << x.0 | 1u64 << x.1) & s.used() == 0).map(|x| x.2 as f64).collect();
            live.iter().fold(0.0, |m: f64, w| m.max(*w)) * live.len() as f64 / live.iter().sum::<f64>()
        }).product();
        let rare = 20.0 * s.n() as f64 * contrast / res.eval_count as f64;
        let err = (res.equities[0] - exact0).abs();
        let far = (err - rare).max(0.0);
        if res.stdev.is_nan() || err.is_nan() || far > res.stdev * if n >= 100.0 { 7.0 } else { 14.0 } {
            violation("the estimate is many deviations away from the exact equity", json!({"case": what(), "equity": res.equities[0], "exact": exact0, "deviation": res.stdev, "portions": n}));
        }
        if n >= 100.0 && rare < res.stdev {
            let z = far / res.stdev;
            z2 += z * z;
            zn += 1.0;
            zmax = zmax.max(z);
        }
        if hand_ins <= a.pick(700, 1500) {
            match trace(&run, target) {
                Some(t) => {
                    if samples.is_empty() { samples.push(json!({"scenario": s.json(), "target": target, "result": t["result"]})); }
                    rows.push(t)
                }
                None => violation("the sums or the deviation reported are no numbers", what()),
            }
        } else { *count.entry("too long for TLC").or_default() += 1; }
        let _ = k;
    }
    if zn >= 20.0 && z2 / zn > 1.0 + 7.0 * f64::sqrt(2.0 / zn) + 0.3 {
        violation("the estimates are further from the exact equities than their deviations say", json!({"runs": zn, "mean square of the deviations": z2 / zn}));
    }
    // A worker's portion does not depend on the one before.
    for k in 0..a.pick(8, 48) {
        let s = loop {
            let n = r.range(2, 4);
            let sh = if k % 2 == 0 { Shape { players: (2, 3), board: (0, 5), dead: (0, 10), hands: (2, 4), weights: false, cost: (1, u64::MAX) } }
                else { Shape { players: (n, n), board: (0, 4), dead: (0, 6), hands: (100, 200), weights: false, cost: (1, u64::MAX) } };
            let s = scenario(&mut r, &sh);
            if s.acceptance(&mut r) >= 0.2 { break s; }
        };
        let threads = 1 + (k / 2 % 2) as u8;
        let what = || json!({"scenario": s.json(), "threads": threads, "portions": 300});
        let b = boundaries(&s, &names, &table, threads, 300, &cur, &what);
        *count.entry("portions after one another").or_default() += b.pairs.len() as u64;
        for p in 0..s.n() {
            let (mut got, mut mean, mut var) = (0.0, 0.0, 0.0);
            for (l, f) in &b.pairs {
                let q = b.freq[p][l[p]];
                got += (l[p] == f[p]) as u64 as f64;
                mean += q;
                var += q * (1.0 - q);
            }
            if got > mean + 8.0 * f64::sqrt(var) + 4.0 {
                violation("a portion depends on the one before", json!({"case": what(), "player": p, "portions": b.pairs.len(), "begin with the hand the last ended with": got, "expected": mean}));
            }
        }
        // after the same deal, different ones
        let same = |x: &Vec<usize>, y: &Vec<usize>| x == y;
        let (mut pairs, mut got) = (0.0, 0.0);
        for (i, x) in b.pairs.iter().enumerate() {
            for y in &b.pairs[..i] {
                if same(&x.0, &y.0) { pairs += 1.0; got += same(&x.1, &y.1) as u64 as f64; }
            }
        }
        let q = b.all.values().map(|c| (*c as f64 / b.deals as f64).powi(2)).sum::<f64>();
        let most = b.pairs.iter().map(|x| b.pairs.iter().filter(|y| same(&x.0, &y.0)).count()).max().unwrap_or(0) as f64;
        if got > pairs * q + 8.0 * f64::sqrt(pairs * q) + 10.0 + 25.0 * most * q {
            violation("a portion depends on the one before", json!({"case": what(), "pairs of portions after the same deal": pairs, "begin with the same deal": got, "expected": pairs * q}));
        }
        deals += b.deals;
    }
    // The first player's share is the same in all deals, and thousands of portions: the deviation stays a number.
    for k in 0..a.pick(6, 24) {
        let (kind, board, hands): (&str, [u8; 5], Vec<(u8, u8)>) = match k % 3 {
            // aces, kings and a lower hand on A A K K 3
            0 => ("always wins", [50, 51, 44, 45, 5], vec![(49, 48), (20, 2)]),
            1 => ("always loses", [50, 51, 44, 45, 5], vec![(20, 2), (49, 48)]),
            _ => ("always ties", [48, 44, 40, 36, 32], (0..2 + k / 3 % 3).map(|p| (9 + 4 * p as u8, 2 + 4 * p as u8)).collect()),
        };
        let ranges = hands.iter().map(|h| vec![(h.0.max(h.1), h.0.min(h.1), *r.pick(&[1u8, 7, 100]))]).collect();
        let s = Scn { ranges, board: mask_of(&board), dead: 0 };
        let threads = *r.pick(&[1u8, 4, 8]);
        let limit = if k < 3 { 9000 } else { a.pick(3000, 40_000) };
        let what = || json!({"scenario": s.json(), "the first player": kind, "threads": threads, "target": 1e-12, "portions": limit});
        cur.set(&what());
        let token = Arc::new(AtomicBool::new(false));
        let d = call_with(&s, Some(1e-12), threads, &token, |n| if n as u64 >= limit { token.store(true, Ordering::SeqCst) })
            .unwrap_or_else(|e| violation("a sampled calculation panics", json!({"case": what(), "panic": e})));
        let res = match &d.out { Ok(x) => x, Err(e) => violation("a calculation with a possible deal is refused", json!({"case": what(), "error": e})) };
        if !(res.stdev >= 0.0 && res.stdev <= 1e-3 / res.batch_count) || (!d.token && !(res.stdev < 1e-12)) {
            violation("the deviation does not follow from the portions", json!({"case": what(), "deviation": res.stdev.to_string(), "portions handed in": res.batch_count, "ended by itself": !d.token}));
        }
        *count.entry("runs of equal portions").or_default() += 1;
        deals += res.eval_count;
    }
    // Known finding: sampling ends when it fails to deal everyone a hand anew.
    let c: Vec<u8> = (0..14).map(|k| 3 * k).collect();
    let hands: Vec<Hand3> = (0..14).flat_map(|i| (0..i).map({ let c = c.clone(); move |j| { let (x, y) = higher_first(c[i], c[j]); (x, y, 100) } })).collect();
    let s = Scn { ranges: vec![hands; 6], board: 0, dead: 0 };
    let early = (0..3).filter(|_| {
        let what = || json!({"scenario": s.json(), "threads": 1, "target": 1e-6});
        let run = run_one(&s, &names, &table, 1, 1e-6, 0, 150, &cur, &what);
        !run.done.token && !matches!(&run.done.out, Ok(r) if r.stdev < 1e-6)
    }).count();
    if early > 0 {
        say(json!({"known": "redeals", "what": "a sampled calculation ends above its target", "times": early, "scenario": s.json()}));
    }
    std::fs::write(format!("{}/trace.ndjson", a.out), rows.iter().map(|v| v.to_string() + "\n").collect::<String>()).unwrap();
    say(json!({"done": true, "evaluations": deals, "runs": count, "samples": samples, "judged by TLC": rows.len(),
        "deviations from the exact equity": {"runs": zn, "mean square": if zn > 0.0 { z2 / zn } else { 0.0 }, "largest": zmax}}));
}
