//! C20: weights count in proportion, for any number of players, in both ways of calculating.

use crate::deal::*;
use crate::exact::{as_results, judgeable, normal, small};
use crate::record::*;
use crate::util::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::atomic::AtomicBool;
use std::sync::{Arc, Mutex};

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// Weights of every kind, with a product that 64 bits can hold.
fn reweigh(r: &mut Rng, s: &mut Scn, exact: bool) {
    let mode = r.below(7);
    for v in s.ranges.iter_mut() {
        let m = if mode == 5 { r.below(5) } else { mode };
        let c = 1 + r.below(100) as u8;
        for h in v.iter_mut() {
            h.2 = match m {
                0 => c,
                1 => 1 + r.below(100) as u8,
                2 => *r.pick(&[0, 0, 1, 99, 100]),
                3 => *r.pick(&[25, 50, 75, 100]),
                6 => 90 + r.below(11) as u8,
                _ => *r.pick(&[1, 100]),
            };
        }
        if v.iter().all(|h| h.2 == 0) { v[0].2 = 100; }
    }
    if exact { s.tame_exact(10u128.pow(17)) } else { s.tame() }
}

/// The same proportions: every player's weights times some factor that keeps them within 100.
fn scaled(r: &mut Rng, s: &Scn) -> Scn {
    let mut t = s.clone();
    for v in t.ranges.iter_mut() {
        let g = v.iter().fold(0, |g, h| gcd(g, h.2 as u64)).max(1);
        let top = v.iter().map(|h| h.2 as u64 / g).max().unwrap().max(1);
        let k = 1 + r.below((100 / top) as usize) as u64;
        v.iter_mut().for_each(|h| h.2 = (h.2 as u64 / g * k) as u8);
    }
    t
}

/// Further hands, of weight 0.
fn with_zeros(r: &mut Rng, s: &Scn) -> Scn {
    let mut t = s.clone();
    for v in t.ranges.iter_mut() {
        for _ in 0..r.below(4) {
            let c = r.cards(2, 0);
            let (a, b) = higher_first(c[0], c[1]);
            if v.iter().all(|h| (h.0, h.1) != (a, b)) { v.push((a, b, 0)); }
        }
    }
    t
}

fn players(r: &mut Rng, k: usize, cost: u64) -> Scn {
    let n = 2 + k % 8;
    // many players with wide cards: the more players, the more board cards, to keep it affordable
    let nb = if n > 5 { r.range(3, 5) } else { r.range(if n == 2 { 0 } else { 1 }, 5) };
    let h = match n { 2 => 12, 3 => 6, 4 => 4, 5 => 3, _ => 2 };
    let mut s = scenario(r, &Shape { players: (n, n), board: (nb, nb), dead: (0, 6), hands: (1, h), weights: false, cost: (1, cost) });
    reweigh(r, &mut s, true);
    s
}

pub fn run(a: &Args) {
    let table = Arc::new(a.table());
    let names = Names::load(a);
    let active = Active::new(a);
    let mut r = Rng::new(a.seed, "c20");
    let what = "weights do not count in proportion";
    let mut count: BTreeMap<&str, u64> = BTreeMap::new();
    // Small decks, for TLC.
    let smalls: Vec<Scn> = (0..a.pick(600, 6000)).map(|_| { let mut s = small(&mut r, 3000); reweigh(&mut r, &mut s, true); s }).collect();
    let traces: Vec<Option<(Value, Value)>> = parallel(smalls.len(), |k| {
        let s = &smalls[k];
        active.on(k, || json!({"scenario": s.json()}), || {
            let t = tally(s, &table, &names);
            match exact(s, 1) {
                Ok(x) => {
                    if let Err(e) = compare_players(s, &x, &t).and_then(|_| compare_hands(s, &names, &x, &t)) { violation(what, e); }
                    normal(s, &names, &x).filter(|_| judgeable(&t)).map(|v| (v, as_results(s, &t, &names)))
                }
                Err("ConflictingRanges") if t.selections == 0 => None,
                Err(e) => violation("a calculation with a possible deal is refused", json!({"scenario": s.json(), "error": e})),
            }
        })
    });
    let traces: Vec<_> = traces.into_iter().flatten().collect();
    for (name, which) in [("code", 0), ("native", 1)] {
        std::fs::write(format!("{}/{name}.ndjson", a.out), traces.iter().map(|v| if which == 0 { v.0.to_string() } else { v.1.to_string() } + "\n").collect::<String>()).unwrap();
    }
    count.insert("small decks", traces.len() as u64);
    // Two to nine players: against every deal, and against the same proportions.
    let work: Vec<(Scn, Scn, Scn)> = (0..a.pick(1600, 16_000)).map(|k| {
        let s = players(&mut r, k, a.pick(3_000_000, 20_000_000));
        let t = scaled(&mut r, &s);
        let z = with_zeros(&mut r, &t);
        (s, t, z)
    }).collect();
    let deals: u64 = parallel(work.len(), |k| {
        let (s, t, z) = &work[k];
        active.on(k, || json!({"scenario": s.json(), "scaled": t.json(), "with hands of weight 0": z.json()}), || {
            let refuse = |s: &Scn, e: &str| -> ! { violation("a calculation with a possible deal is refused", json!({"scenario": s.json(), "error": e})) };
            let ta = tally(s, &table, &names);
            let th = 1 + (k % 3) as u8;
            let x = match exact(s, th) { Ok(x) => x, Err("ConflictingRanges") if ta.selections == 0 => return 0, Err(e) => refuse(s, e) };
            let y = exact(t, 1).unwrap_or_else(|e| refuse(t, e));
            let w = exact(z, 1).unwrap_or_else(|e| refuse(z, e));
            for (s, r) in [(s, &x), (t, &y), (z, &w)] {
                if let Err(e) = compare_players(s, r, &ta).and_then(|_| compare_hands(s, &names, r, &ta)) {
                    violation(what, json!({"case": s.json(), "what": e}));
                }
            }
            ta.deals * 3
        })
    }).iter().sum();
    count.insert("two to nine players, exact, three ways of writing their weights", work.len() as u64);
    // Sampling: the weight each deal counts with.
    let mut sampled = 0;
    for k in 0..a.pick(160, 1600) {
        let s = loop {
            let mut s = if k % 2 == 0 { players(&mut r, k / 2, 50_000_000) } else {
                let n = 2 + k / 2 % 8;
                let nb = r.below(6);
                scenario(&mut r, &Shape { players: (n, n), board: (nb, nb), dead: (0, 6), hands: (20, 60), weights: false, cost: (1, u64::MAX) })
            };
            reweigh(&mut r, &mut s, false);
            if s.acceptance(&mut r) >= 0.05 { break s; }
        };
        let t = *r.pick(&[1u8, 2, 4]);
        let target = *r.pick(&[0.02, 0.005]);
        let case = || json!({"scenario": s.json(), "threads": t, "target": target});
        active.on(0, || case(), || {
            let given: Vec<BTreeMap<usize, u64>> = s.ranges.iter().map(|v| v.iter().map(|h| (names.of(h.0, h.1), h.2 as u64)).collect()).collect();
            // the smallest weights in the same proportions
            let unit: Vec<u64> = s.ranges.iter().map(|v| v.iter().filter(|h| (1u64 << h.0 | 1u64 << h.1) & s.used() == 0).fold(0, |g, h| gcd(g, h.2 as u64)).max(1)).collect();
            let factor: Arc<Mutex<Option<(u128, u128)>>> = Arc::new(Mutex::new(None));
            let bad: Arc<Mutex<Option<Value>>> = Arc::new(Mutex::new(None));
            let (f2, b2, g2) = (factor.clone(), bad.clone(), given.clone());
            let on: OnDeal = Box::new(move |_, hands, _, weight| {
                let mut w = 1u128;
                for (p, h) in hands.iter().enumerate() {
                    w *= g2.get(p).and_then(|m| m.get(h)).copied().unwrap_or(0) as u128 / unit.get(p).copied().unwrap_or(1) as u128;
                }
                let mut f = f2.lock().unwrap();
                let (x, y) = *f.get_or_insert((weight as u128, w));
                if w == 0 || weight as u128 * y != x * w {
                    b2.lock().unwrap().get_or_insert_with(|| json!({"hands": hands, "counts with": weight, "product of the weights": w.to_string(), "while a deal of": y.to_string(), "counts with ": x.to_string()}));
                }
            });
            let rec = Recorder::start(s.n(), table.clone(), &names, true, Some(on), None);
            let token = Arc::new(AtomicBool::new(false));
            let d = call_with(&s, Some(target), t, &token, |_| {});
            rec.stop();
            let d = d.unwrap_or_else(|e| violation("a calculation panics", json!({"case": case(), "panic": e})));
            if let Some(b) = bad.lock().unwrap().take() { violation("a deal does not count with the product of its hands' weights", json!({"case": case(), "deal": b})); }
            let res = d.out.unwrap_or_else(|e| violation("a calculation with a possible deal is refused", json!({"case": case(), "error": e})));
            let ta = rec.sums().tally();
            if let Err(e) = compare_players(&s, &res, &ta).and_then(|_| compare_hands(&s, &names, &res, &ta)) {
                violation(what, json!({"case": case(), "what": e}));
            }
            sampled += ta.deals;
        });
    }

    count.insert("two to nine players, sampled", a.pick(160, 1600));
    // Known finding: many players with weights of no common divisor.
    let c: Vec<u8> = (0..52).filter(|c| c % 4 != 3 || *c > 40).collect();
    let s = Scn { ranges: (0..9).map(|p| vec![(c[4 * p + 1], c[4 * p], 99), (c[4 * p + 3], c[4 * p + 2], 100)]).collect(), board: mask_of(&c[36..41]), dead: 0 };
    let ta = tally(&s, &table, &names);
    let ok = call_with(&s, None, 1, &Arc::new(AtomicBool::new(false)), |_| {}).is_ok_and(|d| d.out.is_ok_and(|x| compare_players(&s, &x, &ta).is_ok()));
    if !ok {
        say(json!({"known": "weights-overflow", "what": what, "scenario": s.json()}));
    }

    say(json!({"done": true, "evaluations": deals + sampled, "traces": work.len() * 3 + traces.len(), "cases": count, "samples": [work[work.len() / 2].0.json()]}));
}
