//! C22: exact results of a scenario with its suits renamed and its players reordered.
use crate::deal::*;
use crate::exact::{normal, shapes, small};
use crate::util::*;
use pokers::{SimulationResults, UnitResults};
use serde_json::{Value, json};

/// Player p of the scenario becomes player q[p].
pub fn reorder(s: &Scn, q: &[usize]) -> Scn {
    let mut ranges = vec![vec![]; s.n()];
    for (p, r) in s.ranges.iter().enumerate() {
        ranges[q[p]] = r.clone();
    }
    Scn { ranges, board: s.board, dead: s.dead }
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-8 * a.abs().max(b.abs()).max(1.0)
}

/// Counts have the same proportions: x of all in one result, y of other in the other one.
struct Scale(u128, u128);
impl Scale {
    fn ints(&self, x: u64, y: u64) -> bool {
        x as u128 * self.1 == y as u128 * self.0
    }
    fn floats(&self, x: f64, y: f64) -> bool {
        close(x / self.0 as f64, y / self.1 as f64) && close(x, y * (self.0 as f64 / self.1 as f64))
    }
    fn unit(&self, x: &UnitResults, y: &UnitResults, rates: bool) -> bool {
        self.ints(x.total, y.total) && self.ints(x.wins, y.wins) && self.ints(x.ties, y.ties) && self.floats(x.corrected_ties, y.corrected_ties)
            && x.weight == y.weight && x.valid == y.valid && (!rates || close(x.equity, y.equity) && close(x.winrate, y.winrate) && close(x.tierate, y.tierate))
    }
}

fn total(r: &SimulationResults) -> u128 {
    r.wins_by_mask.iter().map(|&x| x as u128).sum()
}

/// b is a with the suits renamed by f and the players reordered by q.
pub fn alike(names: &Names, a: &SimulationResults, b: &SimulationResults, f: impl Fn(u8) -> u8, q: &[usize]) -> Result<(), String> {
    let n = q.len();
    let sc = Scale(total(a), total(b));
    if sc.0 == 0 || sc.1 == 0 { return Err("nothing was counted".into()); }
    for m in 0..1usize << n {
        let k = (0..n).filter(|p| m >> p & 1 == 1).map(|p| 1 << q[p]).sum::<usize>();
        if !sc.ints(a.wins_by_mask[m], b.wins_by_mask[k]) { return Err(format!("wins of the set {m:b}: {} of {}, {} of {}", a.wins_by_mask[m], sc.0, b.wins_by_mask[k], sc.1)); }
    }
    for p in 0..n {
        let o = q[p];
        if !sc.ints(a.wins[p], b.wins[o]) || !sc.floats(a.ties[p], b.ties[o]) || !close(a.equities[p], b.equities[o]) {
            return Err(format!("player {p}: wins {} {}, ties {} {}, equity {} {}", a.wins[p], b.wins[o], a.ties[p], b.ties[o], a.equities[p], b.equities[o]));
        }
        for h in 0..HANDS {
            let (x, y) = names.hand[h];
            let g = names.of(f(x), f(y));
            let (u, v) = (&a.hand_results[p * HANDS + h], &b.hand_results[o * HANDS + g]);
            if !sc.unit(u, v, true) || u.rank != v.rank || u.draw != v.draw { return Err(format!("player {p}, hand {x} {y}: {u:?} {v:?}")); }
        }
        // classes do not know suits; totals beyond 64 bits are scaled down, and rounded
        for c in 0..CLASSES {
            let (u, v) = (&a.combo_results[p * CLASSES + c], &b.combo_results[o * CLASSES + c]);
            if !(close(u.equity, v.equity) && close(u.winrate, v.winrate) && close(u.tierate, v.tierate) && u.weight == v.weight && u.valid == v.valid) {
                return Err(format!("player {p}, class {c}: {u:?} {v:?}"));
            }
        }
        for (name, size, x, y) in [("category", 9, &a.board_results, &b.board_results), ("draw", 10, &a.board_draws, &b.board_draws)] {
            if x.len() != n * size || y.len() != n * size { return Err(format!("number of {name} results")); }
            for k in 0..size {
                let (u, v) = (&x[p * size + k], &y[o * size + k]);
                if !(close(u.equity, v.equity) && close(u.winrate, v.winrate) && close(u.tierate, v.tierate) && u.weight == v.weight) {
                    return Err(format!("player {p}, {name} {k}: {u:?} {v:?}"));
                }
            }
        }
    }
    Ok(())
}

fn result(s: &Scn, threads: u8) -> Option<SimulationResults> {
    match exact(s, threads) {
        Ok(r) => Some(r),
        Err("ConflictingRanges") => None,
        Err(e) => violation("a calculation is refused", json!({"scenario": s.json(), "error": e})),
    }
}

pub fn run(a: &Args) {
    let names = Names::load(a);
    let active = Active::new(a);
    let mut r = Rng::new(a.seed, "c22");
    let what = "renaming the suits or reordering the players changes more than names and order";
    // all ways to rename the suits
    let mut perms = vec![];
    for x in 0..256usize {
        let v: Vec<u8> = (0..4).map(|i| (x >> (2 * i) & 3) as u8).collect();
        if (0..4u8).all(|k| v.contains(&k)) { perms.push(v); }
    }
    let order = |r: &mut Rng, n: usize| -> Vec<usize> {
        let mut q: Vec<usize> = (0..n).collect();
        match r.below(4) { 0 => q.reverse(), 1 => q.rotate_left(1), _ => r.shuffle(&mut q) }
        q
    };
    // Small decks, for TLC.
    let mut smalls: Vec<(Scn, Vec<u8>, Vec<usize>)> = (0..a.pick(1500, 15_000)).map(|k| {
        let s = small(&mut r, 20_000);
        let q = order(&mut r, s.n());
        (s, perms[k % 24].clone(), q)
    }).collect();
    let mut pairs: Vec<Option<Value>> = parallel(smalls.len(), |k| {
        let (s, f, q) = &smalls[k];
        let t = reorder(&s.map(|c| c & !3 | f[(c & 3) as usize]), q);
        active.on(k, || json!({"scenario": s.json(), "suits": f, "players": q}), || {
            match (result(s, 1), result(&t, 1)) {
                (Some(x), Some(y)) => {
                    let (u, v) = (normal(s, &names, &x), normal(&t, &names, &y));
                    if u.is_none() || v.is_none() { return None; }
                    Some(json!({"a": u, "b": v, "f": f, "q": q.iter().map(|x| x + 1).collect::<Vec<_>>()}))
                }
                (None, None) => None,
                _ => violation(what, json!({"scenario": s.json(), "suits": f, "players": q, "what": "one of them is refused"})),
            }
        })
    });
    smalls.clear();
    pairs.retain(|p| p.is_some());
    std::fs::write(format!("{}/pairs.ndjson", a.out), pairs.iter().flatten().map(|v| v.to_string() + "\n").collect::<String>()).unwrap();
    // Real decks.
    let k = a.pick(3, 20);
    let mut work: Vec<(Scn, Vec<(Vec<u8>, Vec<usize>)>)> = vec![];
    for (name, c, mut sh) in shapes(a) {
        if name == "large" { sh.cost = (1_000_000, 300_000_000); }
        for _ in 0..(c * k / 10).max(2) {
            let s = scenario(&mut r, &sh);
            let m = if s.cost() > 20_000_000 { 3 } else { 6 };
            let ways = (0..m).map(|i| (perms[r.below(24)].clone(), if i % 3 == 0 { (0..s.n()).collect() } else { order(&mut r, s.n()) })).collect();
            work.push((s, ways));
        }
    }
    work.sort_by_key(|w| std::cmp::Reverse(w.0.cost()));
    let n: Vec<u64> = parallel(work.len(), |k| {
        let (s, ways) = &work[k];
        active.on(k, || json!({"scenario": s.json(), "ways": ways}), || {
            let x = result(s, 1);
            for (i, (f, q)) in ways.iter().enumerate() {
                let t = reorder(&s.map(|c| c & !3 | f[(c & 3) as usize]), q);
                let y = result(&t, 1 + (i % 3) as u8);
                let v = match (&x, &y) {
                    (Some(x), Some(y)) => alike(&names, x, y, |c| c & !3 | f[(c & 3) as usize], q),
                    (None, None) => Ok(()),
                    _ => Err("one of them is refused".into()),
                };
                if let Err(e) = v {
                    violation(what, json!({"scenario": s.json(), "suits": f, "players": q, "what": e}));
                }
            }
            ways.len() as u64
        })
    });
    say(json!({"done": true, "traces": n.iter().sum::<u64>(), "evaluations": n.iter().sum::<u64>(), "scenarios": work.len(), "small_decks": pairs.len(),
        "samples": [pairs.iter().flatten().next(), work[work.len() / 2].0.json()]}));
}
