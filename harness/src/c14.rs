//! C14: every sampled deal is a legal one, and none is favoured. The expectations are spec/Sampler.tla's: all deals of
//! hands alike, and all completions of the board alike. TLC judges small scenarios (spec/SampleJudge.tla).
use crate::deal::*;
use crate::record::*;
use crate::util::*;
use pokers::verif::Event;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::AtomicBool;
use std::sync::{Arc, Mutex};

const BINS: usize = 16;
/// tolerance, in standard deviations
const Z: f64 = 8.0;

/// What one worker dealt.
struct Acc {
    fresh: bool,
    /// of this portion: times each hand was held, each bin of joint choices
    size: u64,
    hands: Vec<Vec<u32>>,
    bins: [u32; BINS],
    joint: BTreeMap<Vec<u16>, u32>,
    /// board cards, pairs of board cards, used card and board card, pairs of used cards
    card: Vec<u64>,
    pair: Vec<u64>,
    cross: Vec<u64>,
    used: Vec<u64>,
    completions: BTreeMap<u64, u64>,
    /// the weights of the deals, by player and hand
    weights: Vec<Vec<u128>>,
    weight: u128,
    deals: u64,
    start: Vec<(u64, u64)>,
}

/// Sums over the portions of equal size.
#[derive(Default, Clone)]
struct Moments {
    portions: u64,
    t: Vec<Vec<(u64, u128)>>,
    bins: [(u64, u128); BINS],
    joint: BTreeMap<Vec<u16>, (u64, u128)>,
}

struct All {
    /// by size of portion
    moments: BTreeMap<u64, Moments>,
    first: BTreeMap<Vec<u16>, u32>,
    n_first: u64,
    sample: Vec<(Vec<u16>, u64, u64)>,
}

pub struct Spot {
    s: Scn,
    /// position in the player's range of a hand by its index
    pos: Vec<Vec<u16>>,
    hash: Vec<Vec<u64>>,
    units: Vec<Vec<u64>>,
    joint: bool,
    completions: bool,
}

const NONE: u16 = u16::MAX;

impl Spot {
    fn new(s: Scn, names: &Names, joint: bool, completions: bool, r: &mut Rng) -> Spot {
        let mut pos = vec![vec![NONE; HANDS]; s.n()];
        let mut units = vec![];
        for (p, v) in s.ranges.iter().enumerate() {
            let mut g = 0u64;
            for (i, h) in v.iter().enumerate() {
                if (1u64 << h.0 | 1u64 << h.1) & s.used() == 0 && h.2 > 0 {
                    pos[p][names.of(h.0, h.1)] = i as u16;
                    let mut b = h.2 as u64;
                    while b != 0 { (g, b) = (b, g % b); }
                }
            }
            units.push(v.iter().map(|h| h.2 as u64 / g.max(1)).collect());
        }
        let hash = s.ranges.iter().map(|v| v.iter().map(|_| r.next()).collect()).collect();
        Spot { s, pos, hash, units, joint, completions }
    }
    fn bin(&self, sel: &[u16]) -> usize {
        let h = sel.iter().enumerate().fold(0u64, |h, (p, &i)| h.wrapping_add(self.hash[p][i as usize]));
        (h.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 60) as usize
    }
}

/// What the deals of hands add up to when each is counted once.
pub struct Meant {
    deals: u64,
    with: Vec<Vec<u64>>,
    bins: [u64; BINS],
    joint: Vec<Vec<u16>>,
}
fn meant(k: &Spot) -> Meant {
    let s = &k.s;
    let mut m = Meant { deals: 0, with: s.ranges.iter().map(|v| vec![0; v.len()]).collect(), bins: [0; BINS], joint: vec![] };
    let live: Vec<Vec<(u16, u64)>> = (0..s.n()).map(|p| s.ranges[p].iter().enumerate()
        .map(|(i, h)| (i as u16, 1u64 << h.0 | 1u64 << h.1, h.2)).filter(|x| x.2 > 0 && x.1 & s.used() == 0).map(|x| (x.0, x.1)).collect()).collect();
    fn rec(k: &Spot, live: &[Vec<(u16, u64)>], p: usize, used: u64, h: u64, sel: &mut Vec<u16>, m: &mut Meant) -> u64 {
        if p == live.len() {
            m.bins[(h.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 60) as usize] += 1;
            if k.joint { m.joint.push(sel.clone()); }
            return 1;
        }
        let mut c = 0;
        for &(i, mask) in &live[p] {
            if mask & used == 0 {
                sel[p] = i;
                let d = rec(k, live, p + 1, used | mask, h.wrapping_add(k.hash[p][i as usize]), sel, m);
                m.with[p][i as usize] += d;
                c += d;
            }
        }
        c
    }
    let mut sel = vec![0; s.n()];
    m.deals = rec(k, &live, 0, 0, 0, &mut sel, &mut m);
    m
}

struct Ran {
    rec: Arc<Recorder>,
    accs: Vec<Arc<Mutex<Acc>>>,
    all: All,
    done: Done,
}

fn sample(k: &Arc<Spot>, names: &Names, table: &Arc<crate::table::Table>, threads: u8, portions: usize, value: bool, what: &(dyn Fn() -> Value + Sync)) -> Ran {
    let accs: Arc<Mutex<Vec<Arc<Mutex<Acc>>>>> = Default::default();
    let all = Arc::new(Mutex::new(All { moments: BTreeMap::new(), first: BTreeMap::new(), n_first: 0, sample: vec![] }));
    let (k2, a2, all2) = (k.clone(), accs.clone(), all.clone());
    let acc = move |w: usize| -> Arc<Mutex<Acc>> {
        thread_local! { static MINE: std::cell::RefCell<Option<(usize, Arc<Mutex<Acc>>)>> = const { std::cell::RefCell::new(None) }; }
        let key = Arc::as_ptr(&a2) as usize;
        MINE.with(|m| {
            let mut m = m.borrow_mut();
            if m.as_ref().is_none_or(|x| x.0 != key) {
                let mut g = a2.lock().unwrap();
                let _ = w;
                let s = &k2.s;
                let a = Arc::new(Mutex::new(Acc {
                    fresh: true, size: 0, hands: s.ranges.iter().map(|v| vec![0; v.len()]).collect(), bins: [0; BINS], joint: BTreeMap::new(),
                    card: vec![0; 52], pair: vec![0; 52 * 52], cross: vec![0; 52 * 52], used: vec![0; 52 * 52], completions: BTreeMap::new(),
                    weights: s.ranges.iter().map(|v| vec![0; v.len()]).collect(), weight: 0, deals: 0, start: vec![],
                }));
                g.push(a.clone());
                *m = Some((key, a));
            }
            m.as_ref().unwrap().1.clone()
        })
    };
    let acc = Arc::new(acc);
    let (acc2, k3, all3) = (acc.clone(), k.clone(), all.clone());
    let holes: Vec<(u8, u8)> = names.hand.clone();
    let what_static = what();
    let factor: Mutex<Option<(u128, u128)>> = Mutex::new(None);
    let rec = Recorder::start(k.s.n(), table.clone(), names, value,
        Some(Box::new(move |w, hands, board, weight| {
            let a = acc2(w);
            let mut a = a.lock().unwrap();
            let a = &mut *a;
            let k = &k3;
            let bad = |t: &str| -> ! {
                violation(t, json!({"case": what_static, "hands": hands.iter().map(|&h| holes.get(h)).collect::<Vec<_>>(), "board": cards_of_hand(board), "weight": weight}))
            };
            let n = k.s.n();
            if hands.len() != n { bad("a deal does not give every player a hand"); }
            let mut sel = [0u16; 9];
            let mut cards = [0u8; 18];
            let mut used = 0u64;
            let mut unit = 1u128;
            for p in 0..n {
                let i = k.pos[p].get(hands[p]).copied().unwrap_or(NONE);
                if i == NONE { bad("a player is dealt a hand that is not to be dealt"); }
                sel[p] = i;
                let (x, y) = holes[hands[p]];
                (cards[2 * p], cards[2 * p + 1]) = (x, y);
                used |= 1 << x | 1 << y;
                unit *= k.units[p][i as usize] as u128;
            }
            if used.count_ones() as usize != 2 * n { bad("two players are dealt the same card"); }
            let mut b = 0u64;
            for s in 0..4u8 {
                let m = board >> (16 * (3 - s));
                for r in 0..13u8 { b |= (m >> r & 1) << (4 * r + s); }
            }
            if board & !0x1FFF_1FFF_1FFF_1FFF != 0 || b.count_ones() != 5 { bad("the board does not have five cards"); }
            if b & k.s.board != k.s.board { bad("the board does not have the cards given"); }
            if b & (used | k.s.dead) != 0 { bad("the board has a card that is dead or a player's"); }
            {
                // up to one factor for the whole calculation
                if a.deals == 0 {
                    let mut f = factor.lock().unwrap();
                    match *f {
                        None => *f = Some((weight as u128, unit)),
                        Some((w0, u0)) => if weight as u128 * u0 != w0 * unit { bad("a deal does not count with the product of its hands' weights"); },
                    }
                    a.weight = weight as u128;
                    a.start.clear();
                    a.start.push((weight, unit as u64));
                }
                let (w0, u0) = a.start[0];
                if weight == 0 || weight as u128 * u0 as u128 != w0 as u128 * unit { bad("a deal does not count with the product of its hands' weights"); }
            }
            let sel = &sel[..n];
            if a.fresh {
                a.fresh = false;
                let mut g = all3.lock().unwrap();
                g.n_first += 1;
                *g.first.entry(sel.to_vec()).or_default() += 1;
                if g.sample.len() < 60 { g.sample.push((sel.to_vec(), b, weight)); }
            }
            a.deals += 1;
            a.size += 1;
            for (p, &i) in sel.iter().enumerate() {
                a.hands[p][i as usize] += 1;
                a.weights[p][i as usize] += weight as u128;
            }
            a.bins[k.bin(sel)] += 1;
            if k.joint { *a.joint.entry(sel.to_vec()).or_default() += 1; }
            let cards = &cards[..2 * n];
            let mut fresh = [0u8; 5];
            let mut m = 0;
            let mut x = b & !k.s.board;
            while x != 0 { fresh[m] = x.trailing_zeros() as u8; x &= x - 1; m += 1; }
            for i in 0..m {
                a.card[fresh[i] as usize] += 1;
                for j in 0..i { a.pair[fresh[j] as usize * 52 + fresh[i] as usize] += 1; }
                for &c in cards { a.cross[c as usize * 52 + fresh[i] as usize] += 1; }
            }
            for i in 0..cards.len() {
                for j in 0..=i { a.used[cards[j] as usize * 52 + cards[i] as usize] += 1; if i != j { a.used[cards[i] as usize * 52 + cards[j] as usize] += 1; } }
            }
            if k.completions { *a.completions.entry(b).or_default() += 1; }
        })),
        Some(Box::new(move |w, e| {
            if let Event::HandIn { .. } = e {
                let a = acc(w);
                let mut a = a.lock().unwrap();
                if a.size > 0 {
                    let mut g = all2.lock().unwrap();
                    let m = g.moments.entry(a.size).or_default();
                    m.portions += 1;
                    if m.t.is_empty() { m.t = a.hands.iter().map(|v| vec![(0, 0); v.len()]).collect(); }
                    for (x, y) in m.t.iter_mut().flatten().zip(a.hands.iter_mut().flatten()) {
                        x.0 += *y as u64;
                        x.1 += *y as u128 * *y as u128;
                        *y = 0;
                    }
                    for i in 0..BINS {
                        let y = a.bins[i] as u128;
                        m.bins[i].0 += y as u64;
                        m.bins[i].1 += y * y;
                        a.bins[i] = 0;
                    }
                    for (d, y) in std::mem::take(&mut a.joint) {
                        let x = m.joint.entry(d).or_default();
                        x.0 += y as u64;
                        x.1 += y as u128 * y as u128;
                    }
                    a.size = 0;
                }
                a.fresh = true;
            }
        })));
    let token = Arc::new(AtomicBool::new(false));
    let done = call_with(&k.s, Some(1e-12), threads, &token, |n| if n >= portions { token.store(true, std::sync::atomic::Ordering::SeqCst) });
    rec.stop();
    let done = done.unwrap_or_else(|e| violation("a sampled calculation panics", json!({"case": what(), "panic": e})));
    let accs = std::mem::take(&mut *accs.lock().unwrap());
    let all = std::mem::replace(&mut *all.lock().unwrap(), All { moments: BTreeMap::new(), first: BTreeMap::new(), n_first: 0, sample: vec![] });
    Ran { rec, accs, all, done }
}

/// What is reported of each hand is the weight of the deals it was in.
fn judge_totals(k: &Spot, names: &Names, ran: &Ran, what: &(dyn Fn() -> Value + Sync)) {
    let r = match &ran.done.out {
        Ok(r) => r,
        Err(e) => violation("a calculation with a possible deal is refused", json!({"case": what(), "error": e})),
    };
    let x: u128 = r.wins_by_mask.iter().map(|&w| w as u128).sum();
    let n = k.s.n();
    let sum = |p: usize, i: usize| -> u128 { ran.accs.iter().map(|a| a.lock().unwrap().weights[p][i]).sum() };
    let all: u128 = (0..k.s.ranges[0].len()).map(|i| sum(0, i)).sum();
    for p in 0..n {
        for (h, &i) in k.pos[p].iter().enumerate() {
            let want = if i == NONE { 0 } else { sum(p, i as usize) };
            let u = &r.hand_results[p * HANDS + h];
            if u.total as u128 * all != want * x {
                violation("a hand is not counted with the weights of its deals", json!({"case": what(), "player": p, "hand": names.hand[h],
                    "got": [u.total.to_string(), x.to_string()], "expected": [want.to_string(), all.to_string()]}));
            }
        }
    }
}

fn z(d: f64, var: f64, slack: f64) -> f64 {
    let d = (d.abs() - slack).max(0.0);
    if d == 0.0 { 0.0 } else { d / var.sqrt().max(1e-9) }
}

struct Worst {
    hand: f64,
    bin: f64,
    first: f64,
    board: f64,
}

/// The hands drawn anew, at the beginning and after each portion, are drawn alike.
fn judge_first(k: &Spot, m: &Meant, first: &BTreeMap<Vec<u16>, u32>, n_first: u64, worst: &mut Worst, what: &(dyn Fn() -> Value + Sync)) {
    let n = k.s.n();
    let s = &k.s;
    let nf = n_first as f64;
    let mut by_hand: Vec<Vec<u64>> = s.ranges.iter().map(|v| vec![0; v.len()]).collect();
    let mut by_bin = [0u64; BINS];
    for (sel, &c) in first {
        for (p, &i) in sel.iter().enumerate() { by_hand[p][i as usize] += c as u64; }
        by_bin[k.bin(sel)] += c as u64;
    }
    let mut drawn = |c: u64, of: u64, id: Value| {
        let pr = of as f64 / m.deals as f64;
        let z = z(c as f64 - nf * pr, nf * pr * (1.0 - pr) + 1.0, 6.0);
        worst.first = worst.first.max(z);
        if z > Z {
            violation("the hands drawn anew are not drawn alike", json!({"case": what(), "what": id, "times": c, "expected": nf * pr, "draws": nf, "deviations": z}));
        }
    };
    for p in 0..n {
        let mut held = vec![(0u64, 0u64); 52];
        for (i, h) in s.ranges[p].iter().enumerate() {
            drawn(by_hand[p][i], m.with[p][i], json!({"player": p, "hand": [h.0, h.1]}));
            for c in [h.0, h.1] {
                held[c as usize].0 += by_hand[p][i];
                held[c as usize].1 += m.with[p][i];
            }
        }
        for c in 0..52 { drawn(held[c].0, held[c].1, json!({"player": p, "card": c})); }
        // the hands by how many of the others' they leave
        let mut order: Vec<usize> = (0..s.ranges[p].len()).collect();
        order.sort_by_key(|&i| m.with[p][i]);
        for part in [4, 2] {
            let low = &order[..order.len() / part];
            drawn(low.iter().map(|&i| by_hand[p][i]).sum(), low.iter().map(|&i| m.with[p][i]).sum(), json!({"player": p, "hands that fit least": low.len()}));
        }
    }
    for i in 0..BINS { drawn(by_bin[i], m.bins[i], json!({"bin": i})); }
    // all deals of hands, when they are few
    if k.joint {
        let all: f64 = m.joint.iter().map(|d| { let c = first.get(d).copied().unwrap_or(0) as f64; let e = nf / m.deals as f64; (c - e) * (c - e) / e }).sum();
        let df = m.deals as f64 - 1.0;
        let zz = z(all - df, 2.0 * df + m.deals as f64 * m.deals as f64 / nf, 20.0);
        if zz > Z && all > df {
            violation("the hands drawn anew are not drawn alike", json!({"case": what(), "chi square": all, "degrees of freedom": df}));
        }
    }
}

/// Only the hands drawn anew, of many workers.
fn draws(k: &Arc<Spot>, wanted: u64, what: &(dyn Fn() -> Value + Sync)) -> (BTreeMap<Vec<u16>, u32>, u64) {
    thread_local! { static FRESH: std::cell::Cell<bool> = const { std::cell::Cell::new(true) }; }
    let first: Arc<Mutex<(BTreeMap<Vec<u16>, u32>, u64)>> = Default::default();
    for call in 0..wanted / 64 {
        let (k2, f2) = (k.clone(), first.clone());
        let what2 = what();
        pokers::verif::set_sink(Some(Arc::new(move |e| match e {
            Event::Deal { hands, .. } => if FRESH.replace(false) {
                let sel: Vec<u16> = hands.iter().enumerate().map(|(p, &h)| k2.pos[p].get(h).copied().unwrap_or(NONE)).collect();
                if sel.contains(&NONE) { violation("a player is dealt a hand that is not to be dealt", what2.clone()); }
                let mut g = f2.lock().unwrap();
                *g.0.entry(sel).or_default() += 1;
                g.1 += 1;
            },
            Event::HandIn { .. } => FRESH.set(true),
            _ => {}
        })));
        let token = Arc::new(AtomicBool::new(call % 3 != 0));
        let d = call_with(&k.s, Some(1e-12), 64, &token, |n| if n >= 192 { token.store(true, std::sync::atomic::Ordering::SeqCst) });
        pokers::verif::set_sink(None);
        if let Err(e) = d { violation("a sampled calculation panics", json!({"case": what(), "panic": e})); }
        if first.lock().unwrap().1 >= wanted { break; }
    }
    let mut g = first.lock().unwrap();
    (std::mem::take(&mut g.0), g.1)
}

/// The numbers of times are about what is meant.
fn judge_numbers(k: &Spot, names: &Names, m: &Meant, ran: &Ran, worst: &mut Worst, what: &(dyn Fn() -> Value + Sync)) {
    let n = k.s.n();
    let s = &k.s;
    // along the walks: portion by portion
    let (&size, mo) = ran.all.moments.iter().max_by_key(|x| x.0 * x.1.portions).unwrap_or_else(|| tool("nothing was sampled"));
    let b = mo.portions as f64;
    let walked = |t: f64, q: f64, of: u64| -> (f64, f64) {
        let want = b * size as f64 * of as f64 / m.deals as f64;
        let var = (q - t * t / b).max(t.max(want));
        (want, z(t - want, var, 30.0))
    };
    if b >= 200.0 {
        let mut cards = vec![(0u64, 0u64); n * 52];
        for p in 0..n {
            for (i, h) in s.ranges[p].iter().enumerate() {
                let (t, q) = mo.t[p][i];
                let (want, z) = walked(t as f64, q as f64, m.with[p][i]);
                worst.hand = worst.hand.max(z);
                if z > Z {
                    violation("a hand is dealt too often or too seldom", json!({"case": what(), "player": p, "hand": [h.0, h.1], "times": t, "expected": want, "deviations": z}));
                }
                for c in [h.0, h.1] {
                    cards[p * 52 + c as usize].0 += t;
                    cards[p * 52 + c as usize].1 += m.with[p][i];
                }
            }
        }
        for i in 0..BINS {
            let (t, q) = mo.bins[i];
            let (want, z) = walked(t as f64, q as f64, m.bins[i]);
            worst.bin = worst.bin.max(z);
            if z > Z {
                violation("some combinations of hands are dealt too often or too seldom", json!({"case": what(), "bin": i, "times": t, "expected": want, "deviations": z}));
            }
        }
    }
    judge_first(k, m, &ran.all.first, ran.all.n_first, worst, what);
    // boards, given the hands
    let sum = |f: &dyn Fn(&Acc) -> &Vec<u64>, i: usize| -> u64 { ran.accs.iter().map(|a| f(&a.lock().unwrap())[i]).sum() };
    let deals: u64 = ran.accs.iter().map(|a| a.lock().unwrap().deals).sum();
    let rem = s.remaining() as f64;
    let deck = 52.0 - s.used().count_ones() as f64 - 2.0 * n as f64;
    if rem > 0.0 {
        let free: Vec<u8> = cards_of(!s.used() & ((1 << 52) - 1));
        let used: Vec<u64> = (0..52 * 52).map(|i| sum(&|a| &a.used, i)).collect();
        let mut ok = |got: u64, out_of: f64, p: f64, id: Value| {
            let z = z(got as f64 - out_of * p, out_of * p * (1.0 - p) + 1.0, 6.0);
            worst.board = worst.board.max(z);
            if z > Z {
                violation("the board is not completed alike", json!({"case": what(), "what": id, "times": got, "expected": out_of * p, "deviations": z}));
            }
        };
        let p1 = rem / deck;
        let p2 = rem * (rem - 1.0) / (deck * (deck - 1.0));
        for &c in &free {
            let ci = c as usize;
            ok(sum(&|a| &a.card, ci), (deals - used[ci * 53]) as f64, p1, json!({"card": c}));
            for &d in &free {
                let di = d as usize;
                if c < d && rem > 1.0 {
                    let neither = deals + used[ci * 52 + di] - used[ci * 53] - used[di * 53];
                    ok(sum(&|a| &a.pair, ci * 52 + di), neither as f64, p2, json!({"cards": [c, d]}));
                }
                if c != d && used[ci * 53] > 0 {
                    ok(sum(&|a| &a.cross, ci * 52 + di), (used[ci * 53] - used[ci * 52 + di]) as f64, p1, json!({"held": c, "card": d}));
                }
            }
        }
        if k.completions {
            // everyone holds one hand: all completions
            let held: u64 = s.ranges.iter().fold(0, |m, v| m | 1 << v[0].0 | 1 << v[0].1);
            let free: Vec<u8> = cards_of(!(s.used() | held) & ((1 << 52) - 1));
            let mut count: BTreeMap<u64, u64> = BTreeMap::new();
            for a in &ran.accs { for (b, c) in &a.lock().unwrap().completions { *count.entry(*b).or_default() += c; } }
            let mut every = 0;
            subsets(&free, s.remaining(), 0, 0, &mut |x| { every += 1; count.entry(x | s.board).or_insert(0); });
            for (b, c) in &count { ok(*c, deals as f64, 1.0 / every as f64, json!({"board": cards_of(*b)})); }
            if count.len() != every { tool("completions"); }
        }
    }
}

fn subsets(v: &[u8], k: u32, from: usize, m: u64, f: &mut impl FnMut(u64)) {
    if k == 0 { return f(m); }
    for i in from..v.len() { subsets(v, k - 1, i + 1, m | 1 << v[i], f); }
}

/// Ranges of few cards: hands that get into each other's way, for some players more than for others.
fn contested(r: &mut Rng, a: usize) -> Scn {
    loop {
        if a == 5 {
            // one whose hands all have one of three or four cards, one with half of them, too many together to be joined
            let nb = r.below(6);
            let board = mask_of(&r.cards(nb, 0));
            let hot = r.range(3, 5);
            let hot = r.cards(hot, board);
            let free = cards_of(!board & ((1 << 52) - 1));
            let mut every: Vec<(u8, u8)> = free.iter().flat_map(|&i| free.iter().filter(move |&&j| j < i).map(move |&j| (i, j))).collect();
            r.shuffle(&mut every);
            let (with, without): (Vec<_>, Vec<_>) = every.into_iter().partition(|h| hot.contains(&h.0) || hot.contains(&h.1));
            let w = *r.pick(&[1usize, 1, 2]);
            let hand = |h: &(u8, u8), r: &mut Rng| -> Hand3 { (h.0, h.1, if w == 1 { 100 } else { *r.pick(&[1, 2, 3, 50]) }) };
            let k = r.range(100, 130);
            let one: Vec<Hand3> = with[..k].iter().map(|h| hand(h, r)).collect();
            let (x, y) = (r.range(80, with.len()), r.range(80, 130));
            let half: Vec<Hand3> = with[with.len() - x..].iter().chain(&without[..y]).map(|h| hand(h, r)).collect();
            let mut s = Scn { ranges: if r.chance(1, 3) { vec![one, half] } else { vec![half, one] }, board, dead: 0 };
            s.tame();
            if s.acceptance(r) >= 0.15 { return s; }
            continue;
        }
        let nb = r.below(6);
        let board = mask_of(&r.cards(nb, 0));
        let nd = r.below(8);
        let dead = mask_of(&r.cards(nd, board));
        let pool = r.range(15, 24);
        let cards = r.cards(pool, board | dead);
        let every: Vec<(u8, u8)> = (0..pool).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| higher_first(cards[i], cards[j])).collect();
        // the cards some of the hands have to do with
        let hot: BTreeSet<u8> = cards[..r.range(1, 3)].iter().copied().collect();
        let is_hot = |h: &(u8, u8)| hot.contains(&h.0) || hot.contains(&h.1);
        let sizes: Vec<usize> = match a {
            0 => vec![r.range(115, 276), r.range(115, 276)],
            1 => vec![r.range(20, 45), r.range(20, 45), r.range(90, 180)],
            2 => vec![r.range(110, 150), r.range(110, 150), r.range(110, 150)],
            3 => vec![r.range(20, 45), r.range(20, 45), r.range(20, 40), r.range(20, 40)],
            // one whose hands nearly all have a hot card, one with half of them
            _ => vec![r.range(100, 130), r.range(200, 300)],
        };
        let w = *r.pick(&[1usize, 1, 2, 3]);
        let mut ranges = vec![];
        for (p, &k) in sizes.iter().enumerate() {
            let part = *r.pick(&[0usize, 1, 3]);
            let mut v: Vec<Hand3> = vec![];
            let mut pool2 = every.clone();
            if a == 4 {
                // more cards, all of them with a few
                let x: Vec<u8> = cards_of(!(board | dead) & ((1 << 52) - 1));
                pool2 = x.iter().flat_map(|&i| x.iter().filter(move |&&j| j < i).map(move |&j| (i, j))).filter(|h| is_hot(h) || (p == 1 && hot.contains(&(h.0 ^ 1)))).collect();
            }
            r.shuffle(&mut pool2);
            for h in pool2 {
                if v.len() < k && (a == 4 || part == 0 || is_hot(&h) == (p == 0) || r.chance(1, 2 * part)) {
                    v.push((h.0, h.1, match w { 1 => 100, 2 => *r.pick(&[1, 2, 3, 50]), _ => r.range(1, 100) as u8 }));
                }
            }
            ranges.push(v);
        }
        let mut s = Scn { ranges, board, dead };
        s.tame();
        if s.ranges.iter().all(|v| v.len() >= 2) && s.acceptance(r) >= 0.15 { return s; }
    }
}

/// Ranges over the whole deck.
fn wide(r: &mut Rng) -> Scn {
    loop {
        let nb = r.below(6);
        let board = mask_of(&r.cards(nb, 0));
        let nd = r.below(16);
        let dead = mask_of(&r.cards(nd, board));
        let n = *r.pick(&[2usize, 2, 3]);
        let mut every: Vec<(u8, u8)> = (0..52u8).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
        let ranges: Vec<Vec<Hand3>> = (0..n).map(|_| {
            let k = if n == 2 { r.range(120, 1326) } else { r.range(100, 320) };
            let w = r.below(3);
            r.shuffle(&mut every);
            every[..k].iter().map(|h| (h.0, h.1, match w { 0 => 100, 1 => *r.pick(&[1, 2, 3, 50]), _ => r.range(1, 100) as u8 })).collect()
        }).collect();
        let mut s = Scn { ranges, board, dead };
        s.tame();
        if s.acceptance(r) >= 0.15 { return s; }
    }
}

fn digits(mut x: u128) -> Vec<u64> {
    let mut v = vec![];
    while x > 0 { v.push((x % 10000) as u64); x /= 10000; }
    v
}

pub fn run(a: &Args) {
    let names = Names::load(a);
    let table = Arc::new(a.table());
    let cur = Current::new(a);
    let mut r = Rng::new(a.seed, "c14");
    let mut count: BTreeMap<&str, u64> = BTreeMap::new();
    let mut worst = Worst { hand: 0.0, bin: 0.0, first: 0.0, board: 0.0 };
    let (mut deals, mut rows, mut samples) = (0u64, vec![], vec![]);
    let k = a.pick(1, 6);
    let b = a.pick(700, 2500);
    let mut work: Vec<(&str, Scn, u8, usize, bool, bool)> = vec![];
    for i in 0..24 * k {
        // few deals of hands, in a small deck: TLC judges them
        let s = loop {
            let s = crate::exact::small(&mut r, 300_000);
            let m = meant(&Spot::new(s.clone(), &names, false, false, &mut r.clone()));
            if m.deals >= 1 && m.deals <= 120 { break s; }
        };
        work.push(("small decks", s, if i % 3 == 0 { 1 } else { 8 }, a.pick(300, 600), true, false));
    }
    for i in 0..20 * k {
        let s = contested(&mut r, i % 5);
        work.push(("hands that contest the same cards", s, if i % 7 == 0 { 2 } else { 8 }, b, false, false));
    }
    for _ in 0..8 * k {
        let s = wide(&mut r);
        work.push(("wide ranges", s, 8, b, false, false));
    }
    for _ in 0..8 * k {
        // one hand each, short decks: every board
        let n = r.range(2, 9);
        let nb = r.below(3);
        let left = r.range(5 - nb + 1, 12);
        let c = r.cards(52, 0);
        let ranges = (0..n).map(|p| { let h = higher_first(c[2 * p], c[2 * p + 1]); vec![(h.0, h.1, 100)] }).collect();
        let s = Scn { ranges, board: mask_of(&c[18..18 + nb]), dead: mask_of(&c[18 + nb + left..]) | mask_of(&c[2 * n..18]) };
        // the remaining cards must be enough for the calculation's own count: hands and five more
        if 52 - s.dead.count_ones() as usize >= 2 * n + 5 { work.push(("every board", s, 8, b, false, true)); }
    }
    for _ in 0..150 * k {
        // anything: legality and weights
        let s = loop {
            let s = scenario(&mut r, &Shape { players: (2, 9), board: (0, 5), dead: (0, 25), hands: (1, 30), weights: true, cost: (1, u64::MAX) });
            if s.acceptance(&mut r) >= 0.05 { break s; }
        };
        let t = *r.pick(&[1u8, 2, 4]);
        work.push(("scenarios of all kinds", s, t, 4, false, false));
    }
    for (kind, s, threads, portions, joint, completions) in work {
        let what = || json!({"scenario": s.json(), "threads": threads});
        cur.set(&what());
        let spot = Arc::new(Spot::new(s.clone(), &names, joint, completions, &mut r));
        // of the short runs, the results in full: they are those of the deals that were checked
        let value = portions < 100;
        let ran = sample(&spot, &names, &table, threads, portions, value, &what);
        judge_totals(&spot, &names, &ran, &what);
        if let (true, Ok(res)) = (value, &ran.done.out) {
            let tal = ran.rec.sums().tally();
            if let Err(e) = compare_players(&s, res, &tal).and_then(|_| compare_hands(&s, &names, res, &tal)) {
                violation("the results are not those of the deals", json!({"case": what(), "what": e}));
            }
            *count.entry("results recomputed").or_default() += 1;
        }
        deals += ran.accs.iter().map(|a| a.lock().unwrap().deals).sum::<u64>();
        *count.entry(kind).or_default() += 1;
        if portions < 100 { continue; }
        let m = meant(&spot);
        *count.entry("deals of hands meant").or_default() += m.deals;
        judge_numbers(&spot, &names, &m, &ran, &mut worst, &what);
        if joint {
            let (size, mo) = ran.all.moments.iter().max_by_key(|x| x.0 * x.1.portions).unwrap();
            let pos = |d: &Vec<u16>| d.iter().map(|i| i + 1).collect::<Vec<_>>();
            let mut joint: Vec<Value> = mo.joint.iter().map(|(d, (t, q))| json!([pos(d), digits(*t as u128), digits(*q)])).collect();
            for d in &m.joint { if !mo.joint.contains_key(d) { joint.push(json!([pos(d), digits(0), digits(0)])); } }
            let row = json!({"rg": s.ranges, "bd": cards_of(s.board), "dd": cards_of(s.dead),
                "deals": ran.all.sample.iter().map(|(d, b, w)| json!([pos(d), cards_of(*b), w])).collect::<Vec<_>>(),
                "n": ran.all.n_first, "first": ran.all.first.iter().map(|(d, c)| json!([pos(d), c])).collect::<Vec<_>>(),
                "b": mo.portions, "m": size,
                "t": mo.t.iter().map(|v| v.iter().map(|x| digits(x.0 as u128)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "q": mo.t.iter().map(|v| v.iter().map(|x| digits(x.1)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "joint": joint});
            if ran.all.sample.iter().all(|x| x.2 < 1 << 30) {
                if samples.len() < 1 { samples.push(json!({"scenario": s.json(), "first": row["first"]})); }
                rows.push(row);
            }
        }
    }
    // the draws themselves
    for i in 0..8 * k {
        let s = contested(&mut r, [5, 0, 4, 2, 5, 1, 5, 3][i % 8]);
        let what = || json!({"scenario": s.json(), "threads": 64, "only": "hands drawn anew"});
        cur.set(&what());
        let spot = Arc::new(Spot::new(s.clone(), &names, false, false, &mut r));
        let (first, n) = draws(&spot, a.pick(9000, 30_000), &what);
        *count.entry("hands drawn anew").or_default() += n;
        if n > 0 { judge_first(&spot, &meant(&spot), &first, n, &mut worst, &what); }
    }
    std::fs::write(format!("{}/cases.ndjson", a.out), rows.iter().map(|v: &Value| v.to_string() + "\n").collect::<String>()).unwrap();
    say(json!({"done": true, "evaluations": deals, "runs": count, "samples": samples, "small scenarios for TLC": rows.len(),
        "largest deviations": {"hands": worst.hand, "combinations": worst.bin, "drawn anew": worst.first, "boards": worst.board}}));
}
