//! Scenarios, calls of the exact calculation, and the native executor of spec/Showdown.tla: every deal, one by one,
//! with hand values from the specification's table. TLC judges the executor on small decks (spec/ShowdownJudge.tla).
use crate::table::{Abs, Table};
use crate::util::*;
use pokers::hand_range::Combo;
use pokers::{HandRange, SimulationResults, SimulatorError, exact_equity};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::{Arc, atomic::AtomicBool};

pub const L: u128 = 2520; // a common multiple of 1..9: shares of split pots are whole numbers of 1/L
pub const HANDS: usize = 1326;
pub const CLASSES: usize = 169;

pub type Hand3 = (u8, u8, u8);

#[derive(Clone, Debug, Default)]
pub struct Scn {
    pub ranges: Vec<Vec<Hand3>>,
    pub board: u64,
    pub dead: u64,
}

pub fn higher_first(a: u8, b: u8) -> (u8, u8) {
    if a > b { (a, b) } else { (b, a) }
}

impl Scn {
    pub fn json(&self) -> Value {
        json!({"rg": self.ranges, "bd": cards_of(self.board), "dd": cards_of(self.dead)})
    }
    pub fn n(&self) -> usize {
        self.ranges.len()
    }
    /// The ranges as the calculators take them, in the order reading a text would give.
    pub fn to_ranges(&self) -> Vec<HandRange> {
        self.ranges
            .iter()
            .map(|r| {
                let mut h = HandRange::from_string(String::new());
                h.hands = r.iter().map(|x| { let (a, b) = higher_first(x.0, x.1); Combo(a, b, x.2) }).collect();
                h.hands.sort();
                h
            })
            .collect()
    }
    /// The ranges as a caller may hand them over: as read from texts, or, for one scenario in four, lists made by hand,
    /// in any order and with the cards of a hand in any order.
    pub fn as_given(&self) -> Vec<HandRange> {
        let mut v = self.to_ranges();
        let mix = self.ranges.iter().flatten().fold(self.board ^ self.dead, |h, x| (h ^ (x.0 as u64) << 16 ^ (x.1 as u64) << 8 ^ x.2 as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29));
        if mix % 4 == 0 {
            let mut r = Rng::new(mix, "given");
            for range in &mut v {
                r.shuffle(&mut range.hands);
                for h in &mut range.hands { if r.chance(1, 2) { *h = Combo(h.1, h.0, h.2); } }
            }
        }
        v
    }
    pub fn used(&self) -> u64 {
        self.board | self.dead
    }
    pub fn remaining(&self) -> u32 {
        5 - self.board.count_ones()
    }
    /// About how many hands the native executor has to value.
    pub fn cost(&self) -> u64 {
        let deck = 52 - self.used().count_ones() as u64 - 2 * self.n() as u64;
        let k = self.remaining() as u64;
        let boards = (0..k).fold(1u64, |b, i| b * (deck - i) / (i + 1));
        let mut c = boards.saturating_mul(self.n() as u64);
        for r in &self.ranges {
            let live = r.iter().filter(|h| (1u64 << h.0 | 1u64 << h.1) & self.used() == 0).count() as u64;
            c = c.saturating_mul(live.max(1));
        }
        c
    }
    /// The largest weight a deal can have, in the smallest weights of the same proportions.
    pub fn max_weight(&self) -> u128 {
        self.ranges.iter().map(|r| self.max_of(r)).product()
    }
    fn max_of(&self, r: &[Hand3]) -> u128 {
        let live = r.iter().filter(|h| (1u64 << h.0 | 1u64 << h.1) & self.used() == 0).map(|h| h.2 as u128);
        let g = live.clone().fold(0, |mut a, mut b| { while b != 0 { (a, b) = (b, a % b); } a });
        if g == 0 { 1 } else { live.max().unwrap() / g }
    }
    /// Gives players constant weights until the totals of any calculation made here fit into 64 bits
    /// (known finding C20 weights-overflow).
    pub fn tame(&mut self) {
        let mut m = 1;
        for p in 0..self.n() {
            let x = self.max_of(&self.ranges[p].clone());
            if m * x > 10_000_000_000 {
                let w = self.ranges[p].iter().map(|h| h.2).max().unwrap();
                self.ranges[p].iter_mut().for_each(|h| if h.2 > 0 { h.2 = w });
            } else {
                m *= x;
            }
        }
    }
    /// The same for an exact calculation, whose number of deals is known: totals of up to `most`, as large as 64 bits allow.
    pub fn tame_exact(&mut self, most: u128) {
        let deals = (self.cost() as u128 / self.n() as u128).max(1);
        let limit = (most / deals).max(1);
        let (mut m, mut raw) = (1, 1);
        for p in 0..self.n() {
            let x = self.max_of(&self.ranges[p].clone());
            let mut w = self.ranges[p].iter().map(|h| h.2).max().unwrap();
            let flat = m * x > limit;
            // the executor computes in 128 bits, with the weights as they are
            if raw * w as u128 * deals > 10u128.pow(37) / (m * deals * if flat { 1 } else { x }) { w = 1; }
            if flat || w == 1 { self.ranges[p].iter_mut().for_each(|h| if h.2 > 0 { h.2 = w }); } else { m *= x; }
            raw *= w as u128;
        }
    }
    /// How often hands drawn independently can be dealt together (estimated).
    pub fn acceptance(&self, r: &mut Rng) -> f64 {
        let live: Vec<Vec<u64>> = self.ranges.iter()
            .map(|v| v.iter().filter(|h| h.2 > 0).map(|h| 1u64 << h.0 | 1u64 << h.1).filter(|m| m & self.used() == 0).collect()).collect();
        if live.iter().any(|v| v.is_empty()) {
            return 0.0;
        }
        let mut ok = 0;
        for _ in 0..2000 {
            let mut used = 0;
            ok += live.iter().all(|v| { let m = r.pick(v); let free = used & m == 0; used |= m; free }) as u32;
        }
        ok as f64 / 2000.0
    }
    /// Renames the cards.
    pub fn map(&self, f: impl Fn(u8) -> u8 + Copy) -> Scn {
        Scn {
            ranges: self.ranges.iter().map(|r| r.iter().map(|h| { let (a, b) = higher_first(f(h.0), f(h.1)); (a, b, h.2) }).collect()).collect(),
            board: mask_of(&cards_of(self.board).into_iter().map(f).collect::<Vec<_>>()),
            dead: mask_of(&cards_of(self.dead).into_iter().map(f).collect::<Vec<_>>()),
        }
    }
}

pub fn error_name(e: &SimulatorError) -> &'static str {
    match e {
        SimulatorError::TooManyPlayers => "TooManyPlayers",
        SimulatorError::TooFewPlayers => "TooFewPlayers",
        SimulatorError::TooManyBoardCards => "TooManyBoardCards",
        SimulatorError::TooManyDeadCards => "TooManyDeadCards",
        SimulatorError::ConflictingRanges => "ConflictingRanges",
    }
}

pub type Outcome = Result<SimulationResults, &'static str>;

pub fn exact(s: &Scn, threads: u8) -> Outcome {
    let ranges = s.as_given();
    guard(|| exact_equity(&ranges, s.board, s.dead, threads, Arc::new(AtomicBool::new(false)), |_| {}))
        .unwrap_or_else(|e| violation("an exact calculation panics", json!({"scenario": s.json(), "threads": threads, "panic": e})))
        .map_err(|e| error_name(&e))
}

/// The published order of hands and classes, as spec/StartingHands.tla says (spec/gen/hands.txt).
pub struct Names {
    index: Vec<usize>,
    pub hand: Vec<(u8, u8)>,
    pub class: Vec<usize>,
}
impl Names {
    pub fn load(a: &Args) -> Names {
        let text = std::fs::read_to_string(format!("{}/gen/hands.txt", a.spec)).unwrap_or_else(|e| tool(&e.to_string()));
        let mut n = Names { index: vec![usize::MAX; 52 * 52], hand: vec![], class: vec![] };
        for (i, l) in text.lines().enumerate() {
            let v: Vec<usize> = l.split(' ').map(|x| x.parse().unwrap()).collect();
            n.index[v[0] * 52 + v[1]] = i;
            n.index[v[1] * 52 + v[0]] = i;
            n.hand.push((v[0] as u8, v[1] as u8));
            n.class.push(v[2]);
        }
        n
    }
    pub fn of(&self, a: u8, b: u8) -> usize {
        self.index[a as usize * 52 + b as usize]
    }
}

/// What the deals add up to: weights by set of winners, and by player and hand total, won, tied and L x share of ties.
#[derive(Clone, Default, Debug)]
pub struct Tally {
    pub by_mask: Vec<u128>,
    pub hand: Vec<BTreeMap<usize, [u128; 4]>>,
    pub deals: u64,
    pub selections: u64,
}

impl Tally {
    pub fn new(n: usize) -> Tally {
        Tally { by_mask: vec![0; 1 << n], hand: vec![BTreeMap::new(); n], deals: 0, selections: 0 }
    }
    pub fn total(&self) -> u128 {
        self.by_mask.iter().sum()
    }
    /// Counts deals of these hands (by index) that these players win, of this weight in all.
    pub fn add(&mut self, hands: &[usize], winners: usize, w: u128) {
        self.by_mask[winners] += w;
        let k = winners.count_ones() as u128;
        for (p, &h) in hands.iter().enumerate() {
            let e = self.hand[p].entry(h).or_default();
            e[0] += w;
            if winners >> p & 1 == 1 {
                if k == 1 {
                    e[1] += w;
                } else {
                    e[2] += w;
                    e[3] += w * L / k;
                }
            }
        }
    }
    pub fn wins(&self, p: usize) -> u128 {
        self.by_mask[1 << p]
    }
    pub fn share(&self, p: usize) -> u128 {
        (0..self.by_mask.len()).filter(|m| m >> p & 1 == 1 && m.count_ones() > 1).map(|m| self.by_mask[m] * L / m.count_ones() as u128).sum()
    }
}

fn boards(deck: &[u8], k: u32, from: usize, a: Abs, f: &mut impl FnMut(Abs)) {
    if k == 0 {
        f(a);
        return;
    }
    for i in from..deck.len() {
        boards(deck, k - 1, i + 1, a.add(deck[i]), f);
    }
}

/// Every deal of the scenario.
pub fn tally(s: &Scn, t: &Table, names: &Names) -> Tally {
    let n = s.n();
    let mut out = Tally::new(n);
    let base = Abs::of(&cards_of(s.board));
    let mut sel = vec![0usize; n];
    fn rec(s: &Scn, p: usize, used: u64, sel: &mut Vec<usize>, f: &mut impl FnMut(&[usize], u64)) {
        if p == s.n() {
            f(sel, used);
            return;
        }
        for (i, h) in s.ranges[p].iter().enumerate() {
            let m = 1u64 << h.0 | 1u64 << h.1;
            if h.2 > 0 && used & m == 0 {
                sel[p] = i;
                rec(s, p + 1, used | m, sel, f);
            }
        }
    }
    rec(s, 0, s.used(), &mut sel, &mut |sel, used| {
        let hs: Vec<Abs> = (0..n).map(|p| { let h = s.ranges[p][sel[p]]; Abs::of(&[h.0, h.1]) }).collect();
        let idx: Vec<usize> = (0..n).map(|p| { let h = s.ranges[p][sel[p]]; names.of(h.0, h.1) }).collect();
        let w: u128 = (0..n).map(|p| s.ranges[p][sel[p]].2 as u128).product();
        let deck: Vec<u8> = cards_of(!used & ((1 << 52) - 1));
        let mut count = vec![0u64; 1 << n];
        boards(&deck, s.remaining(), 0, base, &mut |b| {
            let (mut best, mut win) = (-1, 0usize);
            for (p, h) in hs.iter().enumerate() {
                let v = t.value(&b.join(*h));
                if v > best {
                    (best, win) = (v, 1 << p);
                } else if v == best {
                    win |= 1 << p;
                }
            }
            count[win] += 1;
        });
        for (m, &c) in count.iter().enumerate() {
            if c > 0 {
                out.add(&idx, m, c as u128 * w);
                out.deals += c;
            }
        }
        out.selections += 1;
    });
    out
}

fn live(s: &Scn, names: &Names, p: usize) -> BTreeMap<usize, u8> {
    s.ranges[p].iter().filter(|h| (1u64 << h.0 | 1u64 << h.1) & s.used() == 0).map(|h| (names.of(h.0, h.1), h.2)).collect()
}

pub const TOL: f64 = 1e-8;

/// C07: the results of the players, up to a common factor.
pub fn compare_players(s: &Scn, r: &SimulationResults, t: &Tally) -> Result<(), Value> {
    let n = s.n();
    let bad = |what: &str, v: Value| Err(json!({"what": what, "scenario": s.json(), "got": v}));
    if r.wins_by_mask.len() != 1 << n || r.wins.len() != n || r.ties.len() != n || r.equities.len() != n {
        return bad("shape of the results", json!([r.wins_by_mask.len(), r.wins.len(), r.ties.len(), r.equities.len()]));
    }
    let x: u128 = r.wins_by_mask.iter().map(|&w| w as u128).sum();
    let want = t.total();
    if x == 0 {
        return bad("nothing was counted", json!({"wins_by_mask": r.wins_by_mask}));
    }
    let share = |got: u128, of: u128| got * want == of * x;
    for m in 0..1 << n {
        if !share(r.wins_by_mask[m] as u128, t.by_mask[m]) {
            return bad("the weight won by a set of players is not its share of the deals", json!({"winners": m, "got": r.wins_by_mask[m],
                "of": x.to_string(), "expected": t.by_mask[m].to_string(), "expected_of": want.to_string()}));
        }
    }
    for p in 0..n {
        if !share(r.wins[p] as u128, t.wins(p)) {
            return bad("the weight a player won is not its share of the deals", json!({"player": p, "got": r.wins[p], "of": x.to_string(),
                "expected": t.wins(p).to_string(), "expected_of": want.to_string()}));
        }
        let tie = t.share(p) as f64 / (L * want) as f64;
        let got = r.ties[p] / x as f64;
        if !((got - tie).abs() <= TOL) {
            return bad("a player's shares of split pots are wrong", json!({"player": p, "got": r.ties[p], "of": x.to_string(), "share": got, "expected_share": tie}));
        }
        let eq = t.wins(p) as f64 / want as f64 + tie;
        if !((r.equities[p] - eq).abs() <= TOL) {
            return bad("a player's equity is wrong", json!({"player": p, "got": r.equities[p], "expected": eq}));
        }
    }
    Ok(())
}

/// C08: the results of every hand, in the units of the players' results.
pub fn compare_hands(s: &Scn, names: &Names, r: &SimulationResults, t: &Tally) -> Result<u64, Value> {
    let n = s.n();
    let bad = |what: &str, p: usize, h: usize, v: Value| {
        let got = if r.hand_results.len() > p * HANDS + h { format!("{:?}", r.hand_results[p * HANDS + h]) } else { "none".into() };
        Err(json!({"what": what, "scenario": s.json(), "player": p, "hand": names.hand[h], "got": got, "expected": v}))
    };
    if r.hand_results.len() != n * HANDS {
        return bad("shape of the results", 0, 0, json!(null));
    }
    let x: u128 = r.wins_by_mask.iter().map(|&w| w as u128).sum();
    let want = t.total();
    let mut seen = 0;
    for p in 0..n {
        let live = live(s, names, p);
        for h in 0..HANDS {
            let u = &r.hand_results[p * HANDS + h];
            let e = t.hand[p].get(&h).copied().unwrap_or([0; 4]);
            let ev = json!({"total_won_tied_share": e.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "of": want.to_string(), "got_of": x.to_string()});
            match live.get(&h) {
                None => {
                    if u.valid {
                        return bad("a hand that cannot be held is marked valid", p, h, ev);
                    }
                    if u.total != 0 || u.wins != 0 || u.ties != 0 || u.corrected_ties != 0.0 {
                        return bad("a hand that cannot be held has results", p, h, ev);
                    }
                    continue;
                }
                Some(&w) => {
                    if !u.valid {
                        return bad("a hand of the range is not marked valid", p, h, ev);
                    }
                    if u.weight != w as u32 {
                        return bad("a hand does not carry its weight", p, h, json!(w));
                    }
                }
            }
            seen += 1;
            let ok = [u.total, u.wins, u.ties].iter().zip(e).all(|(&g, e)| g as u128 * want == e * x);
            if !ok {
                return bad("a hand's total, wins or ties are not those of the deals it was in", p, h, ev);
            }
            if e[0] == 0 {
                continue;
            }
            let tot = e[0] as f64;
            let sh = e[3] as f64 / L as f64;
            if !((u.corrected_ties / x as f64 - sh / want as f64).abs() <= TOL) || !((u.corrected_ties / u.total as f64 - sh / tot).abs() <= TOL) {
                return bad("a hand's shares of split pots are wrong", p, h, ev);
            }
            let q = [(u.equity, (e[1] as f64 + sh) / tot), (u.winrate, e[1] as f64 / tot), (u.tierate, e[2] as f64 / tot)];
            if q.iter().any(|(g, w)| !((g - w).abs() <= TOL)) {
                return bad("a hand's equity, win rate or tie rate is not the quotient of its counts", p, h, json!({"equity": q[0].1, "winrate": q[1].1, "tierate": q[2].1}));
            }
        }
    }
    Ok(seen)
}

// ------------------------------------------------------------------------------------------------------- scenarios

pub struct Shape {
    pub players: (usize, usize),
    pub board: (usize, usize),
    pub dead: (usize, usize),
    pub hands: (usize, usize),
    pub weights: bool,
    /// cost allowed, in hands valued by the native executor
    pub cost: (u64, u64),
}

fn weight(r: &mut Rng, mode: usize) -> u8 {
    match mode {
        0 => 100,
        1 => 37,
        2 => *r.pick(&[1, 2, 100]),
        3 => *r.pick(&[10, 20, 50]),
        4 => *r.pick(&[0, 100]),
        _ => r.below(101) as u8,
    }
}

/// A random scenario of the shape in which a deal exists (the players hold hands that were once dealt together).
pub fn scenario(r: &mut Rng, sh: &Shape) -> Scn {
    let mut tries = 0;
    loop {
        tries += 1;
        if tries > 20_000 {
            tool("no scenario of this shape");
        }
        let n = r.range(sh.players.0, sh.players.1);
        let nb = r.range(sh.board.0, sh.board.1);
        let room = 52 - 2 * n - 5;
        let nd = if sh.dead.1 == 0 { 0 } else if r.chance(1, 3) { sh.dead.0.min(room) } else { r.range(sh.dead.0.min(room), sh.dead.1.min(room)) };
        // the cards this scenario prefers: few suits, few ranks, or all
        let suits = *r.pick(&[1usize, 2, 4, 4, 4]);
        let low = r.below(13) as u8;
        let width = *r.pick(&[3u8, 5, 8, 13, 13, 13]);
        let s0 = r.below(4) as u8;
        let bias = r.chance(2, 3);
        let liked = |c: u8| ((c & 3) + 4 - s0) % 4 < suits as u8 && ((c >> 2) + 13 - low) % 13 < width;
        let mut used = 0u64;
        let take = |r: &mut Rng, used: u64| -> u8 {
            if bias {
                for _ in 0..6 {
                    let c = r.below(52) as u8;
                    if used >> c & 1 == 0 && liked(c) {
                        return c;
                    }
                }
            }
            loop {
                let c = r.below(52) as u8;
                if used >> c & 1 == 0 {
                    return c;
                }
            }
        };
        let mut draw = |r: &mut Rng, k: usize| -> u64 {
            let mut m = 0;
            for _ in 0..k {
                let c = take(r, used);
                used |= 1 << c;
                m |= 1 << c;
            }
            m
        };
        let board = draw(r, nb);
        let seed: Vec<u64> = (0..n).map(|_| draw(r, 2)).collect();
        let dead = {
            // dead cards have no preference
            let free: Vec<u8> = cards_of(!used & ((1 << 52) - 1));
            let mut f = free;
            r.shuffle(&mut f);
            mask_of(&f[..nd.min(f.len())])
        };
        let wmode = r.below(6);
        let mut ranges = vec![];
        for p in 0..n {
            let k = if r.chance(1, 3) || tries > 200 { sh.hands.0 } else { r.range(sh.hands.0, sh.hands.0 + (sh.hands.1 - sh.hands.0) * (200 - tries.min(200)) / 199) };
            let mut set: BTreeMap<(u8, u8), u8> = BTreeMap::new();
            let c = cards_of(seed[p]);
            let w0 = if sh.weights { weight(r, wmode).max(1) } else { 100 };
            set.insert(higher_first(c[0], c[1]), w0);
            let mut guard = 0;
            while set.len() < k && guard < 20 * k {
                guard += 1;
                // mostly hands that can be held, now and then one that is blocked
                let block = if r.chance(1, 12) { 0 } else { board | dead };
                let a = take(r, block);
                let b = take(r, block | 1 << a);
                let w = if sh.weights { weight(r, wmode) } else { 100 };
                set.entry(higher_first(a, b)).or_insert(w);
            }
            ranges.push(set.into_iter().map(|((a, b), w)| (a, b, w)).collect());
        }
        let mut s = Scn { ranges, board, dead };
        s.tame();
        let c = s.cost();
        if c >= sh.cost.0 && c <= sh.cost.1 {
            return s;
        }
    }
}
