//! C18: combining ranges, judged by the specification on small ranges and by its counts on large ones.
use crate::deal::*;
use crate::util::*;
use pokers::Hand;
use pokers::equity_calculator::CombinedRange;
use rand::SeedableRng;
use serde_json::{Value, json};
use std::collections::HashSet;

const LIMIT: usize = 10_000;

fn choices(s: &Scn, players: &[usize], i: usize, used: u64, count: &mut usize) {
    if i == players.len() {
        *count += 1;
        return;
    }
    for h in &s.ranges[players[i]] {
        let m = 1u64 << h.0 | 1u64 << h.1;
        if m & used == 0 {
            choices(s, players, i + 1, used | m, count);
        }
    }
}

/// Hands of few cards or of many, so that ranges conflict often or seldom.
fn ranges(r: &mut Rng, players: usize, hands: (usize, usize), cards: usize) -> Scn {
    let deck = r.cards(cards, 0);
    let v = (0..players)
        .map(|_| {
            let k = r.range(hands.0, hands.1);
            let mut seen = HashSet::new();
            let mut v = vec![];
            for _ in 0..k {
                let (a, b) = (*r.pick(&deck), *r.pick(&deck));
                if a != b && seen.insert(higher_first(a, b)) {
                    let (a, b) = higher_first(a, b);
                    let w = r.below(101) as u8;
                    v.push((a, b, w));
                }
            }
            v.sort();
            v
        })
        .collect();
    Scn { ranges: v, board: 0, dead: 0 }
}

type Rows = Vec<(Vec<Hand3>, u64)>;

fn rows(g: &CombinedRange) -> Rows {
    g.combos().iter().map(|c| (c.hole_cards[..g.player_count()].to_vec(), c.mask)).collect()
}

pub fn run(a: &Args) {
    let active = Active::new(a);
    let mut r = Rng::new(a.seed, "c18");
    let mut cases: Vec<Scn> = vec![];
    for k in 0..a.pick(3000, 40_000) {
        let (p, h, c) = match k % 6 {
            0 => (r.range(1, 9), (0, 4), r.range(2, 12)),
            1 => (r.range(2, 5), (1, 12), r.range(6, 30)),
            2 => (r.range(2, 9), (1, 30), r.range(8, 52)),
            3 => (r.range(2, 9), (1, 3), r.range(4, 52)),
            4 => (r.range(2, 4), (20, 140), r.range(20, 52)),
            _ => (r.range(2, 9), (2, 60), 52),
        };
        cases.push(ranges(&mut r, p, h, c));
    }
    for _ in 0..a.pick(12, 100) {
        // wide ranges
        let n = r.range(2, 9);
        let mut s = ranges(&mut r, n, (200, 1800), 52);
        let p = r.below(s.n());
        s.ranges[p] = (0..52u8).flat_map(|x| (0..x).map(move |y| (x, y, 100))).collect();
        cases.push(s);
    }
    // just below and just above the limit: disjoint products of given sizes
    for (x, y) in [(99, 101), (100, 100), (101, 99), (100, 99), (98, 102), (1, 9999 / 9), (9, 1111), (10, 999), (10, 1000)] {
        let all: Vec<Hand3> = (0..52u8).flat_map(|x| (0..x).map(move |y| (x, y, 7))).collect();
        // hands of the low cards for one, of the high cards for the other
        let lo: Vec<Hand3> = all.iter().filter(|h| h.0 < 16).copied().take(x).collect();
        let hi: Vec<Hand3> = all.iter().filter(|h| h.1 >= 16).copied().take(y).collect();
        if lo.len() == x && hi.len() == y {
            cases.push(Scn { ranges: vec![lo.clone(), hi.clone()], board: 0, dead: 0 });
            cases.push(Scn { ranges: vec![hi, vec![(1, 0, 3)], lo], board: 0, dead: 0 });
        }
    }
    let what = "combining ranges does not keep exactly the compatible combinations";
    let res = parallel(cases.len(), |k| {
        let s = &cases[k];
        active.on(k, || json!({"ranges": s.ranges}), || {
            let bad = |why: &str, v: Value| -> ! { violation(what, json!({"why": why, "ranges": s.ranges, "got": v})) };
            let hr = s.to_ranges();
            let mut gs = guard(|| CombinedRange::from_ranges(&hr)).unwrap_or_else(|e| bad("panic", json!(e)));
            let mut seen = vec![0; s.n()];
            let mut all = 0;
            for g in &gs {
                let players = &g.players()[..g.player_count()];
                if players.is_empty() || players.iter().any(|&p| p >= s.n()) {
                    bad("a group of players that are none", json!(players));
                }
                players.iter().for_each(|&p| seen[p] += 1);
                if g.size() != g.combos().len() {
                    bad("the size of a group is not its number of combinations", json!([g.size(), g.combos().len()]));
                }
                let sets: Vec<HashSet<Hand3>> = players.iter().map(|&p| s.ranges[p].iter().copied().collect()).collect();
                let mut distinct = HashSet::new();
                for c in g.combos() {
                    let hc = &c.hole_cards[..players.len()];
                    let mut used = 0;
                    for (i, h) in hc.iter().enumerate() {
                        let m = 1u64.checked_shl(h.0 as u32).unwrap_or(0) | 1u64.checked_shl(h.1 as u32).unwrap_or(0);
                        if !sets[i].contains(h) {
                            bad("a combination has a hand that is not of its player's range", json!({"players": players, "hands": hc}));
                        }
                        if used & m != 0 {
                            bad("the hands of a combination share a card", json!({"players": players, "hands": hc}));
                        }
                        used |= m;
                        if c.hands[i] != Hand::from_hole_cards(h.0, h.1) {
                            bad("the evaluated hand is not the one in its place", json!({"players": players, "hands": hc}));
                        }
                    }
                    if c.mask != used {
                        bad("the set of cards of a combination is wrong", json!({"players": players, "hands": hc, "mask": cards_of(c.mask)}));
                    }
                    if !distinct.insert(hc.to_vec()) {
                        bad("a combination is there twice", json!({"players": players, "hands": hc}));
                    }
                }
                let mut n = 0;
                choices(s, players, 0, 0, &mut n);
                if n != distinct.len() {
                    bad("combinations are missing", json!({"players": players, "there": distinct.len(), "possible": n}));
                }
                all += n;
            }
            if seen.iter().any(|&x| x != 1) {
                bad("a player is not in exactly one group", json!(seen));
            }
            for i in 0..gs.len() {
                for j in 0..i {
                    let mut n = 0;
                    'count: for x in gs[i].combos() {
                        for y in gs[j].combos() {
                            n += (x.mask & y.mask == 0) as usize;
                            if n >= LIMIT {
                                break 'count;
                            }
                        }
                    }
                    if n < LIMIT {
                        bad("groups that could be joined are not", json!({"players": [gs[i].players(), gs[j].players()], "combinations": n}));
                    }
                }
            }
            // a case for TLC, if it is small
            let trace = (all <= 250 && k % 2 == 0).then(|| {
                json!({"rg": s.ranges, "groups": gs.iter().map(|g| json!({"players": g.players()[..g.player_count()].iter().map(|p| p + 1).collect::<Vec<_>>(),
                    "combos": rows(g).iter().map(|r| &r.0).collect::<Vec<_>>(), "masks": rows(g).iter().map(|r| cards_of(r.1)).collect::<Vec<_>>()})).collect::<Vec<_>>()})
            });
            // shuffling
            let mut rng = rand::rngs::SmallRng::seed_from_u64(k as u64);
            for g in gs.iter_mut() {
                let mut before = rows(g);
                let players = g.players()[..g.player_count()].to_vec();
                g.shuffle(&mut rng);
                let mut after = rows(g);
                before.sort();
                after.sort();
                let hands_ok = g.combos().iter().all(|c| (0..players.len()).all(|i| c.hands[i] == Hand::from_hole_cards(c.hole_cards[i].0, c.hole_cards[i].1)));
                if before != after || g.players()[..g.player_count()] != players || !hands_ok || g.size() != after.len() {
                    bad("shuffling changes more than the order", json!({"players": players}));
                }
            }
            (all, trace, gs.len())
        })
    });
    let mut out = String::new();
    let mut n = 0;
    let mut groups = [0u64; 10];
    for (x, t, g) in res {
        n += x;
        groups[g.min(9)] += 1;
        if let Some(t) = t {
            out += &(t.to_string() + "\n");
        }
    }
    std::fs::write(format!("{}/trace.ndjson", a.out), out).unwrap();
    say(json!({"done": true, "evaluations": n, "cases": cases.len(), "cases_by_number_of_groups": groups}));
}
