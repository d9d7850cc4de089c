//! C21: draws of every hole cards on every flop and turn, against the specification's tables.
use crate::table::Abs;
use crate::util::*;
use pokers::{Hand, get_draw};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Draws {
    ranks: Vec<u32>, // by board ranks and other ranks in hand: draws on a flop, on a turn, nut straight
    suit: Vec<u32>,
}
const VBASE: i32 = 14 * 14 * 14 * 14 * 14;

impl Draws {
    pub fn load(a: &Args) -> Draws {
        let mut d = Draws { ranks: vec![u32::MAX; 1 << 26], suit: vec![u32::MAX; 1 << 26] };
        let p = a.opt("--draws").unwrap_or_else(|| tool("--draws"));
        for l in std::fs::read_to_string(p).unwrap().lines() {
            let v: Vec<Value> = serde_json::from_str(l).unwrap();
            let n: Vec<usize> = v[1..].iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let t = if v[0] == "DR" { &mut d.ranks } else { &mut d.suit };
            t[n[0] << 13 | n[1]] = (n[2] | n[3] << 8 | n[4] << 16) as u32;
        }
        d
    }
    /// The specification's DrawByte, composed from its tables.
    #[inline(always)]
    pub fn of(&self, hole: Abs, board: Abs, flop: bool, cat: u8) -> u8 {
        let ranks = |a: Abs| { let s = a.suits; (s | s >> 16 | s >> 32 | s >> 48) as usize & 0x1fff };
        let shift = if flop { 0 } else { 8 };
        let (b, h) = (ranks(board), ranks(hole));
        let mut out = 0;
        if cat < 5 {
            let x = self.ranks[b << 13 | (h & !b)];
            if cat < 4 {
                out |= (x >> shift) as u8;
            } else {
                out |= ((x >> 16) as u8) << 4;
            }
        }
        if cat <= 5 {
            for u in 0..4 {
                let (b, h) = ((board.suits >> (16 * u)) as usize & 0x1fff, (hole.suits >> (16 * u)) as usize & 0x1fff);
                let x = self.suit_at(b, h);
                if cat < 5 {
                    out |= (x >> shift) as u8;
                } else if (b | h).count_ones() >= 5 {
                    out |= ((x >> 16) as u8) << 7;
                }
            }
        }
        out
    }
    #[inline(always)]
    fn suit_at(&self, b: usize, h: usize) -> u32 {
        self.suit[b << 13 | h]
    }
}

pub fn run(a: &Args) {
    let table = a.table();
    let draws = Draws::load(a);
    let active = Active::new(a);
    let calls = AtomicU64::new(0);
    // boards by their two lowest cards
    let mut starts = vec![];
    for x in 0..52u8 {
        for y in x + 1..52 {
            starts.push((x, y));
        }
    }
    let counts = parallel(starts.len(), |k| {
        let (x, y) = starts[k];
        active.on(k, || json!({"boards_with_lowest_cards": [x, y]}), || {
            let mut seen: BTreeMap<u8, u64> = BTreeMap::new();
            let mut n = 0u64;
            let mut board = |b: &[u8]| {
                let mask = mask_of(b);
                let bh = Hand::from_bit_mask(mask);
                let ba = Abs::of(b);
                let flop = b.len() == 3;
                for p in 0..52u8 {
                    if mask >> p & 1 == 1 {
                        continue;
                    }
                    for q in 0..p {
                        if mask >> q & 1 == 1 {
                            continue;
                        }
                        let ha = Abs::of(&[p, q]);
                        let cat = (table.value(&ba.join(ha)) / VBASE - 1) as u8;
                        let want = draws.of(ha, ba, flop, cat);
                        let hole = Hand::from_hole_cards(p, q);
                        let got = guard(|| get_draw(hole, bh, cat));
                        if got.as_ref() != Ok(&want) {
                            violation("the draws shown are not those the cards have", json!({"hole": [p, q], "board": b, "category": cat, "got": format!("{got:?}"), "expected": want}));
                        }
                        *seen.entry(want).or_default() += 1;
                        n += 1;
                    }
                }
            };
            for z in y + 1..52 {
                board(&[x, y, z]);
                for t in z + 1..52 {
                    board(&[x, y, z, t]);
                }
            }
            calls.fetch_add(n, Ordering::Relaxed);
            seen
        })
    });
    let mut all: BTreeMap<u8, u64> = BTreeMap::new();
    for c in counts {
        for (k, v) in c {
            *all.entry(k).or_default() += v;
        }
    }
    // Cases for TLC to judge from the cards themselves.
    let mut r = Rng::new(a.seed, "c21");
    let mut out = vec![];
    let mut per: BTreeMap<u8, usize> = BTreeMap::new();
    for _ in 0..a.pick(400_000, 3_000_000) {
        let n = r.range(3, 4);
        let c = r.cards(n + 2, 0);
        let (h, b) = c.split_at(2);
        let cat = (table.value(&Abs::of(&c)) / VBASE - 1) as u8;
        let got = get_draw(Hand::from_hole_cards(h[0], h[1]), Hand::from_bit_mask(mask_of(b)), cat);
        let e = per.entry(got).or_default();
        if *e < a.pick(60, 400) {
            *e += 1;
            out.push(json!({"h": h, "b": b, "d": got, "k": cat}));
        }
    }
    std::fs::write(format!("{}/trace.ndjson", a.out), out.iter().map(|v| v.to_string() + "\n").collect::<String>()).unwrap();
    say(json!({"done": true, "evaluations": calls.into_inner(), "traces": 22100 + 270725, "draw_bytes_seen": all}));
}
