//! The hand values of the specification (spec/HandRanking.tla), as TLC printed them.
//! Nothing in this file knows how poker hands are ranked.

use crate::util::tool;

pub struct Table {
    slots: Vec<(u64, i32)>, // packed rank counts -> value; open addressing
    flush: Vec<i32>,        // rank bit mask -> value, -1 if absent
}

const SIZE: usize = 1 << 19;
const EMPTY: u64 = u64::MAX;

#[inline(always)]
fn h(k: u64) -> usize {
    (k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - 19)) as usize
}

impl Table {
    pub fn load(path: &str) -> Table {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| tool(&format!("{path}: {e}")));
        let mut t = Table { slots: vec![(EMPTY, 0); SIZE], flush: vec![-1; 8192] };
        for l in text.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            let v: i32 = p[2].parse().unwrap();
            let d: Vec<u64> = p[1].bytes().map(|b| (b - b'0') as u64).collect();
            if p[0] == "F" {
                let m = (0..13).filter(|&r| d[r] == 1).fold(0usize, |m, r| m | 1 << r);
                t.flush[m] = v;
            } else {
                let k = (0..13).fold(0u64, |k, r| k + (d[r] << (3 * r)));
                t.insert(k, v);
            }
        }
        t
    }
    fn insert(&mut self, k: u64, v: i32) {
        let mut i = h(k);
        while self.slots[i].0 != EMPTY {
            i = (i + 1) & (SIZE - 1);
        }
        self.slots[i] = (k, v);
    }
    #[inline(always)]
    pub fn ranks(&self, k: u64) -> i32 {
        let mut i = h(k);
        loop {
            let s = self.slots[i];
            if s.0 == k {
                return s.1;
            }
            if s.0 == EMPTY {
                return -1;
            }
            i = (i + 1) & (SIZE - 1);
        }
    }
    #[inline(always)]
    pub fn flush(&self, m: usize) -> i32 {
        self.flush[m]
    }
    /// Value of a concrete hand.
    #[inline(always)]
    pub fn value(&self, a: &Abs) -> i32 {
        let f = a.flush_mask();
        if f != 0 { self.flush(f as usize) } else { self.ranks(a.rc) }
    }
}

/// The abstraction of a set of cards the specification ranks: how many of each rank,
/// and which ranks in each suit.
#[derive(Clone, Copy, Default)]
pub struct Abs {
    pub rc: u64,
    pub suits: u64, // four 16-bit rank masks
}

impl Abs {
    #[inline(always)]
    pub fn add(self, c: u8) -> Abs {
        Abs { rc: self.rc + (1u64 << (3 * (c >> 2))), suits: self.suits | 1u64 << (16 * (c & 3) + (c >> 2)) }
    }
    pub fn of(cards: &[u8]) -> Abs {
        cards.iter().fold(Abs::default(), |a, &c| a.add(c))
    }
    #[inline(always)]
    pub fn join(self, o: Abs) -> Abs {
        Abs { rc: self.rc + o.rc, suits: self.suits | o.suits }
    }
    #[inline(always)]
    pub fn flush_mask(&self) -> u16 {
        let mut s = self.suits;
        for _ in 0..4 {
            let m = s as u16;
            if m.count_ones() >= 5 {
                return m;
            }
            s >>= 16;
        }
        0
    }
}

