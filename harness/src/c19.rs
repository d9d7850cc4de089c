//! C19: fast division at the dividends that decide a divisor, for divisors of all kinds and sizes.
use crate::results::limbs;
use crate::util::*;
use pokers::fastdivide::DividerU64;
use serde_json::json;

fn check(d: u64, n: u64, x: &DividerU64) {
    let q = x.divide(n);
    if q != n / d || n / *x != q {
        violation("fast division does not give the quotient", json!({"dividend": n.to_string(), "divisor": d.to_string(), "got": q.to_string(),
            "operator": (n / *x).to_string(), "quotient": (n / d).to_string()}));
    }
}

/// The dividends of a divisor: the two that decide it (spec/FastDivCritical.tla), and others near multiples of it.
fn dividends(d: u64, r: &mut Rng, more: usize, f: &mut impl FnMut(u64)) {
    let last = ((1u128 << 64) / d as u128 * d as u128 - 1) as u64;
    for n in [d, last, last.wrapping_add(1), u64::MAX, u64::MAX - 1, 0, 1, d - 1] {
        f(n);
    }
    let most = u64::MAX / d;
    for _ in 0..more {
        let k = if most == u64::MAX { r.next() } else { r.next() % (most + 1) };
        let k = k >> (r.next() % 64);
        f(k * d);
        f((k * d).wrapping_sub(1));
        f((k * d).saturating_add(d - 1));
        f(r.next());
    }
}

fn divider(d: u64) -> DividerU64 {
    guard(|| DividerU64::divide_by(d)).unwrap_or_else(|e| violation("preparing a divisor panics", json!({"divisor": d.to_string(), "panic": e})))
}

fn one(d: u64, r: &mut Rng, more: usize) -> u64 {
    let x = divider(d);
    let mut n = 0;
    let res = guard(|| {
        dividends(d, r, more, &mut |k| {
            check(d, k, &x);
            n += 1;
        })
    });
    if let Err(e) = res {
        violation("dividing panics", json!({"divisor": d.to_string(), "panic": e}));
    }
    n
}

pub fn run(a: &Args) {
    let active = Active::new(a);
    let small: u64 = a.pick(1 << 24, 1 << 28);
    let jobs = 64u64;
    let counts = parallel(jobs as usize, |k| {
        active.on(k, || json!({"job": k}), || {
            let mut r = Rng::new(a.seed, &format!("c19-{k}"));
            let (mut n, mut ds) = (0, 0);
            // every small divisor: all sizes a combined range can have
            let mut d = 1 + k as u64;
            while d <= small {
                n += one(d, &mut r, 0);
                ds += 1;
                d += jobs;
            }
            // random divisors of every length, powers of two and their neighbours, sums of them, parts of 2^64
            for _ in 0..a.pick(200_000, 6_000_000) {
                let s = r.below(64);
                let d = match r.below(6) {
                    0 => (1u64 << s).wrapping_add(r.below(7) as u64).wrapping_sub(3),
                    1 => (1u64 << s) | (1u64 << r.below(64)),
                    2 => (1u64 << s).wrapping_sub(1u64 << r.below(64)),
                    3 => ((1u128 << 64) / (1 + r.below(100_000)) as u128) as u64 ^ (r.below(4) as u64),
                    4 => u64::MAX - (r.next() >> (1 + r.below(63))),
                    _ => r.next() >> s,
                };
                if d > 0 {
                    n += one(d, &mut r, 3);
                    ds += 1;
                }
            }
            (n, ds)
        })
    });
    // A sample for the specification to judge.
    let mut r = Rng::new(a.seed, "c19-trace");
    let mut out = String::new();
    let mut cases = 0;
    for k in 0..a.pick(600, 6000) {
        let d = if k < 130 { k + 1 } else { (r.next() >> r.below(64)).max(1) };
        let x = divider(d);
        dividends(d, &mut r, 1, &mut |n| {
            if cases % 2 == 0 || k < 130 {
                out += &(json!({"n": limbs(n as u128), "d": limbs(d as u128), "q": limbs(x.divide(n) as u128), "p": limbs((n / x) as u128)}).to_string() + "\n");
            }
            cases += 1;
        });
    }
    std::fs::write(format!("{}/trace.ndjson", a.out), out).unwrap();
    say(json!({"done": true, "evaluations": counts.iter().map(|c| c.0).sum::<u64>(), "divisors": counts.iter().map(|c| c.1).sum::<u64>(),
        "every_divisor_up_to": small}));
}
