//! C09, C13, C16: the exact calculation under the schedules of spec/EnumSchedules.tla and others, with and without
//! the token being set, and what it reports on the way.
use crate::deal::*;
use crate::record::*;
use crate::table::Table;
use crate::util::*;
use pokers::SimulationResults;
use pokers::verif::Event;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// Every whole number of two results is the same, and the others up to rounding.
pub fn same(a: &SimulationResults, b: &SimulationResults) -> Result<(), String> {
    let close = |x: f64, y: f64| x == y || (x - y).abs() <= 1e-9 * x.abs().max(y.abs()).max(1.0);
    if a.wins != b.wins { return Err(format!("wins {:?} {:?}", a.wins, b.wins)); }
    if a.wins_by_mask != b.wins_by_mask { return Err("wins by set of winners".into()); }
    if a.eval_count != b.eval_count { return Err(format!("hands evaluated {} {}", a.eval_count, b.eval_count)); }
    for (x, y) in a.ties.iter().zip(&b.ties).chain(a.equities.iter().zip(&b.equities)) {
        if !close(*x, *y) { return Err(format!("ties or equities {x} {y}")); }
    }
    for (name, x, y) in [("hand", &a.hand_results, &b.hand_results), ("class", &a.combo_results, &b.combo_results),
        ("category", &a.board_results, &b.board_results), ("draw", &a.board_draws, &b.board_draws)] {
        if x.len() != y.len() { return Err(format!("number of {name} results")); }
        for (i, (u, v)) in x.iter().zip(y).enumerate() {
            if u.wins != v.wins || u.ties != v.ties || u.total != v.total || u.weight != v.weight || u.rank != v.rank || u.draw != v.draw || u.valid != v.valid
                || !close(u.corrected_ties, v.corrected_ties) || !close(u.equity, v.equity) || !close(u.winrate, v.winrate) || !close(u.tierate, v.tierate) {
                return Err(format!("{name} result {i}: {u:?} {v:?}"));
            }
        }
    }
    Ok(())
}

/// The events as the specification judges them.
fn trace(log: &[Rec], workers: usize, heard: &[u8]) -> Option<Value> {
    let mut ev = vec![];
    let mut total = 0;
    for r in log {
        match r {
            Rec::Reserved(w, s, e, t) => { total = *t; ev.push(json!(["R", w + 1, s, e])) }
            Rec::Examined(w, p) => ev.push(json!(["X", w + 1, p])),
            Rec::Locked(w) => ev.push(json!(["L", w + 1])),
            Rec::HandIn { w, last, progress, .. } => ev.push(json!(["H", w + 1, last, (*progress).map(|x| x as i64).unwrap_or(-1)])),
            Rec::End(w) => ev.push(json!(["E", w + 1])),
            Rec::Token(set) => ev.push(json!([if *set { "U" } else { "T" }, 0])),
            _ => {}
        }
    }
    (total > 0 && workers > 0).then(|| json!({"workers": workers, "total": total, "ev": ev, "heard": heard}))
}

/// The same, for runs too long for TLC: every combination is examined once, by the worker that took it up.
fn account(log: &[Rec], workers: usize, cancelled: bool) -> Result<u64, String> {
    let total = log.iter().find_map(|r| if let Rec::Reserved(_, _, _, t) = r { Some(*t) } else { None }).ok_or("nothing was taken up")?;
    let mut pos = 0;
    let mut seen = vec![false; total as usize];
    let mut todo = vec![(0u64, 0u64); workers]; // taken; number examined
    let mut done = vec![false; workers];
    let mut n = 0;
    for r in log {
        match r {
            Rec::Reserved(w, s, e, t) => {
                let (a, b) = todo[*w];
                if *t != total || *s != pos || e < s || *e > total || (e == s && pos != total) || done[*w] { return Err(format!("{r:?} at position {pos}")); }
                if (a..b).any(|p| !seen[p as usize]) { return Err(format!("worker {w} left out a combination of {a}..{b}")); }
                pos = *e;
                todo[*w] = (*s, *e);
            }
            Rec::Examined(w, p) => {
                let (a, b) = todo[*w];
                if *p < a || *p >= b || seen[*p as usize] { return Err(format!("{r:?} is not one of the worker's {a}..{b}, or was examined before")); }
                seen[*p as usize] = true;
                n += 1;
            }
            Rec::HandIn { w, last: true, .. } => done[*w] = true,
            Rec::End(w) => if !done[*w] { return Err(format!("worker {w} ends without handing in")); },
            _ => {}
        }
    }
    if done.iter().any(|d| !d) { return Err("a worker did not end".into()); }
    if !cancelled && n != total { return Err(format!("{n} of {total} combinations examined")); }
    Ok(n)
}

/// The reports of an exact calculation are the share of the combinations taken up.
fn progress(log: &[Rec], heard: &[u8], cancelled: bool) -> Result<(), String> {
    let (mut pos, mut from, mut total) = (0, 0, 0);
    for r in log {
        match r {
            Rec::Reserved(_, _, e, t) => (pos, total) = (*e, *t),
            Rec::Locked(_) => from = pos,
            Rec::HandIn { progress, .. } => {
                let p = progress.ok_or("nothing is reported")?;
                let (lo, hi) = (100.0 * from as f64 / total as f64 - 1.0, 100.0 * pos as f64 / total as f64 + 1.0);
                if (p as f64) < lo || (p as f64) > hi { return Err(format!("{p} reported at positions {from}..{pos} of {total}")); }
            }
            _ => {}
        }
    }
    if heard.windows(2).any(|w| w[0] > w[1]) { return Err(format!("progress decreases: {heard:?}")); }
    if (!cancelled || pos == total) && heard.last() != Some(&100) { return Err(format!("the last report is not 100: {heard:?}")); }
    Ok(())
}

pub struct Env {
    pub table: Arc<Table>,
    pub names: Names,
}

fn set_token(rec: &Recorder, token: &AtomicBool) {
    rec.note(Rec::Token(false));
    token.store(true, Ordering::SeqCst);
    rec.token_set.store(true, Ordering::SeqCst);
    rec.note(Rec::Token(true));
}

static DIVERGED: AtomicU64 = AtomicU64::new(0);

/// Runs the calculation with its workers stepping as told.
pub fn play(env: &Env, s: &Scn, threads: u8, steps: &[(String, usize)], what: &(dyn Fn() -> Value + Sync)) -> (Ran, usize) {
    let gates = Arc::new(Gates::default());
    let g2 = gates.clone();
    let rec = Recorder::start(s.n(), env.table.clone(), &env.names, true, None, Some(Box::new(move |w, e| match (place(e), e) {
        (Some(p), _) => g2.pass(w, p),
        (_, Event::Reserved { .. } | Event::HandIn { .. }) => g2.did(w),
        _ => {}
    })));
    let token = Arc::new(AtomicBool::new(false));
    let over = AtomicBool::new(false);
    let mut followed = 0usize;
    let done = std::thread::scope(|sc| {
        let followed = &mut followed;
        let (gates, rec, token, over) = (&gates, &rec, &token, &over);
        sc.spawn(move || {
            let mut tried = vec![false; 256];
            // code whose workers do not stop at these places is not waited for again and again
            let patience = if DIVERGED.load(Ordering::SeqCst) < 4 { 5000 } else { 50 };
            gates.all_there(threads as usize, patience);
            for (what, w) in steps {
                let w = w.wrapping_sub(1);
                let ok = match what.as_str() {
                    "wantreserve" => gates.wait(w, Place::WantReserve, patience),
                    "wanthandin" => gates.wait(w, Place::WantHandIn, patience),
                    "startreserve" | "starthandin" => {
                        if !tried[w] { gates.release(w); }
                        tried[w] = false;
                        gates.wait(w, if what == "startreserve" { Place::Reserving } else { Place::HandingIn }, patience)
                    }
                    "endreserve" | "endhandin" => gates.finish(w, patience),
                    "try" => {
                        if !tried[w] {
                            let p = gates.at(w);
                            gates.release(w);
                            tried[w] = true;
                            // a worker that gets in although another one is there shows what it does there
                            gates.wait(w, if p == Some(Place::WantReserve) { Place::Reserving } else { Place::HandingIn }, 3);
                        }
                        true
                    }
                    _ => { set_token(rec, token); true }
                };
                if !ok { DIVERGED.fetch_add(1, Ordering::SeqCst); }
                if !ok || over.load(Ordering::SeqCst) { break; }
                *followed += 1;
            }
            gates.free();
            // a deadlock is no answer
            let t = Instant::now();
            while !over.load(Ordering::SeqCst) {
                if t.elapsed() > Duration::from_secs(90) { violation("an exact calculation does not end", what()); }
                std::thread::sleep(Duration::from_millis(1));
            }
        });
        let d = call_with(s, None, threads, token, |_| {});
        over.store(true, Ordering::SeqCst);
        gates.free();
        d.unwrap_or_else(|e| violation("an exact calculation panics", json!({"case": what(), "panic": e})))
    });
    rec.stop();
    let cancelled = rec.log().iter().any(|r| matches!(r, Rec::Token(_)));
    (Ran { done, rec, cancelled, micros: 0 }, followed)
}

/// A scenario with so many combinations of hands, in one group, of which as many as batch are taken up at once.
fn for_schedule(r: &mut Rng, total: usize, batch: usize) -> Scn {
    let nd = match batch { 1 => r.below(5), 2 => 5 + r.below(2), _ => 8 };
    let n = if r.chance(1, 4) { 3 } else { 2 };
    let nd = if n == 3 { nd.saturating_sub(2) } else { nd };
    let mut d = r.cards(52, 0).into_iter();
    let mut take = |k: usize| -> Vec<u8> { (0..k).map(|_| d.next().unwrap()).collect() };
    let dead = mask_of(&take(nd));
    let a = if total % 3 == 0 { 3 } else if total % 2 == 0 { 2 } else { 1 };
    let mut sizes = vec![total / a, a];
    if n == 3 { sizes.push(1); }
    let same = r.chance(1, 2);
    let ranges: Vec<Vec<Hand3>> = sizes.iter().map(|&k| (0..k).map(|_| { let c = take(2); let (x, y) = higher_first(c[0], c[1]); (x, y, if same { 100 } else { 1 + r.below(100) as u8 }) }).collect()).collect();
    let mut s = Scn { ranges, board: 0, dead };
    r.shuffle(&mut s.ranges);
    s.tame();
    s
}

fn env(a: &Args) -> Env {
    Env { table: Arc::new(a.table()), names: Names::load(a) }
}

struct Sched { total: usize, batch: usize, workers: usize, steps: Vec<(String, usize)> }
fn schedules(a: &Args) -> Vec<Sched> {
    let p = a.opt("--schedules").unwrap_or_else(|| tool("no schedules"));
    std::fs::read_to_string(p).unwrap_or_else(|e| tool(&e.to_string())).lines().map(|l| {
        let v: Value = serde_json::from_str(l).unwrap_or_else(|e| tool(&e.to_string()));
        Sched {
            total: v["total"].as_u64().unwrap() as usize,
            batch: v["batch"].as_u64().unwrap() as usize,
            workers: v["workers"].as_u64().unwrap() as usize,
            steps: v["steps"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_u64().unwrap() as usize)).collect(),
        }
    }).collect()
}

fn ok_result<'a>(d: &'a Done, what: &(dyn Fn() -> Value + Sync)) -> &'a SimulationResults {
    match &d.out {
        Ok(r) => r,
        Err(e) => violation("a calculation with a possible deal is refused", json!({"case": what(), "error": e})),
    }
}

/// How much a worker may still evaluate once the token is set: generously, two portions of ten thousand hands and
/// twice one combination of hole cards with all its boards.
fn allowance(s: &Scn) -> u64 {
    let deck = 52 - s.used().count_ones() as u64 - 2 * s.n() as u64;
    let k = s.remaining() as u64;
    40_000 + 2 * (0..k).fold(1u64, |b, i| b * (deck - i) / (i + 1))
}

pub fn run(a: &Args) {
    let env = env(a);
    let cur = Current::new(a);
    let id = a.sub.clone();
    let mut traces: Vec<Value> = vec![];
    let mut count: BTreeMap<&str, u64> = BTreeMap::new();
    let mut r = Rng::new(a.seed, &id);
    let mut deals = 0;
    let mut samples = vec![];
    // The schedules of the specification, on real threads.
    for (k, sc) in schedules(a).iter().enumerate() {
        let s = for_schedule(&mut r, sc.total, sc.batch);
        let what = || json!({"schedule": k, "steps": sc.steps, "threads": sc.workers, "scenario": s.json()});
        cur.set(&what());
        let (ran, followed) = play(&env, &s, sc.workers as u8, &sc.steps, &what);
        *count.entry("schedules").or_default() += 1;
        *count.entry("schedules followed to the end").or_default() += (followed == sc.steps.len()) as u64;
        *count.entry("steps").or_default() += sc.steps.len() as u64;
        *count.entry("steps followed").or_default() += followed as u64;
        deals += ran.rec.sums().deals;
        judge_run(&id, &env, &s, &ran, &what);
        if let Some(t) = trace(&ran.rec.log(), ran.workers(), &ran.done.heard) {
            if samples.len() < 2 { samples.push(t.clone()); }
            traces.push(t);
        }
    }
    match id.as_str() {
        "c09" => c09(a, &env, &cur, &mut r, &mut traces, &mut count, &mut deals),
        "c13" => c13(a, &env, &cur, &mut r, &mut count, &mut deals),
        _ => c16(a, &env, &cur, &mut r, &mut count, &mut deals),
    }
    std::fs::write(format!("{}/trace.ndjson", a.out), traces.iter().map(|v| v.to_string() + "\n").collect::<String>()).unwrap();
    say(json!({"done": true, "evaluations": deals, "runs": count, "samples": samples}));
}

/// The token is as the caller left it: set if it was set while the workers worked, not if it never was.
fn judge_token(log: &[Rec], token: bool, what: &(dyn Fn() -> Value + Sync)) {
    let ever = log.iter().any(|r| matches!(r, Rec::Token(false)));
    let end = log.iter().rposition(|r| matches!(r, Rec::End(_))).unwrap_or(0);
    let during = log[..end].iter().any(|r| matches!(r, Rec::Token(true)));
    if (token && !ever) || (!token && during) {
        violation("a calculation changes the caller's token", json!({"case": what(), "token": token}));
    }
}

/// Once the token is set a worker goes on for at most one portion.
fn judge_late(ran: &Ran, allowed: u64, what: &(dyn Fn() -> Value + Sync)) {
    let (late, begun) = ran.rec.late();
    if late > allowed || begun > 1 {
        violation("a worker goes on after the token was set", json!({"case": what(), "hands_evaluated_since": late, "allowed": allowed, "portions_begun_since": begun}));
    }
}

/// What a run has to be like, cancelled or not.
fn judge_run(id: &str, env: &Env, s: &Scn, ran: &Ran, what: &(dyn Fn() -> Value + Sync)) {
    if id == "c16" {
        judge_heard(ran, true, what);
        return;
    }
    judge_sums(env, s, ran, what);
    let log = ran.rec.log();
    if let Err(e) = account(&log, ran.workers(), ran.cancelled) {
        violation("the workers do not do their work exactly once", json!({"case": what(), "what": e}));
    }
    if id == "c13" {
        judge_token(&log, ran.done.token, what);
        judge_late(ran, allowance(s), what);
    }
    if !ran.cancelled {
        let one = exact(s, 1).unwrap_or_else(|e| violation("a calculation with a possible deal is refused", json!({"case": what(), "error": e})));
        if let Err(e) = ran.done.out.as_ref().map_err(|e| e.to_string()).and_then(|r| same(&one, r)) {
            violation(if id == "c13" { "a calculation that was not cancelled is cut short" } else { "the result depends on threads or their schedule" }, json!({"case": what(), "what": e}));
        }
    }
}

/// A run with random pauses at the places.
fn jitter(env: &Env, s: &Scn, threads: u8, seed: u64, most: u64, value: bool) -> (Result<Done, String>, Arc<Recorder>) {
    let c = AtomicU64::new(seed);
    let rec = Recorder::start(s.n(), env.table.clone(), &env.names, value, None, Some(Box::new(move |_, e| {
        if place(e).is_some() {
            let mut x = c.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x ^= x >> 27;
            match x % 8 {
                0 => std::thread::sleep(Duration::from_micros((x >> 8) % (most + 1))),
                1 | 2 => std::thread::yield_now(),
                _ => {}
            }
        }
    })));
    let token = Arc::new(AtomicBool::new(false));
    let d = call_with(s, None, threads, &token, |_| {});
    rec.stop();
    (d, rec)
}

/// Wide ranges, of which the groups conflict.
fn wide(r: &mut Rng, nb: usize, k: (usize, usize), n: usize) -> Scn {
    let mut s = scenario(r, &Shape { players: (n, n), board: (nb, nb), dead: (0, 3), hands: k, weights: true, cost: (1, u64::MAX) });
    for p in 0..s.n() {
        let used: Vec<(u8, u8)> = s.ranges[p].iter().map(|h| (h.0, h.1)).collect();
        let want = r.range(k.0, k.1);
        let mut seen: std::collections::BTreeSet<(u8, u8)> = used.into_iter().collect();
        while s.ranges[p].len() < want {
            let c = r.cards(2, s.used());
            let h = higher_first(c[0], c[1]);
            if seen.insert(h) {
                let w = s.ranges[p][r.below(s.ranges[p].len())].2;
                s.ranges[p].push((h.0, h.1, w));
            }
        }
    }
    s.tame();
    s
}

fn c09(a: &Args, env: &Env, cur: &Current, r: &mut Rng, _traces: &mut Vec<Value>, count: &mut BTreeMap<&str, u64>, deals: &mut u64) {
    // Scenarios of all kinds with every number of threads, workers pausing at random.
    let k = a.pick(1, 8);
    let mut work: Vec<(Scn, bool)> = vec![];
    for (_, c, sh) in crate::exact::shapes(a) {
        for _ in 0..(c * k / 12).max(2) {
            work.push((scenario(r, &sh), false));
        }
    }
    for _ in 0..2 * k { work.push((wide(r, 4, (120, 200), 2), true)); }
    for _ in 0..2 * k { work.push((wide(r, 3, (105, 130), 2), true)); }
    for _ in 0..2 * k { work.push((wide(r, 5, (250, 500), 2), true)); }
    for _ in 0..2 * k { work.push((wide(r, 5, (24, 40), 3), true)); }
    for (s, large) in &work {
        cur.set(&json!({"scenario": s.json()}));
        let one = match exact(s, 1) {
            Ok(x) => x,
            Err("ConflictingRanges") => continue,
            Err(e) => violation("a calculation with a possible deal is refused", json!({"scenario": s.json(), "error": e})),
        };
        let mut ts = vec![*r.pick(&[2u8, 3, 4]), *r.pick(&[5u8, 8, 16])];
        if r.chance(1, 6) { ts.push(*r.pick(&[33u8, 64, 200, 255])); }
        for &t in &ts {
            let seed = r.next();
            let what = || json!({"scenario": s.json(), "threads": t, "jitter": seed});
            let (d, rec) = jitter(env, s, t, seed, 400, false);
            let d = d.unwrap_or_else(|e| violation("an exact calculation panics", json!({"case": what(), "panic": e})));
            let res = ok_result(&d, &what);
            let log = rec.log();
            let workers = rec.workers.lock().unwrap().len();
            if let Err(e) = account(&log, workers, false) {
                violation("the workers do not do their work exactly once", json!({"case": what(), "what": e}));
            }
            if let Err(e) = same(&one, res) {
                violation("the result depends on threads or their schedule", json!({"case": what(), "what": e}));
            }
            *deals += rec.sums().deals;
            *count.entry(if *large { "groups that conflict" } else { "scenarios" }).or_default() += 1;
        }
    }
}


// --------------------------------------------------------------------------------------------- cancelling, progress

/// When the token is set.
#[derive(Clone, Copy, Debug)]
enum When {
    Never,
    Before,
    /// in the callback, at this report
    Heard(usize),
    /// by another thread, after so many microseconds
    After(u64),
    /// by a worker, at this deal
    Deal(u64),
    /// by a worker, at this combination
    Looked(u64),
}

struct Setter {
    token: Arc<AtomicBool>,
    rec: std::sync::OnceLock<std::sync::Weak<Recorder>>,
    once: AtomicBool,
}
impl Setter {
    fn set(&self) {
        if !self.once.swap(true, Ordering::SeqCst) {
            if let Some(r) = self.rec.get().and_then(|w| w.upgrade()) {
                set_token(&r, &self.token);
            }
        }
    }
}

pub struct Ran {
    done: Done,
    rec: Arc<Recorder>,
    cancelled: bool,
    /// from the setting of the token to the end of the call
    micros: u64,
}
impl Ran {
    fn workers(&self) -> usize {
        self.rec.workers.lock().unwrap().len()
    }
}

fn run_with(env: &Env, s: &Scn, kind: Option<f64>, threads: u8, when: When, slow: bool, what: &(dyn Fn() -> Value + Sync)) -> Ran {
    run_brief(env, s, kind, threads, when, slow, false, what)
}

/// What a worker may still look at once the token is set, generously.
const PATIENCE: u64 = 30_000_000;

fn run_brief(env: &Env, s: &Scn, kind: Option<f64>, threads: u8, when: When, slow: bool, brief: bool, what: &(dyn Fn() -> Value + Sync)) -> Ran {
    let set = Arc::new(Setter { token: Arc::new(AtomicBool::new(false)), rec: Default::default(), once: AtomicBool::new(false) });
    let on_deal: Option<OnDeal> = match when {
        When::Deal(n) => {
            let (c, set) = (AtomicU64::new(0), set.clone());
            Some(Box::new(move |_, _, _, _| if c.fetch_add(1, Ordering::Relaxed) == n { set.set() }))
        }
        _ => None,
    };
    let on_event: Option<OnEvent> = match when {
        When::Looked(n) => {
            let (c, set) = (AtomicU64::new(0), set.clone());
            Some(Box::new(move |_, e| if matches!(e, Event::Examined { .. }) && c.fetch_add(1, Ordering::Relaxed) == n { set.set() }))
        }
        _ => None,
    };
    let rec = Recorder::start(s.n(), env.table.clone(), &env.names, true, on_deal, on_event);
    rec.brief.store(brief, Ordering::SeqCst);
    set.rec.set(Arc::downgrade(&rec)).ok();
    if matches!(when, When::Before) { set.set(); }
    let over = AtomicBool::new(false);
    let since = AtomicU64::new(u64::MAX);
    let t0 = Instant::now();
    let done = std::thread::scope(|sc| {
        let (over, set, since, rec) = (&over, &set, &since, &rec);
        sc.spawn(move || {
            while !over.load(Ordering::SeqCst) {
                let t = t0.elapsed();
                if let When::After(us) = when {
                    if t.as_micros() as u64 >= us { set.set(); }
                }
                if set.once.load(Ordering::SeqCst) && since.load(Ordering::SeqCst) == u64::MAX { since.store(t.as_micros() as u64, Ordering::SeqCst); }
                if t > Duration::from_secs(90) { violation("a calculation does not end", what()); }
                if brief {
                    let n = rec.looked();
                    if n > PATIENCE { violation("a worker goes on looking at hands after the token was set", json!({"case": what(), "combinations": n})); }
                    std::thread::sleep(Duration::from_millis(2));
                }
                std::thread::sleep(Duration::from_micros(50));
            }
        });
        let d = call_with(s, kind, threads, &set.token, |n| {
            if matches!(when, When::Heard(k) if k == n) { set.set(); }
            if slow { std::thread::sleep(Duration::from_micros(300)); }
        });
        over.store(true, Ordering::SeqCst);
        d.unwrap_or_else(|e| violation("a calculation panics", json!({"case": what(), "panic": e})))
    });
    rec.stop();
    let cancelled = set.once.load(Ordering::SeqCst);
    Ran { done, rec, cancelled, micros: (t0.elapsed().as_micros() as u64).saturating_sub(since.load(Ordering::SeqCst)) }
}

/// What the caller hears is what is reported, on its own thread.
fn judge_heard(ran: &Ran, exact: bool, what: &(dyn Fn() -> Value + Sync)) {
    let heard = &ran.done.heard;
    if ran.done.elsewhere {
        violation("progress is reported on another thread than the caller's", what());
    }
    if let Some(x) = heard.iter().find(|x| **x > 100) {
        violation("a progress report is no percentage", json!({"case": what(), "heard": x}));
    }
    let log = ran.rec.log();
    let sent: Vec<u8> = log.iter().filter_map(|r| if let Rec::HandIn { progress, .. } = r { *progress } else { None }).collect();
    if *heard != sent {
        violation("not every result handed in is reported once, before the call returns", json!({"case": what(), "heard": heard, "handed in": sent}));
    }
    if exact {
        if let Err(e) = progress(&log, heard, ran.cancelled) {
            violation("progress is not the share of the combinations taken up", json!({"case": what(), "what": e}));
        }
    }
}

/// The results are those of what was evaluated.
fn judge_sums(env: &Env, s: &Scn, ran: &Ran, what: &(dyn Fn() -> Value + Sync)) -> u64 {
    let t = ran.rec.sums().tally();
    let res = match &ran.done.out {
        Ok(r) => r,
        // a calculation that was cancelled before it evaluated anything has nothing to return
        Err(_) if ran.cancelled && t.deals == 0 => return 0,
        Err(e) => violation("a calculation with a possible deal is refused", json!({"case": what(), "error": e})),
    };
    if let Err(e) = compare_players(s, res, &t).and_then(|_| compare_hands(s, &env.names, res, &t)) {
        violation("the results are not those of what was evaluated", json!({"case": what(), "what": e}));
    }
    t.deals
}

fn preflop(r: &mut Rng, wide_: bool) -> Scn {
    let n = r.range(2, 4);
    if wide_ {
        let (nb, k) = *r.pick(&[(0usize, (2usize, 6usize)), (3, (40, 80)), (4, (80, 150))]);
        // cheap enough also for code that visits every board of every deal
        return loop {
            let s = wide(r, nb, k, if nb == 0 { n } else { 2 });
            if s.cost() <= 300_000_000 { break s; }
        };
    }
    scenario(r, &Shape { players: (2, 5), board: (0, 3), dead: (0, 6), hands: (2, 8), weights: true, cost: (200_000, 60_000_000) })
}

/// Players who all need one of a few cards: of fewer than there are players, or of a few more.
fn contended(r: &mut Rng, never: bool) -> Scn {
    let n = if never { r.range(6, 9) } else { r.range(6, 7) };
    let more = r.range(1, 5);
    let nb = if never { *r.pick(&[0, 0, 3, 4, 5]) } else { 5 };
    let c = r.cards(52, 0);
    let keys = &c[5..5 + if never { n - 1 } else { n + more }];
    let left: Vec<u8> = (0..52).filter(|x| !c[..nb].contains(x)).collect();
    let ranges = (0..n).map(|p| {
        // what goes with the few cards; different cards for different players if they can all be dealt a hand
        let with: Vec<u8> = left.iter().copied().filter(|x| if never { r.chance(7, 8) } else { !keys.contains(x) && *x as usize % 4 == p % 4 }).collect();
        let mine: Vec<u8> = keys.iter().copied().filter(|_| never || r.chance(2, 3)).collect();
        let mut v = std::collections::BTreeSet::new();
        for &x in &mine { for &y in &with { if x != y { v.insert(higher_first(x, y)); } } }
        if v.is_empty() { v.insert(higher_first(keys[0], left[left.len() - 1])); }
        v.into_iter().map(|(x, y)| (x, y, 100)).collect()
    }).collect();
    Scn { ranges, board: mask_of(&c[..nb]), dead: 0 }
}

/// Players with so many hands that their combinations outgrow 32 or 64 bits. Numbers of hands that are powers of two:
/// a count that wraps round comes to nothing.
fn endless(r: &mut Rng, k: usize) -> Scn {
    let (n, hands, nb) = match k % 4 {
        0 => (r.range(7, 9), 1024, *r.pick(&[0usize, 3, 4, 5])),
        1 => (8, 256, *r.pick(&[3usize, 4, 5])),
        2 => (r.range(5, 9), 512, *r.pick(&[3usize, 5])),
        _ => (4, 256, *r.pick(&[0usize, 3])),
    };
    let c = r.cards(52, 0);
    let ranges = (0..n).map(|_| {
        let mut all: Vec<(u8, u8)> = (1..52u8).flat_map(|x| (0..x).map(move |y| (x, y))).filter(|(x, y)| !c[..nb].contains(x) && !c[..nb].contains(y)).collect();
        for i in 0..all.len() { let j = r.range(i, all.len() - 1); all.swap(i, j); }
        // on a board of five cards there are 1081 hands
        all.into_iter().take(hands).map(|(x, y)| { let (x, y) = higher_first(x, y); (x, y, 100) }).collect()
    }).collect();
    Scn { ranges, board: mask_of(&c[..nb]), dead: 0 }
}

/// Runs such a calculation until the token is set; it may not come back before, nor report other than no progress.
fn run_endless(env: &Env, r: &mut Rng, cur: &Current, k: usize, count: &mut BTreeMap<&str, u64>, deals: &mut u64) {
    let s = endless(r, k);
    let threads = *r.pick(&[1u8, 2, 4, 8]);
    let when = When::After(r.range(20_000, 120_000) as u64);
    let what = || json!({"scenario": s.json(), "threads": threads, "token set": format!("{when:?}"), "target": null});
    cur.set(&what());
    let ran = run_brief(env, &s, None, threads, when, false, true, &what);
    *deals += judge_sums(env, &s, &ran, &what);
    if ran.done.heard.iter().any(|x| *x > 100) {
        violation("a progress report is no percentage", json!({"case": what(), "heard": ran.done.heard}));
    }
    let dealt = ran.rec.sums().deals;
    // there are more than half a thousand million deals
    if !ran.cancelled && dealt < 500_000_000 {
        violation("a calculation that was not cancelled is cut short", json!({"case": what(), "deals": dealt}));
    }
    if let Some(x) = ran.done.heard.iter().find(|x| dealt < 5_000_000 && **x > 0) {
        violation("progress is not the share of the combinations taken up", json!({"case": what(), "heard": x, "deals": dealt}));
    }
    if ran.cancelled {
        judge_token(&ran.rec.log(), ran.done.token, &what);
        judge_late(&ran, allowance(&s), &what);
    }
    *count.entry("more combinations than 32 or 64 bits hold").or_default() += 1;
}

fn c13(a: &Args, env: &Env, cur: &Current, r: &mut Rng, count: &mut BTreeMap<&str, u64>, deals: &mut u64) {
    let mut slowest = 0;
    for k in 0..a.pick(90, 900) {
        let exact_ = k % 2 == 0;
        let s = loop {
            let w = r.chance(1, 2);
            let s = preflop(r, w);
            // a calculation that samples needs ranges that often fit together (known finding C17 redeals)
            if exact_ || s.acceptance(r) >= 0.05 { break s; }
        };
        let threads = *r.pick(&[1u8, 2, 3, 4, 8]);
        let when = match r.below(6) {
            0 => When::Before,
            1 => When::Heard(r.range(1, 12)),
            2 => When::After(r.below(40_000) as u64),
            3 => When::After(r.below(4_000) as u64),
            4 => When::Deal(r.below(200_000) as u64),
            _ => When::Deal(r.below(20_000) as u64),
        };
        let kind = if exact_ { None } else { Some(*r.pick(&[1e-7, 1e-6, 0.0005])) };
        let slow = r.chance(1, 6);
        let what = || json!({"scenario": s.json(), "threads": threads, "token set": format!("{when:?}"), "target": kind});
        cur.set(&what());
        let ran = run_with(env, &s, kind, threads, when, slow, &what);
        *deals += judge_sums(env, &s, &ran, &what);
        judge_token(&ran.rec.log(), ran.done.token, &what);
        let allowed = if exact_ { allowance(&s) } else { 40_000 };
        judge_late(&ran, allowed, &what);
        if ran.cancelled { slowest = slowest.max(ran.micros); }
        if exact_ && !ran.cancelled {
            let one = exact(&s, 1).unwrap_or_else(|e| violation("a calculation with a possible deal is refused", json!({"case": what(), "error": e})));
            if let Err(e) = same(&one, ran.done.out.as_ref().unwrap()) {
                violation("a calculation that was not cancelled is cut short", json!({"case": what(), "what": e}));
            }
        }
        *count.entry(if exact_ { "exact, token set at any moment" } else { "sampled, token set at any moment" }).or_default() += 1;
    }
    // Ranges of which hardly any, or no, combination can be dealt: so many that the call would not end by itself.
    for k in 0..a.pick(16, 120) {
        let s = contended(r, k % 2 == 0);
        let threads = *r.pick(&[1u8, 2, 4, 8]);
        let when = match k % 4 {
            0 => When::Looked(r.below(300_000) as u64),
            1 => When::Before,
            2 => When::After(r.below(30_000) as u64),
            _ => When::Looked(r.below(1_000_000) as u64),
        };
        let what = || json!({"scenario": s.json(), "threads": threads, "token set": format!("{when:?}"), "target": null});
        cur.set(&what());
        let ran = run_brief(env, &s, None, threads, when, false, true, &what);
        *deals += judge_sums(env, &s, &ran, &what);
        if !ran.cancelled { continue; }
        judge_token(&ran.rec.log(), ran.done.token, &what);
        judge_late(&ran, allowance(&s), &what);
        let n = ran.rec.looked();
        if n > PATIENCE { violation("a worker goes on looking at hands after the token was set", json!({"case": what(), "combinations": n})); }
        *count.entry("contended ranges, token set").or_default() += 1;
        *count.entry("contended ranges, hands dealt").or_default() += (ran.rec.sums().deals > 0) as u64;
        *count.entry("most combinations looked at after the token").or_default() = n.max(*count.get("most combinations looked at after the token").unwrap_or(&0));
        slowest = slowest.max(ran.micros);
    }
    for k in 0..a.pick(8, 80) { run_endless(env, r, cur, k, count, deals); }
    *count.entry("longest time from the token to the end, in microseconds").or_default() = slowest;
    // Calculations that share a token which nobody sets: one after the other, and at the same time.
    for k in 0..a.pick(14, 140) {
        let token = Arc::new(AtomicBool::new(false));
        let jobs: Vec<(Scn, Option<f64>, u8)> = (0..r.range(2, 5)).map(|j| {
            let s = loop { let s = preflop(r, false); if s.acceptance(r) >= 0.05 { break s; } };
            let kind = if (j + k) % 2 == 0 { Some(*r.pick(&[0.01, 0.003, 0.001])) } else { None };
            (s, kind, *r.pick(&[1u8, 2, 4]))
        }).collect();
        let what = || json!({"sharing a token": jobs.iter().map(|(s, k, t)| json!({"scenario": s.json(), "target": k, "threads": t})).collect::<Vec<_>>(), "at the same time": k % 2 == 1});
        cur.set(&what());
        let one = |j: usize| {
            let (s, kind, t) = &jobs[j];
            let d = call_with(s, *kind, *t, &token, |_| {}).unwrap_or_else(|e| violation("a calculation panics", json!({"case": what(), "panic": e})));
            (j, d)
        };
        let all: Vec<(usize, Done)> = if k % 2 == 1 {
            std::thread::scope(|sc| (0..jobs.len()).map(|j| sc.spawn(move || one(j))).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect())
        } else {
            (0..jobs.len()).map(one).collect()
        };
        for (j, d) in all {
            let (s, kind, _) = &jobs[j];
            let res = ok_result(&d, &what);
            if d.token {
                violation("a calculation changes the caller's token", what());
            }
            match kind {
                // several threads hand in what they have after the target was reached, which may move the deviation a little
                Some(t) => if !(res.stdev < 1.5 * t) || res.batch_count < 2.0 {
                    violation("a calculation that was not cancelled is cut short", json!({"case": what(), "calculation": j, "stdev": res.stdev, "batches": res.batch_count}));
                },
                None => {
                    let alone = exact(s, 1).unwrap_or_else(|e| violation("a calculation with a possible deal is refused", json!({"case": what(), "error": e})));
                    if let Err(e) = same(&alone, res) {
                        violation("a calculation that was not cancelled is cut short", json!({"case": what(), "calculation": j, "what": e}));
                    }
                }
            }
            *count.entry("calculations sharing a token").or_default() += 1;
        }
    }
}

fn c16(a: &Args, env: &Env, cur: &Current, r: &mut Rng, count: &mut BTreeMap<&str, u64>, deals: &mut u64) {
    for k in 0..a.pick(8, 80) { run_endless(env, r, cur, k, count, deals); }
    for k in 0..a.pick(120, 1200) {
        let exact_ = k % 3 != 0;
        let s = loop {
            let s = match k % 4 {
                0 => scenario(r, &Shape { players: (2, 9), board: (0, 5), dead: (0, 30), hands: (1, 12), weights: true, cost: (1, 30_000_000) }),
                1 => preflop(r, true),
                _ => preflop(r, false),
            };
            if exact_ || s.acceptance(r) >= 0.05 { break s; }
        };
        let threads = *r.pick(&[1u8, 2, 3, 4, 8, 16]);
        let kind = if exact_ { None } else { Some(*r.pick(&[1.0, 0.02, 0.005, 0.002, 0.001, 1e-4, 1e-5, 1e-9])) };
        // far from the target, progress is nothing for long
        let when = if matches!(kind, Some(t) if t < 5e-4) { When::After(r.range(5_000, 80_000) as u64) } else if r.chance(1, 4) { When::Heard(r.range(1, 12)) } else { When::Never };
        let slow = r.chance(1, 8);
        let what = || json!({"scenario": s.json(), "threads": threads, "token set": format!("{when:?}"), "target": kind});
        cur.set(&what());
        let ran = run_with(env, &s, kind, threads, when, slow, &what);
        if ran.done.out.is_err() && ran.rec.sums().deals > 0 {
            violation("a calculation with a possible deal is refused", what());
        }
        judge_heard(&ran, exact_, &what);
        *deals += ran.rec.sums().deals;
        *count.entry("reports").or_default() += ran.done.heard.len() as u64;
        *count.entry(if exact_ { "exact" } else { "sampled" }).or_default() += 1;
    }
}
