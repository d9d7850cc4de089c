//! C24: sessions of spec/Session.tla on the real code: ranges are read, copied and filtered while calculations overlap,
//! some of them sharing a token; each has to give what it would give alone.
use crate::deal::*;
use crate::record::*;
use crate::util::*;
use pokers::HandRange;
use pokers::verif::{Event, set_sink};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::thread::JoinHandle;

fn nums(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn hands3(v: &Value) -> Vec<Hand3> {
    let mut h: Vec<Hand3> = v.as_array().unwrap().iter().map(|h| { let h = nums(h); (h[0], h[1], h[2]) }).collect();
    h.sort();
    h
}
fn of(r: &HandRange) -> Vec<Hand3> {
    let mut h: Vec<Hand3> = r.hands.iter().map(|h| (h.0, h.1, h.2)).collect();
    h.sort();
    h
}
fn num(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

#[derive(Default)]
struct Hold {
    open: Mutex<bool>,
    cv: Condvar,
}
impl Hold {
    /// Waits until the session takes the result, or a little at least.
    fn wait(&self, ms: u64) {
        let g = self.open.lock().unwrap();
        let _ = self.cv.wait_timeout_while(g, std::time::Duration::from_millis(ms), |o| !*o).unwrap();
    }
    fn open(&self) {
        *self.open.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

type Gave = (Result<Outcome, String>, Vec<Vec<Hand3>>);
type Job = Box<dyn FnOnce() -> Gave + Send>;

/// The thread of a slot: all calculations of the slot are called from it.
struct Caller {
    jobs: Option<Sender<Job>>,
    gave: Receiver<Gave>,
    thread: Option<JoinHandle<()>>,
}
impl Caller {
    fn new() -> Caller {
        let (jobs, todo) = channel::<Job>();
        let (done, gave) = channel();
        let thread = std::thread::spawn(move || for j in todo { let _ = done.send(j()); });
        Caller { jobs: Some(jobs), gave, thread: Some(thread) }
    }
}
impl Drop for Caller {
    fn drop(&mut self) {
        self.jobs.take();
        let _ = self.thread.take().unwrap().join();
    }
}

struct Running {
    hold: Arc<Hold>,
    sampled: bool,
    given: Vec<Vec<Hand3>>,
    threads: u8,
}

const TARGET: f64 = 0.012;

/// What the executor says about inputs, remembered.
struct Known<'a> {
    table: &'a crate::table::Table,
    names: &'a Names,
    told: Mutex<HashMap<String, Arc<Tally>>>,
}
impl Known<'_> {
    fn of(&self, s: &Scn) -> Arc<Tally> {
        let k = s.json().to_string();
        if let Some(t) = self.told.lock().unwrap().get(&k) {
            return t.clone();
        }
        let t = Arc::new(tally(s, self.table, self.names));
        self.told.lock().unwrap().insert(k, t.clone());
        t
    }
}

#[derive(Default)]
struct Counts {
    steps: AtomicU64,
    starts: AtomicU64,
    overlaps: AtomicU64,
    exact: AtomicU64,
    sampled: AtomicU64,
    refused: AtomicU64,
    cut: AtomicU64,
}

fn session(k: usize, hist: &[Value], seed: u64, known: &Known, c: &Counts) {
    let mut r = Rng::new(seed, &format!("c24 {k}"));
    let mut vars: HashMap<usize, HandRange> = HashMap::new();
    let mut tokens: HashMap<usize, Arc<AtomicBool>> = HashMap::new();
    let mut slots: HashMap<usize, Running> = HashMap::new();
    let mut callers: HashMap<usize, Caller> = HashMap::new();
    let empty = || HandRange::from_string(String::new());
    for (i, e) in hist.iter().enumerate() {
        c.steps.fetch_add(1, Ordering::Relaxed);
        let done = || json!({"session": k, "steps": hist[..=i].iter().map(|e| { let mut e = e.clone(); if let Some(o) = e.as_object_mut() { o.remove("r"); o.remove("rs"); } e }).collect::<Vec<_>>()});
        match e["op"].as_str().unwrap() {
            "read" => {
                let text = e["t"].as_str().unwrap().to_string();
                let g = guard(|| HandRange::from_string(text)).unwrap_or_else(|p| violation("reading a range panics", json!({"session": done(), "panic": p})));
                if of(&g) != hands3(&e["r"]) {
                    violation("a range read during a session is not what its text means", json!({"session": done(), "read": of(&g), "expected": hands3(&e["r"])}));
                }
                vars.insert(num(&e["v"]), g);
            }
            "copy" => {
                let g = vars.get(&num(&e["v"])).cloned().unwrap_or_else(empty);
                vars.insert(num(&e["w"]), g);
            }
            "edit" => {
                let g = vars.get_mut(&num(&e["v"])).unwrap();
                let (h, n) = (nums(&e["h"]), nums(&e["g"]));
                let c = g.hands.iter_mut().find(|c| c.0 == h[0] && c.1 == h[1]).unwrap();
                (c.0, c.1, c.2) = (n[0], n[1], n[2]);
                if of(g) != hands3(&e["r"]) {
                    tool("the edited range is not that of the specification");
                }
            }
            "filter" => {
                let v = num(&e["v"]);
                let mut g = vars.remove(&v).unwrap_or_else(empty);
                g.remove_conflicting_combos(mask_of(&nums(&e["b"])), mask_of(&nums(&e["d"])));
                if of(&g) != hands3(&e["r"]) {
                    violation("a range filtered during a session is not what it should be", json!({"session": done(), "is": of(&g), "expected": hands3(&e["r"])}));
                }
                vars.insert(v, g);
            }
            "set" => tokens.entry(num(&e["tk"])).or_default().store(true, Ordering::SeqCst),
            "reset" => tokens.entry(num(&e["tk"])).or_default().store(false, Ordering::SeqCst),
            "start" => {
                let ranges: Vec<HandRange> = nums(&e["vs"]).iter().map(|v| vars.get(&(*v as usize)).cloned().unwrap_or_else(empty)).collect();
                let given: Vec<Vec<Hand3>> = ranges.iter().map(of).collect();
                let (board, dead) = (mask_of(&nums(&e["b"])), mask_of(&nums(&e["d"])));
                let s = Scn { ranges: given.clone(), board, dead };
                // A sampled calculation has to be able to draw a deal (known finding C17 redeals).
                let odds = s.acceptance(&mut r);
                let sampled = e["kind"] == "sampled" && !(odds > 0.0 && odds < 0.05);
                let token = tokens.entry(num(&e["tk"])).or_default().clone();
                let threads = num(&e["th"]) as u8;
                let hold = Arc::new(Hold::default());
                let (h, linger) = (hold.clone(), r.below(3));
                c.starts.fetch_add(1, Ordering::Relaxed);
                c.overlaps.fetch_add(slots.len() as u64, Ordering::Relaxed);
                let job: Job = Box::new(move || {
                    let on = |_: u8| match linger {
                        0 => {}
                        1 => h.wait(2),
                        _ => h.wait(200),
                    };
                    let out = guard(|| {
                        if sampled {
                            pokers::approx_equity(&ranges, board, dead, threads, TARGET, token, on)
                        } else {
                            pokers::exact_equity(&ranges, board, dead, threads, token, on)
                        }
                    });
                    (out.map(|o| o.map_err(|e| error_name(&e))), ranges.iter().map(of).collect())
                });
                callers.entry(num(&e["s"])).or_insert_with(Caller::new).jobs.as_ref().unwrap().send(job).unwrap();
                if r.chance(1, 3) {
                    std::thread::sleep(std::time::Duration::from_micros(r.below(600) as u64));
                }
                slots.insert(num(&e["s"]), Running { hold, sampled, given, threads });
            }
            "finish" => {
                let run = slots.remove(&num(&e["s"])).unwrap();
                run.hold.open();
                let (out, after) = callers[&num(&e["s"])].gave.recv().unwrap();
                let s = Scn { ranges: e["rs"].as_array().unwrap().iter().map(hands3).collect(), board: mask_of(&nums(&e["b"])), dead: mask_of(&nums(&e["d"])) };
                let case = || json!({"session": done(), "calculation": s.json(), "sampled": run.sampled, "threads": run.threads});
                if run.given != s.ranges || after != s.ranges {
                    violation("a range is not what it was when the calculation was started", json!({"case": case(), "given": run.given, "after": after}));
                }
                let out = out.unwrap_or_else(|p| violation("a calculation panics during a session", json!({"case": case(), "panic": p})));
                let says = e["says"].as_str().unwrap();
                let cut = e["cut"].as_bool().unwrap();
                let token = tokens.get(&num(&hist[..i].iter().rev().find(|x| x["op"] == "start" && x["s"] == e["s"]).unwrap()["tk"])).unwrap();
                if token.load(Ordering::SeqCst) != e["token"].as_bool().unwrap() {
                    violation("a token is not as its users left it", case());
                }
                match &out {
                    Err(why) if *why == says => { c.refused.fetch_add(1, Ordering::Relaxed); }
                    // Cancelled before a deal was sampled, there is nothing to return.
                    Err("ConflictingRanges") if cut && run.sampled && says == "ok" => { c.cut.fetch_add(1, Ordering::Relaxed); }
                    Err(why) => violation("a calculation is refused that would be accepted alone", json!({"case": case(), "error": why, "expected": says})),
                    Ok(_) if says != "ok" => violation("a calculation is accepted that would be refused alone", json!({"case": case(), "expected": says})),
                    Ok(res) => {
                        let t = known.of(&s);
                        if cut {
                            c.cut.fetch_add(1, Ordering::Relaxed);
                        }
                        if !cut && !run.sampled {
                            c.exact.fetch_add(1, Ordering::Relaxed);
                            if let Err(e) = compare_players(&s, res, &t) {
                                violation("a calculation does not give what it gives alone", json!({"case": case(), "difference": e}));
                            }
                            if let Err(e) = compare_hands(&s, known.names, res, &t) {
                                violation("a calculation does not give what it gives alone", json!({"case": case(), "difference": e}));
                            }
                            continue;
                        }
                        if res.wins_by_mask.len() != t.by_mask.len() || res.hand_results.len() != s.n() * HANDS {
                            violation("a calculation gives results of another shape", case());
                        }
                        for (m, &w) in res.wins_by_mask.iter().enumerate() {
                            if w > 0 && t.by_mask[m] == 0 {
                                violation("a calculation counts a win that cannot happen in it", json!({"case": case(), "winners": m, "weight": w}));
                            }
                        }
                        for (x, u) in res.hand_results.iter().enumerate() {
                            let e = t.hand[x / HANDS].get(&(x % HANDS)).copied().unwrap_or([0; 4]);
                            if u.total > 0 && e[0] == 0 || u.wins > 0 && e[1] == 0 || u.ties > 0 && e[2] == 0 {
                                violation("a calculation counts a hand that cannot be dealt in it", json!({"case": case(), "player": x / HANDS, "hand": known.names.hand[x % HANDS]}));
                            }
                        }
                        if !cut {
                            c.sampled.fetch_add(1, Ordering::Relaxed);
                            if !(res.stdev < TARGET * 3.0) || res.batch_count < 10.0 {
                                violation("a sampled calculation is cut short though its token was never set", json!({"case": case(), "deviation": res.stdev, "portions": res.batch_count}));
                            }
                            let all = t.total() as f64;
                            for p in 0..s.n() {
                                let want = t.wins(p) as f64 / all + t.share(p) as f64 / (L as f64 * all);
                                if !((res.equities[p] - want).abs() < 0.15) {
                                    violation("a sampled calculation is far from what it estimates", json!({"case": case(), "player": p, "equity": res.equities[p], "exact": want}));
                                }
                            }
                        }
                    }
                }
            }
            op => tool(op),
        }
    }
    // what is still running ends by itself
    for (s, run) in slots {
        run.hold.open();
        if let (Err(p), _) = callers[&s].gave.recv().unwrap() {
            violation("a calculation panics during a session", json!({"session": k, "slot": s, "panic": p}));
        }
    }
}

/// More calculations one after the other than 16 bits can number, of a few inputs: each always gives the same.
fn marathon(a: &Args, known: &Known, cur: &Active) -> u64 {
    let mut r = Rng::new(a.seed, "marathon");
    let inputs: Vec<Scn> = (0..5).map(|_| loop {
        let s = scenario(&mut r, &Shape { players: (2, 4), board: (5, 5), dead: (0, 3), hands: (1, 3), weights: true, cost: (1, 500) });
        if s.acceptance(&mut r) >= 0.3 { break s; }
    }).collect();
    let tallies: Vec<_> = inputs.iter().map(|s| tally(s, known.table, known.names)).collect();
    let (never, at_once) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(true)));
    let most = a.pick(66_000, 200_000);
    let firsts: Vec<std::sync::OnceLock<Vec<u64>>> = (0..5).map(|_| Default::default()).collect();
    // (by several callers, as a count need not be per caller)
    parallel(8, |p| cur.on(p, || json!({"inputs": inputs.iter().map(|s| s.json()).collect::<Vec<_>>()}), || {
        for k in (p..most).step_by(8) {
            let (s, t) = (&inputs[k % 5], &tallies[k % 5]);
            let case = || json!({"call": k, "scenario": s.json()});
            if k % 1009 == 1008 {
                // a sampled calculation, to its end
                let d = call_with(s, Some(0.01), 2, &never, |_| {}).unwrap_or_else(|p| violation("a calculation panics", json!({"case": case(), "panic": p})));
                let res = d.out.unwrap_or_else(|e| violation("an input is refused that is accepted alone", json!({"case": case(), "error": e})));
                if !(res.stdev < 0.03) || res.batch_count < 10.0 {
                    violation("a sampled calculation is cut short though its token was never set", json!({"case": case(), "deviation": res.stdev, "portions": res.batch_count}));
                }
                continue;
            }
            if k % 31 == 30 {
                // a sampled calculation, cut short
                let d = call_with(s, Some(1e-9), 1, &at_once, |_| {}).unwrap_or_else(|p| violation("a calculation panics", json!({"case": case(), "panic": p})));
                let res = d.out.unwrap_or_else(|e| violation("an input is refused that is accepted alone", json!({"case": case(), "error": e})));
                if let Some((m, _)) = res.wins_by_mask.iter().enumerate().find(|(m, w)| **w > 0 && t.by_mask[*m] == 0) {
                    violation("a calculation counts a win that cannot happen in it", json!({"case": case(), "winners": m}));
                }
                continue;
            }
            let d = call_with(s, None, 1, &never, |_| {}).unwrap_or_else(|p| violation("a calculation panics", json!({"case": case(), "panic": p})));
            let res = d.out.unwrap_or_else(|e| violation("an input is refused that is accepted alone", json!({"case": case(), "error": e})));
            if *firsts[k % 5].get_or_init(|| res.wins_by_mask.clone()) != res.wins_by_mask {
                violation("an exact calculation does not give what it gives alone", json!({"case": case(), "wins": res.wins_by_mask, "before": firsts[k % 5].get()}));
            }
            if k % 37 < 2 {
                if let Err(e) = compare_players(s, &res, t).and_then(|_| compare_hands(s, known.names, &res, t)) {
                    violation("an exact calculation does not give what it gives alone", json!({"case": case(), "what": e}));
                }
            }
        }
    }));
    if never.load(Ordering::SeqCst) { violation("a calculation changes the caller's token", json!({"calls": most})); }
    most as u64
}

pub fn run(a: &Args) {
    let path = a.opt("--sessions").unwrap_or_else(|| tool("--sessions"));
    let ss: Vec<Vec<Value>> = std::fs::read_to_string(path).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let (table, names) = (a.table(), Names::load(a));
    let known = Known { table: &table, names: &names, told: Default::default() };
    let c = Counts::default();
    let cur = Active::new(a);
    // workers are held up a little here and there
    let n = AtomicU64::new(a.seed);
    set_sink(Some(Arc::new(move |e: Event| {
        if place(&e).is_some() {
            let x = Rng::new(n.fetch_add(1, Ordering::Relaxed), "pause").below(400);
            if x < 40 { std::thread::sleep(std::time::Duration::from_micros(10 * x as u64)) } else if x < 100 { std::thread::yield_now() }
        }
    })));
    // one session at a time first, then several beside each other
    let alone = ss.len() / 2;
    for (k, h) in ss[..alone].iter().enumerate() {
        cur.on(k, || json!(h), || session(k, h, a.seed, &known, &c));
    }
    parallel(ss.len() - alone, |k| cur.on(k, || json!(ss[alone + k]), || session(alone + k, &ss[alone + k], a.seed, &known, &c)));
    set_sink(None);
    let calls = marathon(a, &known, &cur);
    let g = |x: &AtomicU64| x.load(Ordering::Relaxed);
    say(json!({"done": true, "traces": ss.len(), "evaluations": g(&c.steps), "steps": g(&c.steps), "starts": g(&c.starts), "overlaps": g(&c.overlaps), "exact": g(&c.exact),
        "one after the other": calls, "sampled": g(&c.sampled), "refused": g(&c.refused), "cut": g(&c.cut), "different_inputs": known.told.lock().unwrap().len(), "samples": []}));
}
