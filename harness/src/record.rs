//! Records what a calculation does through the observation points: the events of each worker, and what the deals
//! add up to by the specification's hand values.
use crate::deal::*;
use crate::table::{Abs, Table};
use crate::util::*;
use pokers::verif::{Event, set_sink};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// What the deals add up to, flat.
pub struct Sums {
    n: usize,
    pub by_mask: Vec<u128>,
    pub hand: Vec<[u128; 4]>,
    pub deals: u64,
}
impl Sums {
    pub fn new(n: usize) -> Sums {
        Sums { n, by_mask: vec![0; 1 << n], hand: vec![[0; 4]; n * HANDS], deals: 0 }
    }
    pub fn add(&mut self, hands: &[usize], winners: usize, w: u128) {
        self.by_mask[winners] += w;
        self.deals += 1;
        let k = winners.count_ones() as u128;
        for (p, &h) in hands.iter().enumerate() {
            let e = &mut self.hand[p * HANDS + h];
            e[0] += w;
            if winners >> p & 1 == 1 {
                if k == 1 {
                    e[1] += w;
                } else {
                    e[2] += w;
                    e[3] += w * L / k;
                }
            }
        }
    }
    pub fn join(&mut self, o: &Sums) {
        self.deals += o.deals;
        for (a, b) in self.by_mask.iter_mut().zip(&o.by_mask) {
            *a += b;
        }
        for (a, b) in self.hand.iter_mut().zip(&o.hand) {
            for i in 0..4 {
                a[i] += b[i];
            }
        }
    }
    pub fn tally(&self) -> Tally {
        let mut t = Tally::new(self.n);
        t.by_mask = self.by_mask.clone();
        t.deals = self.deals;
        for p in 0..self.n {
            t.hand[p] = (0..HANDS).filter(|h| self.hand[p * HANDS + h][0] > 0).map(|h| (h, self.hand[p * HANDS + h])).collect::<BTreeMap<_, _>>();
        }
        t
    }
}

/// The cards of a hand mask (16 bits per suit, spades highest).
pub fn cards_of_hand(mask: u64) -> Vec<u8> {
    let mut v = vec![];
    for s in 0..4u8 {
        let m = mask >> (16 * (3 - s)) & 0xFFFF;
        for r in 0..13u8 {
            if m >> r & 1 == 1 {
                v.push(4 * r + s);
            }
        }
    }
    v
}

#[derive(Clone, Debug)]
pub enum Rec {
    Reserved(usize, u64, u64, u64),
    Examined(usize, u64),
    HandIn { w: usize, evals: u64, last: bool, eval_count: u64, batch_count: f64, stdev: f64, progress: Option<u8>, stop: bool, deals: u64, mean: f64 },
    Locked(usize),
    Check(usize, bool),
    End(usize),
    /// the token is about to be set; it has been set
    Token(bool),
}

pub struct Worker {
    pub id: usize,
    pub sums: Sums,
    /// deals of all, when the token had been set
    pub late: u64,
    /// portions begun since the token was set
    pub begun: u64,
    /// combinations examined since the token was set
    pub looked: u64,
    /// deals since the last hand-in, their weight and player 0's share of it
    pub since: (u64, u128, u128),
    pub weight_zero: u64,
}

pub type OnDeal = Box<dyn Fn(usize, &[usize], u64, u64) + Send + Sync>;
pub type OnEvent = Box<dyn Fn(usize, &Event) + Send + Sync>;

pub struct Recorder {
    run: u64,
    n: usize,
    abs: Vec<Abs>,
    table: Arc<Table>,
    pub workers: Mutex<Vec<Arc<Mutex<Worker>>>>,
    pub log: Mutex<Vec<Rec>>,
    pub token_set: AtomicBool,
    pub value: bool,
    /// what is taken up and examined is not in the log
    pub brief: AtomicBool,
    on_deal: Option<OnDeal>,
    on_event: Option<OnEvent>,
}

static RUN: AtomicU64 = AtomicU64::new(1);
thread_local! { static ME: RefCell<(u64, Option<Arc<Mutex<Worker>>>)> = const { RefCell::new((0, None)) }; }

impl Recorder {
    pub fn start(n: usize, table: Arc<Table>, names: &Names, value: bool, on_deal: Option<OnDeal>, on_event: Option<OnEvent>) -> Arc<Recorder> {
        let r = Arc::new(Recorder {
            run: RUN.fetch_add(1, Ordering::SeqCst),
            n,
            abs: names.hand.iter().map(|h| Abs::of(&[h.0, h.1])).collect(),
            table,
            workers: Mutex::new(vec![]),
            log: Mutex::new(vec![]),
            token_set: AtomicBool::new(false),
            value,
            brief: AtomicBool::new(false),
            on_deal,
            on_event,
        });
        let k = r.clone();
        set_sink(Some(Arc::new(move |e| k.event(e))));
        r
    }
    pub fn stop(&self) {
        set_sink(None);
    }
    fn me(&self) -> Arc<Mutex<Worker>> {
        ME.with(|m| {
            let mut m = m.borrow_mut();
            if m.0 != self.run || m.1.is_none() {
                let mut ws = self.workers.lock().unwrap();
                let w = Arc::new(Mutex::new(Worker { id: ws.len(), sums: Sums::new(self.n), late: 0, begun: 0, looked: 0, since: (0, 0, 0), weight_zero: 0 }));
                ws.push(w.clone());
                *m = (self.run, Some(w));
            }
            m.1.clone().unwrap()
        })
    }
    pub fn note(&self, r: Rec) {
        self.log.lock().unwrap().push(r);
    }
    fn event(&self, e: Event) {
        let me = self.me();
        let id;
        {
            let mut w = me.lock().unwrap();
            id = w.id;
            match &e {
                Event::Deal { hands, board, weight } => {
                    if self.token_set.load(Ordering::SeqCst) {
                        w.late += 1;
                        w.begun += (w.since.0 == 0) as u64;
                    }
                    if *weight == 0 {
                        w.weight_zero += 1;
                    }
                    if self.value {
                        let b = Abs::of(&cards_of_hand(*board));
                        let (mut best, mut win) = (-1, 0usize);
                        for (p, &h) in hands.iter().enumerate() {
                            let v = self.table.value(&b.join(self.abs[h]));
                            if v > best {
                                (best, win) = (v, 1 << p);
                            } else if v == best {
                                win |= 1 << p;
                            }
                        }
                        w.sums.add(hands, win, *weight as u128);
                        w.since.1 += *weight as u128;
                        if win & 1 == 1 {
                            w.since.2 += *weight as u128 * L / win.count_ones() as u128;
                        }
                    } else {
                        w.sums.deals += 1;
                    }
                    w.since.0 += 1;
                    if let Some(f) = &self.on_deal {
                        f(id, hands, *board, *weight);
                    }
                    return;
                }
                Event::Reserved { start, end, total } => if !self.brief.load(Ordering::SeqCst) { self.note(Rec::Reserved(id, *start, *end, *total)) },
                Event::Examined { pos, .. } => {
                    if self.token_set.load(Ordering::SeqCst) { w.looked += 1; }
                    if !self.brief.load(Ordering::SeqCst) { self.note(Rec::Examined(id, *pos)); }
                }
                Event::HandIn { evals, last, eval_count, batch_count, stdev, progress, stop } => {
                    let (deals, all, won) = w.since;
                    w.since = (0, 0, 0);
                    let mean = if all > 0 { won as f64 / L as f64 / all as f64 } else { 0.0 };
                    self.note(Rec::HandIn { w: id, evals: *evals, last: *last, eval_count: *eval_count, batch_count: *batch_count, stdev: *stdev,
                        progress: *progress, stop: *stop, deals, mean });
                }
                Event::HandInLocked => self.note(Rec::Locked(id)),
                Event::StopCheck { stop } => self.note(Rec::Check(id, *stop)),
                Event::WorkerEnd => self.note(Rec::End(id)),
                _ => {}
            }
        }
        if let Some(f) = &self.on_event {
            f(id, &e);
        }
    }
    /// Everything all workers dealt.
    pub fn sums(&self) -> Sums {
        let mut s = Sums::new(self.n);
        for w in self.workers.lock().unwrap().iter() {
            s.join(&w.lock().unwrap().sums);
        }
        s
    }
    /// What the worker that was latest has evaluated, and the most portions one has begun, since the token was set.
    pub fn late(&self) -> (u64, u64) {
        self.workers.lock().unwrap().iter().map(|w| { let w = w.lock().unwrap(); (w.late, w.begun) }).fold((0, 0), |a, b| (a.0.max(b.0), a.1.max(b.1)))
    }
    /// The most combinations a worker has examined since the token was set.
    pub fn looked(&self) -> u64 {
        self.workers.lock().unwrap().iter().map(|w| w.lock().unwrap().looked).max().unwrap_or(0)
    }
    pub fn log(&self) -> Vec<Rec> {
        self.log.lock().unwrap().clone()
    }
}

// ------------------------------------------------------------------------------------------------------------ gates

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    WantReserve,
    Reserving,
    WantHandIn,
    HandingIn,
}
pub fn place(e: &Event) -> Option<Place> {
    match e {
        Event::ReserveWant => Some(Place::WantReserve),
        Event::ReserveRead { .. } => Some(Place::Reserving),
        Event::HandInWant { .. } => Some(Place::WantHandIn),
        Event::HandInLocked => Some(Place::HandingIn),
        _ => None,
    }
}

#[derive(Default)]
struct G {
    at: Vec<Option<Place>>,
    go: Vec<bool>,
    done: Vec<u64>,
    free: bool,
}
impl G {
    fn room(&mut self, w: usize) {
        if self.at.len() <= w {
            self.at.resize(w + 1, None);
            self.go.resize(w + 1, false);
            self.done.resize(w + 1, 0);
        }
    }
}
/// Stops workers at the places, until told to go on.
#[derive(Default)]
pub struct Gates {
    m: Mutex<G>,
    cv: std::sync::Condvar,
}
impl Gates {
    /// Called by the worker.
    pub fn pass(&self, w: usize, p: Place) {
        let mut g = self.m.lock().unwrap();
        if g.free {
            return;
        }
        g.room(w);
        g.at[w] = Some(p);
        self.cv.notify_all();
        while !g.free && !g.go[w] {
            g = self.cv.wait(g).unwrap();
        }
        g.go[w] = false;
        g.at[w] = None;
    }
    /// Waits for worker w to be at p; false if it does not come.
    pub fn wait(&self, w: usize, p: Place, ms: u64) -> bool {
        let g = self.m.lock().unwrap();
        let (g, _) = self.cv.wait_timeout_while(g, std::time::Duration::from_millis(ms), |g| !g.free && g.at.get(w) != Some(&Some(p))).unwrap();
        g.at.get(w) == Some(&Some(p))
    }
    /// The worker has done what it does under the lock.
    pub fn did(&self, w: usize) {
        let mut g = self.m.lock().unwrap();
        g.room(w);
        g.done[w] += 1;
        self.cv.notify_all();
    }
    /// Lets worker w go on and waits for it to have done that.
    pub fn finish(&self, w: usize, ms: u64) -> bool {
        let n = self.m.lock().unwrap().done.get(w).copied().unwrap_or(0);
        self.release(w);
        let g = self.m.lock().unwrap();
        let (g, _) = self.cv.wait_timeout_while(g, std::time::Duration::from_millis(ms), |g| !g.free && g.done.get(w).copied().unwrap_or(0) == n).unwrap();
        g.done.get(w).copied().unwrap_or(0) > n
    }
    pub fn at(&self, w: usize) -> Option<Place> {
        self.m.lock().unwrap().at.get(w).copied().flatten()
    }
    pub fn release(&self, w: usize) {
        let mut g = self.m.lock().unwrap();
        if w < g.go.len() && g.at[w].is_some() {
            g.go[w] = true;
            g.at[w] = None;
        }
        self.cv.notify_all();
    }
    pub fn free(&self) {
        self.m.lock().unwrap().free = true;
        self.cv.notify_all();
    }
    pub fn all_there(&self, n: usize, ms: u64) -> bool {
        let g = self.m.lock().unwrap();
        let (g, _) = self.cv.wait_timeout_while(g, std::time::Duration::from_millis(ms), |g| g.at.iter().filter(|x| x.is_some()).count() < n).unwrap();
        g.at.iter().filter(|x| x.is_some()).count() >= n
    }
}

pub struct Done {
    pub out: Outcome,
    /// what the callback heard, on the caller's thread or not
    pub heard: Vec<u8>,
    pub elsewhere: bool,
    /// the token as the calculation left it
    pub token: bool,
}

/// A call of either calculation with a given token and something to do in the callback.
pub fn call_with(s: &Scn, kind: Option<f64>, threads: u8, token: &Arc<AtomicBool>, on: impl Fn(usize)) -> Result<Done, String> {
    let ranges = s.as_given();
    let caller = std::thread::current().id();
    let heard = RefCell::new(vec![]);
    let elsewhere = RefCell::new(false);
    let cb = |x: u8| {
        *elsewhere.borrow_mut() |= std::thread::current().id() != caller;
        heard.borrow_mut().push(x);
        let n = heard.borrow().len();
        on(n);
    };
    let out = guard(|| match kind {
        None => pokers::exact_equity(&ranges, s.board, s.dead, threads, token.clone(), cb),
        Some(t) => pokers::approx_equity(&ranges, s.board, s.dead, threads, t, token.clone(), cb),
    })?
    .map_err(|e| error_name(&e));
    Ok(Done { out, heard: heard.into_inner(), elsewhere: elsewhere.into_inner(), token: token.load(Ordering::SeqCst) })
}
