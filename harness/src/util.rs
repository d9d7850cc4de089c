//! Arguments, reporting, random numbers, and calling the code under test so that its panics are data.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub struct Args {
    pub sub: String,
    pub thorough: bool,
    pub seed: u64,
    pub spec: String,
    pub out: String,
    pub rest: Vec<String>,
}

impl Args {
    pub fn parse() -> Args {
        let v: Vec<String> = std::env::args().collect();
        let mut a = Args { sub: v.get(1).cloned().unwrap_or_default(), thorough: false, seed: 1, spec: String::new(), out: ".".into(), rest: vec![] };
        let mut i = 2;
        while i < v.len() {
            match v[i].as_str() {
                "--tier" => a.thorough = v[i + 1] == "thorough",
                "--seed" => a.seed = v[i + 1].parse().unwrap_or(1),
                "--spec" => a.spec = v[i + 1].clone(),
                "--out" => a.out = v[i + 1].clone(),
                _ => {
                    a.rest.push(v[i].clone());
                    i += 1;
                    continue;
                }
            }
            i += 2;
        }
        a
    }
    pub fn opt(&self, name: &str) -> Option<&str> {
        self.rest.iter().position(|x| x == name).and_then(|i| self.rest.get(i + 1)).map(|s| s.as_str())
    }
    pub fn table(&self) -> crate::table::Table {
        crate::table::Table::load(&format!("{}/gen/handvalues.txt", self.spec))
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
}

/// Something is wrong with the check itself.
pub fn tool(msg: &str) -> ! {
    eprintln!("TOOL-ERROR {msg}");
    std::process::exit(2)
}

static OUT: Mutex<()> = Mutex::new(());

/// Reports that the code does not do what the specification says, and ends the process.
pub fn violation(what: &str, case: Value) -> ! {
    let g = OUT.lock();
    println!("{}", json!({"violation": what, "case": case}));
    let _ = std::io::stdout().flush();
    std::mem::forget(g);
    std::process::exit(0)
}

pub fn say(v: Value) {
    let _g = OUT.lock().unwrap();
    println!("{v}");
}

/// The case being worked on, so that a crash or a hang can be attributed.
pub struct Current(File);
impl Current {
    pub fn new(a: &Args) -> Current {
        Current(File::create(format!("{}/current.json", a.out)).unwrap_or_else(|e| tool(&e.to_string())))
    }
    pub fn set(&self, v: &Value) {
        let s = v.to_string();
        let _ = self.0.set_len(s.len() as u64);
        let _ = self.0.write_at(s.as_bytes(), 0);
    }
}

/// The cases being worked on by several threads.
pub struct Active(Current, Mutex<std::collections::BTreeMap<usize, Value>>);
impl Active {
    pub fn new(a: &Args) -> Active {
        Active(Current::new(a), Mutex::new(Default::default()))
    }
    pub fn on<T>(&self, k: usize, case: impl FnOnce() -> Value, f: impl FnOnce() -> T) -> T {
        {
            let mut g = self.1.lock().unwrap();
            g.insert(k, case());
            let v: Vec<&Value> = g.values().collect();
            self.0.set(&json!(v));
        }
        let t = f();
        self.1.lock().unwrap().remove(&k);
        t
    }
}

thread_local! { static MSG: RefCell<String> = const { RefCell::new(String::new()) }; }
static ANYMSG: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        MSG.with(|m| *m.borrow_mut() = s.clone());
        if let Ok(mut g) = ANYMSG.lock() {
            *g = s;
        }
    }));
}

/// Calls the code under test. A panic comes back as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let own = MSG.with(|m| m.borrow().clone());
        let any = ANYMSG.lock().map(|g| g.clone()).unwrap_or_default();
        if own.contains("scoped thread") { format!("{own}; {any}") } else { own }
    })
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: &str) -> Rng {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        let mut r = Rng(h);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    /// n distinct cards not in the mask
    pub fn cards(&mut self, n: usize, used: u64) -> Vec<u8> {
        let mut d: Vec<u8> = (0..52).filter(|c| used & (1 << c) == 0).collect();
        self.shuffle(&mut d);
        d.truncate(n);
        d
    }
}

pub fn mask_of(cards: &[u8]) -> u64 {
    cards.iter().fold(0, |m, &c| m | 1 << c)
}

pub fn cards_of(mask: u64) -> Vec<u8> {
    (0..52).filter(|c| mask & (1 << c) != 0).collect()
}

/// Runs f(k) for k in 0..n on all cores.
pub fn parallel<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, T)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8.min(n) {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= n {
                    break;
                }
                let t = f(k);
                out.lock().unwrap().push((k, t));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
