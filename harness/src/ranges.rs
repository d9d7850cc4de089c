//! C04 and C05: range texts against the forms, texts and judgements of the specification.
use crate::util::*;
use pokers::HandRange;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};

pub type Hand3 = (u8, u8, u8);

fn text_of(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

fn cps(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

/// The hands of a cell (coded 169 * kind + 13 * hi + lo), higher card first.
fn cell_hands(code: u64) -> Vec<(u8, u8)> {
    let (k, hi, lo) = (code / 169, (code % 169 / 13) as u8, (code % 13) as u8);
    let mut v = vec![];
    for s in 0..4 {
        for u in 0..4 {
            let (x, y) = (4 * hi + s, 4 * lo + u);
            if x > y && (k == 0 && s != u || k == 1 && s == u || k == 2 && s != u) {
                v.push((x, y));
            }
        }
    }
    v
}

fn read(text: &str) -> Vec<Hand3> {
    match guard(|| HandRange::from_string(text.to_string())) {
        Ok(r) => r.hands.iter().map(|h| (h.0, h.1, h.2)).collect(),
        Err(e) => violation("reading a range text panics", json!({"text": text, "code_points": cps(text), "panic": e})),
    }
}

fn sorted(mut v: Vec<Hand3>) -> Vec<Hand3> {
    v.sort();
    v
}

/// Random letter case; the Kelvin sign is a capital k.
fn recase(r: &mut Rng, s: &str) -> String {
    let mode = r.below(4);
    s.chars()
        .map(|c| match mode {
            0 => c,
            1 => c.to_ascii_uppercase(),
            _ => {
                if r.chance(1, 2) {
                    if c == 'k' && r.chance(1, 20) { '\u{212a}' } else { c.to_ascii_uppercase() }
                } else {
                    c
                }
            }
        })
        .collect()
}

pub struct Form {
    pub text: String,
    pub kind: String,
    pub ok: bool,
    pub hands: Vec<(u8, u8)>,
}

pub fn forms(a: &Args) -> Vec<Form> {
    let text = std::fs::read_to_string(a.opt("--forms").unwrap_or_else(|| tool("--forms"))).unwrap();
    text.lines()
        .map(|l| {
            let v: Value = serde_json::from_str(l).unwrap();
            let mut hands: Vec<(u8, u8)> = v["c"].as_array().unwrap().iter().flat_map(|c| cell_hands(c.as_u64().unwrap())).collect();
            let h = v["h"].as_array().unwrap();
            if h.len() == 2 {
                hands.push((h[0].as_u64().unwrap() as u8, h[1].as_u64().unwrap() as u8));
            }
            Form { text: text_of(&v["t"]), kind: v["f"].as_str().unwrap().into(), ok: v["ok"].as_bool().unwrap(), hands }
        })
        .collect()
}

fn expect(what: &str, text: &str, got: Vec<Hand3>, want: Vec<Hand3>) {
    let (g, w) = (sorted(got), sorted(want));
    if g != w {
        let extra: Vec<_> = g.iter().filter(|h| !w.contains(h)).take(20).collect();
        let missing: Vec<_> = w.iter().filter(|h| !g.contains(h)).take(20).collect();
        violation(what, json!({"text": text, "read": g.len(), "expected": w.len(), "not_meant": extra, "missing": missing}));
    }
}

pub fn c04(a: &Args) {
    let fs = forms(a);
    let cur = Current::new(a);
    let mut r = Rng::new(a.seed, "c04");
    let (mut n, mut well) = (0u64, 0u64);
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let what = "an item does not denote the hands its notation means";
    for (k, f) in fs.iter().enumerate() {
        if k % 512 == 0 {
            cur.set(&json!({"text": f.text, "and_following": 512}));
        }
        let plain = read(&f.text);
        let want: Vec<Hand3> = f.hands.iter().map(|h| (h.0, h.1, 100)).collect();
        n += 1;
        if !f.ok {
            // outside the notation: nothing may be made of it
            expect("something was made of an item outside the notation", &f.text, plain, vec![]);
            continue;
        }
        well += 1;
        *kinds.entry(f.kind.clone()).or_default() += 1;
        expect(what, &f.text, plain, want.clone());
        let t = recase(&mut r, &f.text);
        expect("letter case changes what an item denotes", &t, read(&t), want.clone());
        let weights: Vec<u32> = if f.kind == "dash" { vec![r.below(101) as u32] } else if f.kind == "cards" { vec![0, 100, r.below(101) as u32] } else { (0..=100).collect() };
        for w in weights {
            let zeros = "0".repeat(if r.chance(1, 8) { r.below(12) } else { 0 });
            let t = format!("{}@{zeros}{w}", recase(&mut r, &f.text));
            expect("a weight is not the weight of every hand of the item", &t, read(&t), f.hands.iter().map(|h| (h.0, h.1, w as u8)).collect());
            n += 1;
        }
        n += 1;
    }
    let mut all = vec![];
    for x in 0..52 {
        for y in 0..x {
            all.push((x, y, 100));
        }
    }
    // in every letter case
    for k in 0..64u32 {
        let t: String = "random".chars().enumerate().map(|(i, c)| if k >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        expect("'random' is not all hands", &t, read(&t), all.clone());
        n += 1;
    }
    say(json!({"done": true, "evaluations": n, "traces": fs.len(), "well_formed": well, "kinds": kinds,
        "samples": [{"text": fs[1000].text, "ok": fs[1000].ok, "hands": fs[1000].hands.len()}]}));
}

/// Distinct hands, higher card first, weights 0 to 100.
fn well_formed(text: &str, v: &[Hand3]) {
    let mut seen = [false; 52 * 52];
    for &(x, y, w) in v {
        let bad = if x > 51 || y > 51 {
            "a hand has a card that does not exist"
        } else if x == y {
            "a hand has the same card twice"
        } else if x < y {
            "a hand does not have its higher card first"
        } else if w > 100 {
            "a weight is above 100"
        } else if seen[x as usize * 52 + y as usize] {
            "a hand is listed twice"
        } else {
            seen[x as usize * 52 + y as usize] = true;
            continue;
        };
        violation(bad, json!({"text": text, "code_points": cps(text), "hand": [x, y, w]}));
    }
}

fn random_text(r: &mut Rng, fs: &[Form]) -> String {
    const SYM: &[char] = &['a', 'k', 'q', 'j', 't', '9', '8', '5', '3', '2', 's', 'h', 'c', 'd', 'o', '+', '-', '@', ',', '0', '1', ' ', 'A', 'K', 'S', 'O', '\u{212a}', '\u{130}', '\u{17f}', 'é', '\u{1F0A1}', '\0', '\t', 'r', 'x', '\u{663}'];
    let item = |r: &mut Rng| {
        let f = loop {
            let f = &fs[r.below(fs.len())];
            if f.ok || r.chance(1, 40) {
                break f;
            }
        };
        let mut t = recase(r, &f.text);
        if r.chance(1, 2) {
            t += &match r.below(10) {
                0 => "@".to_string(),
                1 => format!("@{}", r.below(2000)),
                2 => format!("@{}{}", "0".repeat(r.below(30)), r.below(101)),
                3 => format!("@{}", "9".repeat(r.range(1, 30))),
                _ => format!("@{}", r.below(101)),
            };
        }
        t
    };
    if r.chance(1, 200) {
        // the word itself, and what is nearly it
        let mut t = recase(r, "random");
        match r.below(8) {
            0 => t.push(*r.pick(SYM)),
            1 => t.insert(0, *r.pick(SYM)),
            2 => t += &format!("@{}", r.below(101)),
            3 => t += &format!(",{}", item(r)),
            4 => t = format!("{},{t}", item(r)),
            5 => { t.pop(); }
            _ => {}
        }
        return t;
    }
    match r.below(5) {
        0 => {
            let n = r.below(14);
            (0..n).map(|_| *r.pick(SYM)).collect()
        }
        1 => {
            let n = r.below(30);
            (0..n).map(|_| char::from_u32(if r.chance(1, 2) { r.below(128) } else { r.below(0x11_0000) } as u32).unwrap_or('k')).collect()
        }
        k => {
            let n = r.range(1, 7);
            let mut t: String = (0..n).map(|_| item(r)).collect::<Vec<_>>().join(",");
            if k == 2 {
                // damage it somewhere
                let mut c: Vec<char> = t.chars().collect();
                for _ in 0..r.range(1, 2) {
                    let p = r.below(c.len());
                    match r.below(3) {
                        0 => {
                            c.remove(p);
                        }
                        1 => c.insert(p, *r.pick(SYM)),
                        _ => c[p] = *r.pick(SYM),
                    }
                    if c.is_empty() {
                        break;
                    }
                }
                t = c.into_iter().collect();
            }
            t
        }
    }
}

pub fn c05(a: &Args) {
    let fs = forms(a);
    let cur = Current::new(a);
    let mut r = Rng::new(a.seed, "c05");
    let mut n = 0u64;
    // 1. Every text up to the reader's length over its alphabet.
    let mut meant: HashMap<Vec<u32>, Vec<Hand3>> = HashMap::new();
    let mut alphabet: Vec<u32> = a.opt("--alphabet").unwrap().split(',').map(|x| x.parse().unwrap()).collect();
    alphabet.sort();
    let maxlen: usize = a.opt("--maxlen").unwrap().parse().unwrap();
    let text = std::fs::read_to_string(a.opt("--texts").unwrap()).unwrap();
    let union = |items: &mut dyn Iterator<Item = (Vec<(u8, u8)>, u8)>| {
        let mut m: BTreeMap<(u8, u8), u8> = BTreeMap::new();
        for (hs, w) in items {
            for h in hs {
                m.entry(h).or_insert(w);
            }
        }
        m.into_iter().map(|((x, y), w)| (x, y, w)).collect::<Vec<Hand3>>()
    };
    for l in text.lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let t: Vec<u32> = v["t"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u32).collect();
        let hands = union(&mut v["i"].as_array().unwrap().iter().map(|it| {
            let mut hs: Vec<(u8, u8)> = it["c"].as_array().unwrap().iter()
                .flat_map(|c| {
                    let k = match c[0].as_str().unwrap() { "p" => 0, "s" => 1, _ => 2 };
                    cell_hands(k * 169 + c[1].as_u64().unwrap() * 13 + c[2].as_u64().unwrap())
                })
                .collect();
            let h = it["h"].as_array().unwrap();
            if h.len() == 2 {
                hs.push((h[0].as_u64().unwrap() as u8, h[1].as_u64().unwrap() as u8));
            }
            (hs, it["w"].as_u64().unwrap() as u8)
        }));
        meant.insert(t, hands);
    }
    let mut stack: Vec<Vec<u32>> = vec![vec![]];
    let mut texts = 0u64;
    while let Some(t) = stack.pop() {
        let s: String = t.iter().map(|&c| char::from_u32(c).unwrap()).collect();
        let got = read(&s);
        well_formed(&s, &got);
        expect("the range read is not the union of the items of the text", &s, got, meant.get(&t).cloned().unwrap_or_default());
        texts += 1;
        if t.len() < maxlen {
            for &c in &alphabet {
                let mut u = t.clone();
                u.push(c);
                stack.push(u);
            }
        }
    }
    // 2. Lists of items, with the union computed from what the specification says each item denotes.
    let good: Vec<&Form> = fs.iter().filter(|f| f.ok && !f.hands.is_empty()).collect();
    let mut lists = 0u64;
    for _ in 0..a.pick(40_000, 1_000_000) {
        let k = if r.chance(1, 10) { r.range(8, 40) } else { r.range(1, 7) };
        let kinds: &[&str] = *r.pick(&[&["hand", "cards"][..], &["hand", "plus"], &["hand", "plus", "dash", "cards"], &["cards"]]);
        let mut parts = vec![];
        let mut items = vec![];
        // overlaps are what matters: keep to few ranks now and then
        let narrow = r.chance(1, 2).then(|| { let c = r.pick(&good).text.chars().next().unwrap(); c });
        while parts.len() < k {
            let f = *r.pick(&good);
            if !kinds.contains(&f.kind.as_str()) || narrow.is_some_and(|c| !f.text.contains(c) && r.chance(9, 10)) {
                continue;
            }
            let w = r.below(101) as u8;
            let (t, w) = if r.chance(2, 3) { (format!("{}@{w}", recase(&mut r, &f.text)), w) } else { (recase(&mut r, &f.text), 100) };
            parts.push(t);
            items.push((f.hands.clone(), w));
        }
        let t = parts.join(",");
        cur.set(&json!({"text": t}));
        let got = read(&t);
        well_formed(&t, &got);
        expect("the range read is not the union of the items, first mentions deciding weights", &t, got, union(&mut items.into_iter()));
        lists += 1;
    }
    // Long texts: thousands of mentions of a few items, then others, then perhaps what ends the reading.
    let mut longest = 0;
    for k in 0..a.pick(150, 3000) {
        let most = if k % 3 == 0 { 60_000.0f64 } else { 4_000.0 };
        let len = 100.0 * (most / 100.0).powf(r.below(1001) as f64 / 1000.0);
        let pool: Vec<&Form> = (0..r.range(1, 6)).map(|_| loop { let f = *r.pick(&good); if f.hands.len() <= 16 { break f; } }).collect();
        let mut parts: Vec<String> = vec![];
        let mut items: Vec<(Vec<(u8, u8)>, u8)> = vec![];
        let others = r.range(1, 4);
        let late = r.chance(2, 3);
        for i in 0..len as usize + others {
            let f = if i >= len as usize || (!late && r.chance(1, 50)) { *r.pick(&good) } else { *r.pick(&pool) };
            let w = r.below(101) as u8;
            let (t, w) = match r.below(4) {
                0 => (format!("{}@{w}", f.text), w),
                1 => (format!("{}@{}{w}", f.text, "0".repeat(if r.chance(1, 20) { r.range(1, 500) } else { r.range(1, 4) })), w),
                _ => (f.text.clone(), 100),
            };
            parts.push(t);
            items.push((f.hands.clone(), w));
        }
        let mut t = parts.join(",");
        if r.chance(1, 3) {
            t += *r.pick(&[",", " ,AA,KK", ";22+", ",X,22+", ",A,22+"]);
        }
        longest = longest.max(t.len());
        cur.set(&json!({"text": t}));
        let got = read(&t);
        well_formed(&t, &got);
        expect("the range read from a long text is not the union of its items", &t, got, union(&mut items.into_iter()));
        lists += 1;
    }
    // Ranges as tools write them: hundreds of hands one by one, each with its weight, sometimes twice.
    let single: Vec<&Form> = good.iter().copied().filter(|f| f.kind == "cards" && f.hands.len() == 1).collect();
    for k in 0..a.pick(120, 2000) {
        let most = if k % 2 == 0 { 1326 } else { 300 };
        let mut parts: Vec<String> = vec![];
        let mut items: Vec<(Vec<(u8, u8)>, u8)> = vec![];
        let mut order: Vec<&Form> = single.clone();
        r.shuffle(&mut order);
        let mut seen = std::collections::BTreeSet::new();
        let want = r.range(40, most);
        for f in order {
            if seen.len() >= want { break; }
            if !seen.insert(f.hands[0]) && r.chance(9, 10) { continue; }
            let g = if r.chance(1, 60) { *r.pick(&good) } else { f };
            let w = r.below(101) as u8;
            let (t, w) = if r.chance(4, 5) { (format!("{}@{w}", g.text), w) } else { (g.text.clone(), 100) };
            parts.push(t);
            items.push((g.hands.clone(), w));
        }
        let t = parts.join(",");
        cur.set(&json!({"text": t}));
        let got = read(&t);
        well_formed(&t, &got);
        expect("the range read from hundreds of hands is not their union", &t, got, union(&mut items.into_iter()));
        lists += 1;
    }
    // 3. Any text whatever: well formed; and a sample for the specification to judge.
    let judged = a.pick(4000, 60_000);
    let mut traces = String::new();
    let (mut batch, mut many): (Vec<String>, usize) = (vec![], 9);
    let mut lens = BTreeMap::new();
    for k in 0..a.pick(300_000, 5_000_000) {
        let t = random_text(&mut r, &fs);
        if k % 256 == 0 {
            cur.set(&json!({"text": t, "and_following": 256}));
        }
        let got = read(&t);
        well_formed(&t, &got);
        n += 1;
        if k < judged {
            *lens.entry(match got.len() { 0 => "none", 1..=16 => "few", _ => "many" }).or_insert(0u64) += 1;
            traces += &json!({"t": cps(&t), "h": got}).to_string();
            traces.push('\n');
        }
        if r.chance(1, 12) { batch.push(t.clone()); }
        batch.push(t);
        if batch.len() >= many {
            let each: Vec<Vec<Hand3>> = batch.iter().map(|t| read(t)).collect();
            let all = guard(|| HandRange::from_strings(batch.clone()))
                .unwrap_or_else(|e| violation("reading several texts panics", json!({"texts": batch, "panic": e})));
            let all: Vec<Vec<Hand3>> = all.iter().map(|r| r.hands.iter().map(|h| (h.0, h.1, h.2)).collect()).collect();
            if all != each {
                violation("reading several texts is not reading each in order", json!({"texts": batch}));
            }
            batch.clear();
            many = r.range(1, 24);
            if r.chance(1, 10) {
                batch.push(String::from("random"));
            }
        }
    }
    std::fs::write(format!("{}/trace.ndjson", a.out), traces).unwrap();
    say(json!({"done": true, "evaluations": n + lists + texts, "traces": texts, "short_texts": texts, "lists": lists, "longest_text": longest, "any_texts": n, "judged_sizes": lens,
        "samples": [{"short_texts_with_items": meant.len()}]}));
}
