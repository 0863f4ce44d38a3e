//! Cases, generators, the search loop and its bookkeeping.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.next() >> 33) as usize) % n
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// A case is a list of strings: it can be written to a replay file and read back.
pub type Case = Vec<String>;

pub enum Outcome {
    /// held; the flag says whether the case was non-trivial
    Ok(bool),
    /// outside the property's domain
    Skip,
    /// violated
    Fail(String),
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// fixed cases tried first (corner cases and exhaustive enumerations)
    pub fixed: fn() -> Vec<Case>,
    pub gen: fn(&mut Rng) -> Case,
    pub check: fn(&Case) -> Outcome,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}

/// run `f`, reporting a panic as `Err(message)`
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn run_check(p: &Prop, c: &Case) -> Outcome {
    match guarded(|| (p.check)(c)) {
        Ok(o) => o,
        Err(m) => Outcome::Fail(format!("panicked: {m}")),
    }
}

pub struct Report {
    pub evaluations: u64,
    pub skipped: u64,
    pub distinct_nontrivial: u64,
    pub fixed: u64,
    pub samples: Vec<Case>,
    pub failures: Vec<(Case, String)>,
    pub wall: f64,
}

fn hash(c: &Case) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

pub fn search(p: &'static Prop, seed: u64, budget: Duration, threads: usize, known: &[String], trace: Option<String>, hang: Duration) -> Report {
    let start = Instant::now();
    let fixed: Arc<Vec<Case>> = Arc::new((p.fixed)());
    let nfixed = fixed.len() as u64;
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let skips = Arc::new(AtomicU64::new(0));
    let seen = Arc::new(Mutex::new(HashSet::<u64>::new()));
    let samples = Arc::new(Mutex::new(Vec::<Case>::new()));
    let failures = Arc::new(Mutex::new(Vec::<(Case, String)>::new()));
    let known: Arc<Vec<String>> = Arc::new(known.to_vec());
    let current: Arc<Vec<Mutex<Option<(Instant, Case)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let (fixed, next, stop, evals, skips, seen, samples, failures, current, trace, known) = (
            fixed.clone(), next.clone(), stop.clone(), evals.clone(), skips.clone(), seen.clone(), samples.clone(), failures.clone(), current.clone(), trace.clone(), known.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    loop {
                        let n = next.fetch_add(1, Ordering::Relaxed);
                        let is_fixed = n < fixed.len() as u64;
                        if stop.load(Ordering::Relaxed) || (start.elapsed() > budget && !is_fixed) {
                            break;
                        }
                        let c = if is_fixed {
                            fixed[n as usize].clone()
                        } else {
                            let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n));
                            match guarded(|| (p.gen)(&mut r)) {
                                Ok(c) => c,
                                Err(m) => {
                                    eprintln!("generator panicked: {m}");
                                    std::process::exit(3);
                                }
                            }
                        };
                        if let Some(f) = &trace {
                            std::fs::write(f, encode(p.id, &c, "aborted the process")).ok();
                        }
                        *current[t].lock().unwrap() = Some((Instant::now(), c.clone()));
                        let o = run_check(p, &c);
                        *current[t].lock().unwrap() = None;
                        match o {
                            Outcome::Ok(nt) => {
                                evals.fetch_add(1, Ordering::Relaxed);
                                if nt {
                                    let mut s = seen.lock().unwrap();
                                    if s.len() < 4_000_000 && s.insert(hash(&c)) {
                                        let mut sm = samples.lock().unwrap();
                                        if sm.len() < 4 || (sm.len() < 8 && n % 97 == 0) {
                                            sm.push(c);
                                        }
                                    }
                                }
                            }
                            Outcome::Skip => {
                                skips.fetch_add(1, Ordering::Relaxed);
                            }
                            Outcome::Fail(m) => {
                                evals.fetch_add(1, Ordering::Relaxed);
                                let mut f = failures.lock().unwrap();
                                let key = encode_case(&c);
                                if known.iter().any(|k| *k == key) {
                                    if !f.iter().any(|(fc, _)| encode_case(fc) == key) {
                                        f.push((c, format!("KNOWN {m}")));
                                    }
                                } else {
                                    f.push((c, m));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    // watchdog: a case that does not come back is itself a failure
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_secs(1) { 5 } else { 100 }));
        for cur in current.iter() {
            let c = cur.lock().unwrap().clone();
            if let Some((t0, c)) = c {
                if t0.elapsed() > hang {
                    return Report {
                        evaluations: evals.load(Ordering::Relaxed),
                        skipped: skips.load(Ordering::Relaxed),
                        distinct_nontrivial: seen.lock().unwrap().len() as u64,
                        fixed: nfixed,
                        samples: samples.lock().unwrap().clone(),
                        failures: vec![(c, format!("did not return within {} s", hang.as_secs()))],
                        wall: start.elapsed().as_secs_f64(),
                    };
                }
            }
        }
    }
    let mut fails = failures.lock().unwrap().clone();
    for (c, m) in fails.iter_mut() {
        if !m.starts_with("KNOWN ") && !m.contains("did not return") {
            shrink(p, c, m);
        }
    }
    let d = seen.lock().unwrap().len() as u64;
    let s = samples.lock().unwrap().clone();
    Report {
        evaluations: evals.load(Ordering::Relaxed),
        skipped: skips.load(Ordering::Relaxed),
        distinct_nontrivial: d,
        fixed: nfixed,
        samples: s,
        failures: fails,
        wall: start.elapsed().as_secs_f64(),
    }
}

/// greedy deletion of lines / characters of the fields, keeping any failure
fn shrink(p: &Prop, c: &mut Case, m: &mut String) {
    let t0 = Instant::now();
    let mut progress = true;
    while progress && t0.elapsed() < Duration::from_secs(8) {
        progress = false;
        for i in 0..c.len() {
            let chars: Vec<char> = c[i].chars().collect();
            let mut chunk = (chars.len() / 2).max(1);
            let mut cur = chars;
            loop {
                let mut k = 0;
                while k < cur.len() && t0.elapsed() < Duration::from_secs(8) {
                    let e = (k + chunk).min(cur.len());
                    let mut cand = cur.clone();
                    cand.drain(k..e);
                    let mut cc = c.clone();
                    cc[i] = cand.iter().collect();
                    if let Outcome::Fail(mm) = run_check(p, &cc) {
                        *c = cc;
                        *m = mm;
                        cur = cand;
                        progress = true;
                    } else {
                        k = e;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('x') => {
                let h: String = [it.next().unwrap(), it.next().unwrap()].iter().collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
/// one line identifying a case
pub fn encode_case(c: &Case) -> String {
    c.iter().map(|s| esc(s).replace('|', "\\x7c")).collect::<Vec<_>>().join("|")
}
pub fn decode_case(l: &str) -> Case {
    l.split('|').map(unesc).collect()
}
pub fn encode(id: &str, c: &Case, detail: &str) -> String {
    let mut s = format!("property: {id}\ncase: {}\ndetail: {}\n", encode_case(c), esc(detail));
    for (i, f) in c.iter().enumerate() {
        s.push_str(&format!("--- field {i}\n{f}\n"));
    }
    s
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// literals of the code under test, so that generated text can hit what it compares against
static DICT: std::sync::OnceLock<(Vec<String>, Vec<usize>)> = std::sync::OnceLock::new();
pub fn dict() -> &'static (Vec<String>, Vec<usize>) {
    DICT.get_or_init(|| {
        let mut s = vec![];
        let mut n = vec![];
        if let Some(t) = std::env::var_os("VH_DICT").and_then(|f| std::fs::read_to_string(f).ok()) {
            for l in t.lines() {
                if let Some(x) = l.strip_prefix("s ") {
                    s.push(unesc(x));
                } else if let Some(x) = l.strip_prefix("n ").and_then(|x| x.parse().ok()) {
                    n.push(x);
                }
            }
        }
        (s, n)
    })
}
impl Rng {
    /// sometimes put a literal of the code under test into `s`, or make it about as long as one of its numbers
    pub fn salt(&mut self, s: &mut String) {
        let (ds, dn) = dict();
        let at = |r: &mut Rng, s: &str| {
            let b: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            *r.pick(&b)
        };
        if !ds.is_empty() && self.chance(1, 6) {
            for _ in 0..self.range(1, 2) {
                let p = at(self, s);
                s.insert_str(p, self.pick(ds).as_str());
            }
        }
        if self.chance(1, 40) {
            let mut ns: Vec<usize> = dn.iter().copied().filter(|n| (3..=1100).contains(n)).collect();
            ns.extend([16, 64, 256]);
            let n = (*self.pick(&ns) + self.below(4)).saturating_sub(2 + s.len());
            let p = at(self, s);
            let u = *self.pick(&["a", "a", "x", "é", " "]);
            s.insert_str(p, &u.repeat(n / u.len() + 1));
        }
    }
    /// a number at or near one of the code under test
    pub fn dnum(&mut self) -> usize {
        let dn = &dict().1;
        if dn.is_empty() { self.below(20) } else { (*self.pick(dn)).wrapping_add(self.below(4)).wrapping_sub(2) }
    }
}

/// A directory of its own, removed when dropped.
pub struct Scratch(std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::path::PathBuf::from(base).join(format!("vh{}_{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p.canonicalize().unwrap())
    }
    pub fn root(&self) -> &std::path::Path {
        &self.0
    }
    pub fn path(&self, rel: &str) -> std::path::PathBuf {
        self.0.join(rel)
    }
    pub fn write(&self, rel: &str, text: &str) {
        let p = self.path(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
