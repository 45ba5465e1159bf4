//! Shared machinery: PRNG, monitor (counters, evidence, violations, progress), panic capture.
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo) as u64 + 1)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone)]
pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub only: Option<u64>,
    pub from: u64,
    pub scale: f64,
    pub out: Option<String>,
    pub log: Option<String>,
    pub progress: Option<String>,
    pub budget_s: f64,
    pub rest: Vec<String>,
}

impl Args {
    pub fn parse() -> Args {
        let mut it = std::env::args().skip(1);
        let prop = it.next().expect("usage: vh <property> [options]");
        let mut a = Args {
            prop,
            seed: 1,
            thorough: false,
            shard: 0,
            shards: 1,
            only: None,
            from: 0,
            scale: 1.0,
            out: None,
            log: None,
            progress: None,
            budget_s: 1e9,
            rest: vec![],
        };
        while let Some(x) = it.next() {
            let mut v = || it.next().expect("option value");
            match x.as_str() {
                "--seed" => a.seed = v().parse().unwrap(),
                "--tier" => a.thorough = v() == "thorough",
                "--shard" => {
                    let s = v();
                    let (k, n) = s.split_once('/').unwrap();
                    a.shard = k.parse().unwrap();
                    a.shards = n.parse().unwrap();
                }
                "--only" => a.only = Some(v().parse().unwrap()),
                "--from" => a.from = v().parse().unwrap(),
                "--scale" => a.scale = v().parse().unwrap(),
                "--out" => a.out = Some(v()),
                "--log" => a.log = Some(v()),
                "--progress" => a.progress = Some(v()),
                "--budget" => a.budget_s = v().parse().unwrap(),
                _ => a.rest.push(x),
            }
        }
        a
    }
}

/// The monitor of one worker process.
pub struct Mon {
    pub args: Args,
    pub index: u64,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    pub violations: Vec<Value>,
    progress: Option<std::fs::File>,
    log: Option<std::io::BufWriter<std::fs::File>>,
    start: std::time::Instant,
    pub truncated: bool,
}

impl Mon {
    pub fn new(args: Args) -> Mon {
        let progress = args
            .progress
            .as_ref()
            .map(|p| std::fs::OpenOptions::new().create(true).write(true).open(p).unwrap());
        let log = args
            .log
            .as_ref()
            .map(|p| std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(p).unwrap()));
        Mon {
            args,
            index: 0,
            evaluations: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            progress,
            log,
            start: std::time::Instant::now(),
            truncated: false,
        }
    }

    /// Runs `f` on every case index of this shard; each case has its own generator, so a case can
    /// be replayed alone.
    pub fn cases<F: FnMut(&mut Mon, &mut Rng)>(&mut self, tag: &str, quick: u64, thorough: u64, mut f: F) {
        let base = if self.args.thorough { thorough } else { quick };
        let n = ((base as f64) * self.args.scale).ceil() as u64;
        let tagh = hash_of(&tag);
        let offset = tagh << 40;
        if let Some(only) = self.args.only {
            if (only >> 40) << 40 != offset {
                return;
            }
            self.one(only, tagh, &mut f);
            return;
        }
        let mut k = self.args.shard;
        while k < n {
            let idx = offset | k;
            if self.violations.len() >= 20 {
                break;
            }
            if k % 64 == self.args.shard % 64 && self.start.elapsed().as_secs_f64() > self.args.budget_s {
                self.truncated = true;
                break;
            }
            self.one(idx, tagh, &mut f);
            k += self.args.shards;
        }
    }

    fn one<F: FnMut(&mut Mon, &mut Rng)>(&mut self, idx: u64, tagh: u64, f: &mut F) {
        self.index = idx;
        if let Some(p) = &self.progress {
            let _ = p.write_all_at(&idx.to_le_bytes(), 0);
        }
        let mut rng = Rng::new(mix(mix(self.args.seed, tagh), idx));
        f(self, &mut rng);
    }

    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn distinct<T: Hash>(&mut self, t: &T) {
        self.distinct.insert(hash_of(t));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 4 && (self.evaluations % 97 == 1 || self.samples.is_empty()) {
            let v = f();
            self.samples.push(v);
        }
    }
    pub fn log(&mut self, v: Value) {
        if let Some(l) = &mut self.log {
            let _ = writeln!(l, "{}", v);
        }
    }
    /// Reports a violation; `sig` identifies the failing input or call site exactly.
    pub fn violation(&mut self, sig: impl Into<String>, detail: Value) {
        let v = json!({"sig": sig.into(), "index": self.index, "detail": detail});
        self.violations.push(v);
    }
    pub fn finish(mut self) {
        if let Some(l) = &mut self.log {
            l.flush().unwrap();
        }
        let out = json!({
            "evaluations": self.evaluations,
            "counters": self.counters,
            "distinct": self.distinct.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>().len(),
            "samples": self.samples,
            "violations": self.violations,
            "truncated": self.truncated,
        });
        if let Some(p) = &self.args.out {
            std::fs::write(p, out.to_string()).unwrap();
            // the hashes go beside it so that shards can be merged
            let mut b = Vec::with_capacity(self.distinct.len() * 8);
            for h in &self.distinct {
                b.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(format!("{}.distinct", p), b).unwrap();
        } else {
            println!("{}", serde_json::to_string_pretty(&out).unwrap());
        }
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// What one evaluation was seen to do.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Ok(String),
    Err(prexel::error::ErrorKind, String),
    Panic(String),
}

impl Out {
    pub fn of<N: std::fmt::Display>(r: Result<Result<N, prexel::error::Error>, String>) -> Out {
        match r {
            Ok(Ok(n)) => Out::Ok(n.to_string()),
            Ok(Err(e)) => Out::Err(e.kind(), e.to_string()),
            Err(p) => Out::Panic(p),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ok(s) => format!("Ok({})", s),
            Out::Err(k, s) => format!("Err({:?}: {})", k, s),
            Out::Panic(s) => format!("PANIC({})", s),
        }
    }
    /// Same value, or both errors.
    pub fn same_outcome(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Ok(a), Out::Ok(b)) => a == b,
            (Out::Err(..), Out::Err(..)) => true,
            _ => false,
        }
    }
}
