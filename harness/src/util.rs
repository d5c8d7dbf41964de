//! Small shared helpers: RNG, panic capture, fixed point, reporting.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const ONE: i128 = 1_000_000_000_000; // 1.0 at the pool's compute scale

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(
            seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03,
            stream.wrapping_mul(0xBF58476D1CE4E5B9) ^ 0x94D049BB133111EB,
        );
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let out = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        if self.0 == 0 && self.1 == 0 {
            self.0 = 1;
        }
        out ^ (out >> 29)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    /// u128 with a uniformly chosen bit length in 0..=maxbits
    pub fn u128_bits(&mut self, maxbits: u32) -> u128 {
        let b = self.below(maxbits as u64 + 1) as u32;
        if b == 0 {
            return 0;
        }
        let v = self.u128() >> (128 - b);
        v | (1u128 << (b - 1))
    }
    /// log-uniform float in [a,b]
    pub fn logf(&mut self, a: f64, b: f64) -> f64 {
        (a.ln() + self.f() * (b.ln() - a.ln())).exp()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

thread_local! { pub static OVERFLOWS: RefCell<Vec<String>> = RefCell::new(vec![]); }
thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if msg.starts_with("attempt to ") && (msg.contains("overflow")) && loc.contains("programs/hmmcl-sandbox/src") {
            OVERFLOWS.with(|o| o.borrow_mut().push(format!("{} @ {}", msg, loc)));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", msg, loc));
    }));
}

/// Run the code under test; a panic becomes Err(message).
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn fx(v: f64) -> i128 {
    // whole units exactly, however large
    (v.trunc() as i128) * ONE + (v.fract() * 1e12).round() as i128
}
pub fn ff(v: i128) -> f64 {
    (v / ONE) as f64 + (v % ONE) as f64 / 1e12
}

pub fn hash64(x: &[i128]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for v in x {
        for b in v.to_le_bytes().iter() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub class: String,
    pub trace: Vec<String>,
    pub scenario: u64,
}

/// What the monitors of one property observed.
pub struct Cov {
    pub evaluations: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub max: BTreeMap<String, f64>,
    pub nviol: u64,
    /// candidate known findings: stable key -> what fails
    pub findings: BTreeMap<String, String>,
}
impl Cov {
    pub fn new() -> Cov {
        Cov {
            evaluations: 0,
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            max: BTreeMap::new(),
            nviol: 0,
            findings: BTreeMap::new(),
        }
    }
    /// one oracle evaluation of the given kind
    pub fn eval(&mut self, kind: &str) {
        self.evaluations += 1;
        self.count(kind);
    }
    pub fn count(&mut self, kind: &str) {
        if let Some(c) = self.counts.get_mut(kind) {
            *c += 1;
        } else {
            self.counts.insert(kind.to_string(), 1);
        }
    }
    pub fn state(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            self.samples.push(s());
        }
    }
    pub fn maxv(&mut self, k: &str, v: f64) {
        let e = self.max.entry(k.to_string()).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    pub fn fail(&mut self, class: &str, what: String, trace: &[String], scenario: u64) {
        self.count(&format!("VIOLATION:{}", class));
        self.nviol += 1;
        if self.violations.iter().filter(|v| v.class == class).count() < 4 {
            self.violations.push(Violation {
                what,
                class: class.to_string(),
                trace: trace.to_vec(),
                scenario,
            });
        }
    }
    pub fn merge(&mut self, o: Cov) {
        self.evaluations += o.evaluations;
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for h in o.distinct {
            self.distinct.insert(h);
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.nviol += o.nviol;
        for (k, v) in o.findings {
            self.findings.entry(k).or_insert(v);
        }
        for v in o.violations {
            self.violations.push(v);
        }
        for (k, v) in o.max {
            let e = self.max.entry(k).or_insert(v);
            if v > *e {
                *e = v;
            }
        }
    }
}
