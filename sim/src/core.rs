//! Simulation core: choice tape, per-run context, violations, tape minimiser.
//!
//! Every source of nondeterminism in a run (generated data, scheduling,
//! fault placement) is drawn from one `Tape`.  In generation mode the tape is
//! fed by a seeded PRNG and records each draw; in replay mode it returns the
//! recorded draws (0 past the end).  One seed is therefore one execution, and
//! a replay file is simply the (minimised) list of draws.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};

/// splitmix64 step, used for seed derivation and hashing.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

/// xoshiro256** PRNG.
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            mix(s)
        };
        Rng([n(), n(), n(), n()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub enum Source {
    Gen(Rng),
    Replay(Vec<u64>),
}

pub struct Tape {
    src: Source,
    pub choices: Vec<u64>,
}

impl Tape {
    pub fn generate(seed: u64) -> Self {
        Tape { src: Source::Gen(Rng::new(seed)), choices: Vec::new() }
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Tape { src: Source::Replay(c), choices: Vec::new() }
    }
    /// Draw in `0..n` (n ≥ 1; n == 0 means the full u64 range).
    pub fn draw(&mut self, n: u64) -> u64 {
        let pos = self.choices.len();
        let raw = match &mut self.src {
            Source::Gen(r) => {
                let x = r.next();
                if n == 0 {
                    x
                } else {
                    ((x as u128 * n as u128) >> 64) as u64
                }
            }
            Source::Replay(v) => {
                let x = v.get(pos).copied().unwrap_or(0);
                if n == 0 {
                    x
                } else if x < n {
                    x
                } else {
                    x % n
                }
            }
        };
        self.choices.push(raw);
        if LOGGING.load(std::sync::atomic::Ordering::Relaxed) {
            use std::io::Write;
            if let Some(f) = TAPE_LOG.lock().unwrap().as_mut() {
                let _ = writeln!(f, "{raw}");
            }
        }
        raw
    }
}

static LOGGING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static TAPE_LOG: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);

/// Write every draw to a file as it is made (to recover the tape of a run that aborts).
pub fn log_tape_to(path: &str) {
    *TAPE_LOG.lock().unwrap() = std::fs::File::create(path).ok();
    LOGGING.store(true, std::sync::atomic::Ordering::Relaxed);
}

/// A violated property, identified by a stable kind and described by a message.
#[derive(Debug, Clone)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! viol {
    ($kind:expr, $($a:tt)*) => {
        return Err($crate::core::Viol { kind: $kind.to_string(), msg: format!($($a)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $kind:expr, $($a:tt)*) => {
        if !($c) {
            return Err($crate::core::Viol { kind: $kind.to_string(), msg: format!($($a)*) });
        }
    };
}

/// Per-run simulation context.
pub struct Sim {
    tape: Tape,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub trace_hash: u64,
    pub states: HashSet<u64>,
    pub sim_ns: u64,
    pub checks: u64,
    pub tier_thorough: bool,
}

impl Sim {
    pub fn new(tape: Tape, thorough: bool) -> Self {
        Sim {
            tape,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            trace: Vec::new(),
            trace_hash: 0,
            states: HashSet::new(),
            sim_ns: 0,
            checks: 0,
            tier_thorough: thorough,
        }
    }
    pub fn choices(&self) -> &[u64] {
        &self.tape.choices
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.tape.draw(n)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive integer range.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(hi >= lo);
        let n = (hi - lo) as u64 + 1;
        lo + self.tape.draw(n) as i64
    }
    pub fn u64(&mut self) -> u64 {
        self.tape.draw(0)
    }
    /// True with probability num/den; false is the "simplest" draw.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let d = self.tape.draw(den);
        d >= den - num.min(den)
    }
    pub fn unit(&mut self) -> f64 {
        self.tape.draw(1 << 53) as f64 / (1u64 << 53) as f64
    }
    pub fn f64(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// Value on a decimal grid: k * 10^-dec with lo ≤ k·10^-dec ≤ hi.
    pub fn grid(&mut self, lo: f64, hi: f64, dec: i32) -> f64 {
        let s = 10f64.powi(dec);
        let k = self.int((lo * s).ceil() as i64, (hi * s).floor() as i64);
        // Parse the decimal text so that the value is the nearest double.
        format!("{}e-{}", k, dec).parse().unwrap()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, i - j.min(i));
        }
    }
    /// Standard normal (Box-Muller).
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (std::f64::consts::TAU * v).cos()
    }
    pub fn ident(&mut self, min: usize, max: usize, alphabet: &str) -> String {
        let n = self.int(min as i64, max as i64) as usize;
        let a: Vec<char> = alphabet.chars().collect();
        (0..n).map(|_| a[self.idx(a.len())]).collect()
    }
    pub fn fault(&mut self, name: &'static str) {
        *self.faults.entry(name).or_insert(0) += 1;
        self.h(name.as_bytes());
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn h(&mut self, b: &[u8]) {
        self.trace_hash = mix(self.trace_hash ^ hash_bytes(b));
    }
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.h(s.as_bytes());
        if self.trace.len() < 400 {
            self.trace.push(s);
        }
    }
    /// Record a reached (abstract) state for the distinct-states measure.
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
        self.h(&h.to_le_bytes());
    }
    pub fn advance(&mut self, ns: u64) {
        self.sim_ns = self.sim_ns.saturating_add(ns);
    }
    pub fn checked(&mut self) {
        self.checks += 1;
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
    pub static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".into());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if !IN_SIM.with(|c| c.get()) {
            eprintln!("panic outside simulation at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| ("?".into(), "panic".into()))
}

pub type Scenario = fn(&mut Sim) -> R;

pub struct Outcome {
    pub result: R,
    pub sim: Sim,
}

/// Execute one run of `f` over `tape`; panics become violations.
pub fn run_once(f: Scenario, tape: Tape, thorough: bool) -> Outcome {
    let mut sim = Sim::new(tape, thorough);
    crate::alloc::reset();
    IN_SIM.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut sim)));
    IN_SIM.with(|c| c.set(false));
    let result = match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = take_panic();
            let file = loc.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or(loc.clone());
            Err(Viol { kind: format!("panic@{file}"), msg: format!("panic at {loc}: {msg}") })
        }
    };
    Outcome { result, sim }
}

/// Run a closure that calls product code, turning a panic into an error string.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = take_panic();
            Err(Viol { kind: format!("panic:{what}"), msg: format!("{what}: panic at {loc}: {msg}") })
        }
    }
}

/// Greedy tape minimiser: keep a candidate iff `test` still fails with the same kind.
pub fn minimise(start: Vec<u64>, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>, budget: usize) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    loop {
        let before = best.clone();
        // 1. delete chunks, large to small
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                left -= 1;
                if let Some(used) = test(&c) {
                    best = trim(if used.len() < c.len() { used } else { c });
                } else {
                    i += size;
                }
            }
            if size == 1 || left == 0 {
                break;
            }
            size /= 2;
        }
        // 2. zero chunks, then single values
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    left -= 1;
                    if test(&c).is_some() {
                        best = c;
                    }
                }
                i += size;
            }
        }
        // 3. shrink values towards zero
        let mut i = 0;
        while i < best.len() && left > 0 {
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut tries = 0;
            while lo < hi && left > 0 && tries < 14 {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                left -= 1;
                tries += 1;
                if test(&c).is_some() {
                    best = c;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        best = trim(best);
        if best == before || left == 0 {
            return best;
        }
    }
}

fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
