//! Case runner: deterministic cases, counters, panic interception, shards.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn u128(&mut self) -> u128 {
        (u128::from(self.u64()) << 64) | u128::from(self.u64())
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn byte(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.us(s.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn h64(t: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: Vec<String>,
    pub replaying: bool, // kept for cases that want to say more
}
impl Ctx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    /// a non-trivial case, by content
    pub fn seen(&mut self, t: &impl Hash) {
        let h = h64(t);
        self.seen.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 400 {
                let mut n = 400;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
}

pub struct Kind {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx, &mut Rng, u64) -> R,
}
pub const fn kind(
    name: &'static str,
    quick: u64,
    thorough: u64,
    f: fn(&mut Ctx, &mut Rng, u64) -> R,
) -> Kind {
    Kind { name, quick, thorough, f }
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            *p = Some((loc, msg));
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone()).map_or_else(String::new, |(l, m)| format!("panicked at {l}: {m}"))
}

/// Run code under test, turning a panic into None.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub enum Outcome {
    Ok,
    Violation(String),
    Harness(String),
}

pub fn case_rng(seed: u64, prop: &str, kind: &str, idx: u64) -> Rng {
    Rng(mix(seed ^ mix(h64(&(prop, kind)) ^ mix(idx.wrapping_add(0x1234_5678)))))
}

pub fn run_case(ctx: &mut Ctx, prop: &str, k: &Kind, idx: u64, seed: u64) -> Outcome {
    let mut rng = case_rng(seed, prop, k.name, idx);
    ctx.evals += 1;
    match catch_unwind(AssertUnwindSafe(|| (k.f)(ctx, &mut rng, idx))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Violation(e),
        Err(p) => {
            if let Some(f) = p.downcast_ref::<crate::model::RepoFault>() {
                return Outcome::Violation(f.0.clone());
            }
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/verif/") {
                Outcome::Harness(format!("harness panicked at {loc}: {msg}"))
            } else {
                Outcome::Violation(format!("panicked at {loc}: {msg}"))
            }
        }
    }
}
