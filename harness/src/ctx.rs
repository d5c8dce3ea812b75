//! What a check counts, and how it reports.

use crate::rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violation: `sig` identifies what failed (for the list of known findings), `msg` is the witness.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
    /// The check could not do its work (never a violation)
    pub harness: bool,
}
impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { sig: String::new(), msg, harness: false }
    }
}
impl From<&str> for Fail {
    fn from(m: &str) -> Fail {
        m.to_string().into()
    }
}
pub fn broken(m: impl Into<String>) -> Fail {
    Fail { sig: String::new(), msg: m.into(), harness: true }
}
pub type R<T = ()> = Result<T, Fail>;

pub struct Ctx {
    pub tier: Tier,
    pub prop: &'static str,
    pub seed: u64,
    pub case: u64,
    pub verbose: bool,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub scratch: PathBuf,
    case_sample: bool,
    /// Outcomes, compared between builds
    pub digests: Option<Vec<(u64, String)>>,
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64, scratch: PathBuf) -> Ctx {
        Ctx {
            tier,
            prop,
            seed,
            case: 0,
            verbose: false,
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            scratch,
            case_sample: false,
            digests: None,
        }
    }
    pub fn begin(&mut self, case: u64) -> Rng {
        self.case = case;
        self.case_sample = false;
        Rng::new(mix(self.seed) ^ mix(hash_bytes(self.prop.as_bytes())).rotate_left(17) ^ mix(case.wrapping_mul(0x1234_5678_9abc_def1)))
    }
    pub fn add(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(name.into(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let m = self.maxima.entry(name.into()).or_default();
        *m = (*m).max(n);
    }
    pub fn digest(&mut self, f: impl FnOnce() -> String) {
        let c = self.case;
        if let Some(d) = &mut self.digests {
            d.push((c, f()));
        }
    }
    /// One execution judged by the oracle.
    pub fn eval(&mut self) {
        self.add("evaluations", 1);
    }
    /// Records a non-trivial case under its content hash.
    pub fn nontrivial(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 && !self.case_sample {
            self.case_sample = true;
            let mut s = f();
            if s.len() > 700 {
                let mut n = 700;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(format!("case {}: {s}", self.case));
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Writes a scratch file for this shard.
    pub fn file(&self, name: &str, data: &[u8]) -> R<PathBuf> {
        let p = self.scratch.join(name);
        std::fs::write(&p, data).map_err(|e| broken(format!("scratch file: {e}")))?;
        Ok(p)
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::ctx::Fail::from(format!($($a)*))); } };
}
