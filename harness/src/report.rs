//! Cases, verdicts, counters.
use crate::rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashSet};

/// Panic payload of a monitor inside a source, sink or executor.
pub struct Violated(pub String);
/// Panic payload for trouble of the sandbox, not of the code under test.
pub struct Infra(pub String);

pub type Verdict = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// What a property check does: numbered cases, each a deterministic function of (seed, index).
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub cases: fn(Tier) -> u64,
    /// Wall seconds after which no further case is started.
    pub budget: fn(Tier) -> u64,
    pub threads: usize,
    pub run: fn(&mut Case) -> Verdict,
    /// Counters that must be positive after a run: the monitors really observed these events.
    pub must_observe: &'static [&'static str],
    pub exhaustive: bool,
}

pub struct Case {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
    pub rng: Rng,
    pub stats: Stats,
    pub verbose: bool,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(u64, String)>,
    pub findings: BTreeMap<String, String>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        self.samples.sort();
        self.samples.truncate(12);
        for (k, v) in o.findings {
            self.findings.entry(k).or_insert(v);
        }
    }
}

impl Case {
    pub fn new(prop: &'static str, tier: Tier, seed: u64, idx: u64) -> Case {
        let rng = Rng::new(mix(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ hash_bytes(prop.as_bytes())) ^ mix(idx + 1));
        Case { prop, tier, seed, idx, rng, stats: Stats::default(), verbose: false }
    }
    /// One evaluation of the property's oracle.
    pub fn evals(&mut self, n: u64) {
        self.stats.evaluations += n;
    }
    pub fn eval(&mut self) {
        self.stats.evaluations += 1;
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.stats.counters.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.stats.maxima.entry(k).or_default();
        *e = (*e).max(n);
    }
    /// Registers a non-trivial case under a key; distinct keys are counted.
    pub fn distinct(&mut self, key: &[u8]) {
        self.stats.distinct.insert(hash_bytes(key));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.stats.samples.len() < 3 {
            let t: String = s().chars().take(600).collect();
            self.stats.samples.push((self.idx, t));
        }
    }
    pub fn say(&self, s: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("  [{} #{}] {}", self.prop, self.idx, s());
        }
    }
    /// A violation with an identity that may be listed as a known finding.
    pub fn finding(&mut self, id: &str, what: String) -> Verdict {
        if crate::known_findings(self.prop).iter().any(|k| k == id) {
            self.stats.findings.entry(id.to_string()).or_insert(what);
            Ok(())
        } else {
            Err(format!("{id}: {what}"))
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c { return Err(format!($($t)*)); }
    };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
