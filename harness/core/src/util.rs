//! Case generation and reporting, shared by all executable contracts.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

/// splitmix64: every random choice of a case comes from one of these.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub struct Ctx {
    pub seed: u64,
    pub worker: u64,
    deadline: Instant,
    only: Option<u64>,
    case: u64,
    pub evaluations: u64,
    pub distinct: BTreeSet<u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub scratch: PathBuf,
    progress: Option<std::fs::File>,
    pub stats: std::collections::BTreeMap<String, u64>,
}

impl Ctx {
    /// From the command line: PROP SEED WORKER SECONDS OUT SCRATCH [CASE]
    pub fn from_args() -> (String, String, Ctx) {
        let a: Vec<String> = std::env::args().collect();
        let c = Ctx {
            seed: a[2].parse().unwrap(),
            worker: a[3].parse().unwrap(),
            deadline: Instant::now() + Duration::from_secs_f64(a[4].parse().unwrap()),
            only: a.get(7).map(|x| x.parse().unwrap()),
            case: 0,
            evaluations: 0,
            distinct: BTreeSet::new(),
            samples: vec![],
            violations: vec![],
            scratch: PathBuf::from(&a[6]),
            progress: std::fs::File::create(format!("{}.progress", a[5])).ok(),
            stats: Default::default(),
        };
        (a[1].clone(), a[5].clone(), c)
    }

    pub fn finish(self, out: &str) {
        let distinct: Vec<String> = self.distinct.iter().map(|x| format!("{x:x}")).collect();
        let j = json!({"evaluations": self.evaluations, "distinct": distinct,
            "samples": self.samples, "violations": self.violations, "cases": self.case, "stats": self.stats});
        std::fs::write(out, j.to_string()).unwrap();
    }

    #[allow(dead_code)]
    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.into()).or_default() += 1;
    }

    /// One comparison of the real code against the contract's oracle.
    pub fn eval(&mut self, nontrivial: Option<u64>) {
        self.evaluations += 1;
        if let Some(h) = nontrivial {
            if self.distinct.len() < 200_000 {
                self.distinct.insert(h);
            }
        }
    }

    pub fn violation(&mut self, key: &str, what: String, input: Value) {
        if self.violations.len() < 20 && !self.violations.iter().any(|v| v["key"] == key) {
            self.violations.push(json!({"key": key, "what": what, "input": input, "seed": self.seed, "worker": self.worker, "case": self.case}));
        }
    }

    /// Run cases until the time is up; a panic of the code under test is a violation.
    pub fn run(&mut self, mut f: impl FnMut(&mut Ctx, &mut Rng, u64)) {
        std::panic::set_hook(Box::new(|_| {}));
        loop {
            let n = match self.only {
                Some(c) if self.case > 0 => {
                    let _ = c;
                    return;
                }
                Some(c) => c,
                None => self.case + 1,
            };
            if self.only.is_none() && Instant::now() > self.deadline {
                return;
            }
            self.case = n;
            if let Some(f) = &self.progress {
                // read by the driver when a case kills or hangs the worker
                use std::os::unix::fs::FileExt;
                let _ = f.write_all_at(format!("{n:020}").as_bytes(), 0);
            }
            let mut rng = Rng(self.seed.wrapping_mul(1_000_003) ^ (self.worker << 40) ^ n.wrapping_mul(0x9E37_79B9));
            rng.next();
            let r = catch_unwind(AssertUnwindSafe(|| f(self, &mut rng, n)));
            if let Err(e) = r {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.violation("panic", format!("panic: {m}"), json!({"case": n}));
            }
        }
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
