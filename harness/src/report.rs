//! Result of one monitor run, written as JSON for the driver.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

use serde_json::{json, Value as Json};

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Json>,
    pub violations: Vec<Json>,
    pub inconclusive: Vec<String>,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Report {
    pub fn new() -> Report {
        Report::default()
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// One evaluated case; the hash identifies it among the distinct non-trivial ones
    pub fn case(&mut self, h: Option<u64>) {
        self.evaluations += 1;
        if let Some(h) = h {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, j: Json) {
        if self.samples.len() < 6 {
            self.samples.push(j);
        }
    }
    /// `sig` names the failure independently of the seed
    pub fn violation(&mut self, sig: &str, detail: String, replay: Json) {
        let mut d = detail;
        if d.len() > 4000 {
            let mut n = 4000;
            while !d.is_char_boundary(n) {
                n -= 1;
            }
            d.truncate(n);
        }
        eprintln!("violation [{}]: {}", sig, d);
        self.violations.push(json!({"sig": sig, "detail": d, "replay": replay}));
    }
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            self.sample(s);
        }
        self.violations.extend(o.violations);
        self.inconclusive.extend(o.inconclusive);
    }
    pub fn write(&self, path: &str, rule: &str) {
        let j = json!({
            "evaluations": self.evaluations,
            "distinct": self.distinct.len(),
            "rule": rule,
            "counters": self.counters,
            "samples": self.samples,
            "violations": self.violations,
            "inconclusive": self.inconclusive,
        });
        std::fs::write(path, serde_json::to_string_pretty(&j).unwrap()).expect("writing the report");
    }
}

/// `--name value` arguments
pub struct Args(pub BTreeMap<String, String>);

impl Args {
    pub fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            let k = a.trim_start_matches("--").to_string();
            m.insert(k, it.next().unwrap_or_default());
        }
        Args(m)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn str(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| panic!("missing --{}", k))
    }
    pub fn num(&self, k: &str, default: u64) -> u64 {
        self.get(k).map_or(default, |v| v.parse().expect("number"))
    }
}
