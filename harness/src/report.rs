use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};

/// What a monitor observed in one process; merged and judged by /verif/check.
pub struct Report {
    pub prop: String,
    pub out: Option<String>,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub known_seen: BTreeMap<String, u64>,
    pub inconclusive: Vec<String>,
    sigs: BTreeMap<String, u64>,
    sample_kinds: BTreeMap<String, u64>,
}

/// Panics that no monitor catches are reported with their location, so that the driver can tell a
/// panic of the code under test from one of the harness.
pub fn hook() {
    let quiet = std::env::var("VH_VERBOSE").is_err();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if !quiet || loc.contains("harness/src") || loc.contains("/verif/") {
            eprintln!("VH-PANIC {loc}: {msg}");
        }
        if let Ok(o) = std::env::var("VH_OUT") {
            let _ = std::fs::write(format!("{o}.panic"), format!("{loc}: {msg}"));
        }
    }));
}

impl Report {
    pub fn new(prop: &str) -> Self {
        Report {
            prop: prop.to_string(),
            out: std::env::var("VH_OUT").ok(),
            evaluations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            known_seen: BTreeMap::new(),
            inconclusive: Vec::new(),
            sigs: BTreeMap::new(),
            sample_kinds: BTreeMap::new(),
        }
    }
    pub fn thorough() -> bool {
        std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
    }
    /// Scales a work amount with the tier.
    pub fn scale(quick: usize, thorough: usize) -> usize {
        if Self::thorough() { thorough } else { quick }
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    /// Records one evaluated case; `key` identifies it, `nontrivial` by the property's rule.
    pub fn case(&mut self, key: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(crate::hash(key));
        }
    }
    pub fn sample(&mut self, kind: &str, v: impl FnOnce() -> Value) {
        let n = self.sample_kinds.entry(kind.to_string()).or_default();
        if *n < 2 && self.samples.len() < 16 {
            *n += 1;
            let v = v();
            let mut t = v.to_string();
            if t.len() > 1500 {
                let mut n = 1500;
                while !t.is_char_boundary(n) { n -= 1; }
                t.truncate(n);
                self.samples.push(json!({"kind": kind, "case_truncated": t}));
            } else {
                self.samples.push(json!({"kind": kind, "case": v}));
            }
        }
    }
    /// `sig` identifies the specific failing input/site (used to match known findings).
    pub fn violation(&mut self, sig: &str, what: &str, detail: Value) {
        let n = self.sigs.entry(sig.to_string()).or_default();
        *n += 1;
        if *n == 1 && self.violations.len() < 200 {
            eprintln!("[{}] violation {sig}: {what}", self.prop);
            self.violations.push(json!({"sig": sig, "what": what, "detail": detail}));
        }
    }
    /// Tells the driver which case is in progress, in case the process dies.
    pub fn breadcrumb(&self, s: &str) {
        if let Some(o) = &self.out {
            let _ = std::fs::write(format!("{o}.crumb"), s);
        }
    }
    pub fn inconclusive(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.inconclusive.len() < 50 {
            self.inconclusive.push(s);
        }
    }
    pub fn finish(self) {
        let v = json!({
            "prop": self.prop,
            "evaluations": self.evaluations,
            "distinct": self.distinct.len(),
            "counters": self.counters,
            "samples": self.samples,
            "violations": self.violations,
            "violation_counts": self.sigs,
            "inconclusive": self.inconclusive,
        });
        match self.out {
            Some(o) => std::fs::write(o, serde_json::to_string(&v).unwrap()).unwrap(),
            None => println!("{}", serde_json::to_string_pretty(&v).unwrap()),
        }
    }
}
