//! Findings and statistics of a run.

use crate::json::J;
use std::collections::{BTreeMap, HashMap};

#[derive(Default)]
pub struct Report {
    pub counts: BTreeMap<String, u64>,
    pub findings: Vec<J>,
    pub total_findings: u64,
    pub samples: Vec<J>,
    /// outputs by value, to notice values that recur in unrelated runs
    pub values: HashMap<Vec<u8>, String>,
    /// known findings met, with an example
    pub known: BTreeMap<String, String>,
    /// facts seen, as a plain set
    pub facts: std::collections::BTreeSet<String>,
}

pub const MAX_FINDINGS: usize = 8;

impl Report {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn finding(&mut self, f: J) {
        self.total_findings += 1;
        if self.findings.len() < MAX_FINDINGS {
            self.findings.push(f);
        }
    }
    pub fn sample(&mut self, s: J) {
        if self.samples.len() < 3 {
            self.samples.push(s);
        }
    }
    pub fn merge(&mut self, o: Report) {
        for (k, n) in o.counts {
            self.add(&k, n);
        }
        for f in o.findings {
            if self.findings.len() < MAX_FINDINGS {
                self.findings.push(f);
            }
        }
        self.total_findings += o.total_findings;
        for s in o.samples {
            self.sample(s);
        }
        self.facts.extend(o.facts);
        for (k, v) in o.known {
            self.known.entry(k).or_insert(v);
        }
        for (v, w) in o.values {
            if let Some(old) = self.values.insert(v.clone(), w.clone()) {
                self.finding(crate::obj! {"what" => vec![format!("{} in unrelated sessions: {old}; {w}", hex(&v))]});
            }
        }
    }
    pub fn json(&self) -> J {
        J::Obj(vec![
            (
                "counts".into(),
                J::Obj(self.counts.iter().map(|(k, n)| (k.clone(), J::Num(*n as i64))).collect()),
            ),
            ("findings".into(), J::Arr(self.findings.clone())),
            ("total_findings".into(), J::Num(self.total_findings as i64)),
            ("samples".into(), J::Arr(self.samples.clone())),
            ("known".into(), J::Obj(self.known.iter().map(|(k, v)| (k.clone(), J::Str(v.clone()))).collect())),
        ])
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// long byte strings shortened for reading
pub fn hexs(b: &[u8]) -> String {
    if b.len() > 400 {
        format!("{}..({} bytes)", hex(&b[..64]), b.len())
    } else {
        hex(b)
    }
}
