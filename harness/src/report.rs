use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::fs::FileExt;
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What a worker is executing right now (for hangs and crashes of the code under test).
pub struct Slot {
    pub id: usize,
    pub state: Mutex<Option<(Instant, usize, bool, String)>>,
    pub progress: Option<std::fs::File>,
}

/// What one check explored and what it found.
#[derive(Default)]
pub struct Report {
    pub counts: BTreeMap<String, u64>,
    pub violations: Vec<Value>,
    pub violation_count: u64,
    pub samples: Vec<Value>,
    pub foreign: u64,
    pub trace: Vec<Value>,
    pub slot: Option<Arc<Slot>>,
    pub line: usize,
}

impl Report {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    /// about to run code under test; own: a failure belongs to the property checked
    pub fn enter(&self, own: bool, what: &str) {
        if let Some(s) = &self.slot {
            *s.state.lock().unwrap() = Some((Instant::now(), self.line, own, what.to_string()));
            if let Some(f) = &s.progress {
                let mut t = format!("{} {} {}", self.line, own as u8, what);
                t.truncate(62);
                let _ = f.write_all_at(format!("{t:<63}\n").as_bytes(), 64 * s.id as u64);
            }
        }
    }
    pub fn merge(&mut self, o: Report) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.violation_count += o.violation_count;
        self.foreign += o.foreign;
        for v in o.violations {
            if self.violations.len() < 400 {
                self.violations.push(v);
            }
        }
        for s in o.samples {
            if self.samples.len() < 5 {
                self.samples.push(s);
            }
        }
        self.trace.extend(o.trace);
    }
    /// key: names the kind of failure (and, for known findings, the exact call);
    /// input: everything needed to reproduce it
    pub fn violation(&mut self, prop: &str, key: String, detail: String, input: Value) {
        self.violation_count += 1;
        if self.violations.len() < 50 {
            self.violations
                .push(json!({"property": prop, "key": key, "detail": detail, "input": input, "behaviour": self.line}));
        }
    }
    pub fn to_json(&self) -> Value {
        json!({"counts": self.counts, "violations": self.violations,
               "violation_count": self.violation_count, "foreign": self.foreign,
               "samples": self.samples})
    }
}
