//! Bookkeeping of one worker process: violations, counters, samples, and the line protocol
//! understood by check.py.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::PathBuf;

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub thorough: bool,
    pub tmp: PathBuf,
    pub splr: Option<PathBuf>,
    pub dmcr: Option<PathBuf>,
    pub dump: bool,
    /// text that describes the current case completely
    pub witness: String,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    new_hashes: Vec<u64>,
    samples: usize,
    pub evaluations: u64,
    pub violations: u64,
    failed_now: bool,
    began: std::time::Instant,
    pub inconclusive: u64,
}

pub fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

impl Cx {
    pub fn new(prop: &str, seed: u64, thorough: bool, tmp: PathBuf) -> Cx {
        Cx {
            prop: prop.to_string(),
            seed,
            index: 0,
            thorough,
            tmp,
            splr: None,
            dmcr: None,
            dump: false,
            witness: String::new(),
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            distinct: HashSet::new(),
            new_hashes: Vec::new(),
            samples: 0,
            evaluations: 0,
            violations: 0,
            failed_now: false,
            began: std::time::Instant::now(),
            inconclusive: 0,
        }
    }
    fn say(&self, s: &str) {
        let out = std::io::stdout();
        let mut o = out.lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.write_all(b"\n");
        let _ = o.flush();
    }
    pub fn begin(&mut self, index: u64) {
        self.index = index;
        self.failed_now = false;
        self.witness.clear();
        self.began = std::time::Instant::now();
        self.say(&format!("B {}", index));
    }
    pub fn end(&mut self) {
        let ms = self.began.elapsed().as_millis() as u64;
        self.maximum("slowest case in ms", ms);
        self.say(&format!("E {}", self.index));
        if self.dump {
            self.say(&format!("W {}", escape(&self.witness)));
        }
    }
    /// the property is violated; reported once per case
    pub fn fail(&mut self, msg: impl AsRef<str>) {
        if self.failed_now {
            return;
        }
        self.failed_now = true;
        self.violations += 1;
        let m: String = msg.as_ref().chars().take(2000).collect();
        self.say(&format!("V {} {}", self.index, escape(&m)));
        self.say(&format!("W {}", escape(&self.witness)));
    }
    /// what the present case is, told before it runs
    pub fn announce(&self) {
        if self.dump {
            self.say(&format!("P {}", escape(&self.witness)));
        }
    }
    pub fn failed(&self) -> bool {
        self.failed_now
    }
    pub fn unclear(&mut self, why: &str) {
        self.inconclusive += 1;
        self.count(&format!("inconclusive: {}", why), 1);
    }
    pub fn count(&mut self, key: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.counters.get_mut(key) {
            *c += n;
        } else {
            self.counters.insert(key.to_string(), n);
        }
    }
    pub fn maximum(&mut self, key: &str, n: u64) {
        let e = self.maxima.entry(key.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// a case worth counting: `h` identifies it
    pub fn nontrivial(&mut self, h: u64) {
        if self.distinct.len() < 200_000 && self.distinct.insert(h) {
            self.new_hashes.push(h);
        }
    }
    pub fn sample(&mut self, text: impl FnOnce() -> String) {
        if self.samples < 2 {
            self.samples += 1;
            let t: String = text().chars().take(600).collect();
            self.say(&format!("X {}", escape(&t)));
        }
    }
    pub fn flush_stats(&mut self) {
        let mut s = String::new();
        for h in self.new_hashes.drain(..) {
            s.push_str(&format!("H {:x}\n", h));
        }
        s.push_str(&format!("N evaluations {}\n", self.evaluations));
        for (k, v) in &self.counters {
            s.push_str(&format!("N {} {}\n", k.replace(' ', "_"), v));
        }
        for (k, v) in &self.maxima {
            s.push_str(&format!("M {} {}\n", k.replace(' ', "_"), v));
        }
        s.push_str("S");
        self.say(&s);
    }
    pub fn done(&mut self) {
        self.flush_stats();
        self.say("DONE");
    }
}
