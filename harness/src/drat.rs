//! Forward DRAT checker over textual proofs: every added lemma must be RUP, or RAT on its first
//! literal, with respect to the clauses alive at that point; the empty clause must be reached.
//! Deletions: as in drat-trim's default (specified in its documentation), deletion of a clause that
//! is currently the reason of a root-level unit is ignored, so verdicts match what users get there.
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub lemmas: usize,
    pub rup: usize,
    pub rat: usize,
    pub deletions: usize,
    pub ignored_unit_deletions: usize,
    pub missing_deletions: usize,
    pub props: u64,
}

#[derive(Clone, Debug)]
pub enum Step {
    Add(Vec<i32>),
    Del(Vec<i32>),
}

/// Strict reader for the textual format. Comment lines `c ..` are allowed, nothing else.
pub fn parse(text: &str) -> Result<Vec<Step>, String> {
    let mut out = Vec::new();
    let mut cur: Vec<i32> = Vec::new();
    let mut del = false;
    let mut fresh = true;
    for (ln, line) in text.lines().enumerate() {
        if fresh && line.starts_with('c') {
            continue;
        }
        for tok in line.split_ascii_whitespace() {
            if tok == "d" {
                if !fresh {
                    return Err(format!("line {}: 'd' inside a clause", ln + 1));
                }
                del = true;
                fresh = false;
                continue;
            }
            let n: i32 = tok
                .parse()
                .map_err(|_| format!("line {}: bad token {:?}", ln + 1, tok))?;
            fresh = false;
            if n == 0 {
                let c = std::mem::take(&mut cur);
                out.push(if del { Step::Del(c) } else { Step::Add(c) });
                del = false;
                fresh = true;
            } else {
                cur.push(n);
            }
        }
    }
    if !fresh {
        return Err("truncated: last clause is not terminated by 0".to_string());
    }
    Ok(out)
}

fn ix(l: i32) -> usize {
    (l.unsigned_abs() as usize) * 2 + (l < 0) as usize
}

const NONE: usize = usize::MAX;

pub struct Checker {
    cls: Vec<Vec<i32>>, // emptied when dead
    alive: Vec<bool>,
    watch: Vec<Vec<usize>>,
    val: Vec<i8>,
    reason: Vec<usize>,
    trail: Vec<i32>,
    head: usize,
    index: HashMap<Vec<i32>, Vec<usize>>,
    pub refuted: bool,
    pub stats: Stats,
    occ_dirty: bool,
}

impl Checker {
    pub fn new(nv: usize) -> Checker {
        Checker {
            cls: Vec::new(),
            alive: Vec::new(),
            watch: vec![Vec::new(); 2 * nv + 2],
            val: vec![0; nv + 1],
            reason: vec![NONE; nv + 1],
            trail: Vec::new(),
            head: 0,
            index: HashMap::new(),
            refuted: false,
            stats: Stats::default(),
            occ_dirty: false,
        }
    }
    fn grow(&mut self, c: &[i32]) {
        let m = c.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0);
        if m >= self.val.len() {
            self.val.resize(m + 1, 0);
            self.reason.resize(m + 1, NONE);
            self.watch.resize(2 * m + 2, Vec::new());
        }
    }
    fn value(&self, l: i32) -> i8 {
        let v = self.val[l.unsigned_abs() as usize];
        if l > 0 { v } else { -v }
    }
    fn push(&mut self, l: i32, r: usize) {
        let v = l.unsigned_abs() as usize;
        self.val[v] = if l > 0 { 1 } else { -1 };
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> Option<usize> {
        while self.head < self.trail.len() {
            let p = self.trail[self.head];
            self.head += 1;
            self.stats.props += 1;
            let f = -p;
            let mut ws = std::mem::take(&mut self.watch[ix(f)]);
            let mut keep = 0;
            let mut i = 0;
            let mut confl = None;
            while i < ws.len() {
                let ci = ws[i];
                i += 1;
                if !self.alive[ci] {
                    continue;
                }
                if self.cls[ci][0] == f {
                    self.cls[ci].swap(0, 1);
                }
                let first = self.cls[ci][0];
                if self.value(first) == 1 {
                    ws[keep] = ci;
                    keep += 1;
                    continue;
                }
                let mut found = false;
                for k in 2..self.cls[ci].len() {
                    if self.value(self.cls[ci][k]) != -1 {
                        self.cls[ci].swap(1, k);
                        let w = self.cls[ci][1];
                        self.watch[ix(w)].push(ci);
                        found = true;
                        break;
                    }
                }
                if found {
                    continue;
                }
                ws[keep] = ci;
                keep += 1;
                if self.value(first) == -1 {
                    confl = Some(ci);
                    while i < ws.len() {
                        ws[keep] = ws[i];
                        keep += 1;
                        i += 1;
                    }
                } else {
                    self.push(first, ci);
                }
            }
            ws.truncate(keep);
            self.watch[ix(f)] = ws;
            if confl.is_some() {
                return confl;
            }
        }
        None
    }
    fn undo_to(&mut self, n: usize) {
        for i in n..self.trail.len() {
            let v = self.trail[i].unsigned_abs() as usize;
            self.val[v] = 0;
            self.reason[v] = NONE;
        }
        self.trail.truncate(n);
        self.head = n;
    }
    /// Insert a clause unconditionally and update the root-level unit closure.
    pub fn insert(&mut self, lits: &[i32]) {
        self.grow(lits);
        let mut key = lits.to_vec();
        key.sort();
        key.dedup();
        let id = self.cls.len();
        let taut = key.iter().any(|l| *l > 0 && key.binary_search(&-*l).is_ok());
        let mut c = key.clone();
        self.index.entry(key).or_default().push(id);
        if self.refuted {
            self.cls.push(c);
            self.alive.push(true);
            return;
        }
        // two best watches: true/unassigned first
        c.sort_by_key(|l| match self.value(*l) {
            1 => 0,
            0 => 1,
            _ => 2,
        });
        self.cls.push(c.clone());
        self.alive.push(true);
        if taut {
            if c.len() >= 2 {
                self.watch[ix(c[0])].push(id);
                self.watch[ix(c[1])].push(id);
            }
            return;
        }
        match c.len() {
            0 => self.refuted = true,
            1 => match self.value(c[0]) {
                1 => (),
                -1 => self.refuted = true,
                _ => {
                    self.push(c[0], id);
                    if self.propagate().is_some() {
                        self.refuted = true;
                    }
                }
            },
            _ => {
                self.watch[ix(c[0])].push(id);
                self.watch[ix(c[1])].push(id);
                match (self.value(c[0]), self.value(c[1])) {
                    (-1, _) => self.refuted = true,
                    (0, -1) => {
                        self.push(c[0], id);
                        if self.propagate().is_some() {
                            self.refuted = true;
                        }
                    }
                    _ => (),
                }
            }
        }
    }
    /// assume the negation of `c`; true if unit propagation refutes it. The trail is left extended.
    fn refutes(&mut self, c: &[i32]) -> bool {
        for l in c {
            match self.value(*l) {
                1 => return true,
                -1 => (),
                _ => self.push(-*l, NONE),
            }
        }
        self.propagate().is_some()
    }
    pub fn is_rup(&mut self, c: &[i32]) -> bool {
        self.grow(c);
        if self.refuted {
            return true;
        }
        let base = self.trail.len();
        let r = self.refutes(c);
        self.undo_to(base);
        r
    }
    pub fn is_rat(&mut self, c: &[i32]) -> bool {
        if c.is_empty() {
            return false;
        }
        let p = c[0];
        let base = self.trail.len();
        if self.refutes(c) {
            self.undo_to(base);
            return true;
        }
        let mid = self.trail.len();
        let ids: Vec<usize> = (0..self.cls.len())
            .filter(|i| self.alive[*i] && self.cls[*i].contains(&-p))
            .collect();
        for id in ids {
            let d: Vec<i32> = self.cls[id].iter().copied().filter(|l| *l != -p).collect();
            let ok = self.refutes(&d);
            self.undo_to(mid);
            if !ok {
                self.undo_to(base);
                return false;
            }
        }
        self.undo_to(base);
        true
    }
    pub fn add_lemma(&mut self, c: &[i32]) -> Result<(), String> {
        self.stats.lemmas += 1;
        if self.refuted {
            return Ok(());
        }
        if self.is_rup(c) {
            self.stats.rup += 1;
        } else if self.is_rat(c) {
            self.stats.rat += 1;
        } else {
            return Err(format!("lemma #{} {:?} is neither RUP nor RAT", self.stats.lemmas, c));
        }
        self.insert(c);
        Ok(())
    }
    pub fn delete(&mut self, c: &[i32]) {
        self.stats.deletions += 1;
        let mut key = c.to_vec();
        key.sort();
        key.dedup();
        let Some((k, id)) = self.index.get(&key).and_then(|ids| {
            ids.iter().position(|id| self.alive[*id]).map(|k| (k, ids[k]))
        }) else {
            self.stats.missing_deletions += 1;
            return;
        };
        // pseudo-unit: reason of a root literal
        for l in &key {
            if self.value(*l) == 1 && self.reason[l.unsigned_abs() as usize] == id {
                self.stats.ignored_unit_deletions += 1;
                return;
            }
        }
        self.index.get_mut(&key).unwrap().swap_remove(k);
        self.alive[id] = false;
        self.cls[id] = Vec::new();
        self.occ_dirty = true;
    }
}

/// Check a whole proof.
pub fn check(nv: usize, clauses: &[Vec<i32>], steps: &[Step]) -> Result<Stats, String> {
    let mut ck = Checker::new(nv);
    for c in clauses {
        ck.insert(c);
    }
    let mut saw_empty = false;
    for s in steps {
        match s {
            Step::Add(c) => {
                if c.is_empty() {
                    if !ck.refuted {
                        return Err("empty clause claimed but it is not derivable by unit propagation".into());
                    }
                    saw_empty = true;
                }
                ck.add_lemma(c)?;
            }
            Step::Del(c) => ck.delete(c),
        }
    }
    if !ck.refuted {
        return Err("proof ends without a refutation".into());
    }
    if !saw_empty {
        return Err("no empty clause in the proof".into());
    }
    Ok(ck.stats)
}
