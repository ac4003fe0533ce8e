//! An independent, deliberately plain CDCL solver (two watched literals, 1-UIP, VSIDS, geometric
//! restarts, no preprocessing, no clause deletion below a cap). Used only to look for models and to
//! decide what splr's answer should be; a disagreement is never reported on its word alone: a
//! SAT answer comes with a model that is evaluated, see `oracle`.

pub enum Ref {
    Sat(Vec<bool>),
    Unsat,
    GaveUp,
}

fn ix(l: i32) -> usize {
    (l.unsigned_abs() as usize) * 2 + (l < 0) as usize
}

struct S {
    nv: usize,
    cls: Vec<Vec<i32>>,
    watch: Vec<Vec<usize>>,
    val: Vec<i8>, // by var: 0 unassigned, 1, -1
    level: Vec<u32>,
    reason: Vec<usize>, // usize::MAX none
    trail: Vec<i32>,
    lim: Vec<usize>,
    head: usize,
    act: Vec<f64>,
    inc: f64,
    phase: Vec<bool>,
    heap: Vec<usize>,
    pos: Vec<usize>,
}

const NONE: usize = usize::MAX;

impl S {
    fn value(&self, l: i32) -> i8 {
        let v = self.val[l.unsigned_abs() as usize];
        if l > 0 { v } else { -v }
    }
    fn enqueue(&mut self, l: i32, r: usize) {
        let v = l.unsigned_abs() as usize;
        self.val[v] = if l > 0 { 1 } else { -1 };
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.phase[v] = l > 0;
        self.trail.push(l);
    }
    fn heap_less(&self, a: usize, b: usize) -> bool {
        self.act[a] > self.act[b]
    }
    fn heap_up(&mut self, mut i: usize) {
        while i > 0 {
            let p = (i - 1) / 2;
            if self.heap_less(self.heap[i], self.heap[p]) {
                self.heap.swap(i, p);
                self.pos[self.heap[i]] = i;
                self.pos[self.heap[p]] = p;
                i = p;
            } else {
                break;
            }
        }
    }
    fn heap_down(&mut self, mut i: usize) {
        loop {
            let l = 2 * i + 1;
            if l >= self.heap.len() {
                break;
            }
            let r = l + 1;
            let c = if r < self.heap.len() && self.heap_less(self.heap[r], self.heap[l]) { r } else { l };
            if self.heap_less(self.heap[c], self.heap[i]) {
                self.heap.swap(i, c);
                self.pos[self.heap[i]] = i;
                self.pos[self.heap[c]] = c;
                i = c;
            } else {
                break;
            }
        }
    }
    fn heap_insert(&mut self, v: usize) {
        if self.pos[v] == NONE {
            self.pos[v] = self.heap.len();
            self.heap.push(v);
            self.heap_up(self.pos[v]);
        }
    }
    fn heap_pop(&mut self) -> Option<usize> {
        if self.heap.is_empty() {
            return None;
        }
        let v = self.heap[0];
        let last = self.heap.pop().unwrap();
        self.pos[v] = NONE;
        if !self.heap.is_empty() {
            self.heap[0] = last;
            self.pos[last] = 0;
            self.heap_down(0);
        }
        Some(v)
    }
    fn propagate(&mut self) -> Option<usize> {
        while self.head < self.trail.len() {
            let p = self.trail[self.head];
            self.head += 1;
            let f = -p;
            let mut ws = std::mem::take(&mut self.watch[ix(f)]);
            let mut keep = 0;
            let mut i = 0;
            let mut confl = None;
            while i < ws.len() {
                let ci = ws[i];
                i += 1;
                if self.cls[ci][0] == f {
                    self.cls[ci].swap(0, 1);
                }
                let first = self.cls[ci][0];
                if self.value(first) == 1 {
                    ws[keep] = ci;
                    keep += 1;
                    continue;
                }
                let mut found = false;
                for k in 2..self.cls[ci].len() {
                    if self.value(self.cls[ci][k]) != -1 {
                        self.cls[ci].swap(1, k);
                        let w = self.cls[ci][1];
                        self.watch[ix(w)].push(ci);
                        found = true;
                        break;
                    }
                }
                if found {
                    continue;
                }
                ws[keep] = ci;
                keep += 1;
                if self.value(first) == -1 {
                    confl = Some(ci);
                    while i < ws.len() {
                        ws[keep] = ws[i];
                        keep += 1;
                        i += 1;
                    }
                } else {
                    self.enqueue(first, ci);
                }
            }
            ws.truncate(keep);
            self.watch[ix(f)] = ws;
            if confl.is_some() {
                return confl;
            }
        }
        None
    }
    fn cancel(&mut self, lv: usize) {
        if self.lim.len() <= lv {
            return;
        }
        let n = self.lim[lv];
        for i in n..self.trail.len() {
            let v = self.trail[i].unsigned_abs() as usize;
            self.val[v] = 0;
            self.heap_insert(v);
        }
        self.trail.truncate(n);
        self.lim.truncate(lv);
        self.head = n;
    }
    fn bump(&mut self, v: usize) {
        self.act[v] += self.inc;
        if self.act[v] > 1e100 {
            for a in self.act.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.pos[v] != NONE {
            self.heap_up(self.pos[v]);
        }
    }
    fn analyze(&mut self, mut ci: usize) -> (Vec<i32>, usize) {
        let mut seen = vec![false; self.nv + 1];
        let mut out = vec![0];
        let mut cnt = 0;
        let mut idx = self.trail.len();
        let cur = self.lim.len() as u32;
        let mut p = 0i32;
        loop {
            for q in self.cls[ci].clone() {
                if q == p {
                    continue;
                }
                let v = q.unsigned_abs() as usize;
                if !seen[v] && self.level[v] > 0 {
                    seen[v] = true;
                    self.bump(v);
                    if self.level[v] == cur {
                        cnt += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if seen[self.trail[idx].unsigned_abs() as usize] {
                    break;
                }
            }
            p = self.trail[idx];
            cnt -= 1;
            if cnt == 0 {
                break;
            }
            ci = self.reason[p.unsigned_abs() as usize];
        }
        out[0] = -p;
        let mut bl = 0;
        if out.len() > 1 {
            let mut m = 1;
            for i in 1..out.len() {
                if self.level[out[i].unsigned_abs() as usize] > self.level[out[m].unsigned_abs() as usize] {
                    m = i;
                }
            }
            out.swap(1, m);
            bl = self.level[out[1].unsigned_abs() as usize] as usize;
        }
        (out, bl)
    }
    fn attach(&mut self, c: Vec<i32>) -> usize {
        let id = self.cls.len();
        self.watch[ix(c[0])].push(id);
        self.watch[ix(c[1])].push(id);
        self.cls.push(c);
        id
    }
}

/// Decide `clauses` under `assumed` literals (added as units).
pub fn solve(nv: usize, clauses: &[Vec<i32>], assumed: &[i32], max_conflicts: usize) -> Ref {
    let mut s = S {
        nv,
        cls: Vec::new(),
        watch: vec![Vec::new(); 2 * nv + 2],
        val: vec![0; nv + 1],
        level: vec![0; nv + 1],
        reason: vec![NONE; nv + 1],
        trail: Vec::new(),
        lim: Vec::new(),
        head: 0,
        act: vec![0.0; nv + 1],
        inc: 1.0,
        phase: vec![false; nv + 1],
        heap: Vec::new(),
        pos: vec![NONE; nv + 1],
    };
    for c in clauses.iter().cloned().chain(assumed.iter().map(|l| vec![*l])) {
        let mut c = c;
        c.sort();
        c.dedup();
        if c.iter().any(|l| c.contains(&-*l)) {
            continue;
        }
        match c.len() {
            0 => return Ref::Unsat,
            1 => match s.value(c[0]) {
                1 => (),
                -1 => return Ref::Unsat,
                _ => s.enqueue(c[0], NONE),
            },
            _ => {
                s.attach(c);
            }
        }
    }
    // clauses were attached without regard to the units already on the trail: restart the queue;
    // watched literals that are already false are handled because every trail literal is
    // propagated after all clauses are attached.
    if s.propagate().is_some() {
        return Ref::Unsat;
    }
    for v in 1..=nv {
        s.heap_insert(v);
    }
    let mut conflicts = 0;
    let mut next_restart = 100;
    let mut span = 100f64;
    loop {
        if let Some(ci) = s.propagate() {
            conflicts += 1;
            if s.lim.is_empty() {
                return Ref::Unsat;
            }
            if conflicts > max_conflicts {
                return Ref::GaveUp;
            }
            let (c, bl) = s.analyze(ci);
            s.cancel(bl);
            if c.len() == 1 {
                s.enqueue(c[0], NONE);
            } else {
                let l = c[0];
                let id = s.attach(c);
                s.enqueue(l, id);
            }
            s.inc *= 1.05;
            if conflicts >= next_restart {
                span *= 1.2;
                next_restart = conflicts + span as usize;
                s.cancel(0);
            }
        } else {
            let mut pick = None;
            while let Some(v) = s.heap_pop() {
                if s.val[v] == 0 {
                    pick = Some(v);
                    break;
                }
            }
            match pick {
                None => {
                    let m: Vec<bool> = (0..=nv).map(|v| s.val[v] == 1).collect();
                    return Ref::Sat(m);
                }
                Some(v) => {
                    s.lim.push(s.trail.len());
                    let l = if s.phase[v] { v as i32 } else { -(v as i32) };
                    s.enqueue(l, NONE);
                }
            }
        }
    }
}
