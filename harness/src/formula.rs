//! Formulas, evaluation, and workload generators.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Known {
    /// nothing known by construction
    Unknown,
    /// a model known by construction (index 0 unused)
    Model(Vec<bool>),
    /// unsatisfiable by construction
    Unsat,
}

#[derive(Clone, Debug)]
pub struct Formula {
    pub nv: usize,
    pub clauses: Vec<Vec<i32>>,
    pub known: Known,
    pub family: &'static str,
}

pub fn lit_true(l: i32, m: &[bool]) -> bool {
    m[l.unsigned_abs() as usize] == (l > 0)
}

/// index of the first clause `m` does not satisfy (`m[0]` unused).
pub fn first_falsified(clauses: &[Vec<i32>], m: &[bool]) -> Option<usize> {
    clauses.iter().position(|c| !c.iter().any(|l| lit_true(*l, m)))
}

pub fn max_var(clauses: &[Vec<i32>]) -> usize {
    clauses
        .iter()
        .flat_map(|c| c.iter().map(|l| l.unsigned_abs() as usize))
        .max()
        .unwrap_or(0)
}

/// brute force; n <= 24
pub fn brute_force(nv: usize, clauses: &[Vec<i32>]) -> Option<Vec<bool>> {
    assert!(nv <= 24);
    let masks: Vec<(u32, u32)> = clauses
        .iter()
        .map(|c| {
            let (mut p, mut n) = (0u32, 0u32);
            for l in c {
                if *l > 0 {
                    p |= 1 << (*l - 1);
                } else {
                    n |= 1 << (-*l - 1);
                }
            }
            (p, n)
        })
        .collect();
    for a in 0..(1u32 << nv) {
        if masks.iter().all(|(p, n)| (a & p) != 0 || (!a & n) != 0) {
            let mut m = vec![false; nv + 1];
            for v in 1..=nv {
                m[v] = a >> (v - 1) & 1 == 1;
            }
            return Some(m);
        }
    }
    None
}

impl Formula {
    pub fn new(nv: usize, clauses: Vec<Vec<i32>>, known: Known, family: &'static str) -> Formula {
        Formula { nv, clauses, known, family }
    }
    pub fn dimacs(&self) -> String {
        let mut s = format!("p cnf {} {}\n", self.nv, self.clauses.len());
        for c in &self.clauses {
            for l in c {
                s.push_str(&l.to_string());
                s.push(' ');
            }
            s.push_str("0\n");
        }
        s
    }
    pub fn hash(&self) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        let mut f = |x: u64| {
            h ^= x;
            h = h.wrapping_mul(0x100000001b3);
        };
        f(self.nv as u64);
        for c in &self.clauses {
            for l in c {
                f(*l as i64 as u64);
            }
            f(0);
        }
        h
    }
}

pub fn distinct_clause(r: &mut Rng, nv: usize, k: usize) -> Vec<i32> {
    let mut c: Vec<i32> = Vec::with_capacity(k);
    while c.len() < k.min(nv) {
        let v = r.range(1, nv) as i32;
        if !c.iter().any(|l| l.abs() == v) {
            c.push(r.sign(v));
        }
    }
    c
}

pub fn random_ksat(r: &mut Rng, nv: usize, k: usize, m: usize) -> Formula {
    let cls = (0..m).map(|_| distinct_clause(r, nv, k)).collect();
    Formula::new(nv, cls, Known::Unknown, "random-ksat")
}

/// widths and literals without any hygiene: duplicates and tautologies occur.
pub fn random_mixed(r: &mut Rng, nv: usize, m: usize, maxw: usize) -> Formula {
    let mut cls: Vec<Vec<i32>> = Vec::new();
    for _ in 0..m {
        let w = match r.below(20) {
            0 => 1,
            1..=5 => 2,
            6..=14 => 3,
            _ => r.range(2, maxw.max(2)),
        };
        cls.push(
            (0..w)
                .map(|_| {
                    let v = r.range(1, nv) as i32;
                    r.sign(v)
                })
                .collect(),
        );
    }
    Formula::new(nv, cls, Known::Unknown, "random-mixed")
}

/// Clauses made around a hidden model.
pub fn planted(r: &mut Rng, nv: usize, k: usize, m: usize) -> Formula {
    let mut model = vec![false; nv + 1];
    for b in model.iter_mut().skip(1) {
        *b = r.bool();
    }
    let mut cls = Vec::with_capacity(m);
    while cls.len() < m {
        let c = distinct_clause(r, nv, k);
        if c.iter().any(|l| lit_true(*l, &model)) {
            cls.push(c);
        }
    }
    Formula::new(nv, cls, Known::Model(model), "planted")
}

/// pigeonhole: p pigeons, h holes
pub fn pigeon(r: &mut Rng, p: usize, h: usize) -> Formula {
    let v = |i: usize, j: usize| (i * h + j + 1) as i32;
    let mut cls = Vec::new();
    for i in 0..p {
        cls.push((0..h).map(|j| v(i, j)).collect::<Vec<_>>());
    }
    for j in 0..h {
        for a in 0..p {
            for b in a + 1..p {
                cls.push(vec![-v(a, j), -v(b, j)]);
            }
        }
    }
    r.shuffle(&mut cls);
    Formula::new(p * h, cls, if p > h { Known::Unsat } else { Known::Unknown }, "pigeonhole")
}

fn xor_clauses(vs: &[i32], rhs: bool, out: &mut Vec<Vec<i32>>) {
    let k = vs.len();
    for mask in 0..(1u32 << k) {
        // forbid assignments whose parity differs from rhs
        let ones = mask.count_ones() % 2 == 1;
        if ones != rhs {
            out.push((0..k).map(|i| if mask >> i & 1 == 1 { -vs[i] } else { vs[i] }).collect());
        }
    }
}

/// random system of 3-xors; `consistent` plants a solution
pub fn xor_system(r: &mut Rng, nv: usize, m: usize, w: usize, consistent: bool) -> Formula {
    let mut model = vec![false; nv + 1];
    for b in model.iter_mut().skip(1) {
        *b = r.bool();
    }
    let mut cls = Vec::new();
    for _ in 0..m {
        let vs: Vec<i32> = distinct_clause(r, nv, w).iter().map(|l| l.abs()).collect();
        let par = vs.iter().fold(false, |a, v| a ^ model[*v as usize]);
        let rhs = if consistent { par } else { r.bool() };
        xor_clauses(&vs, rhs, &mut cls);
    }
    Formula::new(nv, cls, if consistent { Known::Model(model) } else { Known::Unknown }, "xor-system")
}

/// one long xor chain x1+..+xn=0 and (a permuted) =1 : unsatisfiable (Urquhart-like parity)
pub fn parity(r: &mut Rng, n: usize) -> Formula {
    let mut cls = Vec::new();
    let mut next = n as i32;
    for rhs in [false, true] {
        let mut vs: Vec<i32> = (1..=n as i32).collect();
        if rhs {
            r.shuffle(&mut vs);
        }
        let mut acc = vs[0];
        for (i, v) in vs.iter().enumerate().skip(1) {
            if i == n - 1 {
                xor_clauses(&[acc, *v], rhs, &mut cls);
            } else {
                next += 1;
                xor_clauses(&[acc, *v, next], false, &mut cls);
                acc = next;
            }
        }
    }
    Formula::new(next as usize, cls, Known::Unsat, "parity")
}

/// graph colouring of a random graph
pub fn coloring(r: &mut Rng, n: usize, edges: usize, k: usize) -> Formula {
    let v = |i: usize, c: usize| (i * k + c + 1) as i32;
    let mut cls = Vec::new();
    for i in 0..n {
        cls.push((0..k).map(|c| v(i, c)).collect::<Vec<_>>());
        if r.bool() {
            for a in 0..k {
                for b in a + 1..k {
                    cls.push(vec![-v(i, a), -v(i, b)]);
                }
            }
        }
    }
    for _ in 0..edges {
        let a = r.below(n);
        let b = r.below(n);
        if a != b {
            for c in 0..k {
                cls.push(vec![-v(a, c), -v(b, c)]);
            }
        }
    }
    Formula::new(n * k, cls, Known::Unknown, "coloring")
}

/// Tseitin encoding of a random circuit, with optional output constraint.
/// Low-occurrence definitional variables: the variable eliminator's food.
pub fn circuit(r: &mut Rng, inputs: usize, gates: usize) -> Formula {
    let mut cls: Vec<Vec<i32>> = Vec::new();
    let mut nv = inputs as i32;
    let mut model = vec![false; 1];
    for _ in 0..inputs {
        model.push(r.bool());
    }
    for _ in 0..gates {
        let lo = if nv > 12 && r.chance(0.7) { nv as usize - 10 } else { 1 };
        let a = r.range(lo, nv as usize) as i32;
        let mut b = r.range(1, nv as usize) as i32;
        if a == b {
            b = if a == 1 { 2.min(nv) } else { a - 1 };
        }
        let a = r.sign(a);
        let b = r.sign(b);
        nv += 1;
        let g = nv;
        let va = lit_true(a, &model);
        let vb = lit_true(b, &model);
        match r.below(4) {
            0 => {
                cls.push(vec![-g, a]);
                cls.push(vec![-g, b]);
                cls.push(vec![g, -a, -b]);
                model.push(va && vb);
            }
            1 => {
                cls.push(vec![g, -a]);
                cls.push(vec![g, -b]);
                cls.push(vec![-g, a, b]);
                model.push(va || vb);
            }
            2 => {
                cls.push(vec![-g, a, b]);
                cls.push(vec![-g, -a, -b]);
                cls.push(vec![g, -a, b]);
                cls.push(vec![g, a, -b]);
                model.push(va ^ vb);
            }
            _ => {
                // mux with a third input
                let c = r.range(1, (nv - 1) as usize) as i32;
                let vc = lit_true(c, &model);
                cls.push(vec![-c, -a, g]);
                cls.push(vec![-c, a, -g]);
                cls.push(vec![c, -b, g]);
                cls.push(vec![c, b, -g]);
                model.push(if vc { va } else { vb });
            }
        }
    }
    // constrain some outputs, either consistently with the simulation or at random
    let consistent = r.chance(0.6);
    let k = r.range(1, 4 + gates / 12);
    for _ in 0..k {
        let v = r.range(inputs.min(nv as usize - 1) + 1, nv as usize) as i32;
        if consistent {
            cls.push(vec![if model[v as usize] { v } else { -v }]);
        } else {
            cls.push(vec![r.sign(v)]);
        }
    }
    if r.bool() {
        r.shuffle(&mut cls);
    }
    Formula::new(
        nv as usize,
        cls,
        if consistent { Known::Model(model) } else { Known::Unknown },
        "circuit",
    )
}

/// many binary implications (equivalence classes, cycles) plus a few long clauses
pub fn implications(r: &mut Rng, nv: usize, bins: usize, longs: usize) -> Formula {
    let mut cls = Vec::new();
    for _ in 0..bins {
        let mut c = distinct_clause(r, nv, 2);
        if r.chance(0.2) {
            cls.push(vec![-c[0], -c[1]]);
        }
        if r.chance(0.1) {
            c.reverse();
            cls.push(c.clone());
        }
        cls.push(c);
    }
    for _ in 0..longs {
        let k = r.range(3, 8);
        cls.push(distinct_clause(r, nv, k));
    }
    Formula::new(nv, cls, Known::Unknown, "implications")
}

/// clauses and their supersets / self-subsuming variants / duplicates, sometimes of long clauses
pub fn subsumable(r: &mut Rng, nv: usize, m: usize) -> Formula {
    let mut cls: Vec<Vec<i32>> = Vec::new();
    if nv >= 24 && r.chance(0.4) {
        // long clauses that differ in a few late literals (nearly subsuming ones), then short ones
        for _ in 0..r.range(1, 6) {
            let k = r.range(nv / 3, (nv - 4).min(70));
            let mut base = distinct_clause(r, nv, k);
            base.sort_by_key(|l| l.abs());
            cls.push(base.clone());
            for _ in 0..r.range(1, 4) {
                let mut c = base.clone();
                for _ in 0..r.range(0, 2) {
                    let j = if r.bool() { c.len() - 1 - r.below(c.len().min(4)) } else { r.below(c.len()) };
                    if r.bool() {
                        c[j] = -c[j];
                    } else {
                        c.remove(j);
                    }
                }
                for _ in 0..r.range(0, 3) {
                    let v = r.range(1, nv) as i32;
                    if !c.iter().any(|l| l.abs() == v) {
                        c.push(r.sign(v));
                    }
                }
                if r.chance(0.4) {
                    let j = r.below(c.len());
                    c[j] = -c[j];
                }
                cls.push(c);
            }
        }
    }
    while cls.len() < m {
        if cls.is_empty() || r.chance(0.5) {
            let k = r.range(2, 4);
            cls.push(distinct_clause(r, nv, k));
        } else {
            let i = r.below(cls.len());
            let mut c = cls[i].clone();
            match r.below(4) {
                0 => {
                    // superset
                    for _ in 0..r.range(1, 3) {
                        let v = r.range(1, nv) as i32;
                        if !c.iter().any(|l| l.abs() == v) {
                            c.push(r.sign(v));
                        }
                    }
                }
                1 => {
                    // self-subsuming resolution candidate
                    let j = r.below(c.len());
                    c[j] = -c[j];
                    let v = r.range(1, nv) as i32;
                    if !c.iter().any(|l| l.abs() == v) {
                        c.push(r.sign(v));
                    }
                }
                2 => {
                    let j = r.below(c.len());
                    c[j] = -c[j];
                }
                _ => r.shuffle(&mut c),
            }
            cls.push(c);
        }
    }
    Formula::new(nv, cls, Known::Unknown, "subsumable")
}

/// few very long clauses over a shared block, with pairwise exclusions
pub fn longclauses(r: &mut Rng, nv: usize, m: usize) -> Formula {
    let mut cls: Vec<Vec<i32>> = Vec::new();
    for _ in 0..m {
        let k = r.range(nv / 4 + 1, nv);
        cls.push(distinct_clause(r, nv, k));
    }
    for _ in 0..nv * 2 {
        cls.push(distinct_clause(r, nv, 2));
    }
    for _ in 0..nv / 3 {
        cls.push(distinct_clause(r, nv, 3));
    }
    Formula::new(nv, cls, Known::Unknown, "longclauses")
}

/// exactly-one blocks + random ternary relations (cardinality flavour)
pub fn exactly_one(r: &mut Rng, blocks: usize, w: usize, extra: usize) -> Formula {
    let nv = blocks * w;
    let mut cls: Vec<Vec<i32>> = Vec::new();
    let mut model = vec![false; nv + 1];
    for b in 0..blocks {
        let base = (b * w) as i32;
        cls.push((1..=w as i32).map(|i| base + i).collect());
        for i in 1..=w as i32 {
            for j in i + 1..=w as i32 {
                cls.push(vec![-(base + i), -(base + j)]);
            }
        }
        model[base as usize + r.range(1, w)] = true;
    }
    let plant = r.bool();
    let mut made = 0;
    while made < extra {
        // conflicts among choices of different blocks
        let k = r.range(2, 3);
        let c: Vec<i32> = distinct_clause(r, nv, k).iter().map(|l| -l.abs()).collect();
        if !plant || c.iter().any(|l| lit_true(*l, &model)) {
            cls.push(c);
        }
        made += 1;
    }
    Formula::new(nv, cls, if plant { Known::Model(model) } else { Known::Unknown }, "exactly-one")
}

/// rename variables, flip polarities, shuffle clauses and literals
pub fn scramble(r: &mut Rng, f: &mut Formula) {
    let mut perm: Vec<i32> = (1..=f.nv as i32).collect();
    r.shuffle(&mut perm);
    let flip: Vec<bool> = (0..f.nv).map(|_| r.bool()).collect();
    let map = |l: i32| {
        let i = l.unsigned_abs() as usize - 1;
        let v = if flip[i] { -perm[i] } else { perm[i] };
        if l > 0 { v } else { -v }
    };
    for c in f.clauses.iter_mut() {
        for l in c.iter_mut() {
            *l = map(*l);
        }
        r.shuffle(c);
    }
    r.shuffle(&mut f.clauses);
    if let Known::Model(m) = &f.known {
        let mut m2 = vec![false; f.nv + 1];
        for v in 1..=f.nv {
            let l = map(if m[v] { v as i32 } else { -(v as i32) });
            m2[l.unsigned_abs() as usize] = l > 0;
        }
        f.known = Known::Model(m2);
    }
}

/// spread variable indices so that some variables never occur
pub fn spread(r: &mut Rng, f: &mut Formula) {
    let mut map = vec![0i32; f.nv + 1];
    let mut next = 0;
    for m in map.iter_mut().skip(1) {
        next += r.range(1, 3) as i32;
        *m = next;
    }
    let nv2 = next as usize;
    for c in f.clauses.iter_mut() {
        for l in c.iter_mut() {
            *l = if *l > 0 { map[*l as usize] } else { -map[(-*l) as usize] };
        }
    }
    if let Known::Model(m) = &f.known {
        let mut m2 = vec![false; nv2 + 1];
        for v in 1..=f.nv {
            m2[map[v] as usize] = m[v];
        }
        f.known = Known::Model(m2);
    }
    f.nv = max_var(&f.clauses);
    if let Known::Model(m) = &mut f.known {
        m.resize(f.nv + 1, false);
    }
}

/// sprinkle redundancy that must not matter: duplicate literals, tautologies, duplicate clauses
pub fn pollute(r: &mut Rng, f: &mut Formula) {
    let n = f.clauses.len();
    for _ in 0..r.range(1, 3 + n / 6) {
        if f.clauses.is_empty() || f.nv == 0 {
            break;
        }
        let i = r.below(f.clauses.len());
        match r.below(4) {
            0 => {
                let c = &mut f.clauses[i];
                if !c.is_empty() {
                    let l = c[r.below(c.len())];
                    let at = r.below(c.len() + 1);
                    c.insert(at, l);
                }
            }
            1 => {
                let v = r.range(1, f.nv) as i32;
                let mut c = vec![v, -v];
                let w = r.range(1, f.nv) as i32;
                c.push(r.sign(w));
                r.shuffle(&mut c);
                f.clauses.push(c);
            }
            2 => {
                let mut c = f.clauses[i].clone();
                r.shuffle(&mut c);
                f.clauses.push(c);
            }
            _ => {
                let c = f.clauses[i].clone();
                let mut c2 = c;
                let w = r.range(1, f.nv) as i32;
                c2.push(r.sign(w));
                f.clauses.push(c2);
            }
        }
    }
}

/// Some clauses become two weaker ones with the same meaning: what is learned subsumes what was given.
pub fn split(r: &mut Rng, f: &mut Formula) {
    if f.nv < 5 {
        return;
    }
    let p = 0.1 + 0.7 * r.unit();
    for i in 0..f.clauses.len() {
        let mut c = f.clauses[i].clone();
        if c.len() < 2 || !r.chance(p) {
            continue;
        }
        for _ in 0..r.range(1, 2) {
            let v = r.range(1, f.nv) as i32;
            if c.contains(&v) || c.contains(&-v) {
                continue;
            }
            let mut d = c.clone();
            let at = r.below(d.len() + 1);
            d.insert(at, -v);
            f.clauses.push(d);
            c.insert(at, v);
        }
        f.clauses[i] = c;
    }
}

/// disjoint/overlapping union of two formulas
pub fn union(a: Formula, b: Formula, overlap: usize) -> Formula {
    let shift = a.nv.saturating_sub(overlap) as i32;
    let mut clauses = a.clauses;
    for c in b.clauses {
        clauses.push(c.iter().map(|l| if *l > 0 { l + shift } else { l - shift }).collect());
    }
    let nv = (b.nv + shift as usize).max(a.nv);
    let known = match (&a.known, &b.known) {
        (Known::Unsat, _) | (_, Known::Unsat) => Known::Unsat,
        (Known::Model(m), Known::Model(n)) if overlap == 0 => {
            let mut v = m.clone();
            v.extend_from_slice(&n[1..]);
            Known::Model(v)
        }
        _ => Known::Unknown,
    };
    Formula::new(nv, clauses, known, "union")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
    /// at most ~18 variables: brute force applies
    Tiny,
    /// up to ~60 variables
    Small,
    /// near-threshold instances with hundreds..thousands of conflicts
    Medium,
    /// thousands of variables, planted or easy
    Large,
}

pub fn generate(r: &mut Rng, size: Size) -> Formula {
    let mut f = match size {
        Size::Tiny => {
            let nv = r.range(1, 16);
            match r.below(11) {
                0 | 1 => {
                    let m = r.range(1, nv * 6);
                    random_mixed(r, nv, m, 6)
                }
                2 | 3 => {
                    let nv = nv.max(3);
                    let m = (nv as f64 * (2.5 + 3.5 * r.unit())) as usize;
                    random_ksat(r, nv, 3, m)
                }
                4 => {
                    let nv = nv.max(2);
                    let m = r.range(1, nv * 2);
                    random_ksat(r, nv, 2, m)
                }
                5 => {
                    let h = r.range(1, 3);
                    let p = r.range(1, 4);
                    pigeon(r, p, h)
                }
                6 => {
                    let nv = nv.max(3);
                    let m = r.range(1, nv + 2);
                    let c = r.bool();
                    xor_system(r, nv, m, 3, c)
                }
                7 => {
                    let i = r.range(2, 5);
                    let g = r.range(1, 11);
                    circuit(r, i, g)
                }
                8 => {
                    let nv = nv.max(4);
                    let b = r.range(1, nv * 2);
                    let l = r.range(0, nv);
                    implications(r, nv, b, l)
                }
                9 => {
                    let nv = nv.max(4);
                    let m = r.range(2, nv * 5);
                    subsumable(r, nv, m)
                }
                _ => {
                    let n = r.range(2, 5);
                    let k = r.range(2, 3);
                    let e = r.range(1, n * 3);
                    coloring(r, n, e, k)
                }
            }
        }
        Size::Small => match r.below(12) {
            0 | 1 => {
                let nv = r.range(17, 60);
                let m = (nv as f64 * (3.6 + 1.2 * r.unit())) as usize;
                random_ksat(r, nv, 3, m)
            }
            2 => {
                let nv = r.range(17, 50);
                let m = (nv as f64 * (1.0 + 3.0 * r.unit())) as usize;
                random_mixed(r, nv, m, 9)
            }
            3 => {
                let h = r.range(3, 6);
                let p = r.range(h - 1, h + 1);
                pigeon(r, p, h)
            }
            4 => {
                let nv = r.range(10, 40);
                let m = (nv as f64 * (0.6 + 0.5 * r.unit())) as usize;
                let c = r.bool();
                xor_system(r, nv, m, 3, c)
            }
            5 => {
                let n = r.range(4, 14);
                parity(r, n)
            }
            6 => {
                let n = r.range(6, 16);
                let k = 3;
                let e = (n as f64 * (1.8 + r.unit())) as usize;
                coloring(r, n, e, k)
            }
            7 => {
                let i = r.range(3, 10);
                let g = r.range(10, 90);
                circuit(r, i, g)
            }
            8 => {
                let nv = r.range(17, 80);
                let b = (nv as f64 * (0.4 + 0.8 * r.unit())) as usize;
                let l = r.range(0, nv);
                implications(r, nv, b, l)
            }
            9 => {
                let nv = r.range(17, 50);
                let m = (nv as f64 * (2.0 + 2.0 * r.unit())) as usize;
                subsumable(r, nv, m)
            }
            10 => {
                let nv = r.range(12, 80);
                let m = r.range(2, 12);
                longclauses(r, nv, m)
            }
            _ => {
                let b = r.range(3, 10);
                let w = r.range(3, 6);
                let e = r.range(4, b * w * 4);
                exactly_one(r, b, w, e)
            }
        },
        Size::Medium => match r.below(12) {
            0..=3 => {
                let nv = r.range(80, 190);
                let m = (nv as f64 * (4.1 + 0.35 * r.unit())) as usize;
                random_ksat(r, nv, 3, m)
            }
            4 => {
                let h = r.range(6, 7);
                let p = r.range(h, h + 1);
                pigeon(r, p, h)
            }
            5 => {
                let nv = r.range(36, 60);
                let m = (nv as f64 * (0.85 + 0.25 * r.unit())) as usize;
                let c = r.bool();
                xor_system(r, nv, m, 3, c)
            }
            6 => {
                let n = r.range(10, 22);
                parity(r, n)
            }
            7 => {
                let n = r.range(30, 60);
                let e = (n as f64 * (2.1 + 0.5 * r.unit())) as usize;
                coloring(r, n, e, 3)
            }
            8 => {
                let i = r.range(8, 24);
                let g = r.range(100, 600);
                circuit(r, i, g)
            }
            9 => {
                let b = r.range(14, 28);
                let w = r.range(4, 7);
                let e = r.range(b * w * 2, b * w * 7);
                exactly_one(r, b, w, e)
            }
            10 => {
                let nv = r.range(40, 70);
                let m = (nv as f64 * (9.0 + 1.2 * r.unit())) as usize;
                random_ksat(r, nv, 4, m)
            }
            _ => {
                let a = {
                    let nv = r.range(60, 120);
                    let m = (nv as f64 * (4.0 + 0.4 * r.unit())) as usize;
                    random_ksat(r, nv, 3, m)
                };
                let b = {
                    let i = r.range(5, 14);
                    let g = r.range(30, 200);
                    circuit(r, i, g)
                };
                let o = r.range(0, 12);
                union(a, b, o)
            }
        },
        Size::Large => match r.below(4) {
            0 => {
                let nv = r.range(400, 3000);
                let m = (nv as f64 * (2.5 + 0.9 * r.unit())) as usize;
                planted(r, nv, 3, m)
            }
            1 => {
                let i = r.range(30, 120);
                let g = r.range(1000, 6000);
                circuit(r, i, g)
            }
            2 => {
                let nv = r.range(300, 2000);
                let b = (nv as f64 * (0.4 + 0.5 * r.unit())) as usize;
                let l = r.range(nv / 2, nv);
                implications(r, nv, b, l)
            }
            _ => {
                let nv = r.range(300, 900);
                let m = r.range(2, 14);
                longclauses(r, nv, m)
            }
        },
    };
    if r.chance(0.35) {
        scramble(r, &mut f);
    }
    if r.chance(0.3) {
        pollute(r, &mut f);
    }
    if size != Size::Large && r.chance(0.12) {
        split(r, &mut f);
    }
    if size != Size::Tiny && r.chance(0.15) {
        spread(r, &mut f);
    }
    if r.chance(0.15) && f.nv > 0 {
        // unit clauses in arbitrary places
        for _ in 0..r.range(1, 3) {
            let v = r.range(1, f.nv) as i32;
            let l = match &f.known {
                Known::Model(m) => if m[v as usize] { v } else { -v },
                _ => r.sign(v),
            };
            let at = r.below(f.clauses.len() + 1);
            f.clauses.insert(at, vec![l]);
        }
    }
    // The in-memory interface derives the number of variables from the clauses.
    f.nv = max_var(&f.clauses);
    if let Known::Model(m) = &mut f.known {
        m.resize(f.nv + 1, false);
    }
    f
}

/// conflicts give clauses of hundreds of literals
pub fn tangled(r: &mut Rng) -> Formula {
    let nv = r.range(1000, 6000);
    let mut f = if r.bool() {
        let m = nv * r.range(38, 44) / 10;
        random_ksat(r, nv, 3, m)
    } else {
        let m = nv * r.range(70, 95) / 100;
        xor_system(r, nv, m, 3, true)
    };
    f.nv = max_var(&f.clauses);
    if let Known::Model(m) = &mut f.known {
        m.resize(f.nv + 1, false);
    }
    f
}

/// odd inputs: no clauses, one variable, units only, huge clauses, gaps
pub fn degenerate(r: &mut Rng) -> Formula {
    let (clauses, known): (Vec<Vec<i32>>, Known) = match r.below(12) {
        0 => (vec![], Known::Unknown),
        1 => (vec![vec![r.sign(1)]], Known::Unknown),
        2 => (vec![vec![1], vec![-1]], Known::Unsat),
        3 => {
            // the same clause again and again
            let n = r.range(1, 5);
            let c = distinct_clause(r, n, n);
            (vec![c; r.range(1, 30)], Known::Unknown)
        }
        4 => {
            // nothing but units
            let n = r.range(1, 40);
            let mut cls: Vec<Vec<i32>> = (1..=n as i32).map(|v| vec![r.sign(v)]).collect();
            r.shuffle(&mut cls);
            (cls, Known::Unknown)
        }
        5 => {
            // tautologies only
            let n = r.range(1, 10);
            let cls = (0..r.range(1, 12))
                .map(|_| {
                    let v = r.range(1, n) as i32;
                    let w = r.range(1, n) as i32;
                    let w = r.sign(w);
                    let mut c = vec![v, -v, w];
                    r.shuffle(&mut c);
                    c
                })
                .collect();
            (cls, Known::Unknown)
        }
        6 => {
            // one huge variable index
            let v = r.range(100, 20_000) as i32;
            (vec![vec![1, v], vec![-1, -v], vec![r.sign(1), r.sign(v)]], Known::Unknown)
        }
        7 => {
            // a long implication chain, closed or open, in either direction
            let n = r.range(2, 300) as i32;
            let mut cls: Vec<Vec<i32>> = (1..n).map(|v| vec![-v, v + 1]).collect();
            if r.bool() {
                cls.push(vec![-n, 1]);
            }
            if r.bool() {
                cls.push(vec![1]);
            }
            if r.bool() {
                cls.push(vec![-n]);
            }
            if r.bool() {
                r.shuffle(&mut cls);
            }
            (cls, Known::Unknown)
        }
        8 => {
            // a clause wider than 16 bits can count
            // (the assertions of a debug build compare its literals in pairs)
            let huge = r.chance(0.2) && !cfg!(debug_assertions);
            let n = if huge { r.range(65_530, 66_000) } else { r.range(500, 3000) } as i32;
            let mut cls = vec![(1..=n).map(|v| r.sign(v)).collect::<Vec<i32>>()];
            let neg: Vec<i32> = cls[0].iter().map(|l| -*l).collect();
            let k = r.range(0, 40);
            let from = r.below(n as usize - k);
            if r.bool() {
                cls.extend(neg[from..from + k].iter().map(|l| vec![*l]));
            }
            for _ in 0..k {
                let a = r.below(n as usize);
                let b = r.below(n as usize);
                if a != b {
                    cls.push(vec![neg[a], neg[b]]);
                }
            }
            (cls, Known::Unknown)
        }
        9 => {
            // complete truth table of clauses: all sign patterns over k vars, maybe but one
            let k = r.range(1, 7);
            let mut cls: Vec<Vec<i32>> = (0..1usize << k)
                .map(|m| (0..k).map(|i| if m >> i & 1 == 1 { i as i32 + 1 } else { -(i as i32 + 1) }).collect())
                .collect();
            r.shuffle(&mut cls);
            if r.bool() {
                cls.pop();
                (cls, Known::Unknown)
            } else {
                (cls, Known::Unsat)
            }
        }
        10 => {
            // everything refuted by propagation
            let n = r.range(2, 60) as i32;
            let mut cls: Vec<Vec<i32>> = (1..n).map(|v| vec![-v, v + 1]).collect();
            cls.push(vec![1]);
            cls.push(vec![-n, -(n - 1)]);
            if r.bool() {
                r.shuffle(&mut cls);
            }
            (cls, Known::Unsat)
        }
        _ => {
            // few clauses, many variables
            let n = r.range(20, 4000);
            let m = r.range(1, 12);
            let cls = (0..m)
                .map(|_| {
                    let k = r.range(1, 5);
                    distinct_clause(r, n, k)
                })
                .collect();
            (cls, Known::Unknown)
        }
    };
    let nv = max_var(&clauses);
    Formula::new(nv, clauses, known, "degenerate")
}

/// Sizes beyond those of the narrow integer types: indices, levels, numbers of clauses, widths.
pub fn huge(r: &mut Rng) -> Formula {
    // the assertions of a debug build visit everything again and again
    let part = if cfg!(debug_assertions) { 20 } else { 1 };
    let mut f = match r.below(7) {
        0 => {
            // an ordinary formula among indices that need more than 16 bits
            let mut f = if r.chance(0.3) { generate(r, Size::Tiny) } else { generate(r, Size::Small) };
            let top = (r.range(66_000, 140_000) / part).max(f.nv * 2);
            let step = (top / f.nv.max(1)).max(1);
            let (low, high) = (r.bool(), top - f.nv);
            let mode = r.below(3);
            let map = |v: usize| match mode {
                0 => v * step,
                1 => v + high,
                _ => if (v % 2 == 0) == low { v } else { v + high },
            };
            for c in f.clauses.iter_mut() {
                for l in c.iter_mut() {
                    let v = map(l.unsigned_abs() as usize) as i32;
                    *l = if *l > 0 { v } else { -v };
                }
            }
            let nv = max_var(&f.clauses);
            if let Known::Model(m) = &f.known {
                let mut m2 = vec![false; nv + 1];
                for v in 1..=f.nv {
                    if map(v) <= nv {
                        m2[map(v)] = m[v];
                    }
                }
                f.known = Known::Model(m2);
            }
            f.nv = nv;
            f
        }
        1 => {
            // easy, with more clauses than 16 bits can count
            let m = r.range(66_000, 80_000) / part;
            let nv = (m as f64 / (2.2 + 0.6 * r.unit())) as usize;
            planted(r, nv, 3, m)
        }
        2 => {
            // deep: next to free variables make a level each, conflicts come late;
            // the vars occur too often for elimination
            let n = r.range(75_000, 85_000) / part;
            let core = if r.bool() { generate(r, Size::Small) } else { generate(r, Size::Medium) };
            let mut model: Vec<bool> = (0..=n).map(|_| r.bool()).collect();
            let mut cls: Vec<Vec<i32>> = Vec::new();
            for _ in 0..n {
                let mut c = distinct_clause(r, n, 9);
                if !c.iter().any(|l| lit_true(*l, &model)) {
                    c[0] = -c[0];
                }
                cls.push(c);
            }
            // the core first or last
            let front = r.bool();
            let (dc, dn) = if front { (0, core.nv) } else { (n, 0) };
            let shift = |c: &Vec<i32>, d: usize| {
                c.iter().map(|l| if *l > 0 { *l + d as i32 } else { *l - d as i32 }).collect::<Vec<i32>>()
            };
            let cls: Vec<Vec<i32>> = core
                .clauses
                .iter()
                .map(|c| shift(c, dc))
                .chain(cls.iter().map(|c| shift(c, dn)))
                .collect();
            let known = match &core.known {
                Known::Model(m) if front => {
                    let mut m = m.clone();
                    m.resize(core.nv + 1, false);
                    m.extend_from_slice(&model[1..]);
                    Known::Model(m)
                }
                Known::Model(m) => {
                    model.extend_from_slice(&m[1..]);
                    Known::Model(model)
                }
                k => k.clone(),
            };
            Formula::new(core.nv + n, cls, known, "deep")
        }
        3 => {
            // one literal in more clauses than 16 bits can count
            let n = r.range(66_000, 70_000) / part;
            let x = r.range(1, n) as i32;
            let sx = r.sign(x);
            let model: Vec<bool> = (0..=n).map(|_| r.bool()).collect();
            let lit = |v: usize| if model[v] { v as i32 } else { -(v as i32) };
            let mut cls: Vec<Vec<i32>> = Vec::new();
            for v in 1..=n {
                if v as i32 == x {
                    continue;
                }
                let mut c = vec![sx, lit(v)];
                if r.chance(0.3) {
                    let w = r.range(1, n);
                    if w != v && w as i32 != x {
                        c.push(r.sign(w as i32));
                    }
                }
                r.shuffle(&mut c);
                cls.push(c);
            }
            for _ in 0..r.below(40) {
                let v = r.range(1, n);
                if v as i32 != x {
                    cls.push(vec![-sx, lit(v)]);
                }
            }
            Formula::new(n, cls, Known::Model(model), "star")
        }
        4 => {
            // wide clauses whose watches travel, and learnt clauses wider than 13 bits
            let n = r.range(9_000, 20_000) / if part == 1 { 1 } else { 3 };
            let model: Vec<bool> = (0..=n).map(|_| r.bool()).collect();
            let lit = |v: usize| if model[v] { v as i32 } else { -(v as i32) };
            let mut cls: Vec<Vec<i32>> = Vec::new();
            for _ in 0..r.range(1, 4) {
                let from = r.range(1, n / 10);
                let mut c: Vec<i32> = (from..=n).map(|v| -lit(v)).collect();
                let k = r.below(c.len());
                c[k] = -c[k];
                if r.bool() {
                    r.shuffle(&mut c);
                }
                cls.push(c);
            }
            for _ in 0..r.range(n / 2, n * 2) {
                let (a, b, c) = (r.range(1, n), r.range(1, n), r.range(1, n));
                if a != b && b != c && a != c {
                    cls.push(vec![lit(a), r.sign(b as i32), r.sign(c as i32)]);
                }
            }
            r.shuffle(&mut cls);
            Formula::new(n, cls, Known::Model(model), "wide")
        }
        5 => {
            // a clause with more literals than 16 bits can count, falsified one by one
            let n = r.range(65_560, 68_000);
            let t = if r.bool() { n } else { r.range(65_530, n) };
            let strange = *r.pick(&[0.0, 0.0, 0.001, 0.5]);
            let model: Vec<bool> = (0..=n).map(|v| v == t).collect();
            let mut cls: Vec<Vec<i32>> = vec![(1..=n as i32).collect()];
            for v in 1..=n {
                let v = if v == t { -(v as i32) } else { v as i32 };
                let (a, b) = (1 + v.unsigned_abs() as usize % n, r.range(1, n));
                if a != b && b as i32 != v.abs() {
                    let odd = |r: &mut Rng, l: i32| if r.chance(strange) { l } else { -l };
                    cls.push(vec![-v, odd(r, a as i32), odd(r, b as i32)]);
                }
            }
            let at = r.below(cls.len());
            cls.swap(0, at);
            Formula::new(n, cls, Known::Model(model), "long")
        }
        _ => {
            // a long chain of definitions: everything follows from a few variables
            let n = r.range(66_000, 80_000) / part;
            let i = r.range(20, 60);
            circuit(r, i, n / 4)
        }
    };
    if r.chance(0.3) {
        scramble(r, &mut f);
    }
    f.nv = max_var(&f.clauses);
    if let Known::Model(m) = &mut f.known {
        m.resize(f.nv + 1, false);
    }
    f
}
