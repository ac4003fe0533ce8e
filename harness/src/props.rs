//! One function per property: make a case from (seed, index), run the real code, judge.
use crate::ctx::Cx;
use crate::drat;
use crate::formula::*;
use crate::mon::{self, Opts, Seen};
use crate::refsat::{self, Ref};
use crate::rng::Rng;
use crate::run::*;
use splr::*;

pub fn case(cx: &mut Cx, i: u64) {
    let tag = cx.prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let mut r = Rng::derive(cx.seed.wrapping_add(tag.wrapping_mul(0x9E37_79B9)), i);
    let r = &mut r;
    match cx.prop.as_str() {
        "P01" => p01(cx, r, i),
        "P02" => p02(cx, r, i),
        "P03" => p03(cx, r, i),
        "P04" | "P05" | "P08" | "P09" | "P10" | "P11" => monitored(cx, r, i),
        #[cfg(not(feature = "no_io"))]
        "P25" if i % 8 == 3 && cx.splr.is_some() => {
            cx.evaluations += 1;
            crate::opts::reported(cx, r)
        }
        "P25" => monitored(cx, r, i),
        "P26" if i % 4 != 0 => means(cx, r),
        "P26" | "P27" | "P28" | "P29" | "P30" => monitored(cx, r, i),
        "P06" => p06(cx, r, i),
        "P07" => p07(cx, r, i),
        "P12" => p12(cx, r),
        "P13" => p13(cx, r),
        "P19" => p19(cx, r),
        "P20" => p20(cx, r),
        "P21" => p21(cx, r, i),
        "P22" => p22(cx, r, i),
        "P23" => p23(cx, r, i),
        #[cfg(not(feature = "no_io"))]
        "P14" | "P15" | "P16" | "P17" | "P18" => crate::files::case(cx, r, i),
        #[cfg(not(feature = "no_io"))]
        "P24" => crate::opts::p24(cx, r, i),
        p => panic!("unknown property {}", p),
    }
}

pub const BUDGET: u64 = 3000;

pub fn budget(cx: &Cx) -> u64 {
    if cx.thorough { 5 * BUDGET } else { BUDGET }
}

/// Once in a while sizes beyond those of the narrow integers.
fn huge_turn(r: &mut Rng, n: usize) -> bool {
    let n = if cfg!(debug_assertions) { 4 * n } else { n };
    r.below(n) == 0
}

/// the usual mixture of formulas
pub fn mixed(r: &mut Rng, large: bool) -> Formula {
    if large && huge_turn(r, 1000) {
        return huge(r);
    }
    match r.below(100) {
        0..=2 => degenerate(r),
        3..=34 => generate(r, Size::Tiny),
        35..=69 => generate(r, Size::Small),
        70..=94 => generate(r, Size::Medium),
        _ if large => generate(r, Size::Large),
        _ => generate(r, Size::Medium),
    }
}

pub fn describe(cx: &mut Cx, f: &Formula, extra: &str) {
    cx.witness = format!("c {} {}\n{}", f.family, extra, f.dimacs());
    cx.announce();
    cx.count(&format!("family {}", f.family), 1);
}

pub fn absorb(cx: &mut Cx, seen: &Seen) {
    for (k, v) in seen.counters.iter() {
        cx.count(k, *v);
    }
    for (k, v) in seen.maxima.iter() {
        cx.maximum(k, *v);
    }
    if seen.hooked {
        cx.count("runs observed through hooks", 1);
    }
}

/// load and solve under a conflict budget
pub fn drive(cx: &mut Cx, f: &Formula, cfg: Config, o: &Opts) -> (Out, Option<Solver>) {
    match load(&f.clauses, cfg) {
        Err(o) => (o, None),
        Ok(mut s) => {
            let mut o = o.clone();
            // what a conflict costs grows with the size
            let size = f.nv.max(f.clauses.len());
            if 60_000 < size {
                o.budget = o.budget.min(250);
            } else if 6_000 < size && cfg!(debug_assertions) {
                o.budget = o.budget.min(800);
            }
            let (out, seen) = mon::watch(&mut s, &o);
            absorb(cx, &seen);
            if let Some(e) = &seen.error {
                cx.fail(e);
            }
            cx.maximum("most conflicts in a run", seen.conflicts);
            (out, Some(s))
        }
    }
}

/// the answer against the truth; returns true if the run ended with an answer
pub fn judge(cx: &mut Cx, f: &Formula, out: &Out, truth: Option<bool>) -> bool {
    match out {
        Out::Sat(m) => {
            cx.count("answers SAT", 1);
            if let Err(e) = model_ok(m, f.nv, &f.clauses) {
                cx.fail(format!("wrong model: {}", e));
            } else {
                assert!(truth != Some(false), "the reference is wrong about an unsat formula");
            }
            true
        }
        Out::Unsat | Out::UnsatAtLoad => {
            cx.count("answers UNSAT", 1);
            match truth {
                Some(true) => cx.fail("UNSAT for a satisfiable formula"),
                None => {
                    if !unsat_by_proof(cx, f) {
                        cx.unclear("UNSAT not confirmed");
                    }
                }
                Some(false) => (),
            }
            true
        }
        Out::Stopped(s) => {
            if !cx.failed() {
                cx.unclear(s);
            }
            false
        }
        o => {
            cx.fail(format!("no answer: {}", o.brief()));
            false
        }
    }
}

/// confirm by the solver's own proof that a formula is unsatisfiable
fn unsat_by_proof(cx: &mut Cx, f: &Formula) -> bool {
    #[cfg(not(feature = "no_io"))]
    {
        let dir = cx.tmp.clone();
        let (out, s) = run(&f.clauses, cert_config(&dir, "confirm.drat"));
        if !out.is_unsat() {
            return false;
        }
        save(s);
        let Ok(text) = std::fs::read_to_string(dir.join("confirm.drat")) else {
            return false;
        };
        let Ok(steps) = drat::parse(&text) else {
            return false;
        };
        cx.count("UNSAT confirmed by a checked proof", 1);
        drat::check(f.nv, &f.clauses, &steps).is_ok()
    }
    #[cfg(feature = "no_io")]
    {
        let _ = (cx, f);
        false
    }
}

/// close the certificate of a solver that ended with UNSAT
#[allow(unused_variables, unused_mut)]
fn save(s: Option<Solver>) {
    #[cfg(not(feature = "no_io"))]
    if let Some(mut s) = s {
        s.save_certification();
    }
}

fn ref_budget(cx: &Cx) -> usize {
    if cx.thorough { 60_000 } else { 12_000 }
}

/// SAT answers
fn p01(cx: &mut Cx, r: &mut Rng, i: u64) {
    let f = match r.below(100) {
        0..=3 => degenerate(r),
        4..=29 => generate(r, Size::Tiny),
        30..=54 => generate(r, Size::Small),
        55..=69 => generate(r, Size::Medium),
        70..=89 => {
            // satisfiable by construction, near the threshold
            let nv = r.range(20, 220);
            let k = if nv < 70 && r.bool() { 4 } else { 3 };
            let ratio = if k == 3 { 3.0 + 1.6 * r.unit() } else { 7.0 + 3.0 * r.unit() };
            let mut f = planted(r, nv, k, (nv as f64 * ratio) as usize);
            if r.bool() {
                pollute(r, &mut f);
            }
            if r.chance(0.3) {
                spread(r, &mut f);
            }
            f.nv = max_var(&f.clauses);
            if let Known::Model(m) = &mut f.known {
                m.resize(f.nv + 1, false);
            }
            f
        }
        _ if r.below(25) == 0 => huge(r),
        _ => generate(r, Size::Large),
    };
    describe(cx, &f, "");
    let t = truth(&f, ref_budget(cx));
    if t == Some(false) {
        cx.count("unsatisfiable, skipped", 1);
        return;
    }
    cx.evaluations += 1;
    let how = i % 8;
    let out = if how == 0 {
        match guard(|| Certificate::try_from(f.clauses.clone())) {
            Ok(Ok(Certificate::SAT(m))) => Out::Sat(m),
            Ok(Ok(Certificate::UNSAT)) => Out::Unsat,
            Ok(Err(e)) => Out::Error(e),
            Err(c) => caught(c),
        }
    } else if how == 1 && cfg!(not(feature = "no_io")) {
        from_file(cx, &f)
    } else {
        let mut o = Opts::new(budget(cx));
        o.candidates = true;
        o.every = u64::MAX; // only the last event matters here
        drive(cx, &f, config(), &o).0
    };
    match &out {
        Out::Sat(m) => {
            cx.count("models checked", 1);
            cx.nontrivial(f.hash());
            if let Err(e) = model_ok(m, f.nv, &f.clauses) {
                cx.fail(format!("wrong model: {}", e));
            }
            cx.sample(|| format!("{} with {} vars, {} clauses: model ok", f.family, f.nv, f.clauses.len()));
        }
        Out::Stopped(s) => {
            if !cx.failed() {
                cx.unclear(s)
            }
        }
        o if t == Some(true) => cx.fail(format!("{} for a satisfiable formula", o.brief())),
        Out::Panic(p) => cx.fail(format!("panic: {}", p)),
        _ => cx.unclear("truth not known"),
    }
}

#[cfg(not(feature = "no_io"))]
fn from_file(cx: &mut Cx, f: &Formula) -> Out {
    let path = cx.tmp.join("p.cnf");
    std::fs::write(&path, f.dimacs()).expect("scratch file");
    let c = Config { cnf_file: path, ..config() };
    match guard(|| Solver::build(&c)) {
        Ok(Ok(mut s)) => {
            let (out, seen) = mon::watch(&mut s, &Opts::new(budget(cx)));
            absorb(cx, &seen);
            out
        }
        Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => Out::UnsatAtLoad,
        Ok(Err(e)) => Out::Error(e),
        Err(c) => caught(c),
    }
}
#[cfg(feature = "no_io")]
fn from_file(cx: &mut Cx, f: &Formula) -> Out {
    drive(cx, f, config(), &Opts::new(budget(cx))).0
}

/// verdicts
fn p02(cx: &mut Cx, r: &mut Rng, i: u64) {
    let f = mixed(r, true);
    describe(cx, &f, "");
    cx.evaluations += 1;
    let out = if i % 10 == 0 {
        from_file(cx, &f)
    } else {
        drive(cx, &f, config(), &Opts::new(budget(cx))).0
    };
    let t = match out {
        // an answer judged by its model needs no reference
        Out::Sat(_) => None,
        _ => truth(&f, ref_budget(cx)),
    };
    if judge(cx, &f, &out, t) {
        cx.nontrivial(f.hash());
        if out == Out::UnsatAtLoad {
            cx.count("refuted while loading", 1);
        }
        cx.sample(|| format!("{} with {} vars, {} clauses: {}", f.family, f.nv, f.clauses.len(), out.brief()));
    }
}

/// certificates
#[cfg(feature = "no_io")]
fn p03(_: &mut Cx, _: &mut Rng, _: u64) {}
#[cfg(not(feature = "no_io"))]
fn p03(cx: &mut Cx, r: &mut Rng, i: u64) {
    // favour unsatisfiable formulas
    let f = match r.below(20) {
        0 => degenerate(r),
        1..=4 => {
            let nv = r.range(4, 16);
            let m = (nv as f64 * (5.0 + 3.0 * r.unit())) as usize;
            let mut f = random_ksat(r, nv, 3, m);
            if r.bool() {
                pollute(r, &mut f);
            }
            f.nv = max_var(&f.clauses);
            f
        }
        5..=8 => generate(r, Size::Tiny),
        9..=11 => generate(r, Size::Small),
        12..=13 => {
            let nv = r.range(30, 120);
            let m = (nv as f64 * (4.6 + r.unit())) as usize;
            let mut f = random_ksat(r, nv, 3, m);
            if r.bool() {
                // definitions on top, so that elimination has something to do
                let g = circuit(r, 6, 40);
                f = union(f, g, 6);
            }
            f
        }
        14 => {
            let n = r.range(4, 16);
            parity(r, n)
        }
        15 => {
            let h = r.range(3, 6);
            let mut f = pigeon(r, h + 1, h);
            scramble(r, &mut f);
            f
        }
        16 => {
            let nv = r.range(10, 26);
            let m = nv + r.range(1, 6);
            xor_system(r, nv, m, 3, false)
        }
        _ => generate(r, Size::Medium),
    };
    describe(cx, &f, "with certification");
    cx.evaluations += 1;
    let dir = cx.tmp.clone();
    let path = dir.join("proof.drat");
    let _ = std::fs::remove_file(&path);
    let cli = i % 12 == 5 && cx.splr.is_some();
    let unsat;
    if cli {
        let cnf = dir.join("c.cnf");
        std::fs::write(&cnf, f.dimacs()).expect("scratch file");
        let out = std::process::Command::new(cx.splr.as_ref().unwrap())
            .args(["-q", "-C", "-t", "20", "-o"])
            .arg(&dir)
            .args(["-c", "-p", "proof.drat"])
            .arg(&cnf)
            .output();
        match out {
            Ok(o) => match o.status.code() {
                Some(20) => unsat = true,
                Some(10) => unsat = false,
                Some(0) => return cx.unclear("time out of the command-line solver"),
                c => {
                    return cx.fail(format!(
                        "the command-line solver ended with {:?}: {}",
                        c,
                        String::from_utf8_lossy(&o.stderr)
                    ));
                }
            },
            Err(e) => return cx.unclear(&format!("can't run splr: {}", e.kind())),
        }
        cx.count("proofs by the command-line solver", unsat as u64);
    } else {
        let (out, s) = drive(cx, &f, cert_config(&dir, "proof.drat"), &Opts::new(budget(cx)));
        if out == Out::Unsat {
            save(s);
        }
        match out {
            Out::Unsat | Out::UnsatAtLoad => unsat = true,
            Out::Sat(_) => unsat = false,
            Out::Stopped(s) => return cx.unclear(s),
            o => return cx.fail(format!("no answer: {}", o.brief())),
        }
    }
    if !unsat {
        cx.count("answers SAT", 1);
        return;
    }
    cx.count("answers UNSAT", 1);
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(e) => return cx.fail(format!("no certificate: {}", e)),
    };
    match drat::parse(&text) {
        Err(e) => cx.fail(format!("malformed certificate: {}", e)),
        Ok(steps) => match drat::check(f.nv, &f.clauses, &steps) {
            Err(e) => cx.fail(format!("the certificate is rejected: {}", e)),
            Ok(st) => {
                match steps.last() {
                    Some(drat::Step::Add(c)) if c.is_empty() => (),
                    _ => return cx.fail("the certificate doesn't end in the empty clause"),
                }
                cx.count("proofs accepted", 1);
                cx.count("lemmas checked", st.lemmas as u64);
                cx.count("lemmas by RAT", st.rat as u64);
                cx.count("deletions", st.deletions as u64);
                cx.maximum("longest proof", st.lemmas as u64);
                cx.nontrivial(f.hash());
                cx.sample(|| {
                    format!(
                        "{} with {} vars, {} clauses: proof of {} lemmas, {} deletions",
                        f.family, f.nv, f.clauses.len(), st.lemmas, st.deletions
                    )
                });
            }
        },
    }
}

/// P04, P05, P08..P11: monitors on the running solver
fn monitored(cx: &mut Cx, r: &mut Rng, i: u64) {
    let p = cx.prop.clone();
    if (p == "P08" || p == "P11") && huge_turn(r, 100) {
        cx.evaluations += 1;
        return march(cx, r);
    }
    let heavy = p == "P04" || p == "P05";
    let f = match r.below(100) {
        _ if !heavy && huge_turn(r, 300) => huge(r),
        0..=1 => degenerate(r),
        2..=21 => generate(r, Size::Tiny),
        22..=51 => generate(r, Size::Small),
        52..=95 => generate(r, Size::Medium),
        96 | 97 if p == "P05" => {
            // thin ones, in which a clause isn't implied by the others by chance
            let nv = r.range(30, 140);
            let m = r.range(3, nv * 4 / 5);
            let mut f = subsumable(r, nv, m);
            f.nv = max_var(&f.clauses);
            f
        }
        _ if heavy => generate(r, Size::Small),
        // learnt clauses of hundreds of literals
        96 | 97 => tangled(r),
        _ => generate(r, Size::Large),
    };
    if heavy && 8_000 < f.clauses.iter().map(|c| c.len()).sum::<usize>() {
        return;
    }
    let mut cfg = config();
    if r.chance(0.3) {
        tweak(r, &mut cfg);
        cfg.c_cls_lim = 0;
    }
    if p == "P29" && r.chance(0.4) {
        cfg.elm_grw_lim = r.below(30);
        cfg.elm_cls_lim = *r.pick(&[1, 2, 3, 5, 10, 64]);
        cfg.elm_var_occ = *r.pick(&[0, 1, 4, 10, 30, 100, 20000]);
        if r.chance(0.3) {
            // the soft limit is near
            cfg.c_cls_lim = f.clauses.len() * r.range(80, 160) / 100 + 5;
        }
    }
    let lits: usize = f.clauses.iter().map(|c| c.len()).sum();
    if r.chance(0.12) && lits < 20_000 {
        // writing a proof, which changes nothing else
        cfg.use_certification = true;
        cfg.io_odir = cx.tmp.clone();
        cfg.io_pfile = std::path::PathBuf::from("monitored.drat");
        cx.count("with certification", 1);
    }
    describe(cx, &f, &format!("config {}", show_config(&cfg)));
    let mut o = Opts::new(budget(cx));
    o.propagation = p == "P08";
    o.trail = p == "P09";
    o.candidates = p == "P10";
    o.database = p == "P11";
    o.learning = p == "P04";
    o.simplification = p == "P05";
    o.tally = p == "P25";
    o.averages = p == "P26";
    o.phases = p == "P28";
    o.reduction = p == "P27";
    o.pruning = p == "P29";
    o.analysis = p == "P30";
    o.seed = cx.seed ^ i;
    o.nv = f.nv;
    o.every = if lits < 600 { 1 } else if lits < 3000 { 3 } else { 1 + lits as u64 / 500 };
    // few runs are watched closely, many at some points only
    o.every *= *r.pick(&[1, 5, 20, 100, 400]);
    if o.learning {
        o.budget = if cx.thorough { 2500 } else { 700 };
        o.ref_budget = 1500;
    }
    if o.simplification {
        o.clauses = f.clauses.clone();
        if i % 2 == 0 || i % 10 == 1 {
            o.satisfiable = truth(&f, 4000);
        }
        o.budget = if cx.thorough { 6000 } else { 1500 };
    }
    cx.evaluations += 1;
    #[cfg(splr_verif)]
    if matches!(p.as_str(), "P04" | "P05" | "P11" | "P29") && i % 2 == 1 && lits < 4000 {
        let Ok(mut s) = load(&f.clauses, cfg) else {
            return;
        };
        o.every = 1;
        // those with unknown truth are quick ones: nothing gets lost
        let rounds = r.range(1, 8);
        o.quick = o.satisfiable.is_none();
        let (res, seen) = mon::workshop(&mut s, &o, rounds);
        absorb(cx, &seen);
        cx.count("workshops", 1);
        if let Some(e) = &seen.error {
            return cx.fail(format!("workshop: {}", e));
        }
        match res {
            Ok(false) if o.satisfiable == Some(true) => {
                cx.fail("the simplifiers refute a satisfiable formula")
            }
            Ok(_) => cx.nontrivial(f.hash()),
            Err(Caught::Panic(e)) => cx.fail(format!("workshop: panic: {}", e)),
            Err(Caught::Stopped(_)) => (),
        }
        return;
    }
    let soft_limit = cfg.c_cls_lim;
    let (out, s) = drive(cx, &f, cfg, &o);
    match &out {
        Out::Sat(_) | Out::Unsat | Out::UnsatAtLoad | Out::Stopped("conflict budget") => {
            cx.nontrivial(f.hash());
            cx.sample(|| format!("{} with {} vars, {} clauses: {}", f.family, f.nv, f.clauses.len(), out.brief()));
        }
        Out::Stopped(_) => (),
        Out::Error(SolverError::OutOfMemory) if soft_limit != 0 => (),
        o => cx.fail(format!("the run didn't end properly: {}", o.brief())),
    }
    if p == "P05" {
        // end to end: what was simplified away is back in the answer
        match (&out, o.satisfiable) {
            (Out::Sat(m), _) => {
                if let Err(e) = model_ok(m, f.nv, &f.clauses) {
                    cx.fail(format!("wrong model: {}", e));
                }
            }
            (Out::Unsat, Some(true)) => cx.fail("a satisfiable formula turned unsatisfiable"),
            _ => (),
        }
    }
    let _ = s;
    if !heavy && p != "P29" && p != "P30" && i % 3 == 0 && !cx.failed() && lits < 4000 {
        walk(cx, r, &f, &p);
    }
}

/// Drive propagation directly: a long clause gets falsified from left to right.
fn march(cx: &mut Cx, r: &mut Rng) {
    use crate::mon::inv;
    use splr::assign::{AssignIF, PropagateIF, VarManipulateIF};
    let n = *r.pick(&[3, 10, 100, 250, 258, 300, 1000, 8200, 32_760, 65_530, 65_540, 66_000]) + r.below(12);
    let clause: Vec<i32> = (1..=n as i32).map(|v| r.sign(v)).collect();
    let Ok(mut s) = load(&[clause.clone()], config()) else {
        return cx.fail("a clause is refused");
    };
    cx.count("marches", 1);
    cx.maximum("longest clause falsified from left to right", n as u64);
    let mut r2 = r.clone();
    let skip = *r.pick(&[0.0, 0.0, 0.001, 0.1]);
    let res = guard(move || -> Result<(), String> {
        for round in 0..2 {
            let from = s.asg.decision_level() as usize;
            for (k, l) in clause.iter().enumerate().skip(if round == 0 { 0 } else { from / 2 }) {
                let Solver { asg, cdb, .. } = &mut s;
                let l = Lit::from(-*l);
                if asg.assign(l.vi()).is_some() || r2.chance(skip) {
                    continue;
                }
                asg.assign_by_decision(l);
                if let Err(e) = asg.propagate(cdb) {
                    return Err(format!("a conflict at literal {}: {:?}", k, e));
                }
                // what 8, 13, 15 and 16 bits can count
                let near = [256, 8192, 32_768, 65_536, n].iter().any(|m| k + 6 > *m && k < m + 3);
                if near || r2.chance(0.0005) {
                    inv::fixpoint(asg, cdb)?;
                    inv::clauses(asg, cdb)?;
                    #[cfg(splr_verif)]
                    inv::watches(asg, cdb)?;
                }
            }
            let Solver { asg, cdb, .. } = &mut s;
            inv::fixpoint(asg, cdb)?;
            inv::clauses(asg, cdb)?;
            if round == 0 {
                let to = r2.below(asg.decision_level() as usize + 1) as u32;
                asg.cancel_until(to);
                // the saved trail may come back
                if let Err(e) = asg.propagate(cdb) {
                    return Err(format!("a conflict after a jump to level {}: {:?}", to, e));
                }
            }
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => cx.nontrivial(n as u64),
        Ok(Err(e)) => cx.fail(format!("march over {} literals: {}", n, e)),
        Err(Caught::Panic(e)) => cx.fail(format!("march over {} literals: panic: {}", n, e)),
        Err(Caught::Stopped(_)) => (),
    }
}

/// Drive propagation directly: random decisions, propagation, and backjumps; no search involved.
fn walk(cx: &mut Cx, r: &mut Rng, f: &Formula, p: &str) {
    use crate::mon::inv;
    use splr::assign::{AssignIF, PropagateIF, VarManipulateIF};
    let Ok(mut s) = load(&f.clauses, config()) else {
        return;
    };
    cx.count("random walks", 1);
    let steps = 12 + f.nv.min(200);
    let mut r2 = r.clone();
    let prop = p.to_string();
    let res = guard(move || -> Result<(u64, u64), String> {
        let (mut fix, mut con) = (0, 0);
        let judge = |s: &Solver, fixed: bool| -> Result<(), String> {
            match prop.as_str() {
                "P08" if fixed => inv::fixpoint(&s.asg, &s.cdb).map(|_| ()),
                "P09" => inv::trail(&s.asg, &s.cdb).map(|_| ()),
                #[cfg(splr_verif)]
                "P10" => inv::candidates(&s.asg).map(|_| ()),
                "P11" => {
                    inv::clauses(&s.asg, &s.cdb)?;
                    #[cfg(splr_verif)]
                    inv::watches(&s.asg, &s.cdb)?;
                    Ok(())
                }
                _ => Ok(()),
            }
        };
        for _ in 0..steps {
            let Solver { asg, cdb, .. } = &mut s;
            match asg.propagate(cdb) {
                Ok(()) => {
                    fix += 1;
                    judge(&s, true)?;
                }
                Err(cc) => {
                    con += 1;
                    if prop == "P08" {
                        inv::conflict(&s.asg, &s.cdb, &cc)?;
                    }
                    judge(&s, false)?;
                    let dl = s.asg.decision_level();
                    if dl == 0 {
                        break;
                    }
                    let to = if r2.bool() { dl - 1 } else { r2.below(dl as usize) as u32 };
                    s.asg.cancel_until(to);
                    judge(&s, false)?;
                    continue;
                }
            }
            let dl = s.asg.decision_level();
            if 0 < dl && r2.chance(0.25) {
                let to = r2.below(dl as usize) as u32;
                s.asg.cancel_until(to);
                judge(&s, false)?;
                if s.asg.remains() {
                    continue;
                }
            }
            let free: Vec<usize> = (1..=s.asg.num_vars).filter(|v| s.asg.assign(*v).is_none()).collect();
            if free.is_empty() {
                break;
            }
            let l = Lit::from((*r2.pick(&free), r2.bool()));
            s.asg.assign_by_decision(l);
        }
        Ok((fix, con))
    });
    match res {
        Ok(Ok((a, b))) => {
            cx.count("fixpoints of random walks", a);
            cx.count("conflicts of random walks", b);
        }
        Ok(Err(e)) => cx.fail(format!("random walk: {}", e)),
        Err(Caught::Panic(e)) => cx.fail(format!("random walk: panic: {}", e)),
        Err(Caught::Stopped(_)) => (),
    }
}

/// every formula gets an answer
fn p06(cx: &mut Cx, r: &mut Rng, i: u64) {
    let f = if i % 9 == 0 { degenerate(r) } else { mixed(r, true) };
    describe(cx, &f, "");
    cx.evaluations += 1;
    let (out, _) = drive(cx, &f, config(), &Opts::new(budget(cx)));
    match &out {
        Out::Sat(_) | Out::Unsat | Out::UnsatAtLoad => {
            cx.count("answers", 1);
            cx.nontrivial(f.hash());
        }
        Out::Stopped(s) => cx.unclear(s),
        o => cx.fail(format!("no answer: {}", o.brief())),
    }
    cx.sample(|| format!("{} with {} vars, {} clauses: {}", f.family, f.nv, f.clauses.len(), out.brief()));
}

/// small workload for an interpreter that is slower by four orders of magnitude
fn p07_interpreted(cx: &mut Cx, r: &mut Rng) {
    let nv = r.range(3, 12);
    let m = (nv as f64 * (3.0 + 1.5 * r.unit())) as usize;
    let mut f = match r.below(6) {
        0 => pigeon(r, 4, 3),
        1 => parity(r, 3),
        2 => circuit(r, 3, 6),
        _ => random_ksat(r, nv, 3, m),
    };
    f.nv = max_var(&f.clauses);
    if 40 < f.clauses.len() {
        f.clauses.truncate(40);
        f.known = Known::Unknown;
    }
    describe(cx, &f, "interpreted");
    cx.evaluations += 1;
    let cfg = config();
    let grow = r.bool();
    let first = if grow { f.clauses.len() / 2 } else { f.clauses.len() };
    let out = match load(&f.clauses[..first], cfg) {
        Err(o) => o,
        Ok(mut s) => {
            let made = guard(|| {
                let have = f.clauses[..first].iter().flatten().map(|l| l.unsigned_abs()).max().unwrap_or(0);
                for _ in have as usize..f.nv {
                    s.add_var();
                }
                for c in f.clauses[first..].iter() {
                    if s.add_clause(c).is_err() {
                        return false;
                    }
                }
                true
            });
            match made {
                Ok(true) => solve(&mut s),
                Ok(false) => Out::UnsatAtLoad,
                Err(c) => caught(c),
            }
        }
    };
    match &out {
        Out::Panic(p) => cx.fail(format!("panic: {}", p)),
        _ => cx.nontrivial(f.hash()),
    }
    cx.sample(|| format!("{} with {} vars, {} clauses: {}", f.family, f.nv, f.clauses.len(), out.brief()));
}

/// memory: everything that reaches unchecked accesses, including growing problems
fn p07(cx: &mut Cx, r: &mut Rng, i: u64) {
    if cfg!(miri) {
        return p07_interpreted(cx, r);
    }
    if i % 4 == 0 {
        return p13(cx, r);
    }
    let f = mixed(r, true);
    let mut cfg = config();
    if r.bool() {
        tweak(r, &mut cfg);
        cfg.c_cls_lim = 0;
    }
    describe(cx, &f, &format!("config {}", show_config(&cfg)));
    cx.evaluations += 1;
    let (out, s) = drive(cx, &f, cfg, &Opts::new(budget(cx)));
    match &out {
        Out::Panic(p) => cx.fail(format!("panic: {}", p)),
        Out::Stopped(_) => cx.count("stopped by budget", 1),
        _ => cx.nontrivial(f.hash()),
    }
    if let Some(s) = s {
        // the finished solver is read through its public interface
        let r = guard(|| {
            use splr::cdb::ClauseDBIF;
            let a = s.cdb.iter().map(|c| c.len()).sum::<usize>();
            let b = s.cdb.clause_heatmap();
            (a, b.len())
        });
        if let Err(Caught::Panic(p)) = r {
            cx.fail(format!("panic: {}", p));
        }
    }
    cx.sample(|| format!("{} with {} vars, {} clauses: {}", f.family, f.nv, f.clauses.len(), out.brief()));
}

fn bad_literal(r: &mut Rng, nv: usize) -> i32 {
    let over = [nv as i32 + 1, nv as i32 + r.range(2, 1000) as i32, i32::MAX, i32::MAX / 2 + 1, 1 << 30];
    match r.below(8) {
        0..=1 => 0,
        2 => i32::MIN,
        3 => i32::MIN + 1,
        _ => {
            let v = *r.pick(&over);
            if r.bool() { v } else { -v }
        }
    }
}

/// rejection of illegal input
fn p12(cx: &mut Cx, r: &mut Rng) {
    let size = if r.chance(0.7) { Size::Tiny } else { Size::Small };
    let f = generate(r, size);
    cx.evaluations += 1;
    describe(cx, &f, "");
    if r.chance(0.3) {
        // a vector with an illegal element
        let mut cls = f.clauses.clone();
        let at = r.below(cls.len() + 1);
        let mut want_empty = false;
        let bad = match r.below(4) {
            0 => {
                want_empty = true;
                vec![]
            }
            _ => {
                let mut c = if f.nv == 0 { vec![] } else { vec![r.sign(1)] };
                let x = if r.bool() { 0 } else { i32::MIN };
                let k = r.below(c.len() + 1);
                c.insert(k, x);
                c
            }
        };
        cls.insert(at, bad);
        cx.witness = format!("vector {:?}", cls);
        let out = match load(&cls, config()) {
            Err(o) => o,
            Ok(_) => {
                return cx.fail(if want_empty {
                    "a vector with an empty clause is accepted"
                } else {
                    "a vector with an illegal literal is accepted"
                });
            }
        };
        // clauses before the illegal one can be refuted first
        let before = Formula::new(max_var(&cls[..at]), cls[..at].to_vec(), Known::Unknown, "");
        let early = matches!(truth(&before, 5000), Some(false) | None);
        match out {
            Out::UnsatAtLoad if want_empty || early => cx.count("empty clause reported", 1),
            Out::Error(SolverError::InvalidLiteral) if !want_empty => {
                cx.count("illegal literal reported", 1)
            }
            o => return cx.fail(format!("illegal vector gives {}", o.brief())),
        }
        let c = guard(|| Certificate::try_from(cls.clone()));
        match c {
            Ok(Ok(Certificate::UNSAT)) if want_empty || early => (),
            Ok(Err(SolverError::InvalidLiteral)) if !want_empty => (),
            Ok(o) => return cx.fail(format!("Certificate from an illegal vector gives {:?}", o)),
            Err(c) => return cx.fail(format!("Certificate from an illegal vector: {}", caught(c).brief())),
        }
        cx.nontrivial(r.next());
        return;
    }
    let mut s = match load(&f.clauses, config()) {
        Ok(s) => s,
        Err(Out::UnsatAtLoad) => return,
        Err(o) => return cx.fail(format!("a valid vector isn't accepted: {}", o.brief())),
    };
    let mut all = f.clauses.clone();
    let mut fixed: Vec<i32> = Vec::new();
    let mut log = Vec::new();
    for _ in 0..r.range(1, 12) {
        enum Op {
            Clause(Vec<i32>),
            Assign(i32),
        }
        let legal = r.chance(0.35) && 0 < f.nv;
        let op = if r.bool() {
            let k = r.range(if legal { 1 } else { 0 }, 4);
            let mut c: Vec<i32> = (0..k)
                .map(|_| {
                    let v = r.range(1, f.nv.max(1)) as i32;
                    r.sign(v)
                })
                .collect();
            if !legal && (k != 0 || r.bool()) {
                let at = r.below(c.len() + 1);
                let b = bad_literal(r, f.nv);
                c.insert(at, b);
            }
            Op::Clause(c)
        } else if legal {
            let v = r.range(1, f.nv) as i32;
            Op::Assign(r.sign(v))
        } else {
            Op::Assign(bad_literal(r, f.nv))
        };
        match op {
            Op::Clause(c) => {
                log.push(format!("add_clause {:?}", c));
                cx.witness = format!("{}then {}", f.dimacs(), log.join(", "));
                let bad = c.iter().any(|l| *l == 0 || f.nv < l.unsigned_abs() as usize);
                match guard(|| s.add_clause(c.clone()).map(|_| ())) {
                    Ok(Ok(())) if bad => return cx.fail("an illegal literal is accepted in a clause"),
                    Ok(Ok(())) if c.is_empty() => return cx.fail("an empty clause is accepted"),
                    Ok(Ok(())) => all.push(c),
                    Ok(Err(SolverError::InvalidLiteral)) if bad => cx.count("illegal clauses rejected", 1),
                    Ok(Err(SolverError::EmptyClause)) if c.is_empty() => {
                        cx.count("empty clauses rejected", 1)
                    }
                    Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)))
                        if !bad && c.iter().all(|l| fixed.contains(&-*l) || all.contains(&vec![-*l])
                            || truth_units(&all, &fixed, *l)) =>
                    {
                        // it contradicts the assertions
                        cx.count("contradictions reported", 1);
                        return;
                    }
                    Ok(Err(e)) => return cx.fail(format!("{:?} for the clause {:?}", e, c)),
                    Err(p) => return cx.fail(format!("{} for the clause {:?}", caught(p).brief(), c)),
                }
            }
            Op::Assign(l) => {
                log.push(format!("add_assignment {}", l));
                cx.witness = format!("{}then {}", f.dimacs(), log.join(", "));
                let bad = l == 0 || f.nv < l.unsigned_abs() as usize;
                match guard(|| s.add_assignment(l).map(|_| ())) {
                    Ok(Ok(())) if bad => return cx.fail("an illegal literal is accepted as an assignment"),
                    Ok(Ok(())) => {
                        fixed.push(l);
                    }
                    Ok(Err(SolverError::InvalidLiteral)) if bad => {
                        cx.count("illegal assignments rejected", 1)
                    }
                    Ok(Err(SolverError::RootLevelConflict(_) | SolverError::Inconsistent))
                        if !bad && truth_units(&all, &fixed, l) =>
                    {
                        cx.count("contradictions reported", 1);
                        return;
                    }
                    Ok(Err(e)) => return cx.fail(format!("{:?} for the assignment {}", e, l)),
                    Err(p) => return cx.fail(format!("{} for the assignment {}", caught(p).brief(), l)),
                }
            }
        }
        if f.nv != s.asg.num_vars {
            return cx.fail("a rejected or accepted literal changed the number of vars");
        }
    }
    if r.chance(0.3) {
        // the validator's entry
        let mut v: Vec<i32> = (1..=f.nv as i32).map(|v| r.sign(v)).collect();
        let b = bad_literal(r, f.nv);
        let at = r.below(v.len() + 1);
        v.insert(at, b);
        cx.witness = format!("{}inject_assignment {:?}", f.dimacs(), v);
        match guard(|| s.inject_assignment(&v)) {
            Ok(Err(SolverError::InvalidLiteral)) => cx.count("illegal models rejected", 1),
            Ok(o) => return cx.fail(format!("an illegal model gives {:?}", o)),
            Err(p) => return cx.fail(format!("an illegal model: {}", caught(p).brief())),
        }
        // it left no trace
    }
    if r.chance(0.3) && 0 < f.nv {
        // contradicting values, and values given twice
        use splr::assign::VarManipulateIF as _;
        let mut c = s.clone();
        let mut v: Vec<i32> = (1..=f.nv as i32)
            .map(|v| match c.asg.assign(v as usize) {
                Some(b) => if b { v } else { -v },
                None => r.sign(v),
            })
            .collect();
        r.shuffle(&mut v);
        v.truncate(r.range(1, v.len()));
        let l = *r.pick(&v);
        let clash = r.bool();
        let at = r.below(v.len() + 1);
        v.insert(at, if clash { -l } else { l });
        cx.witness = format!("{}then {}; inject_assignment {:?}", f.dimacs(), log.join(", "), v);
        match guard(|| c.inject_assignment(&v)) {
            Ok(Err(SolverError::RootLevelConflict(_) | SolverError::Inconsistent)) if clash => {
                cx.count("contradicting assignments reported", 1)
            }
            Ok(Ok(())) if !clash => cx.count("repeated assignments accepted", 1),
            Ok(o) => return cx.fail(format!("an assignment that {} gives {:?}", if clash { "contradicts itself" } else { "repeats a literal" }, o)),
            Err(p) => return cx.fail(format!("an assignment: {}", caught(p).brief())),
        }
    }
    cx.witness = format!("{}then {}", f.dimacs(), log.join(", "));
    all.extend(fixed.iter().map(|l| vec![*l]));
    let g = Formula::new(f.nv, all, Known::Unknown, "accepted");
    let (out, seen) = mon::watch(&mut s, &Opts::new(budget(cx)));
    absorb(cx, &seen);
    let t = truth(&g, ref_budget(cx));
    if judge(cx, &g, &out, t) {
        cx.count("solved after rejections", 1);
        cx.nontrivial(g.hash() ^ log.len() as u64);
        cx.sample(|| format!("{} vars; {}; then {}", g.nv, log.join(", "), out.brief()));
    }
}

/// Is `l` false by the unit clauses and assignments given so far (and what they propagate to at
/// loading, which depends on the order: approximated from above by unit propagation)?
fn truth_units(all: &[Vec<i32>], fixed: &[i32], l: i32) -> bool {
    let nv = max_var(all).max(l.unsigned_abs() as usize);
    let mut c = drat::Checker::new(nv);
    for x in all {
        c.insert(x);
    }
    for x in fixed {
        c.insert(&[*x]);
    }
    c.refuted || c.is_rup(&[-l])
}

/// step by step
fn p13(cx: &mut Cx, r: &mut Rng) {
    let f = match r.below(10) {
        0..=4 => generate(r, Size::Tiny),
        5..=7 => generate(r, Size::Small),
        _ => generate(r, Size::Medium),
    };
    let mut order = f.clauses.clone();
    if r.bool() {
        r.shuffle(&mut order);
    }
    let cut = match r.below(4) {
        0 => 0,
        1 => order.len(),
        _ => r.below(order.len() + 1),
    };
    let mut rest = order.split_off(cut);
    let start = order;
    let mut log = format!("start with {} clauses", start.len());
    cx.evaluations += 1;
    describe(cx, &f, "built step by step");
    let base_witness = f.dimacs();
    let mut s = match load(&start, config()) {
        Ok(s) => s,
        Err(o) => {
            cx.witness = format!("{}{}", base_witness, log);
            match o {
                Out::UnsatAtLoad => {
                    let g = Formula::new(f.nv, start, Known::Unknown, "");
                    if truth(&g, ref_budget(cx)) == Some(true) {
                        cx.fail("satisfiable clauses are refuted while loading");
                    }
                }
                o => cx.fail(format!("loading fails by {}", o.brief())),
            }
            return;
        }
    };
    let mut nv = s.asg.num_vars;
    let mut given = start;
    let mut refused = false;
    let extra = r.below(4);
    let mut extra_left = extra;
    rest.reverse();
    while !refused && (!rest.is_empty() || 0 < extra_left) {
        let need = rest.last().map_or(0, |c| max_var(std::slice::from_ref(c)));
        if nv < need || (0 < extra_left && r.chance(0.3)) || rest.is_empty() {
            if nv >= need {
                extra_left -= 1;
            }
            match guard(|| s.add_var()) {
                Ok(v) if v == nv + 1 && s.asg.num_vars == v => nv = v,
                Ok(v) => {
                    cx.witness = format!("{}{}", base_witness, log);
                    return cx.fail(format!("add_var gives {} after {}", v, nv));
                }
                Err(c) => {
                    cx.witness = format!("{}{}", base_witness, log);
                    return cx.fail(format!("add_var: {}", caught(c).brief()));
                }
            }
            log.push_str(", add_var");
            continue;
        }
        if r.chance(0.03) && 0 < nv {
            let v = r.range(1, nv) as i32;
            let l = match &f.known {
                Known::Model(m) if (v as usize) < m.len() => if m[v as usize] { v } else { -v },
                _ => r.sign(v),
            };
            log.push_str(&format!(", assign {}", l));
            given.push(vec![l]);
            match guard(|| s.add_assignment(l).map(|_| ())) {
                Ok(Ok(())) => (),
                Ok(Err(SolverError::RootLevelConflict(_) | SolverError::Inconsistent)) => refused = true,
                Ok(Err(e)) => {
                    cx.witness = format!("{}{}", base_witness, log);
                    return cx.fail(format!("add_assignment({}): {:?}", l, e));
                }
                Err(c) => {
                    cx.witness = format!("{}{}", base_witness, log);
                    return cx.fail(format!("add_assignment({}): {}", l, caught(c).brief()));
                }
            }
            continue;
        }
        let c = rest.pop().unwrap();
        log.push_str(&format!(", {:?}", c));
        given.push(c.clone());
        match guard(|| s.add_clause(&c).map(|_| ())) {
            Ok(Ok(())) => (),
            Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => refused = true,
            Ok(Err(e)) => {
                cx.witness = format!("{}{}", base_witness, log);
                return cx.fail(format!("add_clause({:?}): {:?}", c, e));
            }
            Err(x) => {
                cx.witness = format!("{}{}", base_witness, log);
                return cx.fail(format!("add_clause({:?}): {}", c, caught(x).brief()));
            }
        }
    }
    cx.witness = format!("{}{}", base_witness, log);
    let g = Formula::new(nv, given, Known::Unknown, "");
    if refused {
        cx.count("refuted while building", 1);
        if truth(&g, ref_budget(cx)) == Some(true) {
            cx.fail("a satisfiable problem is refused while building it");
        }
        return;
    }
    if s.asg.num_vars != nv {
        return cx.fail(format!("the solver has {} vars instead of {}", s.asg.num_vars, nv));
    }
    let (out, seen) = mon::watch(&mut s, &Opts::new(budget(cx)));
    absorb(cx, &seen);
    let t = match out {
        Out::Sat(_) => None,
        _ => truth(&g, ref_budget(cx)),
    };
    if judge(cx, &g, &out, t) {
        cx.nontrivial(g.hash());
        cx.count("problems built step by step", 1);
        cx.sample(|| log.chars().take(300).collect());
    }
}

/// settings that are all legal
pub fn tweak(r: &mut Rng, c: &mut Config) {
    for _ in 0..r.range(1, 5) {
        match r.below(13) {
            0 => c.enable_eliminator = false,
            1 => c.elm_cls_lim = *r.pick(&[0, 1, 2, 3, 8, 1000]),
            2 => c.elm_grw_lim = *r.pick(&[0, 1, 4, 20, 1000]),
            3 => c.elm_var_occ = *r.pick(&[0, 1, 2, 10, 100, 100_000]),
            4 => c.cls_rdc_lbd = *r.pick(&[0, 1, 2, 3, 10, 100, u16::MAX]),
            5 => c.cls_rdc_rm1 = *r.pick(&[0.0, 0.05, 0.3, 0.5, 0.9, 1.0]),
            6 => c.cls_rdc_rm2 = *r.pick(&[0.0, 0.01, 0.1, 0.5, 0.9, 1.0]),
            7 => c.rst_lbd_thr = *r.pick(&[0.5, 0.9, 1.1, 1.5, 4.0, 100.0]),
            8 => c.vrw_dcy_rat = *r.pick(&[0.1, 0.5, 0.8, 0.9, 0.99]),
            9 => c.crw_dcy_rat = *r.pick(&[0.1, 0.5, 0.99]),
            10 => c.c_cbt_thr = *r.pick(&[0, 1, 10, 1000]),
            11 => c.show_journal = r.bool(),
            _ => c.show_cdb_heatmap = r.bool(),
        }
    }
}

pub fn show_config(c: &Config) -> String {
    format!(
        "elim {} ecl {} evl {} evo {} crl {} cr1 {} cr2 {} rlt {} vdr {} cdr {} cbt {} cl {} timeout {} certify {}",
        c.enable_eliminator,
        c.elm_cls_lim,
        c.elm_grw_lim,
        c.elm_var_occ,
        c.cls_rdc_lbd,
        c.cls_rdc_rm1,
        c.cls_rdc_rm2,
        c.rst_lbd_thr,
        c.vrw_dcy_rat,
        c.crw_dcy_rat,
        c.c_cbt_thr,
        c.c_cls_lim,
        c.c_timeout,
        c.use_certification
    )
}

/// a formula that nobody solves in time
fn out_of_time(cx: &mut Cx, r: &mut Rng) {
    let mut c = config();
    c.c_timeout = *r.pick(&[0.2, 0.4, 0.7, 1.3]);
    let limit = c.c_timeout;
    let f = pigeon(r, 13, 12);
    describe(cx, &f, &format!("config {}", show_config(&c)));
    cx.announce();
    cx.evaluations += 1;
    let t0 = std::time::Instant::now();
    let out = run(&f.clauses, c).0;
    let spent = t0.elapsed().as_secs_f64();
    match out {
        Out::Error(SolverError::TimeOut) if spent < limit => {
            cx.fail(format!("time-out after {} s at most, though the limit is {} s", spent, limit))
        }
        Out::Error(SolverError::TimeOut) if limit + 20.0 < spent => {
            cx.fail(format!("time-out after {} s, though the limit is {} s", spent, limit))
        }
        Out::Error(SolverError::TimeOut) => {
            cx.count("time limits kept", 1);
            cx.maximum("ms beyond the time limit", ((spent - limit) * 1000.0) as u64);
        }
        Out::Unsat => cx.unclear("solved in time"),
        o => cx.fail(format!("{} instead of a time-out", o.brief())),
    }
}

/// configurations
fn p19(cx: &mut Cx, r: &mut Rng) {
    if r.chance(0.01) {
        return out_of_time(cx, r);
    }
    let f = match r.below(20) {
        0 => degenerate(r),
        1..=6 => generate(r, Size::Tiny),
        7..=12 => generate(r, Size::Small),
        _ => generate(r, Size::Medium),
    };
    let mut c = config();
    tweak(r, &mut c);
    if r.chance(0.2) {
        c.use_certification = true;
        c.io_odir = cx.tmp.clone();
    }
    let low_cl = r.chance(0.15);
    if low_cl {
        c.c_cls_lim = r.range(1, 2 * f.clauses.len() + 50);
    }
    let low_time = r.chance(0.1);
    if low_time {
        c.c_timeout = *r.pick(&[0.0, 0.000001, 0.001, 0.01, 0.5, 1.9]);
    }
    describe(cx, &f, &format!("config {}", show_config(&c)));
    cx.evaluations += 1;
    let shown = show_config(&c);
    let limit = c.c_timeout;
    let t0 = std::time::Instant::now();
    let (out, _) = drive(cx, &f, c, &Opts::new(budget(cx)));
    let spent = t0.elapsed().as_secs_f64();
    match &out {
        Out::Error(SolverError::TimeOut) if spent < limit => {
            return cx.fail(format!("time-out after {} s at most, though the limit is {} s", spent, limit));
        }
        Out::Error(SolverError::TimeOut) if low_time => return cx.count("time-outs as configured", 1),
        Out::Error(SolverError::OutOfMemory) if low_cl => return cx.count("clause limits as configured", 1),
        _ => (),
    }
    let t = match out {
        Out::Sat(_) => None,
        _ => truth(&f, ref_budget(cx)),
    };
    if judge(cx, &f, &out, t) {
        cx.nontrivial(f.hash());
        cx.sample(|| format!("{} vars with {}: {}", f.nv, shown, out.brief()));
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Trace {
    answer: String,
    conflicts: usize,
    decisions: usize,
    propagations: usize,
}

fn trace(mut s: Solver, cap: u64) -> Trace {
    let (out, _) = mon::watch(&mut s, &Opts::new(cap));
    Trace {
        answer: match &out {
            Out::Sat(m) => format!("SAT {:?}", m),
            o => o.brief(),
        },
        conflicts: s.asg.derefer(splr::assign::property::Tusize::NumConflict),
        decisions: s.asg.derefer(splr::assign::property::Tusize::NumDecision),
        propagations: s.asg.derefer(splr::assign::property::Tusize::NumPropagation),
    }
}

/// determinism and isolation
fn p20(cx: &mut Cx, r: &mut Rng) {
    let f = match r.below(10) {
        0 => generate(r, Size::Tiny),
        1..=4 => generate(r, Size::Small),
        _ => generate(r, Size::Medium),
    };
    let mut cfg = config();
    if r.chance(0.3) {
        tweak(r, &mut cfg);
        cfg.c_cls_lim = 0;
    }
    describe(cx, &f, &format!("config {}", show_config(&cfg)));
    cx.evaluations += 1;
    let cap = budget(cx);
    let a = match load(&f.clauses, cfg.clone()) {
        Ok(s) => s,
        Err(a) => {
            match load(&f.clauses, cfg.clone()) {
                Err(b) if a.brief() == b.brief() => (),
                _ => cx.fail("loading twice differs"),
            }
            return;
        }
    };
    let twin = a.clone();
    let ta = trace(a, cap);
    let mut compare = |what: &str, t: &Trace| {
        if *t != ta {
            let brief = |t: &Trace| {
                format!(
                    "{} ({} conflicts, {} decisions, {} propagations)",
                    t.answer.chars().take(200).collect::<String>(),
                    t.conflicts,
                    t.decisions,
                    t.propagations
                )
            };
            cx.fail(format!("{}: {} instead of {}", what, brief(t), brief(&ta)));
        } else {
            cx.count(&format!("same run: {}", what), 1);
        }
    };
    compare("a clone", &trace(twin, cap));
    // another solver in between
    let g = generate(r, Size::Small);
    if let Ok(s) = load(&g.clauses, config()) {
        let _ = trace(s, cap);
    }
    if let Ok(s) = load(&f.clauses, cfg.clone()) {
        compare("again after another solver", &trace(s, cap));
    }
    if r.chance(0.5) {
        // at the same time with other solvers
        let n = r.range(2, 3);
        let others: Vec<Formula> = (0..n).map(|_| generate(r, Size::Small)).collect();
        let (cl, cfg2) = (f.clauses.clone(), cfg.clone());
        let t = std::thread::scope(|sc| {
            for o in others.iter() {
                sc.spawn(move || {
                    if let Ok(s) = load(&o.clauses, config()) {
                        let _ = trace(s, cap);
                    }
                });
            }
            let h1 = {
                let (cl, c) = (cl.clone(), cfg2.clone());
                sc.spawn(move || load(&cl, c).ok().map(|s| trace(s, cap)))
            };
            let h2 = sc.spawn(move || load(&cl, cfg2).ok().map(|s| trace(s, cap)));
            (h1.join(), h2.join())
        });
        match t {
            (Ok(Some(x)), Ok(Some(y))) => {
                compare("in a thread", &x);
                compare("in another thread", &y);
            }
            _ => cx.fail("a solver in a thread failed"),
        }
    }
    cx.maximum("most conflicts in a run", ta.conflicts as u64);
    if 0 < ta.conflicts {
        cx.nontrivial(f.hash());
    }
    cx.sample(|| format!("{} vars: {} conflicts, {} decisions", f.nv, ta.conflicts, ta.decisions));
}

/// stages
fn p21(cx: &mut Cx, r: &mut Rng, i: u64) {
    cx.evaluations += 1;
    if i % 30 == 0 {
        // the series by itself, through either interface
        use splr::types::luby::LubySeries;
        let mut s = LubySeries::default();
        let (mut k, mut max) = (0, 1);
        cx.witness = "LubySeries".to_string();
        for _ in 0..r.range(10, 5000) {
            if r.chance(0.0005) {
                s.reset();
                k = 0;
            }
            k += 1;
            max = max.max(mon::luby(k));
            let got = if r.bool() { s.next().map_or(0, |n| n.get() as usize) } else { s.next_unchecked() };
            if got != mon::luby(k) || s.max_value() != max {
                return cx.fail(format!(
                    "term {} of the series is {} (maximum {}), not {} ({})",
                    k, got, s.max_value(), mon::luby(k), max
                ));
            }
            cx.count("terms of the series checked", 1);
        }
    }
    if i % 3 == 0 {
        // the schedule by itself
        use splr::solver::StageManager;
        let unit = r.range(1, 100);
        cx.witness = format!("StageManager with unit {}", unit);
        let n = r.range(10, if cx.thorough { 20_000 } else { 3000 });
        let mut m = StageManager::new(unit);
        if r.bool() {
            m = StageManager::instantiate(
                &config(),
                &CNFDescription { num_of_variables: unit * unit, ..CNFDescription::default() },
            );
        }
        m.initialize(unit);
        let (mut cycles, mut segment, mut max, mut pending) = (0, 0, 1, true);
        let mut now = 0;
        let mut end = unit;
        let mut before = (0, 0, 0);
        for k in 1..=n {
            // the stage ends exactly at its length
            let probe = [end - 1, end];
            for p in probe {
                if m.stage_ended(p) != (p == end) {
                    return cx.fail(format!("stage {}: end at {} is judged wrongly for {}", k - 1, end, p));
                }
            }
            now = now.max(end);
            let got = m.prepare_new_stage(now);
            let scale = mon::luby(k);
            let mut want = None;
            if scale == 1 {
                cycles += 1;
                want = Some(false);
                if pending {
                    segment += 1;
                    max *= 2;
                    pending = false;
                    want = Some(true);
                }
            }
            if max == scale {
                pending = true;
            }
            end = now + cycles * unit;
            let state = (m.current_stage(), m.current_cycle(), m.current_segment());
            if state != (k, cycles, segment)
                || m.current_scale() != scale
                || m.max_scale() != max
                || m.current_span() != cycles * unit
                || got != want
            {
                return cx.fail(format!(
                    "stage {} of unit {}: (stage, cycle, segment) {:?}, scale {}, max {}, span {}, new {:?}; expected {:?}, {}, {}, {}, {:?}",
                    k, unit, state, m.current_scale(), m.max_scale(), m.current_span(), got,
                    (k, cycles, segment), scale, max, cycles * unit, want
                ));
            }
            if state <= before {
                return cx.fail(format!("stage counters went backwards: {:?} after {:?}", state, before));
            }
            if m.num_reducible(r.unit()) > m.current_span() {
                return cx.fail("more reducible clauses than the stage has");
            }
            before = state;
        }
        cx.count("scheduled stages judged", n as u64);
        cx.nontrivial(((unit as u64) << 32) | n as u64);
        return;
    }
    // in search
    let f = match r.below(6) {
        0 => generate(r, Size::Medium),
        1 => {
            let h = r.range(6, 8);
            let mut f = pigeon(r, h + 1, h);
            scramble(r, &mut f);
            f
        }
        _ => {
            let nv = r.range(120, 230);
            let m = (nv as f64 * (4.15 + 0.3 * r.unit())) as usize;
            random_ksat(r, nv, 3, m)
        }
    };
    describe(cx, &f, "");
    let mut o = Opts::new(if cx.thorough { 20_000 } else { 4_000 });
    o.stages = true;
    o.every = u64::MAX;
    let (out, _) = drive(cx, &f, config(), &o);
    match &out {
        Out::Error(_) | Out::Panic(_) => cx.fail(format!("the run didn't end properly: {}", out.brief())),
        _ => {
            cx.nontrivial(f.hash());
            cx.sample(|| format!("{} with {} vars: {}", f.family, f.nv, out.brief()));
        }
    }
}

/// conversions
fn p22(cx: &mut Cx, r: &mut Rng, i: u64) {
    cx.evaluations += 1;
    let top = 0x3FFF_FFFFusize; // 2 * v + 1 fits in 31 bits
    let vars: Vec<usize> = if i < 64 {
        (1 + i as usize * 512..=(i as usize + 1) * 512).collect()
    } else {
        (0..512)
            .map(|_| match r.below(4) {
                0 => r.range(1, top),
                1 => top - r.below(1000),
                2 => (1usize << r.range(1, 29)) + r.below(3) - 1,
                _ => {
                    let k = r.range(1, 29);
                    r.range(1, 1 << k)
                }
            })
            .collect()
    };
    cx.witness = format!("vars {}..", vars[0]);
    let res = guard(|| -> Result<u64, String> {
        let mut seen = std::collections::HashMap::new();
        let mut n = 0;
        let mut prev: Option<(usize, usize)> = None;
        for v in vars.iter().copied() {
            if v == 0 {
                continue;
            }
            for b in [false, true] {
                n += 1;
                let x = if b { v as i32 } else { -(v as i32) };
                let l = Lit::from(x);
                let bad = |what: &str| Err(format!("{} of literal {}", what, x));
                if i32::from(l) != x || i32::from(&l) != x {
                    return bad("i32 round trip");
                }
                if l.vi() != v {
                    return bad("variable");
                }
                if bool::from(l) != b || l.as_bool() != b {
                    return bad("truth value");
                }
                if Lit::from((v, b)) != l {
                    return bad("construction from (var, bool)");
                }
                let u = usize::from(l);
                if Lit::from(u) != l || Lit::from(u as u32) != l {
                    return bad("index round trip");
                }
                if u < 2 || u > 2 * v + 1 {
                    return bad("index range");
                }
                if let Some(y) = seen.insert(u, x)
                    && y != x
                {
                    return Err(format!("literals {} and {} have the same index", x, y));
                }
                if (!l).vi() != v || bool::from(!l) == b || !!l != l || !l == l || i32::from(!l) != -x {
                    return bad("negation");
                }
                if format!("{}", l) != format!("{}L", x) || format!("{:?}", l) != format!("{}L", x) {
                    return bad("text");
                }
                // lifted to a clause id and back
                let c = ClauseId::from(l);
                if !c.is_lifted_lit() || Lit::from(c) != l {
                    return bad("round trip by way of a clause id");
                }
                if ClauseId::from(Lit::from(c)) != c || c == ClauseId::from(!l) || c == ClauseId::from(u) {
                    return bad("clause id");
                }
                // order: by variable
                if let Some((pv, pu)) = prev
                    && pv != v
                    && (pv < v) != (pu < u)
                {
                    return bad("order");
                }
                prev = Some((v, u));
                if l > Lit::from((v + 1, false)) || l > Lit::from((v + 1, true)) {
                    return bad("order");
                }
            }
        }
        // the indices as used for arrays
        let v = vec![false; 64];
        let mut w = v.clone();
        for x in 1..=20i32 {
            w[Lit::from(x)] = true;
            if !w[Lit::from(x)] || w[Lit::from(-x)] {
                return Err(format!("array indexed by literal {}", x));
            }
            w[Lit::from(x)] = false;
            w.as_mut_slice()[Lit::from(-x)] = true;
            if w.as_slice()[Lit::from(x)] || !w.as_slice()[Lit::from(-x)] {
                return Err(format!("slice indexed by literal {}", -x));
            }
            w[Lit::from(-x)] = false;
        }
        Ok(n)
    });
    match res {
        Ok(Ok(n)) => cx.count("literals judged", n),
        Ok(Err(e)) => return cx.fail(e),
        Err(c) => return cx.fail(caught(c).brief()),
    }
    // clauses: what users see
    let k = r.range(2, 9);
    let nv = r.range(k, 3000);
    let mut c: Vec<i32> = Vec::new();
    while c.len() < k {
        let v = r.range(1, nv) as i32;
        if !c.iter().any(|l| l.abs() == v) {
            c.push(r.sign(v));
        }
    }
    cx.witness = format!("clause {:?}", c);
    let cc = c.clone();
    let res = guard(move || -> Result<(), String> {
        use splr::cdb::ClauseDBIF;
        let s = match load(&[cc.clone()], config()) {
            Ok(s) => s,
            Err(o) => return Err(format!("loading one clause: {}", o.brief())),
        };
        let mut want = cc.clone();
        want.sort();
        let Some(cl) = s.cdb.iter().skip(1).find(|c| !c.is_dead()) else {
            return Err("the clause is lost".into());
        };
        let mut a = Vec::<i32>::from(cl);
        let order: Vec<i32> = cl.iter().map(|l| i32::from(*l)).collect();
        if a != order || a != i32s(&cl.iter().copied().collect::<Vec<Lit>>()) {
            return Err(format!("integer forms {:?} and {:?} differ", a, order));
        }
        if order[0] != i32::from(cl.lit0()) || order[1] != i32::from(cl.lit1()) || order.len() != cl.len() {
            return Err("the first literals or the length differ".into());
        }
        let text = format!("{}", cl);
        let nums: Vec<i32> = text
            .split(|c: char| !c.is_ascii_digit() && c != '-')
            .filter_map(|t| t.parse().ok())
            .collect();
        if nums[..order.len().min(nums.len())] != order[..] {
            return Err(format!("{:?} is printed as {}", order, text));
        }
        for l in -(nv_of(&cc) as i32)..=nv_of(&cc) as i32 {
            if l != 0 && cl.contains(Lit::from(l)) != cc.contains(&l) {
                return Err(format!("containment of {} is wrong", l));
            }
        }
        a.sort();
        if a != want {
            return Err(format!("{:?} is stored as {:?}", want, a));
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => {
            cx.count("clauses judged", 1);
            cx.nontrivial(c.iter().fold(i, |h, l| h.wrapping_mul(31).wrapping_add(*l as u64)));
            cx.sample(|| format!("clause {:?}", c));
        }
        Ok(Err(e)) => cx.fail(e),
        Err(x) => cx.fail(caught(x).brief()),
    }
    // clause ids
    let res = guard(|| {
        for _ in 0..200 {
            let u = r.range(1, 0x7FFF_FFFE);
            let c = ClauseId::from(u);
            if usize::from(c) != u || format!("{}", c) != format!("{}C", u) || c.is_lifted_lit() {
                return Some(u);
            }
        }
        None
    });
    match res {
        Ok(None) => cx.count("clause ids judged", 200),
        Ok(Some(u)) => cx.fail(format!("conversion of clause id {}", u)),
        Err(c) => cx.fail(caught(c).brief()),
    }
}

fn nv_of(c: &[i32]) -> usize {
    c.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0)
}

/// one case for a library built with other features
fn p23(cx: &mut Cx, r: &mut Rng, i: u64) {
    if i % 5 == 4 {
        return p13(cx, r);
    }
    let f = mixed(r, false);
    describe(cx, &f, "");
    cx.evaluations += 1;
    let certify = cfg!(not(feature = "no_io")) && r.chance(0.3);
    let cfg = if certify { cert_config(&cx.tmp.clone(), "proof.drat") } else { config() };
    let mut o = Opts::new(budget(cx));
    // the invariants of the state hold in each variant
    o.propagation = r.chance(0.3);
    // completed binary clauses may be unit when they join the learnt one
    o.trail = r.chance(0.3) && !cfg!(feature = "bi_clause_completion");
    o.candidates = r.chance(0.3);
    o.database = r.chance(0.3);
    let lits: usize = f.clauses.iter().map(|c| c.len()).sum();
    o.every = (1 + lits as u64 / 500) * *r.pick(&[1, 5, 20, 100, 400]);
    o.nv = f.nv;
    o.seed = cx.seed ^ i;
    let (out, s) = drive(cx, &f, cfg, &o);
    if certify && out == Out::Unsat {
        save(s);
    }
    let t = match out {
        Out::Sat(_) => None,
        _ => truth(&f, ref_budget(cx)),
    };
    if judge(cx, &f, &out, t) {
        cx.nontrivial(f.hash());
        cx.sample(|| format!("{} with {} vars, {} clauses: {}", f.family, f.nv, f.clauses.len(), out.brief()));
    }
    if certify && out.is_unsat() && !cx.failed() {
        let r = std::fs::read_to_string(cx.tmp.join("proof.drat"))
            .map_err(|e| e.to_string())
            .and_then(|t| drat::parse(&t))
            .and_then(|steps| drat::check(f.nv, &f.clauses, &steps));
        match r {
            Ok(_) => cx.count("proofs accepted", 1),
            Err(e) => cx.fail(format!("the certificate is rejected: {}", e)),
        }
    }
}

/// does `sub` hold in all models of `clauses`? None: not settled
pub fn implies(nv: usize, clauses: &[Vec<i32>], c: &[i32], cap: usize) -> Option<bool> {
    if c.iter().any(|l| c.contains(&-*l)) {
        return Some(true);
    }
    let mut neg: Vec<i32> = c.iter().map(|l| -*l).collect();
    neg.sort();
    neg.dedup();
    match refsat::solve(nv, clauses, &neg, cap) {
        Ref::Unsat => Some(true),
        Ref::Sat(_) => Some(false),
        Ref::GaveUp => None,
    }
}

/// P26: the averages alone, under random series of values
fn means(cx: &mut Cx, r: &mut Rng) {
    use splr::types::{Ema, Ema2, EmaIF, EmaMutIF, EmaSU, Ewa, Ewa2};
    cx.evaluations += 1;
    let n = r.range(1, 400);
    let scale = *r.pick(&[1.0, 10.0, 1000.0, 1e6]);
    let start = if r.chance(0.5) { 0.0 } else { r.range(0, 1000) as f64 / 1000.0 * scale };
    let len = r.range(1, 200);
    let slow = r.range(1, 9000);
    let kind = r.below(5);
    // some are constant, some grow
    let shape = r.below(3);
    let xs: Vec<f64> = (0..n)
        .map(|i| match shape {
            0 => scale,
            1 => i as f64,
            _ => r.range(0, 1000) as f64 / 1000.0 * scale,
        })
        .collect();
    cx.witness = format!("kind {} length {} slow {} start {} values {:?}", kind, len, slow, start, xs);
    cx.announce();
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + scale + start.abs() + n as f64) * n as f64;
    let series = |s: usize, from: f64, k: usize| xs[..k].iter().fold(from, |a, x| x / s as f64 + (1.0 - 1.0 / s as f64) * a);
    let window = |w: usize, k: usize| (0..w).map(|j| if j < k { xs[k - 1 - j] } else { start }).sum::<f64>() / w as f64;
    let res = guard(|| -> Result<(), String> {
        let mut e = Ema::new(len).with_value(start);
        let mut two = Ema2::new(len).with_slow(slow).with_value(start);
        let mut su = EmaSU::new(len);
        let mut wa = Ewa::<32>::new(start);
        let mut wb = Ewa2::<16>::new(start).with_slow(slow);
        let is = |what: &str, k: usize, got: f64, want: f64| {
            if near(got, want) { Ok(()) } else { Err(format!("{} after {} values is {} instead of {}", what, k, got, want)) }
        };
        let mut base = 0;
        if kind == 2 && r.bool() {
            base = r.range(0, 100);
            su.update_base(base);
        }
        let (mut last, mut diff) = (base as f64, 0.0);
        for k in 0..=n {
            match kind {
                0 => {
                    is("Ema", k, EmaIF::get_fast(&e), series(len, start, k))?;
                    is("Ema::get", k, EmaIF::get(&e), series(len, start, k))?;
                    is("the view of Ema", k, e.as_view().get_fast(), series(len, start, k))?;
                }
                1 => {
                    is("fast Ema2", k, EmaIF::get_fast(&two), series(len, start, k))?;
                    is("slow Ema2", k, EmaIF::get_slow(&two), series(slow, start, k))?;
                    is("the slow view of Ema2", k, two.as_view().get_slow(), series(slow, start, k))?;
                    let (f, s) = (series(len, start, k), series(slow, start, k));
                    if scale / 1e3 < s {
                        is("the trend of Ema2", k, two.trend(), f / s)?;
                        is("the trend of the view of Ema2", k, two.as_view().trend(), f / s)?;
                    }
                }
                2 => is("EmaSU", k, EmaIF::get_fast(&su), diff)?,
                3 => {
                    is("Ewa", k, EmaIF::get_fast(&wa), window(32, k))?;
                    is("the view of Ewa", k, wa.as_view().get_fast(), window(32, k))?;
                }
                _ => {
                    is("fast Ewa2", k, EmaIF::get_fast(&wb), window(16, k))?;
                    is("slow Ewa2", k, wb.as_view().get_slow(), series(slow, start, k))?;
                    if scale / 1e3 < series(slow, start, k) {
                        is("the trend of Ewa2", k, wb.trend(), window(16, k) / series(slow, start, k))?;
                    }
                }
            }
            if k < n {
                e.update(xs[k]);
                two.update(xs[k]);
                let x = base + xs[..=k].iter().sum::<f64>() as usize;
                su.update(x);
                diff += (x as f64 - last - diff) / len as f64;
                last = x as f64;
                wa.update(xs[k]);
                wb.update(xs[k]);
            }
        }
        if kind == 1 {
            // one catches up with the other
            let (f, s) = (two.get_fast(), EmaIF::get_slow(&two));
            if r.bool() {
                two.reset_fast();
                is("fast Ema2 reset", n, two.get_fast(), s)?;
                is("slow Ema2", n, EmaIF::get_slow(&two), s)?;
            } else {
                two.reset_slow();
                is("slow Ema2 reset", n, EmaIF::get_slow(&two), f)?;
                is("fast Ema2", n, two.get_fast(), f)?;
            }
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => {
            cx.count("values averaged", n as u64);
            cx.nontrivial((n * 5 + kind) as u64 ^ (scale * 7.0 + start * 1e4).to_bits() ^ (len * 100 + slow) as u64);
        }
        Ok(Err(e)) => cx.fail(e),
        Err(Caught::Panic(e)) => cx.fail(format!("panic: {}", e)),
        Err(Caught::Stopped(_)) => (),
    }
}
