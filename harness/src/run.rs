//! Drives the real solver and classifies what came out.
use crate::formula::{Formula, Known, brute_force, first_falsified};
use crate::refsat::{self, Ref};
use splr::*;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;

/// payload with which a monitor stops a run that got too long
pub struct Stop(pub &'static str);

#[derive(Debug, PartialEq, Eq)]
pub enum Out {
    Sat(Vec<i32>),
    Unsat,
    /// refuted before `solve` was called
    UnsatAtLoad,
    Error(SolverError),
    Panic(String),
    Stopped(&'static str),
}

impl Out {
    pub fn brief(&self) -> String {
        match self {
            Out::Sat(_) => "SAT".into(),
            Out::Error(e) => format!("error {:?}", e),
            Out::Panic(p) => format!("panic: {}", p),
            o => format!("{:?}", o),
        }
    }
    pub fn is_unsat(&self) -> bool {
        matches!(self, Out::Unsat | Out::UnsatAtLoad)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Stop>() {
            return;
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " / "));
    }));
}

pub enum Caught {
    Panic(String),
    Stopped(&'static str),
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let r = catch_unwind(AssertUnwindSafe(f));
    #[cfg(splr_verif)]
    if r.is_err() {
        // a monitor that panicked, or the run it watched, left nothing to watch
        splr::verif::set_monitor(None);
        splr::verif::set_step_monitor(None);
    }
    r.map_err(|e| match e.downcast_ref::<Stop>() {
        Some(s) => Caught::Stopped(s.0),
        None => Caught::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
    })
}

pub fn caught(c: Caught) -> Out {
    match c {
        Caught::Panic(s) => Out::Panic(s),
        Caught::Stopped(s) => Out::Stopped(s),
    }
}

pub fn config() -> Config {
    Config {
        quiet_mode: true,
        c_timeout: 1_000_000.0,
        ..Config::default()
    }
}

pub fn cert_config(dir: &std::path::Path, name: &str) -> Config {
    Config {
        use_certification: true,
        io_odir: PathBuf::from(dir),
        io_pfile: PathBuf::from(name),
        ..config()
    }
}

pub fn load(clauses: &[Vec<i32>], config: Config) -> Result<Solver, Out> {
    match guard(|| Solver::try_from((config, clauses))) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(Ok(Certificate::UNSAT))) => Err(Out::UnsatAtLoad),
        Ok(Err(Ok(Certificate::SAT(m)))) => Err(Out::Sat(m)),
        Ok(Err(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)))) => {
            Err(Out::UnsatAtLoad)
        }
        Ok(Err(Err(e))) => Err(Out::Error(e)),
        Err(c) => Err(caught(c)),
    }
}

pub fn solve(s: &mut Solver) -> Out {
    match guard(|| s.solve()) {
        Ok(Ok(Certificate::SAT(m))) => Out::Sat(m),
        Ok(Ok(Certificate::UNSAT)) => Out::Unsat,
        Ok(Err(e)) => Out::Error(e),
        Err(c) => caught(c),
    }
}

pub fn run(clauses: &[Vec<i32>], config: Config) -> (Out, Option<Solver>) {
    match load(clauses, config) {
        Err(o) => (o, None),
        Ok(mut s) => {
            let o = solve(&mut s);
            (o, Some(s))
        }
    }
}

/// Is `m` one literal per variable, in order?
pub fn complete(m: &[i32], nv: usize) -> Result<Vec<bool>, String> {
    if m.len() != nv {
        return Err(format!("the model has {} literals for {} variables", m.len(), nv));
    }
    let mut v = vec![false; nv + 1];
    for (i, l) in m.iter().enumerate() {
        if l.unsigned_abs() as usize != i + 1 {
            return Err(format!("literal {} at position {} of the model", l, i));
        }
        v[i + 1] = *l > 0;
    }
    Ok(v)
}

pub fn model_ok(m: &[i32], nv: usize, clauses: &[Vec<i32>]) -> Result<(), String> {
    let v = complete(m, nv)?;
    match first_falsified(clauses, &v) {
        None => Ok(()),
        Some(i) => Err(format!("the model falsifies clause {} = {:?}", i, clauses[i])),
    }
}

/// Satisfiability by construction, by brute force, or by the reference solver.
pub fn truth(f: &Formula, budget: usize) -> Option<bool> {
    match &f.known {
        Known::Model(_) => return Some(true),
        Known::Unsat => return Some(false),
        Known::Unknown => (),
    }
    if f.nv <= 12 {
        return Some(brute_force(f.nv, &f.clauses).is_some());
    }
    match refsat::solve(f.nv, &f.clauses, &[], budget) {
        Ref::Sat(m) => {
            assert!(first_falsified(&f.clauses, &m).is_none(), "reference solver is wrong");
            Some(true)
        }
        Ref::Unsat => Some(false),
        Ref::GaveUp => None,
    }
}
