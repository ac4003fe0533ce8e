//! P29: simplification only simplifies, and keeps to its limits.
use crate::mon::Seen;
use crate::run::Stop;
use splr::assign::{AssignStack, VarManipulateIF};
use splr::cdb::{self, ClauseDB, ClauseDBIF};
use splr::state::{self, State};
use splr::verif::{Event, Step, set_step_monitor};
use splr::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// no resolvent is longer than this: its half would exceed the limit of the average length
const LONGEST: usize = 64;
/// without a resolvent longer than this, the average can't exceed the limit
const SHORT: usize = 32;

#[derive(Default)]
struct Shared {
    enabled: bool,
    grow: usize,
    occurrences: usize,
    soft_limit: usize,
    literals: usize,
    eliminated: HashSet<usize>,
    resolvents: Vec<Vec<i32>>,
    costly: usize,
}

pub struct Pruning {
    shared: Rc<RefCell<Shared>>,
    before: Option<Vec<Vec<i32>>>,
}

fn sorted(c: &[Lit]) -> Vec<i32> {
    let mut v: Vec<i32> = c.iter().map(|l| i32::from(*l)).collect();
    v.sort_unstable();
    v
}

fn alive(cdb: &ClauseDB) -> Vec<Vec<i32>> {
    cdb.iter()
        .skip(1)
        .filter(|c| !c.is_dead())
        .map(|c| sorted(&c.iter().copied().collect::<Vec<_>>()))
        .collect()
}

fn within(a: &[i32], b: &[i32]) -> bool {
    let mut i = 0;
    for l in b {
        if i < a.len() && a[i] == *l {
            i += 1;
        }
    }
    i == a.len()
}

/// a clause of `now` that is a part of no clause of `pool`, and the number of shortened ones
fn stranger<'a>(now: &'a [Vec<i32>], pool: &[&[Vec<i32>]]) -> Result<u64, &'a Vec<i32>> {
    let known: HashSet<&[i32]> = pool.iter().flat_map(|p| p.iter().map(|c| c.as_slice())).collect();
    let fresh: Vec<&Vec<i32>> = now.iter().filter(|c| !known.contains(c.as_slice())).collect();
    if fresh.is_empty() {
        return Ok(0);
    }
    let mut occur: HashMap<i32, Vec<&[i32]>> = HashMap::new();
    for c in fresh.iter() {
        for l in c.iter() {
            occur.entry(*l).or_default();
        }
    }
    for c in &known {
        for l in c.iter() {
            if let Some(o) = occur.get_mut(l) {
                o.push(c);
            }
        }
    }
    for c in fresh.iter() {
        let rare = c.iter().map(|l| &occur[l]).min_by_key(|o| o.len()).unwrap();
        if !rare.iter().any(|b| within(c, b)) {
            return Err(c);
        }
    }
    Ok(fresh.len() as u64)
}

impl Shared {
    fn on(&mut self, step: &Step<'_>, seen: &RefCell<Seen>) -> Result<(), String> {
        let mut seen = seen.borrow_mut();
        if !self.enabled {
            return Err("the eliminator runs though it's off".into());
        }
        match step {
            Step::Subsumption { by, clause } => {
                let (a, b) = (sorted(by), sorted(clause));
                seen.count("subsumptions judged", 1);
                if !within(&a, &b) {
                    return Err(format!("clause {:?} gets removed by {:?} that isn't a part of it", b, a));
                }
                if self.literals < a.len().max(b.len()) {
                    return Err(format!(
                        "subsumption of a clause of {} literals by one of {}; the limit is {}",
                        b.len(), a.len(), self.literals
                    ));
                }
                seen.maximum("longest clause subsumed", b.len() as u64);
            }
            Step::Elimination { vi, pos, neg, budget, num_clause, state, accepted } => {
                let x = *vi as i32;
                // refusals of vars in many long clauses are judged by turns, since that is slow
                if !*accepted && 4000 < pos.iter().chain(neg).map(|c| c.len()).sum::<usize>() {
                    self.costly += 1;
                    if self.costly % 32 != 1 {
                        return Ok(());
                    }
                }
                let pos: Vec<Vec<i32>> = pos.iter().map(|c| sorted(c)).collect();
                let neg: Vec<Vec<i32>> = neg.iter().map(|c| sorted(c)).collect();
                for (cs, l) in [(&pos, x), (&neg, -x)] {
                    if let Some(c) = cs.iter().find(|c| !c.contains(&l)) {
                        return Err(format!("var {}: clause {:?} is listed for {}", vi, c, l));
                    }
                }
                let held = pos.len() + neg.len();
                let grow = self.grow + state.derefer(state::property::Tusize::IntervalScale) / 2;
                let allowed = match self.soft_limit {
                    0 => Some(grow),
                    s if s < *num_clause => None,
                    s if 3 * s <= 4 * num_clause => Some(grow / 4),
                    _ => Some(grow),
                };
                let limit = allowed.map(|a| held + a);
                let (mut made, mut longest) = (0, 0);
                let from = self.resolvents.len();
                'all: for p in &pos {
                    'pair: for n in &neg {
                        let (mut r, mut len) = (Vec::new(), p.len() - 1);
                        for l in n.iter().filter(|l| **l != -x) {
                            if p.binary_search(&-l).is_ok() {
                                continue 'pair;
                            }
                            if p.binary_search(l).is_err() {
                                r.push(*l);
                                len += 1;
                            }
                        }
                        made += 1;
                        longest = longest.max(len);
                        if *accepted {
                            r.extend(p.iter().filter(|l| **l != x));
                            r.sort_unstable();
                            self.resolvents.push(r);
                        } else if SHORT < longest || limit.is_none_or(|n| n < made) {
                            break 'all; // the refusal is justified
                        }
                    }
                }
                let combinations = pos.len() * neg.len();
                let case = format!(
                    "var {} in {} + {} clauses, {} resolvents of at most {} literals, {} clauses allowed, budget {}",
                    vi, pos.len(), neg.len(), made, longest, limit.unwrap_or(0), budget
                );
                if *accepted {
                    seen.count("eliminations judged", 1);
                    if combinations > 0 {
                        seen.count("eliminations by resolution", 1);
                    }
                    if held < made {
                        seen.count("eliminations with growth", 1);
                    }
                    seen.maximum("longest resolvent", longest as u64);
                    if !self.eliminated.insert(*vi) {
                        return Err(format!("var {} is eliminated again", vi));
                    }
                    if limit.is_none_or(|n| n < made) {
                        return Err(format!("too many resolvents: {}", case));
                    }
                    if LONGEST < longest {
                        return Err(format!("a too long resolvent: {}", case));
                    }
                    if *budget < combinations {
                        return Err(format!("the budget is exceeded: {}", case));
                    }
                    if self.occurrences + pos.len().max(neg.len()) < combinations {
                        return Err(format!("too many occurrences for {}: {}", self.occurrences, case));
                    }
                    seen.maximum("most combinations", combinations as u64);
                } else {
                    self.resolvents.truncate(from);
                    seen.count("refusals judged", 1);
                    if limit.is_some_and(|n| made <= n) && longest <= SHORT && combinations <= *budget {
                        return Err(format!("no elimination though every limit is kept: {}", case));
                    }
                }
            }
        }
        Ok(())
    }
}

impl Pruning {
    pub fn new(s: &Solver, seen: Rc<RefCell<Seen>>) -> Pruning {
        let c = &s.state.config;
        let shared = Rc::new(RefCell::new(Shared {
            enabled: c.enable_eliminator,
            grow: c.elm_grw_lim,
            occurrences: c.elm_var_occ,
            soft_limit: c.c_cls_lim,
            literals: c.elm_cls_lim + s.cdb.derefer(cdb::property::Tf64::LiteralBlockEntanglement) as usize,
            ..Shared::default()
        }));
        let sh = shared.clone();
        set_step_monitor(Some(Box::new(move |step: &Step<'_>| {
            if let Err(m) = sh.borrow_mut().on(step, &seen) {
                seen.borrow_mut().error = Some(m);
                std::panic::panic_any(Stop("violation"));
            }
        })));
        Pruning { shared, before: Some(alive(&s.cdb)) }
    }
    pub fn on(&mut self, e: Event, asg: &AssignStack, cdb: &ClauseDB, state: &State, seen: &RefCell<Seen>) -> Result<(), String> {
        if matches!(e, Event::Fixpoint | Event::Conflict(_) | Event::Learnt | Event::Found) {
            return Ok(());
        }
        let now = alive(cdb);
        let mut sh = self.shared.borrow_mut();
        if let Some(before) = self.before.take() {
            let judged = match e {
                Event::Vivified => {
                    if before.len() < now.len() {
                        return Err(format!("{} clauses before vivification, {} after it", before.len(), now.len()));
                    }
                    Some(stranger(&now, &[&before]))
                }
                Event::Simplified | Event::Preprocessed => Some(stranger(&now, &[&before, &sh.resolvents])),
                _ => None,
            };
            match judged {
                Some(Err(c)) => return Err(format!("clause {:?} is a part of neither an old clause nor a resolvent", c)),
                Some(Ok(n)) => {
                    let mut s = seen.borrow_mut();
                    s.count("simplifications judged", 1);
                    s.count(if e == Event::Vivified { "clauses shortened by vivification" } else { "clauses made or shortened by elimination" }, n);
                }
                None => (),
            }
        }
        for vi in 1..=asg.num_vars {
            let v = asg.var(vi);
            if v.is(FlagVar::ELIMINATED) != sh.eliminated.contains(&vi) {
                return Err(format!("var {}: eliminated {}, in fact {}", vi, v.is(FlagVar::ELIMINATED), sh.eliminated.contains(&vi)));
            }
            if v.is(FlagVar::ENQUEUED) && !v.is(FlagVar::ELIMINATED) && asg.assign(vi).is_none() {
                return Err(format!("var {} is still marked as a candidate of elimination, so it never becomes one again", vi));
            }
        }
        for c in cdb.iter().skip(1).filter(|c| !c.is_dead()) {
            if c.is(FlagClause::ENQUEUED) || c.is(FlagClause::OCCUR_LINKED) {
                return Err(format!("clause {} is still marked as a candidate of subsumption", c));
            }
        }
        sh.resolvents.clear();
        sh.literals = state.config.elm_cls_lim + cdb.derefer(cdb::property::Tf64::LiteralBlockEntanglement) as usize;
        self.before = Some(now);
        Ok(())
    }
}
