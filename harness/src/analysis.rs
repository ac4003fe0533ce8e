//! P30: conflicts are analysed to their first unique implication point.
use crate::mon::Seen;
use splr::assign::{AssignIF, AssignStack, VarManipulateIF};
use splr::cdb::{self, ClauseDB, ClauseDBIF};
use splr::types::AssignReason;
use splr::verif::Event;
use splr::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

#[derive(Default)]
pub struct Analysis {
    old: Option<Snapshot>,
}

struct Snapshot {
    level: u32,
    /// var to (level, value); only assigned vars
    assigned: Vec<Option<(u32, bool)>>,
    used: Vec<bool>,
    activity: Vec<f64>,
    /// the literal of the learnt clause at the conflicting level
    uip: i32,
    /// the other literals of the clause before minimization
    others: HashSet<i32>,
    /// those which can be dropped, and those which must be
    may: HashSet<i32>,
    must: HashSet<i32>,
    /// literals `q` for which clause `{uip, -q}` exists
    linked: HashSet<i32>,
    /// vars at the conflicting level that take part
    involved: HashSet<usize>,
    /// the vars of the reason of each literal in `others`
    reasons: HashMap<i32, Vec<usize>>,
    lbd: f64,
    live: Vec<bool>,
}

/// the vars other than `vi` in the clause that implied `vi`
fn causes(asg: &AssignStack, cdb: &ClauseDB, vi: usize) -> Option<Vec<usize>> {
    match asg.reason(vi) {
        AssignReason::BinaryLink(l) => Some(vec![l.vi()]),
        AssignReason::Implication(cid) => Some(cdb[cid].iter().map(|l| l.vi()).filter(|v| *v != vi).collect()),
        _ => None,
    }
}

/// the false literal of `vi`
fn denied(asg: &AssignStack, vi: usize) -> i32 {
    if asg.assign(vi) == Some(true) { -(vi as i32) } else { vi as i32 }
}

/// the first unique implication point
struct Cut {
    uip: i32,
    others: HashSet<i32>,
    involved: HashSet<usize>,
}

fn cut(asg: &AssignStack, cdb: &ClauseDB, trail: &[Lit], start: Vec<usize>) -> Result<Cut, String> {
    let level = asg.decision_level();
    let mut seen: HashSet<usize> = HashSet::new();
    let mut c = Cut { uip: 0, others: HashSet::new(), involved: HashSet::new() };
    let mut open = 0;
    let mut todo = start;
    let mut above = trail.iter().rev();
    loop {
        for v in todo {
            if asg.level(v) == 0 || !seen.insert(v) {
                continue;
            }
            if asg.level(v) == level {
                c.involved.insert(v);
                open += 1;
            } else {
                c.others.insert(denied(asg, v));
            }
        }
        let Some(l) = above.find(|l| c.involved.contains(&l.vi())) else {
            return Err("no literal of the conflict belongs to the current level".into());
        };
        if open == 1 {
            c.uip = -i32::from(*l);
            return Ok(c);
        }
        open -= 1;
        todo = causes(asg, cdb, l.vi()).ok_or(format!("decision {} and another literal lead to the conflict", l))?;
    }
}

/// those of `others` that follow from the rest; with `levels`, only literals at these levels are followed
fn redundant(asg: &AssignStack, cdb: &ClauseDB, place: &[usize], others: &HashSet<i32>, levels: Option<&HashSet<u32>>) -> HashSet<i32> {
    let kept: HashSet<usize> = others.iter().map(|l| l.unsigned_abs() as usize).collect();
    let mut between: HashMap<usize, Vec<usize>> = HashMap::new();
    let mut todo: Vec<usize> = kept.iter().copied().collect();
    while let Some(v) = todo.pop() {
        let Some(cs) = causes(asg, cdb, v) else {
            continue;
        };
        if between.contains_key(&v) {
            continue;
        }
        for c in cs.iter().filter(|c| asg.level(**c) != 0 && !kept.contains(*c)) {
            if levels.is_none_or(|l| l.contains(&asg.level(*c))) {
                todo.push(*c);
            }
        }
        between.insert(v, cs);
    }
    let mut order: Vec<usize> = between.keys().copied().collect();
    order.sort_by_key(|v| place[*v]);
    let mut follows: HashSet<usize> = HashSet::new();
    for v in order {
        if between[&v].iter().all(|c| asg.level(*c) == 0 || kept.contains(c) || follows.contains(c)) {
            follows.insert(v);
        }
    }
    others.iter().copied().filter(|l| follows.contains(&(l.unsigned_abs() as usize))).collect()
}

impl Analysis {
    pub fn on(&mut self, e: Event, asg: &AssignStack, cdb: &ClauseDB, seen: &RefCell<Seen>) -> Result<(), String> {
        let old = self.old.take();
        match e {
            Event::Conflict((l, reason)) if asg.decision_level() != 0 => self.old = snapshot(asg, cdb, l, reason)?,
            Event::Learnt => {
                if let Some(old) = old {
                    old.judge(asg, cdb, &mut seen.borrow_mut())?;
                }
            }
            _ => (),
        }
        Ok(())
    }
}

fn snapshot(asg: &AssignStack, cdb: &ClauseDB, l: Lit, reason: AssignReason) -> Result<Option<Snapshot>, String> {
    let mut start: Vec<usize> = match reason {
        AssignReason::BinaryLink(l) => vec![l.vi()],
        AssignReason::Implication(cid) => cdb[cid].iter().map(|l| l.vi()).collect(),
        _ => return Err("the conflict has no reason".into()),
    };
    start.push(l.vi());
    if start.iter().all(|v| asg.level(*v) == 0) {
        return Ok(None);
    }
    let trail: Vec<Lit> = asg.stack_iter().copied().collect();
    let Cut { uip, others, involved } = cut(asg, cdb, &trail, start)?;
    let mut place = vec![0; asg.num_vars + 1];
    for (i, l) in trail.iter().enumerate() {
        place[l.vi()] = i;
    }
    let levels: HashSet<u32> = others.iter().map(|l| asg.level(l.unsigned_abs() as usize)).collect();
    let linked = cdb
        .binary_links(Lit::from(uip))
        .iter()
        .filter_map(|(_, cid)| cdb[*cid].iter().map(|l| -i32::from(*l)).find(|l| *l != -uip))
        .filter(|l| others.contains(l))
        .collect();
    let vars = 0..=asg.num_vars;
    Ok(Some(Snapshot {
        level: asg.decision_level(),
        assigned: vars.clone().map(|vi| if vi == 0 { None } else { asg.assign(vi).map(|b| (asg.level(vi), b)) }).collect(),
        used: vars.clone().map(|vi| vi != 0 && asg.var(vi).is(FlagVar::USED)).collect(),
        activity: vars.map(|vi| if vi == 0 { 0.0 } else { asg.activity(vi) }).collect(),
        may: redundant(asg, cdb, &place, &others, None),
        must: redundant(asg, cdb, &place, &others, Some(&levels)),
        linked,
        reasons: others
            .iter()
            .chain([&uip])
            .map(|l| (*l, causes(asg, cdb, l.unsigned_abs() as usize).unwrap_or_default()))
            .collect(),
        lbd: cdb.derefer(cdb::property::Tf64::LiteralBlockDistance),
        live: cdb.iter().map(|c| !c.is_dead()).collect(),
        uip,
        others,
        involved,
    }))
}

impl Snapshot {
    fn level_of(&self, l: i32) -> u32 {
        self.assigned[l.unsigned_abs() as usize].map_or(0, |a| a.0)
    }
    fn judge(&self, asg: &AssignStack, cdb: &ClauseDB, seen: &mut Seen) -> Result<(), String> {
        let fresh = |i: usize| !self.live.get(i).copied().unwrap_or(false);
        let mut fresh = cdb.iter().enumerate().skip(1).filter(|(i, c)| !c.is_dead() && fresh(*i));
        let learnt: Vec<i32> = match (fresh.next(), asg.reason(self.uip.unsigned_abs() as usize)) {
            (Some((_, c)), _) => c.iter().map(|l| i32::from(*l)).collect(),
            // it was known
            (None, AssignReason::BinaryLink(l)) => vec![self.uip, -i32::from(l)],
            _ => vec![self.uip],
        };
        if let Some((_, c)) = fresh.next() {
            return Err(format!("learnt another clause {}", c));
        }
        let set: HashSet<i32> = learnt.iter().copied().collect();
        let case = || format!("learnt {:?} at level {}; the first unique implication point is {} with {:?}", learnt, self.level, -self.uip, self.others);
        seen.count("conflicts analysed again", 1);
        // the clause
        if set.len() != learnt.len() || !set.contains(&self.uip) {
            return Err(format!("the clause doesn't deny the first unique implication point: {}", case()));
        }
        if let Some(l) = set.iter().find(|l| **l != self.uip && !self.others.contains(l)) {
            return Err(format!("literal {} isn't a part of the conflict: {}", l, case()));
        }
        let rest = self.others.len() - self.must.len();
        for l in &self.others {
            let there = set.contains(l);
            if there && self.must.contains(l) {
                return Err(format!("literal {} is implied by the others: {}", l, case()));
            }
            if there && 1 < rest && self.linked.contains(l) {
                return Err(format!("literal {} is implied by a binary clause: {}", l, case()));
            }
            if !there && !self.may.contains(l) && !self.linked.contains(l) {
                return Err(format!("literal {} isn't redundant: {}", l, case()));
            }
        }
        seen.count("literals minimized away", (self.others.len() + 1 - set.len()) as u64);
        seen.count("literals minimized away by binary clauses", self.others.iter().filter(|l| !set.contains(l) && !self.may.contains(l)).count() as u64);
        seen.maximum("longest learnt clause", set.len() as u64);
        // the jump
        let now = asg.decision_level();
        let to = learnt.iter().filter(|l| **l != self.uip).map(|l| self.level_of(*l)).max().unwrap_or(0);
        let blocks = learnt.iter().map(|l| self.level_of(*l)).collect::<HashSet<u32>>().len();
        let deeper = 2 < learnt.len() && 0 < to && 2.5 * self.lbd.max(3.0) <= blocks as f64;
        if now != to - deeper as u32 {
            return Err(format!("jumped to level {} instead of {} (second level {}, {} levels, lbd {}): {}", now, to - deeper as u32, to, blocks, self.lbd, case()));
        }
        seen.count(if deeper { "jumps below the second level" } else { "jumps to the second level" }, 1);
        let top = Lit::from(self.uip);
        if deeper {
            if asg.assigned(top).is_some() {
                return Err(format!("literal {} is assigned though the clause isn't unit: {}", self.uip, case()));
            }
        } else {
            if asg.assigned(top) != Some(true) || asg.level(top.vi()) != to {
                return Err(format!("literal {} isn't asserted at level {}: {}", self.uip, to, case()));
            }
            let by: HashSet<i32> = match asg.reason(top.vi()) {
                AssignReason::BinaryLink(l) => [self.uip, -i32::from(l)].into(),
                AssignReason::Implication(cid) => cdb[cid].iter().map(|l| i32::from(*l)).collect(),
                _ => [self.uip].into(),
            };
            if by != set {
                return Err(format!("literal {} is asserted by {:?}: {}", self.uip, by, case()));
            }
        }
        // who took part
        let mut part: HashSet<usize> = self.involved.clone();
        if 1 < learnt.len() {
            for l in &learnt {
                part.insert(l.unsigned_abs() as usize);
                part.extend(self.reasons[l].iter());
            }
        }
        let decay = asg.derefer(splr::assign::property::Tf64::VarDecayRate);
        for vi in 1..=asg.num_vars {
            let Some((level, value)) = self.assigned[vi] else {
                if vi != top.vi() && asg.assign(vi).is_some() {
                    return Err(format!("var {} got a value: {}", vi, case()));
                }
                continue;
            };
            if now < level && vi != top.vi() && asg.assign(vi).is_some() {
                return Err(format!("var {} at level {} survived the jump to {}: {}", vi, level, now, case()));
            }
            // a var with a value for ever isn't rated any more
            if level == 0 || asg.assign(vi).is_some() && asg.level(vi) == 0 {
                continue;
            }
            let due = self.used[vi] || part.contains(&vi);
            let used = asg.var(vi).is(FlagVar::USED);
            if level <= now {
                if asg.assign(vi) != Some(value) || asg.level(vi) != level {
                    return Err(format!("the jump to {} changed var {} at level {}: {}", now, vi, level, case()));
                }
                if used != due {
                    return Err(format!("var {} rewarded: {}, it took part: {}: {}", vi, used, due, case()));
                }
            } else {
                let expected = self.activity[vi] * decay + if due { 1.0 - decay } else { 0.0 };
                let got = asg.activity(vi);
                if used || 1e-9 < (expected - got).abs() {
                    return Err(format!("var {}: activity {} became {}, but {} if it took part ({}): {}", vi, self.activity[vi], got, expected, due, case()));
                }
            }
        }
        seen.count("vars rewarded", part.len() as u64);
        Ok(())
    }
}
