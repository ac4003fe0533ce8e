//! Online monitors attached to a running solver through the hooks of `splr::verif`.
//!
//! `watch` runs a solver with the requested monitors. If splr was built without hooks, the solver
//! just runs, and `Seen::hooked` stays false.
use crate::run::{Out, solve};
use splr::Solver;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Opts {
    /// stop after this number of conflicts
    pub budget: u64,
    /// P08
    pub propagation: bool,
    /// P09
    pub trail: bool,
    /// P10
    pub candidates: bool,
    /// P11
    pub database: bool,
    /// P04
    pub learning: bool,
    /// P05
    pub simplification: bool,
    /// P21
    pub stages: bool,
    /// P25
    pub tally: bool,
    /// P26
    pub averages: bool,
    /// P28
    pub phases: bool,
    /// P27
    pub reduction: bool,
    /// P29
    pub pruning: bool,
    /// P30
    pub analysis: bool,
    /// check every n-th event of the frequent kinds
    pub every: u64,
    pub seed: u64,
    pub nv: usize,
    pub clauses: Vec<Vec<i32>>,
    pub satisfiable: Option<bool>,
    pub ref_budget: usize,
    /// few of the costly checks
    pub quick: bool,
}

impl Opts {
    pub fn new(budget: u64) -> Opts {
        Opts {
            budget,
            propagation: false,
            trail: false,
            candidates: false,
            database: false,
            learning: false,
            simplification: false,
            stages: false,
            tally: false,
            averages: false,
            phases: false,
            reduction: false,
            pruning: false,
            analysis: false,
            every: 1,
            seed: 0,
            nv: 0,
            clauses: Vec::new(),
            quick: false,
            satisfiable: None,
            ref_budget: 2000,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Seen {
    pub hooked: bool,
    pub error: Option<String>,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub conflicts: u64,
}

impl Seen {
    #[allow(dead_code)]
    pub(crate) fn maximum(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = n.max(*e);
    }
    #[allow(dead_code)]
    pub(crate) fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
}

/// the n-th term (from 0) of 1 1 2 1 1 2 4 ..., by its recursive definition
pub fn luby(n: usize) -> usize {
    let i = n + 1;
    let mut k = 1usize;
    while (1 << k) - 1 < i {
        k += 1;
    }
    if (1 << k) - 1 == i { 1 << (k - 1) } else { luby(i - (1 << (k - 1))) }
}

#[cfg(not(splr_verif))]
pub fn watch(s: &mut Solver, _: &Opts) -> (Out, Seen) {
    // no conflict budget available: rely on the time limit
    if s.state.config.c_timeout > 10.0 {
        s.state.config.c_timeout = 10.0;
    }
    (solve(s), Seen::default())
}

#[cfg(splr_verif)]
pub use hooked::{watch, workshop};

pub mod inv {
    //! Invariants over the public state of a solver (and, with hooks, its private lists).
    use splr::assign::{AssignIF, AssignReason, AssignStack, VarManipulateIF};
    use splr::cdb::{ClauseDB, ClauseDBIF};
    use splr::*;

    pub fn show(c: &Clause) -> String {
        format!("{:?}", c.iter().map(|l| i32::from(*l)).collect::<Vec<_>>())
    }

    fn eliminated(asg: &AssignStack, vi: usize) -> bool {
        asg.var(vi).is(FlagVar::ELIMINATED)
    }

    /// every live clause is satisfied or has two free literals
    pub fn fixpoint(asg: &AssignStack, cdb: &ClauseDB) -> Result<u64, String> {
        let mut n = 0;
        'clauses: for (i, c) in cdb.iter().enumerate().skip(1) {
            if c.is_dead() {
                continue;
            }
            n += 1;
            let mut free = 0;
            for l in c.iter() {
                match asg.assigned(*l) {
                    Some(true) => continue 'clauses,
                    Some(false) => (),
                    None => {
                        free += 1;
                        if free == 2 {
                            continue 'clauses;
                        }
                    }
                }
            }
            return Err(if free == 0 {
                format!("clause {} {} is falsified, but propagation reported no conflict", i, show(c))
            } else {
                format!("clause {} {} is unit, but propagation finished without it", i, show(c))
            });
        }
        Ok(n)
    }

    /// the conflict reported really is one
    pub fn conflict(asg: &AssignStack, cdb: &ClauseDB, cc: &ConflictContext) -> Result<(), String> {
        match cc.1 {
            AssignReason::BinaryLink(l) => {
                if asg.assigned(cc.0) != Some(false) || asg.assigned(l) != Some(true) {
                    return Err(format!(
                        "binary conflict ({} {}) isn't falsified",
                        i32::from(cc.0),
                        -i32::from(l)
                    ));
                }
                if !has_binary(cdb, cc.0, !l) {
                    return Err(format!(
                        "conflict by a binary clause ({} {}) that doesn't exist",
                        i32::from(cc.0),
                        -i32::from(l)
                    ));
                }
            }
            AssignReason::Implication(cid) => {
                let i = usize::from(cid);
                let Some(c) = cdb.iter().nth(i) else {
                    return Err(format!("conflict by clause {} that doesn't exist", i));
                };
                if i == 0 || c.is_dead() {
                    return Err(format!("conflict by a dead clause {}", i));
                }
                if let Some(l) = c.iter().find(|l| asg.assigned(**l) != Some(false)) {
                    return Err(format!(
                        "conflicting clause {} {} has a literal {} that isn't false",
                        i,
                        show(c),
                        i32::from(*l)
                    ));
                }
            }
            _ => return Err(format!("conflict without a clause: {:?}", cc)),
        }
        Ok(())
    }

    pub fn has_binary(cdb: &ClauseDB, a: Lit, b: Lit) -> bool {
        cdb.binary_links(a).iter().any(|(l, cid)| {
            *l == b
                && cdb
                    .iter()
                    .nth(usize::from(*cid))
                    .is_some_and(|c| c.len() == 2 && c.contains(a) && c.contains(b))
        })
    }

    /// `pos[vi]`: 1 + position in the trail, or 0
    pub fn trail(asg: &AssignStack, cdb: &ClauseDB) -> Result<u64, String> {
        let nv = asg.num_vars;
        let mut pos = vec![0usize; nv + 1];
        let dl = asg.decision_level();
        let clauses = cdb.iter().as_slice();
        for (i, l) in asg.stack_iter().enumerate() {
            let vi = l.vi();
            if vi == 0 || nv < vi {
                return Err(format!("the trail holds a strange literal {:?}", l));
            }
            if pos[vi] != 0 {
                return Err(format!("var {} is on the trail twice", vi));
            }
            pos[vi] = i + 1;
            if asg.assigned(*l) != Some(true) {
                return Err(format!("trail literal {} isn't assigned true", i32::from(*l)));
            }
            if eliminated(asg, vi) {
                return Err(format!("eliminated var {} is on the trail", vi));
            }
        }
        // segments
        let mut start = 0;
        for lv in 0..=dl {
            let end = if lv == dl { asg.stack_len() } else { asg.len_upto(lv) };
            if end < start || asg.stack_len() < end {
                return Err(format!("decision level {} has a broken range {}..{}", lv, start, end));
            }
            if 0 < lv && start == end {
                return Err(format!("decision level {} is empty", lv));
            }
            for i in start..end {
                let l = asg.stack(i);
                let vi = l.vi();
                if asg.level(vi) != lv {
                    return Err(format!(
                        "literal {} in the trail segment of level {} has level {}",
                        i32::from(l),
                        lv,
                        asg.level(vi)
                    ));
                }
                if 0 < lv {
                    let is_head = i == start;
                    match asg.reason(vi) {
                        AssignReason::Decision(d) if is_head && d == lv => (),
                        r if is_head => {
                            return Err(format!(
                                "level {} starts with {} by {:?}, not by its decision",
                                lv,
                                i32::from(l),
                                r
                            ));
                        }
                        AssignReason::BinaryLink(from) => {
                            if asg.assigned(from) != Some(true) {
                                return Err(format!(
                                    "{} is implied by {} that isn't true",
                                    i32::from(l),
                                    i32::from(from)
                                ));
                            }
                            if pos[from.vi()] == 0 && asg.level(from.vi()) != asg.root_level()
                                || i + 1 <= pos[from.vi()]
                            {
                                return Err(format!(
                                    "{} is implied by a later assignment {}",
                                    i32::from(l),
                                    i32::from(from)
                                ));
                            }
                            if !has_binary(cdb, l, !from) {
                                return Err(format!(
                                    "{} is implied by a missing binary clause ({} {})",
                                    i32::from(l),
                                    i32::from(l),
                                    -i32::from(from)
                                ));
                            }
                        }
                        AssignReason::Implication(cid) => {
                            let ci = usize::from(cid);
                            let Some(c) = clauses.get(ci).filter(|c| 0 < ci && !c.is_dead()) else {
                                return Err(format!(
                                    "{} is implied by a deleted clause {}",
                                    i32::from(l),
                                    ci
                                ));
                            };
                            if !c.contains(l) {
                                return Err(format!(
                                    "{} is implied by clause {} {} that doesn't hold it",
                                    i32::from(l),
                                    ci,
                                    show(c)
                                ));
                            }
                            for k in c.iter().filter(|k| **k != l) {
                                if asg.assigned(*k) != Some(false) {
                                    return Err(format!(
                                        "{} is implied by clause {} {}, but {} isn't false",
                                        i32::from(l),
                                        ci,
                                        show(c),
                                        i32::from(*k)
                                    ));
                                }
                                if pos[k.vi()] == 0 && asg.level(k.vi()) != asg.root_level()
                                    || i + 1 <= pos[k.vi()]
                                {
                                    return Err(format!(
                                        "{} is implied by clause {} {}, but {} was assigned later",
                                        i32::from(l),
                                        ci,
                                        show(c),
                                        i32::from(*k)
                                    ));
                                }
                            }
                        }
                        r => {
                            return Err(format!(
                                "{} at level {} has no reason ({:?})",
                                i32::from(l),
                                lv,
                                r
                            ));
                        }
                    }
                }
            }
            start = end;
        }
        for vi in 1..=nv {
            match asg.assign(vi) {
                Some(_) if pos[vi] == 0 && asg.level(vi) != asg.root_level() => {
                    return Err(format!(
                        "var {} is assigned at level {} but isn't on the trail",
                        vi,
                        asg.level(vi)
                    ));
                }
                Some(_) if eliminated(asg, vi) => {
                    return Err(format!("eliminated var {} is assigned", vi));
                }
                None if asg.reason(vi) != AssignReason::None => {
                    return Err(format!(
                        "unassigned var {} has a reason {:?}",
                        vi,
                        asg.reason(vi)
                    ));
                }
                _ => (),
            }
        }
        Ok(asg.stack_len() as u64)
    }

    /// all the variables of the remaining clauses are assigned and all clauses satisfied
    pub fn total(asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
        for vi in 1..=asg.num_vars {
            if asg.assign(vi).is_none() && !eliminated(asg, vi) {
                return Err(format!("satisfied, but var {} is neither assigned nor eliminated", vi));
            }
        }
        for (i, c) in cdb.iter().enumerate().skip(1) {
            if !c.is_dead() && !c.iter().any(|l| asg.assigned(*l) == Some(true)) {
                return Err(format!("satisfied, but clause {} {} isn't", i, show(c)));
            }
        }
        Ok(())
    }

    /// clauses, without looking into the private lists
    pub fn clauses(asg: &AssignStack, cdb: &ClauseDB) -> Result<u64, String> {
        let nv = asg.num_vars;
        let mut links = 0;
        let mut mark = vec![0u32; nv + 1];
        let mut stamp = 0;
        for (i, c) in cdb.iter().enumerate().skip(1) {
            if c.is_dead() {
                continue;
            }
            if c.len() < 2 {
                return Err(format!("clause {} {} is too short", i, show(c)));
            }
            stamp += 1;
            for l in c.iter() {
                let vi = l.vi();
                if vi == 0 || nv < vi {
                    return Err(format!("clause {} {} has an illegal literal", i, show(c)));
                }
                if mark[vi] == stamp {
                    return Err(format!("clause {} {} has var {} twice", i, show(c), vi));
                }
                mark[vi] = stamp;
                if eliminated(asg, vi) {
                    return Err(format!("clause {} {} has an eliminated var {}", i, show(c), vi));
                }
            }
            if c.len() == 2 {
                links += 1;
            }
        }
        // each binary clause is linked from both of its literals exactly once
        let clauses = cdb.iter().as_slice();
        let mut from = vec![[0u8; 2]; clauses.len()];
        for vi in 1..=nv {
            for b in [false, true] {
                let a = Lit::from((vi, b));
                for (l, k) in cdb.binary_links(a).iter() {
                    let i = usize::from(*k);
                    let Some(c) = clauses.get(i).filter(|c| 0 < i && c.len() == 2) else {
                        return Err(format!("{} is linked to {} by a clause {} that isn't there", i32::from(a), i32::from(*l), i));
                    };
                    let side = if (c.lit0(), c.lit1()) == (a, *l) {
                        0
                    } else if (c.lit1(), c.lit0()) == (a, *l) {
                        1
                    } else {
                        return Err(format!("{} is linked to {} by clause {} {}", i32::from(a), i32::from(*l), i, show(c)));
                    };
                    from[i][side] += 1;
                }
            }
        }
        for (i, c) in clauses.iter().enumerate().skip(1) {
            if c.len() == 2 && from[i] != [1, 1] {
                return Err(format!("binary clause {} {} is linked {:?} times", i, show(c), from[i]));
            }
        }
        let found = from.iter().flatten().map(|n| *n as usize).sum::<usize>();
        if found != 2 * links {
            return Err(format!("{} binary clauses have {} links", links, found));
        }
        Ok(stamp as u64)
    }

    /// the published numbers
    pub fn numbers(cdb: &ClauseDB) -> Result<(), String> {
        use splr::cdb::property::Tusize;
        let alive = cdb.iter().skip(1).filter(|c| !c.is_dead()).count();
        let bin = cdb.iter().skip(1).filter(|c| c.len() == 2).count();
        let learnt = cdb
            .iter()
            .skip(1)
            .filter(|c| !c.is_dead() && c.is(FlagClause::LEARNT))
            .count();
        for (name, have, say) in [
            ("clauses", alive, cdb.derefer(Tusize::NumClause)),
            ("binary clauses", bin, cdb.derefer(Tusize::NumBiClause)),
            ("learnt clauses", learnt, cdb.derefer(Tusize::NumLearnt)),
        ] {
            if have != say {
                return Err(format!("the database holds {} {}, but says {}", have, name, say));
            }
        }
        Ok(())
    }

    /// the published numbers of vars
    pub fn census(asg: &AssignStack, nv: usize) -> Result<(), String> {
        use splr::assign::property::Tusize;
        let (mut gone, mut fixed, mut open) = (0, 0, 0);
        for vi in 1..=asg.num_vars {
            if eliminated(asg, vi) {
                gone += 1;
            } else if asg.assign(vi).is_none() {
                open += 1;
            } else if asg.level(vi) == asg.root_level() {
                fixed += 1;
            }
        }
        // those that are on the trail yet will be counted as asserted later
        let pending = if asg.decision_level() == asg.root_level() {
            asg.stack_len()
        } else {
            asg.len_upto(asg.root_level())
        };
        for (name, have, say) in [
            ("vars", nv, asg.derefer(Tusize::NumVar)),
            ("eliminated vars", gone, asg.derefer(Tusize::NumEliminatedVar)),
            ("asserted vars", fixed, asg.derefer(Tusize::NumAssertedVar) + pending),
            ("unassigned vars", open, asg.derefer(Tusize::NumUnassignedVar)),
            ("remaining vars", nv - gone - fixed + pending, asg.derefer(Tusize::NumUnassertedVar)),
        ] {
            if have != say {
                return Err(format!("there are {} {}, but the solver counts {}", have, name, say));
            }
        }
        Ok(())
    }

    #[cfg(splr_verif)]
    pub fn watches(asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
        let nv = asg.num_vars;
        let clauses = cdb.iter().as_slice();
        let mut hits = vec![0u8; clauses.len()];
        for vi in 1..=nv {
            for b in [false, true] {
                let key = Lit::from((vi, b));
                for (cid, blocker) in cdb.verif_watches(key) {
                    let i = usize::from(*cid);
                    let Some(c) = clauses.get(i).filter(|c| 0 < i && !c.is_dead()) else {
                        return Err(format!("{} is watched for a deleted clause {}", i32::from(key), i));
                    };
                    if c.len() < 3 {
                        return Err(format!("clause {} {} is short but watched", i, show(c)));
                    }
                    let w = !key;
                    let bit = if c.lit0() == w {
                        1
                    } else if c.lit1() == w {
                        2
                    } else {
                        return Err(format!(
                            "clause {} {} is watched by {} which isn't one of its first two literals",
                            i,
                            show(c),
                            i32::from(w)
                        ));
                    };
                    if hits[i] & bit != 0 {
                        return Err(format!("clause {} {} is watched twice by {}", i, show(c), i32::from(w)));
                    }
                    hits[i] |= bit;
                    // a literal that is false for ever can't hide the clause
                    let vi = blocker.vi();
                    let harmless = asg.assign(vi) == Some(!bool::from(*blocker)) && asg.level(vi) == 0;
                    if !c.contains(*blocker) && !harmless {
                        return Err(format!(
                            "the blocker {} isn't in clause {} {}",
                            i32::from(*blocker),
                            i,
                            show(c)
                        ));
                    }
                }
            }
        }
        for (i, c) in clauses.iter().enumerate().skip(1) {
            if !c.is_dead() && 2 < c.len() && hits[i] != 3 {
                return Err(format!("clause {} {} isn't watched by both literals", i, show(c)));
            }
        }
        let mut free = vec![false; clauses.len()];
        for cid in cdb.verif_freelist() {
            let i = usize::from(*cid);
            if i == 0 || clauses.len() <= i || free[i] {
                return Err(format!("slot {} is listed as free wrongly or twice", i));
            }
            free[i] = true;
            if !clauses[i].is_dead() {
                return Err(format!("slot {} is listed as free, but holds {}", i, show(&clauses[i])));
            }
        }
        for (i, c) in clauses.iter().enumerate().skip(1) {
            if c.is_dead() && !free[i] {
                return Err(format!("deleted slot {} isn't listed as free", i));
            }
        }
        Ok(())
    }

    #[cfg(splr_verif)]
    pub fn candidates(asg: &AssignStack) -> Result<u64, String> {
        let mut saved = vec![false; asg.num_vars + 1];
        #[cfg(feature = "trail_saving")]
        for l in asg.verif_saved_trail() {
            saved[l.vi()] = true;
        }
        #[cfg(not(feature = "trail_saving"))]
        saved.fill(false);
        let mut n = 0;
        for vi in 1..=asg.num_vars {
            if asg.assign(vi).is_none() && !eliminated(asg, vi) {
                n += 1;
                if !asg.verif_in_heap(vi) && !saved[vi] {
                    return Err(format!("unassigned var {} isn't a decision candidate any more", vi));
                }
            }
        }
        Ok(n)
    }
}

#[cfg(splr_verif)]
mod hooked {
    use super::*;
    use crate::drat::Checker;
    use crate::formula::{first_falsified, lit_true};
    use crate::refsat::{self, Ref};
    use crate::rng::Rng;
    use crate::run::{Caught, Stop, guard};
    use splr::assign::{AssignIF, AssignStack, PropagateIF, VarManipulateIF};
    use splr::cdb::{ClauseDB, ClauseDBIF, ReductionType, VivifyIF};
    use splr::processor::{EliminateIF, Eliminator};
    use splr::state::State;
    use crate::analysis::Analysis;
    use crate::pruning::Pruning;
    use splr::verif::{Event, Step, set_monitor, set_step_monitor};
    use splr::*;
    use std::cell::RefCell;
    use std::collections::HashSet;
    use std::rc::Rc;

    struct Watcher {
        o: Opts,
        seen: Rc<RefCell<Seen>>,
        rng: Rng,
        events: u64,
        // P09, P21: clauses alive at the last conflict
        alive: Vec<bool>,
        // P04
        base: Option<Base>,
        // P21
        stage: Stage,
        // P05
        simplifications: u64,
        permanent: Option<HashSet<Vec<i32>>>,
        // P25
        tally: Option<Tally>,
        // P26
        averages: Option<Averages>,
        // P28
        phases: Option<Phases>,
        // P27
        policy: Policy,
        // P29
        pruning: Option<Pruning>,
        /// number of clauses the eliminator subsumed
        subsumed: Rc<std::cell::Cell<usize>>,
        // P30
        analysis: Option<Analysis>,
    }

    /// what restarts and reductions depend on
    #[derive(Default)]
    struct Policy {
        restarts: usize,
        reductions: usize,
        /// after a conflict was handled: the ratio of the averages of LBD exceeds the threshold
        due: Option<bool>,
        /// at the end of a stage: removable clauses by index with their literals and measure
        before: Option<Vec<Option<(Vec<i32>, f64)>>>,
    }

    fn lbd(asg: &AssignStack, c: &Clause) -> usize {
        if 8192 <= c.len() {
            return u16::MAX as usize;
        }
        let mut ls: Vec<u32> = c.iter().map(|l| asg.level(l.vi())).filter(|l| *l != 0).collect();
        ls.sort_unstable();
        ls.dedup();
        ls.len()
    }

    fn inactivity(asg: &AssignStack, c: &Clause) -> f64 {
        c.iter().map(|l| 1.0 - asg.activity(l.vi())).sum::<f64>()
    }

    /// the published averages at an event, and what they are made of
    #[derive(Clone, Debug)]
    struct Averages {
        event: Event,
        level: u32,
        decisions: usize,
        propagations: usize,
        conflicts: usize,
        restarts: usize,
        /// at the last conflict
        last: (usize, usize),
        /// conflicts at the last restart
        base: usize,
        /// levels of the vars at the last conflict
        levels: Vec<u32>,
        live: Vec<bool>,
        activity: Vec<f64>,
        assigned: Vec<bool>,
        value: [f64; 5],
    }

    /// what decisions depend on, at an event
    #[derive(Clone, Debug)]
    struct Phases {
        event: Event,
        value: Vec<Option<bool>>,
        root: Vec<bool>,
        phase: Vec<bool>,
        rephased: usize,
        /// the last propagation without conflict got as far as ever
        record: bool,
        /// what was assigned when such a record ended
        best: Vec<(usize, bool)>,
        /// `best` may be out of date in the eyes of the solver
        stale: bool,
    }

    const AVERAGES: [&str; 5] = ["conflict level", "backjump level", "decisions per conflict", "propagations per conflict", "conflicts per restart"];

    /// the published numbers at an event
    #[derive(Clone, Debug)]
    struct Tally {
        event: Event,
        level: usize,
        trail: usize,
        num: [usize; NAMES.len()],
        live: Vec<bool>,
    }

    const NAMES: [&str; 14] = [
        "NumConflict", "NumDecision", "NumPropagation", "NumReconflict", "NumRepropagation", "NumRephase",
        "restarts", "NumLBD2", "NumBiLearnt", "NumReduction", "vivifications", "simplifications",
        "vivified vars", "subsumed clauses",
    ];
    const CONFLICT: usize = 0;
    const DECISION: usize = 1;
    const PROPAGATION: usize = 2;
    const RECONFLICT: usize = 3;
    const REPROPAGATION: usize = 4;
    const RESTART: usize = 6;
    const LBD2: usize = 7;
    const BILEARNT: usize = 8;
    const REDUCTION: usize = 9;
    const VIVIFICATION: usize = 10;
    const SIMPLIFY: usize = 11;
    const VIVIFIED_VAR: usize = 12;
    const SUBSUMED: usize = 13;

    struct Base {
        clauses: Vec<Vec<i32>>,
        nv: usize,
        checker: Checker,
        models: Vec<Vec<bool>>,
        known: Vec<u64>,
        units: HashSet<i32>,
    }

    #[derive(Default)]
    struct Stage {
        started: bool,
        long: u64,
        last: (usize, usize, usize),
        terms: usize,
        cycles: usize,
        segment: usize,
        max: usize,
        pending: bool,
        scale: usize,
    }

    pub fn ints(c: &Clause) -> Vec<i32> {
        c.iter().map(|l| i32::from(*l)).collect()
    }

    fn hash(c: &Clause) -> u64 {
        // the order of literals doesn't matter
        let (mut a, mut b) = (0u64, 0u64);
        for l in c.iter() {
            let mut z = (usize::from(*l) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            z = (z ^ (z >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z ^= z >> 32;
            a = a.wrapping_add(z);
            b ^= z.rotate_left(17);
        }
        a ^ b.rotate_left(7) ^ c.len() as u64
    }

    pub fn watch(s: &mut Solver, o: &Opts) -> (Out, Seen) {
        let seen = Rc::new(RefCell::new(Seen { hooked: true, ..Seen::default() }));
        let mut w = Watcher {
            rng: Rng::derive(o.seed, 0x5EED),
            o: o.clone(),
            seen: seen.clone(),
            events: 0,
            alive: Vec::new(),
            base: None,
            stage: Stage::default(),
            simplifications: 0,
            permanent: None,
            tally: None,
            averages: None,
            phases: None,
            policy: Policy::default(),
            pruning: o.pruning.then(|| Pruning::new(s, seen.clone())),
            analysis: o.analysis.then(Analysis::default),
            subsumed: Rc::default(),
        };
        if o.tally && !o.pruning {
            let n = w.subsumed.clone();
            set_step_monitor(Some(Box::new(move |step| {
                if let Step::Subsumption { .. } = step {
                    n.set(n.get() + 1);
                }
            })));
        }
        set_monitor(Some(Box::new(move |e, a, c, st| w.on(e, a, c, st))));
        let out = solve(s);
        set_monitor(None);
        set_step_monitor(None);
        let r = seen.borrow().clone();
        (out, r)
    }

    /// Drive the simplifiers directly: implied clauses of all shapes join the database as learnt ones
    /// between the runs of vivifier, eliminator and reduction, in the order of the search loop.
    pub fn workshop(s: &mut Solver, o: &Opts, rounds: usize) -> (Result<bool, Caught>, Seen) {
        let seen = Rc::new(RefCell::new(Seen { hooked: true, ..Seen::default() }));
        let mut w = Watcher {
            rng: Rng::derive(o.seed, 0x3099),
            o: o.clone(),
            seen: seen.clone(),
            events: 0,
            alive: Vec::new(),
            base: None,
            stage: Stage::default(),
            simplifications: 0,
            permanent: None,
            tally: None,
            averages: None,
            phases: None,
            policy: Policy::default(),
            pruning: o.pruning.then(|| Pruning::new(s, seen.clone())),
            analysis: o.analysis.then(Analysis::default),
            subsumed: Rc::default(),
        };
        set_monitor(None);
        let res = guard(|| {
            let Solver { asg, cdb, state } = s;
            // true: the simplifiers found no contradiction
            let mut work = || -> Result<(), SolverError> {
                asg.clear_asserted_literals(cdb)?;
                w.on(Event::Preprocessed, asg, cdb, state);
                for round in 0..rounds {
                    let n = w.enrich(asg, cdb);
                    w.count("clauses put in as learnt ones", n);
                    asg.clear_asserted_literals(cdb)?;
                    w.on(Event::StageEnd, asg, cdb, state);
                    if w.rng.chance(0.4) {
                        let k = w.rng.below(20);
                        cdb.reduce(asg, match w.rng.below(4) {
                            0 => ReductionType::RASonADD(k),
                            1 => ReductionType::LBDonADD(k),
                            2 => ReductionType::RASonALL(0.1 * k as f64, 0.3),
                            _ => ReductionType::LBDonALL((k / 4) as _, 0.2),
                        });
                        w.on(Event::Reduced, asg, cdb, state);
                    }
                    if w.rng.chance(0.7) {
                        cdb.vivify(asg, state)?;
                        w.on(Event::Vivified, asg, cdb, state);
                    }
                    if w.rng.chance(0.8) {
                        let mut elim = Eliminator::instantiate(&state.config, &state.target);
                        elim.simplify(asg, cdb, state, round == 0 && w.rng.bool())?;
                        asg.eliminated.append(elim.eliminated_lits());
                        w.on(Event::Simplified, asg, cdb, state);
                    }
                }
                Ok(())
            };
            work().is_ok()
        });
        set_step_monitor(None);
        let r = seen.borrow().clone();
        (res, r)
    }

    impl Watcher {
        /// Learn consequences: resolvents, and given clauses without redundant literals or with more of them.
        fn enrich(&mut self, asg: &mut AssignStack, cdb: &mut ClauseDB) -> u64 {
            let kept = Self::kept(asg, cdb);
            let nv = asg.num_vars;
            let mut checker = Checker::new(nv);
            let mut occur: Vec<Vec<usize>> = vec![Vec::new(); 2 * nv + 2];
            for (i, c) in kept.iter().enumerate() {
                checker.insert(c);
                for l in c {
                    occur[2 * l.unsigned_abs() as usize + (*l < 0) as usize].push(i);
                }
            }
            let long: Vec<usize> = (0..kept.len()).filter(|i| 1 < kept[*i].len()).collect();
            if long.is_empty() {
                return 0;
            }
            let mut n = 0;
            let mut next: Option<Vec<i32>> = None;
            for _ in 0..self.rng.range(1, 10 + long.len() / 4) {
                let i = *self.rng.pick(&long);
                let mut c = kept[i].clone();
                match if next.is_some() { 4 } else { self.rng.below(4) } {
                    4 => c = next.take().unwrap(),
                    0 => {
                        // a chain of resolutions
                        for _ in 0..self.rng.range(1, 6) {
                            let l = *self.rng.pick(&c);
                            let side = &occur[2 * l.unsigned_abs() as usize + (0 < l) as usize];
                            if side.is_empty() {
                                continue;
                            }
                            let d = &kept[*self.rng.pick(side)];
                            let mut x: Vec<i32> = c.iter().copied().filter(|m| *m != l).collect();
                            for m in d {
                                if *m != -l && !x.contains(m) {
                                    x.push(*m);
                                }
                            }
                            if x.iter().any(|m| x.contains(&-*m)) || x.len() < 2 || 14 < x.len() {
                                continue;
                            }
                            c = x;
                        }
                    }
                    1 => {
                        let v = self.rng.range(1, nv) as i32;
                        if !c.contains(&v) && !c.contains(&-v) {
                            let l = self.rng.sign(v);
                            if self.rng.bool() {
                                // and its counterpart: they resolve to what was given
                                let mut d = c.clone();
                                d.push(-l);
                                next = Some(d);
                            }
                            c.push(l);
                        }
                    }
                    _ => {
                        // drop what can be dropped
                        let mut k = 0;
                        while k < c.len() && 2 < c.len() {
                            let l = c.remove(k);
                            if self.rng.chance(0.8) && checker.is_rup(&c) {
                                continue;
                            }
                            c.insert(k, l);
                            k += 1;
                        }
                    }
                }
                if c.len() < 2
                    || c.iter().any(|l| {
                        let vi = l.unsigned_abs() as usize;
                        asg.assign(vi).is_some() || asg.var(vi).is(FlagVar::ELIMINATED)
                    })
                {
                    continue;
                }
                let mut sorted = c.clone();
                sorted.sort_unstable();
                let known = cdb.iter().skip(1).any(|x| {
                    !x.is_dead() && x.len() == sorted.len() && {
                        let mut y = ints(x);
                        y.sort_unstable();
                        y == sorted
                    }
                });
                if known || !(checker.is_rup(&c) || kept.contains(&c)) && self.rng.chance(0.9) {
                    continue;
                }
                self.rng.shuffle(&mut c);
                let mut lits: Vec<Lit> = c.iter().map(|l| Lit::from(*l)).collect();
                cdb.new_clause(asg, &mut lits, true);
                n += 1;
            }
            n
        }

        fn on(&mut self, e: Event, asg: &AssignStack, cdb: &ClauseDB, state: &State) {
            if let Err(m) = self.check(e, asg, cdb, state) {
                let m = format!(
                    "{:?}, conflict {}: {}",
                    e,
                    self.seen.borrow().conflicts,
                    m
                );
                self.seen.borrow_mut().error = Some(m);
                std::panic::panic_any(Stop("violation"));
            }
            if matches!(e, Event::Learnt) && self.o.budget <= self.seen.borrow().conflicts {
                std::panic::panic_any(Stop("conflict budget"));
            }
        }
        fn count(&self, k: &'static str, n: u64) {
            self.seen.borrow_mut().count(k, n);
        }
        fn check(
            &mut self,
            e: Event,
            asg: &AssignStack,
            cdb: &ClauseDB,
            state: &State,
        ) -> Result<(), String> {
            self.events += 1;
            let due = self.events % self.o.every == 0;
            if self.o.tally {
                if due || !matches!(e, Event::Fixpoint | Event::Conflict(_) | Event::Learnt) {
                    inv::census(asg, self.o.nv)?;
                    inv::numbers(cdb)?;
                    self.count("censuses", 1);
                }
                self.tallied(e, asg, cdb, state)?;
            }
            if self.o.reduction && matches!(e, Event::StageEnd | Event::Vivified | Event::Simplified | Event::Reduced) {
                for _ in 0..2 {
                    self.reduced(asg, cdb)?;
                }
            }
            if self.o.reduction {
                self.steered(e, asg, cdb, state)?;
            }
            if self.o.averages {
                self.averaged(e, asg, cdb, state)?;
            }
            if let Some(a) = self.analysis.as_mut() {
                a.on(e, asg, cdb, &self.seen)?;
            }
            if let Some(p) = self.pruning.as_mut() {
                p.on(e, asg, cdb, state, &self.seen)?;
            }
            if self.o.phases && asg.num_vars < 3_000 {
                self.phased(e, asg)?;
            }
            match e {
                Event::Conflict(cc) => {
                    self.seen.borrow_mut().conflicts += 1;
                    self.count("conflicts", 1);
                    if self.o.propagation {
                        inv::conflict(asg, cdb, &cc)?;
                        self.count("conflicts judged", 1);
                    }
                    if self.o.trail && due {
                        let n = inv::trail(asg, cdb)?;
                        self.count("trail checks", 1);
                        self.count("trail literals justified", n);
                    }
                    if self.o.trail || self.o.stages {
                        self.alive.clear();
                        self.alive.extend(cdb.iter().map(|c| !c.is_dead()));
                    }
                }
                Event::Fixpoint => {
                    self.count("fixpoints", 1);
                    self.seen.borrow_mut().maximum("deepest decision level", asg.decision_level() as u64);
                    if due {
                        self.state(asg, cdb, true)?;
                    }
                }
                Event::Learnt => {
                    let mut long = false;
                    if self.o.trail || self.o.stages {
                        // BUG-proof: a clause is new if its slot was free at the conflict
                        for (i, c) in cdb.iter().enumerate().skip(1) {
                            if c.is_dead() || self.alive.get(i).copied().unwrap_or(false) {
                                continue;
                            }
                            long |= 2 < c.len() && 1 < c.rank;
                            if self.o.trail {
                                self.fresh(asg, c)?;
                            }
                        }
                    }
                    if self.o.stages && long {
                        self.stage.long += 1;
                    }
                    if due {
                        self.state(asg, cdb, false)?;
                    }
                    if self.o.learning {
                        self.learned(asg, cdb)?;
                    }
                }
                Event::StageEnd => {
                    self.count("stages", 1);
                    self.state(asg, cdb, true)?;
                    if self.o.stages {
                        self.stage_ended(asg, state)?;
                    }
                    if self.o.learning {
                        self.learned(asg, cdb)?;
                    }
                }
                Event::Vivified | Event::Simplified | Event::Reduced | Event::Preprocessed => {
                    self.count(
                        match e {
                            Event::Vivified => "vivifications",
                            Event::Simplified => "in-search simplifications",
                            Event::Reduced => "reductions",
                            _ => "preprocessings",
                        },
                        1,
                    );
                    self.state(asg, cdb, false)?;
                    if self.o.stages && e == Event::Reduced {
                        self.stage_begun(state)?;
                    }
                    if self.o.simplification {
                        self.nothing_lost(asg, cdb)?;
                        if self.o.satisfiable.is_some() || !self.o.quick || self.rng.chance(0.1) {
                            self.simplified(e, asg, cdb)?;
                        }
                    }
                    if self.o.learning {
                        if e == Event::Preprocessed {
                            self.snapshot(asg, cdb);
                        } else {
                            self.learned(asg, cdb)?;
                        }
                    }
                }
                Event::Found => {
                    self.count("total assignments", 1);
                    self.state(asg, cdb, true)?;
                    if self.o.candidates {
                        inv::total(asg, cdb)?;
                    }
                }
            }
            Ok(())
        }

        /// restarts and reductions happen when and as the settings say
        fn steered(&mut self, e: Event, asg: &AssignStack, cdb: &ClauseDB, state: &State) -> Result<(), String> {
            use splr::cdb::property::{TEma, Tusize as C};
            use splr::state::Stat;
            use splr::types::{EmaIF, EmaView};
            let (restarts, reductions) = (state[Stat::Restart], cdb.derefer(C::NumReduction));
            let restarted = restarts - self.policy.restarts;
            let reduced = reductions - self.policy.reductions;
            (self.policy.restarts, self.policy.reductions) = (restarts, reductions);
            if let (Some(due), Event::Fixpoint | Event::Conflict(_)) = (self.policy.due, &e) {
                if restarted != due as usize {
                    return Err(format!("{} restarts although the ratio of LBDs was {} the threshold {}", restarted, if due { "above" } else { "not above" }, state.config.rst_lbd_thr));
                }
                self.count(if due { "restarts due" } else { "restarts not due" }, 1);
            }
            self.policy.due = None;
            match e {
                Event::Learnt => {
                    let v = PropertyReference::<TEma, EmaView>::refer(cdb, TEma::LBD);
                    self.policy.due = Some(state.config.rst_lbd_thr < v.get_fast() / v.get_slow());
                }
                Event::StageEnd => {
                    self.policy.before = Some(
                        cdb.iter()
                            .map(|c| {
                                if c.is_dead() || !c.is(FlagClause::LEARNT) || lbd(asg, c) <= 4 {
                                    return None;
                                }
                                Some((ints(c), inactivity(asg, c)))
                            })
                            .collect(),
                    );
                }
                Event::Reduced => {
                    // in the middle of a cycle
                    if let Some(before) = self.policy.before.take() {
                        let n = state.stm.num_reducible(state.config.cls_rdc_rm1);
                        let candidates = before.iter().flatten().count();
                        let (mut gone, mut best, mut worst) = (0, f64::INFINITY, f64::NEG_INFINITY);
                        for (b, c) in before.iter().zip(cdb.iter()) {
                            let Some((lits, w)) = b else { continue };
                            if c.is_dead() {
                                gone += 1;
                                best = best.min(*w);
                            } else if *lits != ints(c) {
                                return Err(format!("a reduction turned {:?} into {:?}", lits, ints(c)));
                            } else {
                                worst = worst.max(*w);
                            }
                        }
                        if gone != n.min(candidates) {
                            return Err(format!("the reduction of a stage forgot {} of {} candidates instead of {}", gone, candidates, n));
                        }
                        if best + 1e-9 < worst {
                            return Err(format!("the reduction of a stage forgot one of inactivity {} and kept one of {}", best, worst));
                        }
                        if reduced != 1 {
                            return Err(format!("{} reductions in a stage", reduced));
                        }
                        self.count("reductions of stages judged", 1);
                    }
                }
                _ => self.policy.before = None,
            }
            Ok(())
        }

        /// a copy of the database is reduced in some way: the worst clauses are forgotten and nothing else
        fn reduced(&mut self, asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
            use splr::cdb::property::Tusize as C;
            if asg.decision_level() != asg.root_level() {
                return Ok(());
            }
            let r = &mut self.rng;
            let learnt = cdb.iter().skip(1).filter(|c| !c.is_dead() && c.is(FlagClause::LEARNT)).count();
            let size = match r.below(6) {
                0 => 0,
                1 => learnt + r.below(3),
                _ => r.below(learnt + 1),
            };
            let scale = if r.chance(0.2) { 0.0 } else { r.below(1000) as f64 / 1000.0 };
            let (kind, cutoff) = (r.below(4), r.below(12));
            let setting = match kind {
                0 => ReductionType::RASonADD(size),
                1 => ReductionType::LBDonADD(size),
                2 => ReductionType::RASonALL(cutoff as f64, scale),
                _ => ReductionType::LBDonALL(cutoff as u16, scale),
            };
            let name = format!("{:?}", setting);
            let (mut a, mut c) = (asg.clone(), cdb.clone());
            c.reduce(&mut a, setting);
            let ranks: Vec<usize> = cdb.iter().map(|c| lbd(asg, c)).collect();
            let sum = |c: &Clause| inactivity(asg, c);
            let mut worth: Vec<Option<f64>> = Vec::new();
            for (i, c) in cdb.iter().enumerate() {
                worth.push(if i == 0 || c.is_dead() || !c.is(FlagClause::LEARNT) || ranks[i] <= 4 {
                    None
                } else {
                    match kind {
                        0 => Some(sum(c)),
                        1 => Some(ranks[i] as f64),
                        2 => Some(sum(c)).filter(|s| (cutoff as f64) < s.min(ranks[i] as f64)),
                        _ => Some(ranks[i] as f64).filter(|s| (cutoff as f64) < *s),
                    }
                });
            }
            let candidates = worth.iter().flatten().count();
            let keep = match kind {
                0 | 1 => candidates.saturating_sub(size),
                _ => (candidates as f64).powf(1.0 - scale) as usize,
            };
            let (mut best, mut worst, mut dropped) = (f64::INFINITY, f64::NEG_INFINITY, 0);
            for (i, (old, new)) in cdb.iter().zip(c.iter()).enumerate().skip(1) {
                if old.is_dead() {
                    if !new.is_dead() {
                        return Err(format!("{} made clause {} out of nothing", name, i));
                    }
                    continue;
                }
                if new.is_dead() {
                    let Some(w) = worth[i] else {
                        return Err(format!("{} dropped clause {:?} of rank {}, learnt {}", name, ints(old), ranks[i], old.is(FlagClause::LEARNT)));
                    };
                    dropped += 1;
                    best = best.min(w);
                    continue;
                }
                if old.is(FlagClause::LEARNT) != new.is(FlagClause::LEARNT) || old.iter().ne(new.iter()) {
                    return Err(format!("{} changed clause {:?} into {:?}", name, ints(old), ints(new)));
                }
                if let Some(w) = worth[i] {
                    worst = worst.max(w);
                }
            }
            if dropped != candidates - keep {
                return Err(format!("{} dropped {} of {} candidates ({} learnt) instead of {}", name, dropped, candidates, learnt, candidates - keep));
            }
            if best + 1e-9 < worst {
                return Err(format!("{} dropped a clause of measure {} and kept one of {}", name, best, worst));
            }
            let n = |k: C| (cdb.derefer(k), c.derefer(k));
            let (x, y) = n(C::NumReduction);
            if y != x + 1 {
                return Err(format!("NumReduction went from {} to {}", x, y));
            }
            let (x, y) = n(C::NumLearnt);
            if x != y + dropped {
                return Err(format!("NumLearnt went from {} to {} while {} were dropped", x, y, dropped));
            }
            let (x, y) = n(C::NumClause);
            if x != y + dropped {
                return Err(format!("NumClause went from {} to {} while {} were dropped", x, y, dropped));
            }
            inv::numbers(&c)?;
            self.count("reductions judged", 1);
            self.count("clauses dropped", dropped as u64);
            self.count("candidates kept", keep as u64);
            if 0 < dropped && 0 < keep {
                self.count("reductions that had to choose", 1);
            }
            Ok(())
        }

        /// decisions give a var the value it had last, or in the best assignment
        fn phased(&mut self, e: Event, asg: &AssignStack) -> Result<(), String> {
            use splr::assign::property::Tusize as A;
            let nv = asg.num_vars;
            let level = asg.decision_level();
            let root = asg.root_level();
            let all = || 1..=nv;
            let mut now = Phases {
                event: e,
                value: (0..=nv).map(|v| if v == 0 { None } else { asg.assign(v) }).collect(),
                root: (0..=nv).map(|v| v != 0 && asg.assign(v).is_some() && asg.level(v) == root).collect(),
                phase: (0..=nv).map(|v| v != 0 && asg.var(v).is(FlagVar::PHASE)).collect(),
                rephased: asg.derefer(A::NumRephase),
                record: false,
                best: Vec::new(),
                stale: true,
            };
            let reach = nv - asg.derefer(A::NumUnreachableVar);
            let Some(mut old) = self.phases.take() else {
                self.phases = Some(now);
                return Ok(());
            };
            now.best = std::mem::take(&mut old.best);
            now.record = old.record;
            now.stale = old.stale;
            // what can't be reached any more isn't a target
            let outdated = now.best.iter().any(|(v, b)| now.root[*v] && now.value[*v] == Some(!*b));
            // a var that lost its value keeps that as its phase
            let expected = |v: usize| match old.value[v] {
                Some(b) if !old.root[v] => b,
                _ => old.phase[v],
            };
            match e {
                // the pre-processors and the vivifier try assignments
                Event::Preprocessed | Event::Vivified => (),
                Event::StageEnd => {
                    let applied = now.rephased - old.rephased;
                    if level != root || 1 < applied {
                        return Err(format!("{} re-phasings at level {}", applied, level));
                    }
                    let mut want: Vec<bool> = (0..=nv).map(|v| v != 0 && expected(v)).collect();
                    if applied == 1 {
                        for (v, b) in &now.best {
                            want[*v] = *b;
                        }
                        self.count("re-phasings judged", 1);
                        self.count("vars of the best assignments", now.best.len() as u64);
                    } else if !now.stale
                        && !outdated
                        && !now.best.is_empty()
                        && now.best.len() < asg.derefer(A::NumUnassertedVar)
                    {
                        return Err(format!("no re-phasing although {} vars were assigned at best", now.best.len()));
                    }
                    for v in all() {
                        if now.value[v].is_none() && !asg.var(v).is(FlagVar::ELIMINATED) && now.phase[v] != want[v] {
                            return Err(format!(
                                "re-phasing ({}): var {} has phase {}; it was {:?}, phase {}, best {:?}",
                                applied, v, now.phase[v], old.value[v], old.phase[v],
                                now.best.iter().find(|x| x.0 == v)
                            ));
                        }
                    }
                    if !now.best.is_empty() && (outdated || asg.derefer(A::NumUnassertedVar) <= now.best.len()) {
                        now.stale = true;
                    }
                }
                _ => {
                    if now.rephased != old.rephased {
                        return Err(format!("re-phasing between {:?} and {:?}", old.event, e));
                    }
                    for v in all() {
                        if asg.var(v).is(FlagVar::ELIMINATED) || now.root[v] {
                            continue;
                        }
                        let fine = match now.value[v] {
                            None => now.phase[v] == expected(v),
                            Some(_) => now.phase[v] == expected(v) || now.phase[v] == old.phase[v],
                        };
                        if !fine {
                            return Err(format!(
                                "var {} has phase {} after {:?}, but had value {:?} and phase {} at {:?}",
                                v, now.phase[v], e, old.value[v], old.phase[v], old.event
                            ));
                        }
                    }
                    self.count("phases judged", nv as u64);
                }
            }
            if matches!(e, Event::Fixpoint | Event::Conflict(_)) && root < level {
                let l = asg.stack(asg.len_upto(level - 1));
                let v = l.vi();
                if bool::from(l) != now.phase[v] {
                    return Err(format!("decision {} is against the phase of its var", i32::from(l)));
                }
                if matches!(old.event, Event::Fixpoint) && old.value[v].is_none() {
                    // surely a new decision
                    if bool::from(l) != expected(v) {
                        return Err(format!("decision {} is against the phase of its var", i32::from(l)));
                    }
                    self.count("decisions judged", 1);
                }
            }
            match e {
                Event::Fixpoint if root < level => {
                    let assigned = asg.stack_len()
                        + asg.derefer(A::NumEliminatedVar)
                        + asg.derefer(A::NumAssertedVar);
                    if reach < assigned {
                        return Err(format!("{} vars have a value but only {} were ever reached", assigned, reach));
                    }
                    if reach == assigned {
                        now.record = true;
                        self.count("records", 1);
                    }
                }
                Event::Conflict(_) if now.record && root < level => {
                    now.best = (asg.len_upto(root)..asg.stack_len())
                        .map(|i| {
                            let l = asg.stack(i);
                            (l.vi(), bool::from(l))
                        })
                        .collect();
                    now.stale = false;
                    now.record = false;
                    self.count("best assignments", 1);
                }
                _ => (),
            }
            if outdated && !matches!(e, Event::Conflict(_)) {
                now.stale = true;
            }
            self.phases = Some(now);
            Ok(())
        }

        /// the published averages are those of what happens
        fn averaged(&mut self, e: Event, asg: &AssignStack, cdb: &ClauseDB, state: &State) -> Result<(), String> {
            use splr::assign::property::{TEma as AE, Tusize as A};
            use splr::state::property::TEma as SE;
            use splr::types::{EmaIF, EmaView};
            let level = asg.decision_level();
            let conflict = matches!(e, Event::Conflict(_));
            let fast = |v: &EmaView| v.get_fast();
            let value = [
                fast(PropertyReference::<SE, EmaView>::refer(state, SE::ConflictLevel)),
                fast(PropertyReference::<SE, EmaView>::refer(state, SE::BackjumpLevel)),
                fast(PropertyReference::<AE, EmaView>::refer(asg, AE::DecisionPerConflict)),
                fast(PropertyReference::<AE, EmaView>::refer(asg, AE::PropagationPerConflict)),
                fast(PropertyReference::<AE, EmaView>::refer(asg, AE::ConflictPerRestart)),
            ];
            let mut now = Averages {
                event: e,
                level,
                decisions: asg.derefer(A::NumDecision),
                propagations: asg.derefer(A::NumPropagation),
                conflicts: asg.derefer(A::NumConflict),
                restarts: asg.derefer(A::NumRestart),
                last: (0, 0),
                base: 0,
                levels: Vec::new(),
                live: Vec::new(),
                activity: Vec::new(),
                assigned: Vec::new(),
                value,
            };
            let Some(old) = self.averages.take() else {
                if now.conflicts == 0 && value.iter().all(|x| *x == 0.0) {
                    self.averages = Some(now);
                    return Ok(());
                }
                return Err(format!("averages {:?} before the first conflict", value));
            };
            now.last = old.last;
            now.base = old.base;
            let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()));
            let step = |i: usize, x: f64, len: f64| old.value[i] + (x - old.value[i]) / len;
            let is = |i: usize, want: &[f64]| {
                if want.iter().any(|w| near(value[i], *w)) {
                    Ok(())
                } else {
                    Err(format!("average of {} went from {} to {} instead of {:?} ({:?} -> {:?})", AVERAGES[i], old.value[i], value[i], want, old.event, e))
                }
            };
            self.count("steps of averages", 1);
            // restarts come before a conflict
            let mut r = old.value[4];
            for _ in old.restarts..now.restarts {
                let x = old.conflicts - now.base;
                now.base = old.conflicts;
                r += (x as f64 - r) / 100.0;
            }
            is(4, &[r])?;
            if conflict {
                is(2, &[step(2, (now.decisions - old.last.0) as f64, 100.0)])?;
                is(3, &[step(3, (now.propagations - old.last.1) as f64, 100.0)])?;
                now.last = (now.decisions, now.propagations);
                now.live = cdb.iter().map(|c| !c.is_dead()).collect();
                now.activity = (0..=asg.num_vars).map(|vi| if vi == 0 { 0.0 } else { asg.activity(vi) }).collect();
                now.assigned = (0..=asg.num_vars).map(|vi| vi != 0 && asg.assign(vi).is_some()).collect();
                now.levels = (0..=asg.num_vars).map(|vi| if vi == 0 { 0 } else { asg.level(vi) }).collect();
            } else {
                is(2, &[old.value[2]])?;
                is(3, &[old.value[3]])?;
            }
            if let (Event::Learnt, Event::Conflict(_)) = (&e, &old.event) {
                let new: Vec<&Clause> = cdb
                    .iter()
                    .enumerate()
                    .skip(1)
                    .filter(|(i, c)| !c.is_dead() && !old.live.get(*i).copied().unwrap_or(false))
                    .map(|(_, c)| c)
                    .collect();
                // the jump may be a level deeper
                let jump = [step(1, level as f64, 5000.0), step(1, level as f64 + 1.0, 5000.0)];
                let depth = step(0, old.level as f64, 5000.0);
                if new.is_empty() {
                    // a unit, or a binary clause known before
                    if value[0] != old.value[0] || value[1] != old.value[1] {
                        is(0, &[depth])?;
                        is(1, &jump)?;
                    } else if level != 0 {
                        return Err(format!("averages of levels stay at {:?}", &value[..2]));
                    }
                } else {
                    is(0, &[depth])?;
                    is(1, &jump)?;
                }
                // a var's activity is the average of its parts in conflicts
                let decay = asg.derefer(splr::assign::property::Tf64::VarDecayRate);
                for vi in 1..=asg.num_vars {
                    let (a, b) = (old.activity[vi], asg.activity(vi));
                    // those the jump took back; a learnt literal is assigned again
                    let back = old.assigned[vi] && level < old.levels[vi];
                    let (low, high) = (a * decay, a * decay + (1.0 - decay));
                    let learnt = matches!(new[..], [c] if c.iter().any(|l| l.vi() == vi));
                    if asg.assign(vi).is_some() && asg.level(vi) == 0 {
                        continue; // fixed for ever
                    }
                    let fine = match (back, learnt) {
                        (false, _) => a == b,
                        (true, false) => near(b, low) || near(b, high),
                        (true, true) => near(b, high),
                    };
                    if !fine || !(0.0..=1.0 + 1e-9).contains(&b) {
                        return Err(format!("activity of var {} went from {} to {} (decay {}, unassigned {}, learnt {}, was assigned {} at {}, jump {} -> {})", vi, a, b, decay, back, learnt, old.assigned[vi], old.levels[vi], old.level, level));
                    }
                }
                self.count("activities judged", asg.num_vars as u64);
                if let [c] = new[..]
                    && 2 < c.len()
                    && c.len() < 8192
                {
                    let mut ls: Vec<u32> = c.iter().map(|l| old.levels[l.vi()]).filter(|l| *l != 0).collect();
                    ls.sort_unstable();
                    ls.dedup();
                    self.count("ranks judged", 1);
                    if c.rank as usize != ls.len() {
                        return Err(format!("learnt clause {:?} has rank {} but spreads over levels {:?}", ints(c), c.rank, ls));
                    }
                }
            } else {
                is(0, &[old.value[0]])?;
                is(1, &[old.value[1]])?;
            }
            self.averages = Some(now);
            Ok(())
        }

        /// the published numbers follow what happens
        fn tallied(&mut self, e: Event, asg: &AssignStack, cdb: &ClauseDB, state: &State) -> Result<(), String> {
            use splr::assign::property::Tusize as A;
            use splr::cdb::property::Tusize as C;
            use splr::state::Stat;
            let live: Vec<bool> = match e {
                Event::Conflict(_) => cdb.iter().map(|c| !c.is_dead()).collect(),
                _ => Vec::new(),
            };
            let now = Tally {
                event: e,
                level: asg.decision_level() as usize,
                trail: asg.stack_len(),
                num: [
                    asg.derefer(A::NumConflict),
                    asg.derefer(A::NumDecision),
                    asg.derefer(A::NumPropagation),
                    asg.derefer(A::NumReconflict),
                    asg.derefer(A::NumRepropagation),
                    asg.derefer(A::NumRephase),
                    state[Stat::Restart],
                    cdb.derefer(C::NumLBD2),
                    cdb.derefer(C::NumBiLearnt),
                    cdb.derefer(C::NumReduction),
                    state[Stat::Vivification],
                    state[Stat::Simplify],
                    state[Stat::VivifiedVar],
                    state[Stat::SubsumedClause],
                ],
                live,
            };
            let steps = self.subsumed.get();
            if !matches!(e, Event::Fixpoint | Event::Conflict(_)) && now.num[SUBSUMED] != steps {
                return Err(format!("{} clauses are reported as subsumed, {} were", now.num[SUBSUMED], steps));
            }
            self.seen.borrow_mut().maximum("clauses subsumed in a run", steps as u64);
            let Some(old) = self.tally.replace(now.clone()) else {
                return Ok(());
            };
            for (i, name) in NAMES.iter().enumerate() {
                if now.num[i] < old.num[i] {
                    return Err(format!("{} went down from {} to {}", name, old.num[i], now.num[i]));
                }
            }
            let grown = |i: usize| now.num[i] - old.num[i];
            let is = |i: usize, want: usize| {
                if grown(i) == want {
                    Ok(())
                } else {
                    Err(format!("{} grew by {} instead of {} since {:?}", NAMES[i], grown(i), want, old.event))
                }
            };
            self.count("transitions", 1);
            is(CONFLICT, matches!(e, Event::Conflict(_)) as usize)?;
            match e {
                Event::Fixpoint | Event::Conflict(_) => {
                    // at most one decision, after a restart or not
                    let d = grown(DECISION);
                    let r = grown(RESTART);
                    if 1 < d || now.level < d {
                        return Err(format!("NumDecision grew by {} up to level {} since {:?}", d, now.level, old.event));
                    }
                    let base = now.level - d;
                    if base != old.level && base != 0 {
                        return Err(format!("from level {} to level {}, but NumDecision grew by {}", old.level, now.level, d));
                    }
                    let may = matches!(old.event, Event::Learnt);
                    if 1 < r || (r == 1 && (!may || base != 0)) || (r == 0 && base != old.level) {
                        return Err(format!("from level {} to level {} ({} decided), but restarts grew by {}", old.level, now.level, d, r));
                    }
                    for i in [LBD2, BILEARNT, REDUCTION, VIVIFICATION, SIMPLIFY, VIVIFIED_VAR] {
                        is(i, 0)?;
                    }
                    let p = grown(PROPAGATION);
                    let again = grown(RECONFLICT);
                    let found = matches!(e, Event::Conflict(_)) as usize;
                    if found < again {
                        return Err(format!("NumReconflict grew by {} to a {:?}", again, e));
                    }
                    if now.trail + again < p {
                        return Err(format!("NumPropagation grew by {} with {} literals on the trail", p, now.trail));
                    }
                    if old.event == Event::Fixpoint {
                        // all that was there had been propagated
                        let more = now.trail - old.trail.min(now.trail);
                        if found == 0 && p != more || more + again < p {
                            return Err(format!("NumPropagation grew by {} while {} literals were propagated", p, more));
                        }
                        if more < grown(REPROPAGATION) {
                            return Err(format!("NumRepropagation grew by {} while {} literals were assigned", grown(REPROPAGATION), more));
                        }
                    }
                }
                Event::Learnt => {
                    for i in [DECISION, PROPAGATION, RECONFLICT, REPROPAGATION, RESTART, REDUCTION, VIVIFICATION, SIMPLIFY, VIVIFIED_VAR] {
                        is(i, 0)?;
                    }
                    let (mut short, mut good) = (0, 0);
                    for (i, c) in cdb.iter().enumerate().skip(1) {
                        if c.is_dead() || old.live.get(i).copied().unwrap_or(false) {
                            continue;
                        }
                        match c.len() {
                            2 => short += 1,
                            _ if c.rank <= 2 => good += 1,
                            _ => (),
                        }
                    }
                    if short <= 1 && cfg!(not(feature = "no_io")) {
                        is(BILEARNT, short)?;
                    }
                    is(LBD2, good)?;
                }
                Event::StageEnd => {
                    if old.event == Event::Learnt {
                        is(RESTART, 1)?;
                        is(DECISION, 0)?;
                    }
                }
                Event::Vivified => {
                    is(VIVIFICATION, 1)?;
                    is(RESTART, 0)?;
                    if asg.num_vars < now.num[VIVIFIED_VAR] {
                        return Err(format!("{} vars were asserted by vivification", now.num[VIVIFIED_VAR]));
                    }
                }
                Event::Simplified => is(SIMPLIFY, 1)?,
                Event::Preprocessed => (),
                Event::Reduced => is(DECISION, 0)?,
                Event::Found => {
                    for i in [DECISION, PROPAGATION, RESTART, LBD2, REDUCTION, VIVIFICATION, SIMPLIFY] {
                        is(i, 0)?;
                    }
                }
            }
            Ok(())
        }

        fn state(&mut self, asg: &AssignStack, cdb: &ClauseDB, fixed: bool) -> Result<(), String> {
            if self.o.propagation && fixed {
                let n = inv::fixpoint(asg, cdb)?;
                self.count("fixpoint checks", 1);
                self.count("clauses judged at fixpoints", n);
            }
            if self.o.trail {
                let n = inv::trail(asg, cdb)?;
                self.count("trail checks", 1);
                self.count("trail literals justified", n);
            }
            if self.o.candidates {
                let n = inv::candidates(asg)?;
                self.count("candidate checks", 1);
                self.count("open vars found available", n);
            }
            if self.o.database {
                let n = inv::clauses(asg, cdb)?;
                inv::watches(asg, cdb)?;
                inv::numbers(cdb)?;
                self.count("database checks", 1);
                self.count("stored clauses inspected", n);
            }
            Ok(())
        }

        /// a clause that was created by handling a conflict
        fn fresh(&mut self, asg: &AssignStack, c: &Clause) -> Result<(), String> {
            let free = c.iter().filter(|l| asg.assigned(**l).is_none()).count();
            let sat = c.iter().any(|l| asg.assigned(*l) == Some(true));
            self.count("learnt clauses after backjump", 1);
            if !sat && free == 0 {
                return Err(format!("learnt clause {} is falsified after backjump", inv::show(c)));
            }
            if !sat && free == 1 {
                return Err(format!("learnt clause {} is unit but not asserted", inv::show(c)));
            }
            if sat && !asg.remains() {
                return Err(format!("learnt clause {} asserted nothing new", inv::show(c)));
            }
            Ok(())
        }

        // ---- P04

        fn kept(asg: &AssignStack, cdb: &ClauseDB) -> Vec<Vec<i32>> {
            let mut cls: Vec<Vec<i32>> = cdb
                .iter()
                .skip(1)
                .filter(|c| !c.is_dead() && !c.is(FlagClause::LEARNT))
                .map(ints)
                .collect();
            cls.extend(Self::roots(asg).into_iter().map(|l| vec![l]));
            cls
        }

        fn roots(asg: &AssignStack) -> Vec<i32> {
            (1..=asg.num_vars)
                .filter_map(|vi| match asg.assign(vi) {
                    Some(b) if asg.level(vi) == asg.root_level() => {
                        Some(if b { vi as i32 } else { -(vi as i32) })
                    }
                    _ => None,
                })
                .collect()
        }

        fn snapshot(&mut self, asg: &AssignStack, cdb: &ClauseDB) {
            let clauses = Self::kept(asg, cdb);
            let nv = asg.num_vars;
            let mut checker = Checker::new(nv);
            for c in clauses.iter() {
                checker.insert(c);
            }
            let mut models = Vec::new();
            for _ in 0..6 {
                let mut assumed: Vec<i32> = Vec::new();
                for _ in 0..self.rng.below(if nv == 0 { 1 } else { 4 }) {
                    let v = self.rng.range(1, nv) as i32;
                    if !assumed.iter().any(|l| l.abs() == v) {
                        assumed.push(self.rng.sign(v));
                    }
                }
                match refsat::solve(nv, &clauses, &assumed, 3000) {
                    Ref::Sat(m) => models.push(m),
                    Ref::Unsat if !assumed.is_empty() => (),
                    _ => break,
                }
            }
            self.count("models of the preprocessed formula", models.len() as u64);
            self.base = Some(Base {
                known: cdb.iter().map(|c| if c.is_dead() { 0 } else { hash(c) }).collect(),
                units: Self::roots(asg).into_iter().collect(),
                clauses,
                nv,
                checker,
                models,
            });
        }

        fn learned(&mut self, asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
            let Some(mut b) = self.base.take() else {
                return Ok(());
            };
            let mut new: Vec<Vec<i32>> = Vec::new();
            for (i, c) in cdb.iter().enumerate().skip(1) {
                let h = if c.is_dead() { 0 } else { hash(c) };
                if b.known.len() <= i {
                    b.known.resize(i + 1, 0);
                }
                if h != 0 && h != b.known[i] {
                    new.push(ints(c));
                }
                b.known[i] = h;
            }
            for l in Self::roots(asg) {
                if b.units.insert(l) {
                    new.push(vec![l]);
                }
            }
            new.sort_by_key(|c| c.len());
            let r = new.iter().try_for_each(|c| self.implied(&mut b, c));
            self.base = Some(b);
            r
        }

        fn implied(&mut self, b: &mut Base, c: &[i32]) -> Result<(), String> {
            self.count(if c.len() == 1 { "root literals judged" } else { "learnt clauses judged" }, 1);
            for m in b.models.iter() {
                if !c.iter().any(|l| lit_true(*l, m)) {
                    return Err(format!(
                        "{:?} was learned, but a model of the preprocessed formula falsifies it",
                        c
                    ));
                }
            }
            if b.checker.refuted {
                return Ok(());
            }
            if b.checker.is_rup(c) {
                self.count("implied by unit propagation", 1);
                b.checker.insert(c);
                return Ok(());
            }
            let neg: Vec<i32> = c.iter().map(|l| -*l).collect();
            match refsat::solve(b.nv, &b.clauses, &neg, self.o.ref_budget) {
                Ref::Unsat => {
                    self.count("implied by reference refutation", 1);
                    b.checker.insert(c);
                    Ok(())
                }
                Ref::Sat(m) => {
                    assert!(first_falsified(&b.clauses, &m).is_none());
                    Err(format!(
                        "{:?} was learned, but it isn't implied by the preprocessed formula",
                        c
                    ))
                }
                Ref::GaveUp => {
                    self.count("not settled", 1);
                    Ok(())
                }
            }
        }

        // ---- P05

        /// Every permanent clause that was there at the last event and is gone is implied by the ones
        /// that are left, unless one of its vars has been eliminated.
        fn nothing_lost(&mut self, asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
            if asg.decision_level() != asg.root_level() {
                return Ok(());
            }
            let kept = Self::kept(asg, cdb);
            let now: HashSet<Vec<i32>> = kept
                .iter()
                .map(|c| {
                    let mut c = c.clone();
                    c.sort_unstable();
                    c
                })
                .collect();
            let Some(before) = self.permanent.take() else {
                self.permanent = Some(now);
                return Ok(());
            };
            let mut gone: Vec<&Vec<i32>> = before
                .difference(&now)
                .filter(|c| {
                    c.iter().all(|l| {
                        let vi = l.unsigned_abs() as usize;
                        !asg.var(vi).is(FlagVar::ELIMINATED)
                            && !(asg.level(vi) == asg.root_level() && asg.assign(vi) == Some(0 < *l))
                    })
                })
                .collect();
            gone.sort();
            let (mut ok, mut open) = (0, 0);
            if !gone.is_empty() {
                let nv = asg.num_vars;
                let mut kc = Checker::new(nv);
                for c in kept.iter() {
                    kc.insert(c);
                }
                for c in gone {
                    if kc.refuted || kc.is_rup(c) {
                        ok += 1;
                        continue;
                    }
                    let neg: Vec<i32> = c.iter().map(|l| -*l).collect();
                    match refsat::solve(nv, &kept, &neg, self.o.ref_budget) {
                        Ref::Unsat => ok += 1,
                        Ref::Sat(_) => {
                            return Err(format!(
                                "the permanent clause {:?} is gone, but isn't implied by the permanent ones left",
                                c
                            ));
                        }
                        Ref::GaveUp => open += 1,
                    }
                }
            }
            self.count("permanent clauses removed and implied", ok);
            self.count("not settled", open);
            self.permanent = Some(now);
            Ok(())
        }

        fn simplified(&mut self, e: Event, asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
            self.simplifications += 1;
            // the preprocessor once, and in-processing now and then
            if e == Event::Vivified && 1 < self.simplifications
                || 12 < self.simplifications && !self.rng.chance(0.1)
            {
                return Ok(());
            }
            if asg.decision_level() != asg.root_level() || asg.remains() {
                return Ok(());
            }
            let kept = Self::kept(asg, cdb);
            let nv = asg.num_vars;
            let gone: Vec<bool> =
                (0..=nv).map(|v| 0 < v && asg.var(v).is(FlagVar::ELIMINATED)).collect();
            self.count("simplified formulas judged", 1);
            self.count("eliminated vars seen", gone.iter().filter(|b| **b).count() as u64);
            // (1) kept clauses imply every original clause that has no eliminated var
            let mut kc = Checker::new(nv);
            for c in kept.iter() {
                kc.insert(c);
            }
            for (i, c) in self.o.clauses.clone().iter().enumerate() {
                if c.iter().any(|l| gone[l.unsigned_abs() as usize])
                    || c.iter().any(|l| c.contains(&-*l))
                {
                    continue;
                }
                if kc.refuted || kc.is_rup(c) {
                    self.count("original clauses implied", 1);
                    continue;
                }
                let neg: Vec<i32> = c.iter().map(|l| -*l).collect();
                match refsat::solve(nv, &kept, &neg, self.o.ref_budget) {
                    Ref::Unsat => self.count("original clauses implied", 1),
                    Ref::Sat(_) => {
                        return Err(format!(
                            "clause {} {:?} isn't implied by what was kept",
                            i, c
                        ));
                    }
                    Ref::GaveUp => self.count("not settled", 1),
                }
            }
            // (2) models of the kept clauses extend to models of the original
            let mut found = 0;
            // original clauses that are satisfied by an eliminated variable, if at all
            let touched: Vec<usize> = (0..self.o.clauses.len())
                .filter(|i| {
                    let c = &self.o.clauses[*i];
                    c.iter().any(|l| gone[l.unsigned_abs() as usize]) && !c.iter().any(|l| c.contains(&-*l))
                })
                .collect();
            for k in 0..14 {
                let mut assumed: Vec<i32> = Vec::new();
                if 6 <= k {
                    if touched.is_empty() {
                        break;
                    }
                    let (i, j) = (*self.rng.pick(&touched), *self.rng.pick(&touched));
                    let (c, d) = (&self.o.clauses[i], &self.o.clauses[j]);
                    let c = if c.len() < d.len() { d } else { c };
                    assumed.extend(c.iter().filter(|l| !gone[l.unsigned_abs() as usize]).map(|l| -*l));
                    assumed.sort_unstable();
                    assumed.dedup();
                } else if 0 < k && 0 < nv {
                    for _ in 0..self.rng.range(1, 8) {
                        let v = self.rng.range(1, nv);
                        if !gone[v] && !assumed.iter().any(|l| l.unsigned_abs() as usize == v) {
                            assumed.push(self.rng.sign(v as i32));
                        }
                    }
                }
                match refsat::solve(nv, &kept, &assumed, self.o.ref_budget * 2) {
                    Ref::Sat(mut m) => {
                        found += 1;
                        // what the solver leaves open may have any value
                        let used: HashSet<usize> = kept
                            .iter()
                            .flatten()
                            .map(|l| l.unsigned_abs() as usize)
                            .collect();
                        for (v, b) in m.iter_mut().enumerate().skip(1) {
                            if !used.contains(&v) {
                                *b = self.rng.bool();
                            }
                        }
                        self.reconstruct(asg, cdb, &m, &gone)?;
                    }
                    Ref::Unsat if k == 0 => {
                        if self.o.satisfiable == Some(true) {
                            return Err("simplification made a satisfiable formula unsatisfiable".into());
                        }
                        break;
                    }
                    Ref::Unsat => (),
                    Ref::GaveUp => {
                        self.count("not settled", 1);
                        break;
                    }
                }
            }
            if 0 < found && self.o.satisfiable == Some(false) {
                return Err("simplification made an unsatisfiable formula satisfiable".into());
            }
            Ok(())
        }

        fn reconstruct(
            &mut self,
            asg: &AssignStack,
            cdb: &ClauseDB,
            m: &[bool],
            gone: &[bool],
        ) -> Result<(), String> {
            let mut a = asg.clone();
            let mut c = cdb.clone();
            for v in 1..=a.num_vars {
                if !gone[v] && a.assign(v).is_none() {
                    a.assign_by_decision(Lit::from((v, m[v])));
                }
            }
            let x = a.extend_model(&mut c);
            let mut full = vec![false; a.num_vars + 1];
            for v in 1..=a.num_vars {
                match x[v] {
                    Some(b) => full[v] = b,
                    None => return Err(format!("the extended model has no value for var {}", v)),
                }
                if !gone[v] && full[v] != m[v] {
                    return Err(format!("extending a model changed var {} that wasn't eliminated", v));
                }
            }
            self.count("models reconstructed", 1);
            match first_falsified(&self.o.clauses, &full) {
                None => Ok(()),
                Some(i) => Err(format!(
                    "a model of the kept clauses extends to an assignment that falsifies clause {} {:?}",
                    i, self.o.clauses[i]
                )),
            }
        }

        // ---- P21

        fn stage_ended(&mut self, _: &AssignStack, state: &State) -> Result<(), String> {
            let s = &mut self.stage;
            let unit = 32;
            let want = if s.terms == 0 { unit } else { s.cycles * unit };
            let got = s.long as usize;
            s.long = 0;
            if !s.started {
                s.started = true;
                s.max = 1;
                s.pending = true;
            }
            if got != want {
                return Err(format!(
                    "stage {} ended after {} learnt clauses instead of {}",
                    state.stm.current_stage(),
                    got,
                    want
                ));
            }
            Ok(())
        }

        fn stage_begun(&mut self, state: &State) -> Result<(), String> {
            let s = &mut self.stage;
            s.terms += 1;
            s.scale = luby(s.terms);
            if s.scale == 1 {
                s.cycles += 1;
                if s.pending {
                    s.segment += 1;
                    s.max *= 2;
                    s.pending = false;
                }
            }
            if s.max == s.scale {
                s.pending = true;
            }
            let m = &state.stm;
            for (name, have, want) in [
                ("scale", m.current_scale(), s.scale),
                ("stage", m.current_stage(), s.terms),
                ("cycle", m.current_cycle(), s.cycles),
                ("segment", m.current_segment(), s.segment),
                ("maximum scale", m.max_scale(), s.max),
                ("span", m.current_span(), s.cycles * 32),
            ] {
                if have != want {
                    return Err(format!("{} of stage {} is {} instead of {}", name, s.terms, have, want));
                }
            }
            s.last = (s.terms, s.cycles, s.segment);
            self.count("stages judged", 1);
            Ok(())
        }
    }
}
