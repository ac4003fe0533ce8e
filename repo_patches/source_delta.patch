From 132189cd0098229f23c66cace76860e5edc872f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 01/35] fix: drop removed clauses from the occur lists of
 assigned vars too

Clause ids are recycled during elimination, so an occur list of an already
assigned var could keep the id of a removed clause; when the id was reused,
debug builds stopped at an assertion in Eliminator::add_cid_occur.
---
 src/processor/simplify.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index f62dbdb..32a48cd 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -386,10 +386,9 @@ impl Eliminator {
         debug_assert!(!c.is_dead());
         c.turn_off(FlagClause::OCCUR_LINKED);
         for l in c.iter() {
-            if asg.assign(l.vi()).is_none() {
-                self.remove_lit_occur(asg, *l, cid);
-                self.enqueue_var(asg, l.vi(), true);
-            }
+            // Clause ids are recycled. So even if the var is already assigned,
+            // its occur list must not keep the id of a removed clause.
+            self.remove_lit_occur(asg, *l, cid);
         }
     }
     /// set eliminator's mode to **dormant**.
@@ -591,7 +590,9 @@ impl Eliminator {
             w.neg_occurs.delete_unstable(|&c| c == cid);
             debug_assert!(!w.neg_occurs.contains(&cid));
         }
-        self.enqueue_var(asg, l.vi(), true);
+        if asg.assign(l.vi()).is_none() {
+            self.enqueue_var(asg, l.vi(), true);
+        }
     }
 
     //
-- 
2.43.0


From d42848449801cf6daa4b326157f781995351cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 02/35] fix: keep the UNSAT certification in step with the
 given clauses

A given clause is a part of the CNF a proof checker holds, and a (normalized)
copy of it was added to the proof, but only one of them was deleted when the
clause was removed. A clause that stays alive only in the checker refutes the
RAT check of the pure literals asserted before search, so valid UNSAT answers
came with a certificate that proof checkers reject. The same happened with
tautologies and with duplicated literals or clauses.
---
 src/cdb/db.rs       |  3 +++
 src/cdb/mod.rs      |  2 ++
 src/solver/build.rs | 15 +++++++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 650a669..605c03c 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1135,6 +1135,9 @@ impl ClauseDBIF for ClauseDB {
     fn certificate_add_assertion(&mut self, lit: Lit) {
         self.certification_store.add_clause(&[lit]);
     }
+    fn certificate_delete_clause(&mut self, lits: &[Lit]) {
+        self.certification_store.delete_clause(lits);
+    }
     fn certificate_save(&mut self) {
         self.certification_store.close();
     }
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index dced024..f4ac3d5 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -126,6 +126,8 @@ pub trait ClauseDBIF:
     fn update_at_analysis(&mut self, asg: &impl AssignIF, cid: ClauseId) -> bool;
     /// record an asserted literal to unsat certification.
     fn certificate_add_assertion(&mut self, lit: Lit);
+    /// record a removal of a given clause to unsat certification.
+    fn certificate_delete_clause(&mut self, lits: &[Lit]);
     /// save the certification record to a file.
     fn certificate_save(&mut self);
     /// check the number of clauses
diff --git a/src/solver/build.rs b/src/solver/build.rs
index b47a399..1453097 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -255,13 +255,17 @@ impl Solver {
             return RefClause::EmptyClause;
         }
         debug_assert!(asg.decision_level() == 0);
+        let given = lits.clone();
         lits.sort();
         let mut j = 0;
         let mut l_: Option<Lit> = None; // last literal; [x, x.negate()] means tautology.
         for i in 0..lits.len() {
             let li = lits[i];
             let sat = asg.assigned(li);
-            if sat == Some(true) || Some(!li) == l_ {
+            if sat == Some(true) {
+                return RefClause::Dead;
+            } else if Some(!li) == l_ {
+                cdb.certificate_delete_clause(&given);
                 return RefClause::Dead;
             } else if sat != Some(false) && Some(li) != l_ {
                 lits[j] = li;
@@ -278,7 +282,14 @@ impl Solver {
                 asg.assign_at_root_level(l0)
                     .map_or(RefClause::EmptyClause, |_| RefClause::UnitClause(l0))
             }
-            _ => cdb.new_clause(asg, lits, false),
+            _ => {
+                let rc = cdb.new_clause(asg, lits, false);
+                // A certification checker holds the given clause as a part of the CNF.
+                // Unless it is deleted there, the checker keeps it even after all of
+                // its (normalized) copies in `cdb` were removed.
+                cdb.certificate_delete_clause(&given);
+                rc
+            }
         }
     }
     #[cfg(not(feature = "no_IO"))]
-- 
2.43.0


From 88e165d81364a5a3c1d163b5095e05fba9c8ab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 03/35] fix: size the eliminator by the current number of vars

Eliminator was instantiated by the description of the original CNF,
which doesn't count the vars added by add_var. Solving after add_var
accessed the occur lists out of bounds.
---
 src/solver/search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/search.rs b/src/solver/search.rs
index 1fa2c27..1cf2fdc 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -68,7 +68,7 @@ impl SolveIF for Solver {
         }
         {
             debug_assert_eq!(asg.decision_level(), asg.root_level());
-            let mut elim = Eliminator::instantiate(&state.config, &state.cnf);
+            let mut elim = Eliminator::instantiate(&state.config, &state.target);
             if elim.simplify(asg, cdb, state, true).is_err() {
                 if cdb.check_size().is_err() {
                     return Err(SolverError::OutOfMemory);
@@ -355,7 +355,7 @@ fn search(
                         asg.update_activity_decay((decay_index - 1.0) / decay_index);
                     }
                     if cfg!(feature = "clause_elimination") {
-                        let mut elim = Eliminator::instantiate(&state.config, &state.cnf);
+                        let mut elim = Eliminator::instantiate(&state.config, &state.target);
                         state.flush("clause subsumption, ");
                         elim.simplify(asg, cdb, state, false)?;
                         asg.eliminated.append(elim.eliminated_lits());
-- 
2.43.0


From 36dc674a95d867853352c44a69ce271455af1439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 04/35] fix: inject_assignment rejects literals out of range

An assignment holding zero or an unknown var was an out-of-bounds access
(undefined behavior with unsafe_access), instead of an error.
---
 src/solver/validate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/solver/validate.rs b/src/solver/validate.rs
index acdb66d..5afb39c 100644
--- a/src/solver/validate.rs
+++ b/src/solver/validate.rs
@@ -12,7 +12,8 @@ pub trait ValidateIF {
     ///
     /// # Errors
     ///
-    /// if solver becomes inconsistent.
+    /// if solver becomes inconsistent, or `SolverError::InvalidLiteral` if a literal
+    /// is out of range for var index.
     fn inject_assignment(&mut self, vec: &[i32]) -> MaybeInconsistent;
     /// return `true` is the loaded assignment set is satisfiable (a model of a problem).
     fn validate(&self) -> Option<Vec<i32>>;
@@ -40,6 +41,11 @@ impl ValidateIF for Solver {
         if vec.is_empty() {
             return Err(SolverError::Inconsistent);
         }
+        for i in vec {
+            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
+                return Err(SolverError::InvalidLiteral);
+            }
+        }
         for i in vec {
             self.asg.assign_at_root_level(Lit::from(*i))?;
         }
-- 
2.43.0


From 7bba80f7700fd41c757a94d8cb27dd4d8482ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 05/35] fix: reject i32::MIN as an invalid literal in on-memory
 conversion

---
 src/types/cnf.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index f9145f1..a874971 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -71,9 +71,18 @@ impl fmt::Display for CNFDescription {
 
 impl<V: AsRef<[i32]>> From<&[V]> for CNFDescription {
     fn from(vec: &[V]) -> Self {
+        // Since `i32::MIN` has no negation, it can't be a literal. It is handled as an
+        // out-of-range literal when clauses are injected.
         let num_of_variables = vec
             .iter()
-            .map(|clause| clause.as_ref().iter().map(|l| l.abs()).max().unwrap_or(0))
+            .map(|clause| {
+                clause
+                    .as_ref()
+                    .iter()
+                    .filter_map(|l| l.checked_abs())
+                    .max()
+                    .unwrap_or(0)
+            })
             .max()
             .unwrap_or(0) as usize;
         CNFDescription {
-- 
2.43.0


From 0519d7a6cdb4d233e03f3fbee9ef91e24afc1b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 06/35] fix: a malformed CNF header is an IOError

'p cnf x 2' and the like panicked instead of returning an error.
---
 src/types/cnf.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index a874971..da90882 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -129,9 +129,12 @@ impl TryFrom<&Path> for CNFReader {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next().map(|s| s.parse::<usize>())
+                        && let Some(c) = iter.next().map(|s| s.parse::<usize>())
                     {
+                        let (Ok(v), Ok(c)) = (v, c) else {
+                            return Err(SolverError::IOError);
+                        };
                         nv = v;
                         nc = c;
                         found_valid_header = true;
-- 
2.43.0


From e3c99d8f6d27fdad109c1b537ce6d8afbd2645fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 07/35] fix: read CNF bodies by token instead of by line

A clause spanning lines was split into (wrong) clauses, the second and later
clauses in a line were dropped, the SATLIB trailer '%' was followed by an empty
clause, so that satisfiable problems were reported as UNSATISFIABLE and vice versa.
A literal out of the range defined in the header was accepted and caused
out-of-bounds accesses; it's SolverError::InvalidLiteral as documented.
---
 src/solver/build.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 1453097..802b4f5 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -298,37 +298,39 @@ impl Solver {
         self.state.progress(&self.asg, &self.cdb);
         self.state.flush("Initialization phase: loading...");
         let mut buf = String::new();
-        loop {
+        let mut v: Vec<Lit> = Vec::new();
+        // A clause is a sequence of literals terminated by `0`. It can span lines,
+        // and a line can hold clauses.
+        'reading: loop {
             buf.clear();
-            let mut ends_zero = false;
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
                 Ok(_) if buf.starts_with('c') => continue,
                 Ok(_) => {
-                    let iter = buf.split_whitespace();
-                    let mut v: Vec<Lit> = Vec::new();
-                    for s in iter {
+                    for s in buf.split_whitespace() {
                         match s.parse::<i32>() {
                             Ok(0) => {
-                                ends_zero = true;
-                                break;
+                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+                                    return Err(SolverError::EmptyClause);
+                                }
+                                v.clear();
                             }
-                            Ok(val) => v.push(Lit::from(val)),
-                            Err(_) => (),
-                        }
-                    }
-                    if v.is_empty() {
-                        if ends_zero {
-                            return Err(SolverError::EmptyClause);
+                            Ok(val) if val.unsigned_abs() as usize <= self.asg.num_vars => {
+                                v.push(Lit::from(val))
+                            }
+                            // the end-of-file mark used in SATLIB
+                            Err(_) if s == "%" => break 'reading,
+                            _ => return Err(SolverError::InvalidLiteral),
                         }
-                        continue;
-                    } else if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
-                        return Err(SolverError::EmptyClause);
                     }
                 }
-                Err(e) => panic!("{}", e),
+                Err(_) => return Err(SolverError::IOError),
             }
         }
+        // The last `0` might be omitted.
+        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+            return Err(SolverError::EmptyClause);
+        }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
         // s.state[Stat::NumBin] = s.cdb.iter().skip(1).filter(|c| c.len() == 2).count();
         Ok(self)
-- 
2.43.0


From 6dc11ad67b62a0f495e42384835ebb9691e75825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 08/35] fix: complete the certificate when a CNF is refuted
 during loading

The buffered steps and the final empty clause were never written.
---
 src/solver/build.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 802b4f5..46570bc 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -311,6 +311,7 @@ impl Solver {
                         match s.parse::<i32>() {
                             Ok(0) => {
                                 if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+                                    self.save_certification();
                                     return Err(SolverError::EmptyClause);
                                 }
                                 v.clear();
@@ -329,6 +330,7 @@ impl Solver {
         }
         // The last `0` might be omitted.
         if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+            self.save_certification();
             return Err(SolverError::EmptyClause);
         }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
@@ -357,6 +359,8 @@ impl Solver {
                 return Err(SolverError::EmptyClause);
             }
             if self.add_unchecked_clause(&mut lits) == RefClause::EmptyClause {
+                #[cfg(not(feature = "no_IO"))]
+                self.save_certification();
                 return Err(SolverError::EmptyClause);
             }
         }
-- 
2.43.0


From 575e102c05036dbe5a35e139394384a5c9e41925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 09/35] fix: splr writes its answer file also when a CNF can't
 be loaded

If a CNF was refuted during loading, a stale answer file of a former run was left;
and an illegal CNF caused a panic instead of an UNKNOWN answer.
---
 src/bin/splr.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index cc36b38..6bc6f6e 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -90,10 +90,18 @@ fn main() {
                 colored(Ok(false), config.no_color),
                 config.cnf_file.file_name().unwrap().to_string_lossy(),
             );
+            save_answer_without_search(Ok(false), &cnf_file, ans_file);
             std::process::exit(20);
         }
         Err(e) => {
-            panic!("{e:?}");
+            println!(
+                "\x1B[1G\x1B[K{} ({}): {}",
+                colored(Err(&e), config.no_color),
+                e,
+                config.cnf_file.file_name().unwrap().to_string_lossy(),
+            );
+            save_answer_without_search(Err(&e), &cnf_file, ans_file);
+            std::process::exit(0);
         }
         Ok(solver) => solver,
     };
@@ -106,6 +114,21 @@ fn main() {
     });
 }
 
+/// save an answer given at loading time.
+fn save_answer_without_search(
+    answer: Result<bool, &SolverError>,
+    input: &str,
+    output: Option<PathBuf>,
+) {
+    let result = format!(
+        "c This file was generated by splr-{VERSION} for {input}\nc \n{}\n0\n",
+        colored(answer, true),
+    );
+    if !output.is_some_and(|file| std::fs::write(file, &result).is_ok()) {
+        print!("{result}");
+    }
+}
+
 fn save_result<S: AsRef<str> + std::fmt::Display>(
     s: &mut Solver,
     res: &SolverResult,
-- 
2.43.0


From a83584fc2950eae2bc89d645480f29bbb7df144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 10/35] fix: dump_cnf includes the assertions at the root level

All of the unit clauses were lost unless the solver stayed at a decision level.
---
 src/cdb/db.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 605c03c..adc4404 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1282,7 +1282,12 @@ impl ClauseDBIF for ClauseDB {
             return;
         };
         let mut buf = std::io::BufWriter::new(out);
-        let na = asg.derefer(crate::assign::property::Tusize::NumAssertedVar);
+        // `len_upto(0)` is defined only if there's a decision.
+        let na = if asg.decision_level() == 0 {
+            asg.stack_len()
+        } else {
+            asg.len_upto(0)
+        };
         let nc = self.iter().skip(1).filter(|c| !c.is_dead()).count();
         buf.write_all(format!("p cnf {} {}\n", nv, nc + na).as_bytes())
             .unwrap();
@@ -1297,7 +1302,7 @@ impl ClauseDBIF for ClauseDB {
             buf.write_all(b"0\n").unwrap();
         }
         buf.write_all(b"c from trail\n").unwrap();
-        for x in asg.stack_iter().take(asg.len_upto(0)) {
+        for x in asg.stack_iter().take(na) {
             buf.write_all(format!("{} 0\n", i32::from(*x)).as_bytes())
                 .unwrap();
         }
-- 
2.43.0


From bfa71e91b4d00451d2d5f6f0def0e8ae75aca585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 11/35] fix: dmcr handles CNFs refuted during loading and the
 empty assignment

It panicked on the former, and rejected the (only) valid answer of a CNF without vars.
---
 src/bin/dmcr.rs        | 14 ++++++++++++--
 src/solver/validate.rs |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bin/dmcr.rs b/src/bin/dmcr.rs
index 2ec7add..7f8f2b7 100644
--- a/src/bin/dmcr.rs
+++ b/src/bin/dmcr.rs
@@ -2,7 +2,7 @@
 // A simple DIMACS Model Checker in Rust, which can't be compiled with feature 'no_IO'
 #![allow(unused_imports)]
 use {
-    splr::{Config, SatSolverIF, Solver, ValidateIF},
+    splr::{Config, SatSolverIF, Solver, SolverError, ValidateIF},
     std::{
         env,
         fs::File,
@@ -138,7 +138,17 @@ fn main() {
     } else {
         (RED, GREEN, BLUE)
     };
-    let mut s = Solver::build(&config).expect("failed to load");
+    let mut s = match Solver::build(&config) {
+        Ok(s) => s,
+        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {
+            println!("{cnf} is an unsatisfiable problem. It has no valid assignment set.");
+            return;
+        }
+        Err(e) => {
+            println!("failed to load {cnf}: {e}");
+            return;
+        }
+    };
     if args.assign.is_none() {
         args.assign = Some(PathBuf::from(format!(
             "ans_{}",
diff --git a/src/solver/validate.rs b/src/solver/validate.rs
index 5afb39c..1fa0622 100644
--- a/src/solver/validate.rs
+++ b/src/solver/validate.rs
@@ -38,7 +38,7 @@ impl ValidateIF for Solver {
     ///```
     ///
     fn inject_assignment(&mut self, vec: &[i32]) -> MaybeInconsistent {
-        if vec.is_empty() {
+        if vec.is_empty() && 0 < self.asg.num_vars {
             return Err(SolverError::Inconsistent);
         }
         for i in vec {
-- 
2.43.0


From ae4d088447c67909145c15cba037bc20fe876d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 12/35] fix: CNF keeps unit clauses and dumps an empty clause
 set correctly

Unit clauses given to from_vec_i32 were lost, and a CNF without clauses was
dumped with an empty clause.
---
 src/cnf/mod.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index c9090c7..c8ebb3a 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -98,13 +98,12 @@ impl CnfIf for CNF {
                     }
                     cnf.assign.insert(l);
                 }
-                _ => {
-                    let mut cc = ref_c.clone();
-                    cc.sort_unstable();
-                    cnf.cls_map.insert(cc);
-                    cnf.clauses.push(ref_c.clone());
-                }
+                _ => (),
             }
+            let mut cc = ref_c.clone();
+            cc.sort_unstable();
+            cnf.cls_map.insert(cc);
+            cnf.clauses.push(ref_c.clone());
             max_var = max_var.max(ref_c.iter().map(|v| v.unsigned_abs()).max().unwrap());
         }
         cnf.num_vars = max_var;
@@ -197,18 +196,17 @@ impl CnfIf for CNF {
     }
     fn dump_to_string(&self) -> String {
         format!(
-            "p cnf {} {}\n{} 0\n",
+            "p cnf {} {}\n{}",
             self.num_vars,
             self.clauses.len(),
             self.clauses
                 .iter()
                 .map(|cls| cls
                     .iter()
-                    .map(|ch| format!("{ch}"))
-                    .collect::<Vec<_>>()
-                    .join(" "))
-                .collect::<Vec<_>>()
-                .join(" 0\n"),
+                    .map(|ch| format!("{ch} "))
+                    .collect::<String>()
+                    + "0\n")
+                .collect::<String>(),
         )
     }
 }
-- 
2.43.0


From 1f9bdc78c8c0aa10a787635185d5c6cdce523fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 13/35] fix: CNF::load reads clauses by token, and doesn't
 panic on an illegal file

It was line-based and split lines only by a space.
---
 src/cnf/mod.rs | 57 ++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index c8ebb3a..ab576c8 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -119,41 +119,41 @@ impl CnfIf for CNF {
         let mut found_valid_header = false;
         let mut clause_extists_already = false;
         let mut cnf = CNF::default();
-        loop {
+        let mut vec: Vec<i32> = Vec::new();
+        'reading: loop {
             buf.clear();
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
-                Ok(_) if buf == "\n" => (),
                 Ok(_) if buf.starts_with('c') => (),
                 Ok(_) if found_valid_header => {
-                    let mut vec: Vec<i32> = Vec::new();
-                    for seg in buf.split(' ') {
-                        if let Ok(l) = seg.parse::<i32>() {
-                            if l == 0 {
-                                break;
-                            }
-                            vec.push(l);
+                    // A clause can span lines, and a line can hold clauses.
+                    for seg in buf.split_whitespace() {
+                        match seg.parse::<i32>() {
+                            Ok(0) => match cnf.add_clause(std::mem::take(&mut vec)) {
+                                Ok(_) => num_clause += 1,
+                                Err(CNFOperationError::AddingClauseExists) => {
+                                    clause_extists_already = true
+                                }
+                                Err(e) => return Err(e),
+                            },
+                            Ok(l) => vec.push(l),
+                            // the end-of-file mark used in SATLIB
+                            Err(_) if seg == "%" => break 'reading,
+                            Err(_) => return Err(CNFOperationError::ParsingCNF),
                         }
                     }
-                    debug_assert!(!vec.is_empty());
-                    if let Err(e) = cnf.add_clause(vec) {
-                        if e == CNFOperationError::AddingClauseExists {
-                            clause_extists_already = true;
-                        } else {
-                            return Err(e);
-                        }
-                    } else {
-                        num_clause += 1;
-                    }
                 }
                 Ok(_) => {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next().map(|s| s.parse::<u32>())
+                        && let Some(c) = iter.next().map(|s| s.parse::<usize>())
                     {
-                        nv = v as u32;
+                        let (Ok(v), Ok(c)) = (v, c) else {
+                            return Err(CNFOperationError::ParsingCNF);
+                        };
+                        nv = v;
                         nc = c;
                         found_valid_header = true;
                         cnf.no_check_uniqueness = TOO_MANY_CLAUSES < nc;
@@ -167,14 +167,21 @@ impl CnfIf for CNF {
         if !found_valid_header {
             return Err(CNFOperationError::ParsingCNF);
         }
+        // The last `0` might be omitted.
+        if !vec.is_empty() {
+            match cnf.add_clause(vec) {
+                Ok(_) => num_clause += 1,
+                Err(CNFOperationError::AddingClauseExists) => clause_extists_already = true,
+                Err(e) => return Err(e),
+            }
+        }
         if cnf.num_vars() != nv {
             println!("Warning: there are less variables than its declaration.");
         }
         if clause_extists_already {
-            assert_eq!(cnf.num_clauses(), num_clause);
             println!("Warning: there are less clauses than its declaration.");
-        } else if cnf.num_clauses() < TOO_MANY_CLAUSES {
-            assert_eq!(cnf.num_clauses(), nc);
+        } else if cnf.num_clauses() < TOO_MANY_CLAUSES && num_clause != nc {
+            return Err(CNFOperationError::ParsingCNF);
         }
         Ok(cnf)
     }
-- 
2.43.0


From 4aed9fe0f43eb214c258394df8df5ad8bc2813df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 14/35] fix: search_from doesn't wrap in clauses longer than
 65535

A wrapped value made propagation start from the watched literals (integer
underflow in debug build).
---
 src/assign/propagate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 6246f73..9d4b410 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -512,7 +512,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k + 1) as u16;
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert_ne!(self.assigned(new_watch), Some(true));
                             check_in!(
                                 cid,
@@ -692,7 +692,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k as u16).saturating_add(1);
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert!(
                                 self.assigned(!new_watch) == Some(true)
                                     || self.assigned(!new_watch).is_none()
-- 
2.43.0


From 92caed3c9a91d2d71b90004ff7ffbcfc0c527002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 15/35] hook: observation points for runtime monitors, guarded
 by cfg(splr_verif)

---
 src/assign/heap.rs   | 13 ++++++++++++
 src/cdb/db.rs        | 12 +++++++++++
 src/lib.rs           |  3 +++
 src/solver/search.rs | 20 +++++++++++++++++++
 src/verif.rs         | 47 ++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 95 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/assign/heap.rs b/src/assign/heap.rs
index 2552dca..1b9517a 100644
--- a/src/assign/heap.rs
+++ b/src/assign/heap.rs
@@ -255,3 +255,16 @@ impl VarIdHeap {
         println!(" - pass var_order test at {s}");
     }
 }
+
+#[cfg(splr_verif)]
+impl AssignStack {
+    /// return `true` if the var is a candidate in the decision heap.
+    pub fn verif_in_heap(&self, vi: VarId) -> bool {
+        self.var_order.contains(vi)
+    }
+    /// return the literals kept by trail saving.
+    #[cfg(feature = "trail_saving")]
+    pub fn verif_saved_trail(&self) -> &[Lit] {
+        &self.trail_saved
+    }
+}
diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index adc4404..c7e27d8 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1444,3 +1444,15 @@ impl Clause {
         self.rank as f64
     }
 }
+
+#[cfg(splr_verif)]
+impl ClauseDB {
+    /// return the watch list visited when `lit` becomes true.
+    pub fn verif_watches(&self, lit: Lit) -> &[(ClauseId, Lit)] {
+        &self.watch_cache[lit]
+    }
+    /// return ids of the clauses to be reused.
+    pub fn verif_freelist(&self) -> &[ClauseId] {
+        &self.freelist
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index d1a107a..6c17362 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::upper_case_acronyms)]
+#![allow(unexpected_cfgs)] // for `splr_verif`
 /*!
 # A modern CDCL SAT solver in Rust
 
@@ -62,6 +63,8 @@ pub mod solver;
 pub mod state;
 /// Module `types` provides various building blocks, including some common traits.
 pub mod types;
+#[cfg(splr_verif)]
+pub mod verif;
 
 pub use {
     config::Config,
diff --git a/src/solver/search.rs b/src/solver/search.rs
index 1cf2fdc..35d51da 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -65,6 +65,8 @@ impl SolveIF for Solver {
                 return Ok(Certificate::UNSAT);
             }
             debug_assert!(!asg.remains());
+            #[cfg(splr_verif)]
+            crate::verif::observe(crate::verif::Event::Vivified, asg, cdb, state);
         }
         {
             debug_assert_eq!(asg.decision_level(), asg.root_level());
@@ -157,6 +159,8 @@ impl SolveIF for Solver {
             state[Stat::Simplify] += 1;
             state[Stat::SubsumedClause] = elim.num_subsumed;
         }
+        #[cfg(splr_verif)]
+        crate::verif::observe(crate::verif::Event::Preprocessed, asg, cdb, state);
         //
         //## Search
         //
@@ -174,6 +178,8 @@ impl SolveIF for Solver {
                 #[cfg(feature = "boundary_check")]
                 check(asg, cdb, true, "Before extending the model");
 
+                #[cfg(splr_verif)]
+                crate::verif::observe(crate::verif::Event::Found, asg, cdb, state);
                 let model = asg.extend_model(cdb);
 
                 #[cfg(feature = "boundary_check")]
@@ -240,8 +246,12 @@ fn search(
             asg.assign_by_decision(lit);
         }
         let Err(cc) = asg.propagate(cdb) else {
+            #[cfg(splr_verif)]
+            crate::verif::observe(crate::verif::Event::Fixpoint, asg, cdb, state);
             continue;
         };
+        #[cfg(splr_verif)]
+        crate::verif::observe(crate::verif::Event::Conflict(cc), asg, cdb, state);
         if asg.decision_level() == asg.root_level() {
             return Err(SolverError::RootLevelConflict(cc));
         }
@@ -251,6 +261,8 @@ fn search(
         if 1 < handle_conflict(asg, cdb, state, &cc)? {
             num_learnt += 1;
         }
+        #[cfg(splr_verif)]
+        crate::verif::observe(crate::verif::Event::Learnt, asg, cdb, state);
         let stage_counter = num_learnt; // - state.num_chrono_bt;
         if state.stm.stage_ended(/* num_learnt */ stage_counter) {
             if let Some(p) = state.elapsed() {
@@ -263,6 +275,8 @@ fn search(
             RESTART!(asg, cdb, state);
             asg.select_rephasing_target();
             asg.clear_asserted_literals(cdb)?;
+            #[cfg(splr_verif)]
+            crate::verif::observe(crate::verif::Event::StageEnd, asg, cdb, state);
 
             #[cfg(feature = "trace_equivalency")]
             cdb.check_consistency(asg, "before simplify");
@@ -347,6 +361,8 @@ fn search(
                 }
                 if cfg!(feature = "clause_vivification") {
                     cdb.vivify(asg, state)?;
+                    #[cfg(splr_verif)]
+                    crate::verif::observe(crate::verif::Event::Vivified, asg, cdb, state);
                 }
                 if new_segment {
                     {
@@ -361,6 +377,8 @@ fn search(
                         asg.eliminated.append(elim.eliminated_lits());
                         state[Stat::Simplify] += 1;
                         state[Stat::SubsumedClause] = elim.num_subsumed;
+                        #[cfg(splr_verif)]
+                        crate::verif::observe(crate::verif::Event::Simplified, asg, cdb, state);
                     }
                     if cfg!(feature = "dynamic_restart_threshold") {
                         state.restart.set_segment_parameters(max_scale);
@@ -388,6 +406,8 @@ fn search(
             }
             state.progress(asg, cdb);
             asg.handle(SolverEvent::Stage(scale));
+            #[cfg(splr_verif)]
+            crate::verif::observe(crate::verif::Event::Reduced, asg, cdb, state);
             state.restart.set_stage_parameters(scale);
             previous_stage = next_stage;
         // Old condition was superseded by a simpler code based on experiments.
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..8973444
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,47 @@
+//! Observation points for runtime monitors.
+//! This module exists only if Splr is built with `RUSTFLAGS="--cfg splr_verif"`.
+use {
+    crate::{assign::AssignStack, cdb::ClauseDB, state::State, types::ConflictContext},
+    std::cell::RefCell,
+};
+
+/// Points at which a monitor is invoked.
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub enum Event {
+    /// A vivification finished.
+    Vivified,
+    /// An elimination (including subsumption) finished.
+    Simplified,
+    /// All the pre-processors finished.
+    Preprocessed,
+    /// Unit propagation finished without conflict.
+    Fixpoint,
+    /// Unit propagation found a conflict.
+    Conflict(ConflictContext),
+    /// A conflict was handled; `state.new_learnt` holds the learnt clause.
+    Learnt,
+    /// A stage ended; the solver is at the root level.
+    StageEnd,
+    /// Clause reduction of a stage finished.
+    Reduced,
+    /// A total assignment was found.
+    Found,
+}
+
+pub type Monitor = Box<dyn FnMut(Event, &AssignStack, &ClauseDB, &State)>;
+
+thread_local! {
+    static MONITOR: RefCell<Option<Monitor>> = const { RefCell::new(None) };
+}
+
+/// Set the monitor of the current thread and return the old one.
+pub fn set_monitor(monitor: Option<Monitor>) -> Option<Monitor> {
+    MONITOR.with(|m| m.replace(monitor))
+}
+
+pub(crate) fn observe(event: Event, asg: &AssignStack, cdb: &ClauseDB, state: &State) {
+    if let Some(mut monitor) = set_monitor(None) {
+        monitor(event, asg, cdb, state);
+        set_monitor(Some(monitor));
+    }
+}
-- 
2.43.0


From f05201f3640720749679ec0d47187c3a38f39c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 16/35] fix: dmcr reads values split into several lines

---
 src/bin/dmcr.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin/dmcr.rs b/src/bin/dmcr.rs
index 7f8f2b7..9769f36 100644
--- a/src/bin/dmcr.rs
+++ b/src/bin/dmcr.rs
@@ -223,11 +223,13 @@ fn main() {
 
 fn read_assignment(rs: &mut dyn BufRead, cnf: &str, assign: &Option<PathBuf>) -> Option<Vec<i32>> {
     let mut buf = String::new();
+    // The values can be split into lines.
+    let mut v: Vec<i32> = Vec::new();
     loop {
         match rs.read_line(&mut buf) {
-            Ok(0) => return Some(Vec::new()),
+            Ok(0) => return Some(v),
             Ok(_) => {
-                if buf.starts_with('c') {
+                if buf.starts_with('c') || buf.trim().is_empty() {
                     buf.clear();
                     continue;
                 }
@@ -246,15 +248,15 @@ fn read_assignment(rs: &mut dyn BufRead, cnf: &str, assign: &Option<PathBuf>) ->
                     }
                 }
                 if let Some(stripped) = buf.strip_prefix("v ") {
-                    let mut v: Vec<i32> = Vec::new();
                     for s in stripped.split_whitespace() {
                         match s.parse::<i32>() {
-                            Ok(0) => break,
+                            Ok(0) => return Some(v),
                             Ok(x) => v.push(x),
                             Err(e) => panic!("{e} by {s}"),
                         }
                     }
-                    return Some(v);
+                    buf.clear();
+                    continue;
                 }
                 panic!("Failed to parse here: {buf}");
             }
-- 
2.43.0


From f88587c12d95fe4ed504323b682c869c6dd2d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 17/35] fix: CNF::load rejects variables beyond the declared
 number

---
 src/cnf/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index ab576c8..e5c1985 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -175,6 +175,9 @@ impl CnfIf for CNF {
                 Err(e) => return Err(e),
             }
         }
+        if nv < cnf.num_vars() {
+            return Err(CNFOperationError::ParsingCNF);
+        }
         if cnf.num_vars() != nv {
             println!("Warning: there are less variables than its declaration.");
         }
-- 
2.43.0


From 8c2e31c75888f1d65838f430c652ebf2fc9ecbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 18/35] fix: a disabled eliminator has no statistics on vars

---
 src/processor/simplify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index 32a48cd..9a5f1eb 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -309,7 +309,7 @@ impl EliminateIF for Eliminator {
     }
     fn stats(&self, vi: VarId) -> Option<(usize, usize)> {
         let w = &self[vi];
-        if w.aborted {
+        if !self.enable || w.aborted {
             None
         } else {
             Some((w.pos_occurs.len(), w.neg_occurs.len()))
-- 
2.43.0


From 9e2679a3594e34e06103df689b5583204ca875af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 19/35] fix: an aborted occur list doesn't get ids of recycled
 clauses twice

Once a list is aborted, dropping dead clauses from it could make it short
enough to accept new clause ids again, while removal of ids was skipped.
So an id that was recycled could be found already in the list, which is a
panic in debug build.
---
 src/processor/simplify.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index 9a5f1eb..c4456f5 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -345,7 +345,8 @@ impl Eliminator {
             let w = &mut self[l.vi()];
             let pl = w.pos_occurs.len();
             let nl = w.neg_occurs.len();
-            if evo < pl * nl {
+            // An aborted list never gets new ids: it's incomplete and isn't used any more.
+            if w.aborted || evo < pl * nl {
                 w.aborted = true;
                 continue;
             }
@@ -579,6 +580,13 @@ impl Eliminator {
     pub fn remove_lit_occur(&mut self, asg: &mut impl AssignIF, l: Lit, cid: ClauseId) {
         let w = &mut self[l.vi()];
         if w.aborted {
+            // Clause ids are recycled. So even an aborted list must not keep
+            // the id of a removed clause.
+            if bool::from(l) {
+                w.pos_occurs.delete_unstable(|&c| c == cid);
+            } else {
+                w.neg_occurs.delete_unstable(|&c| c == cid);
+            }
             return;
         }
         if bool::from(l) {
-- 
2.43.0


From 9103355a319c982ac9a8cc2690239b55273cc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 20/35] fix: splr can be built without feature 'unsafe_access'

The bounds-checked variants of the access macros still referred to a field
that had been moved into 'Var'.
---
 src/assign/propagate.rs | 6 +++---
 src/assign/select.rs    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 9d4b410..33ae656 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -49,7 +49,7 @@ macro_rules! var_assign {
 #[cfg(not(feature = "unsafe_access"))]
 macro_rules! var_assign {
     ($asg: expr, $var: expr) => {
-        $asg.assign[$var]
+        $asg.var[$var].assign
     };
 }
 
@@ -68,7 +68,7 @@ macro_rules! lit_assign {
 macro_rules! lit_assign {
     ($asg: expr, $lit: expr) => {
         match $lit {
-            l => match $asg.assign[l.vi()] {
+            l => match $asg.var[l.vi()].assign {
                 Some(x) if !bool::from(l) => Some(!x),
                 x => x,
             },
@@ -93,7 +93,7 @@ macro_rules! set_assign {
         match $lit {
             l => {
                 let vi = l.vi();
-                $asg.assign[vi] = Some(bool::from(l));
+                $asg.var[vi].assign = Some(bool::from(l));
             }
         }
     };
diff --git a/src/assign/select.rs b/src/assign/select.rs
index 72daca6..d628e09 100644
--- a/src/assign/select.rs
+++ b/src/assign/select.rs
@@ -21,7 +21,7 @@ macro_rules! var_assign {
 #[cfg(not(feature = "unsafe_access"))]
 macro_rules! var_assign {
     ($asg: expr, $var: expr) => {
-        $asg.assign[$var]
+        $asg.var[$var].assign
     };
 }
 
-- 
2.43.0


From b0e88641d1d54095b3c5554cfad5d5f334a726cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 21/35] fix: splr can be built without feature 'rephase'

---
 src/solver/search.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/search.rs b/src/solver/search.rs
index 35d51da..4f1f54d 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -273,6 +273,7 @@ fn search(
                 return Err(SolverError::UndescribedError);
             }
             RESTART!(asg, cdb, state);
+            #[cfg(feature = "rephase")]
             asg.select_rephasing_target();
             asg.clear_asserted_literals(cdb)?;
             #[cfg(splr_verif)]
-- 
2.43.0


From 77e7f803e1ed9a9b7f22ea942d3d5edf3a7327cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 22/35] fix: a var added after construction is a decision
 candidate at once

It was put in the heap only by rebuild_order, which isn't called in a build
without feature 'clause_elimination'.
---
 src/assign/stack.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/assign/stack.rs b/src/assign/stack.rs
index 238df38..9ba6b43 100644
--- a/src/assign/stack.rs
+++ b/src/assign/stack.rs
@@ -217,6 +217,7 @@ impl Instantiate for AssignStack {
                 self.expand_heap();
                 self.num_vars += 1;
                 self.var.push(Var::default());
+                self.insert_heap(self.num_vars);
             }
             SolverEvent::Reinitialize => {
                 self.cancel_until(self.root_level);
-- 
2.43.0


From b63c203e9878be0868aeea2cbc549f6de97b9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 23/35] fix: num_learnt follows when a learnt clause becomes
 permanent

Subsuming a given clause by a learnt one turned off the flag only, so that
num_learnt could exceed num_clause, which overflows in state logging.
---
 src/cdb/db.rs            | 7 +++++++
 src/cdb/mod.rs           | 2 ++
 src/processor/subsume.rs | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index c7e27d8..76e3eab 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -499,6 +499,13 @@ impl ClauseDBIF for ClauseDB {
         }
         RefClause::Clause(cid)
     }
+    fn make_permanent(&mut self, cid: ClauseId) {
+        let c = &mut self[cid];
+        if c.is(FlagClause::LEARNT) {
+            c.turn_off(FlagClause::LEARNT);
+            self.num_learnt -= 1;
+        }
+    }
     /// ## Warning
     /// this function is the only function that makes dead clauses
     fn remove_clause(&mut self, cid: ClauseId) {
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index f4ac3d5..ec7363b 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -105,6 +105,8 @@ pub trait ClauseDBIF:
     /// And this is called only from `Eliminator::strengthen_clause`.
     fn new_clause(&mut self, asg: &mut impl AssignIF, v: &mut Vec<Lit>, learnt: bool) -> RefClause;
     fn new_clause_sandbox(&mut self, asg: &mut impl AssignIF, v: &mut Vec<Lit>) -> RefClause;
+    /// turn a learnt clause into a permanent one.
+    fn make_permanent(&mut self, cid: ClauseId);
     /// un-register a clause `cid` from clause database and make the clause dead.
     fn remove_clause(&mut self, cid: ClauseId);
     /// un-register a clause `cid` from clause database and make the clause dead.
diff --git a/src/processor/subsume.rs b/src/processor/subsume.rs
index eb15d73..284d7a4 100644
--- a/src/processor/subsume.rs
+++ b/src/processor/subsume.rs
@@ -28,7 +28,7 @@ impl Eliminator {
                 );
                 debug_assert!(!cdb[did].is_dead());
                 if !cdb[did].is(FlagClause::LEARNT) {
-                    cdb[cid].turn_off(FlagClause::LEARNT);
+                    cdb.make_permanent(cid);
                 }
                 self.remove_cid_occur(asg, did, &mut cdb[did]);
                 cdb.remove_clause(did);
-- 
2.43.0


From 227add2806cc66778106d538b746a4e913ef0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 24/35] fix: refuse an LBD threshold out of range instead of
 truncating it

---
 src/config.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index c4ac8d7..2aaf070 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -177,7 +177,10 @@ impl Config {
                                 if let Ok(val) = str.parse::<usize>() {
                                     match name {
                                         "cl" => self.c_cls_lim = val,
-                                        "crl" => self.cls_rdc_lbd = val as u16,
+                                        "crl" => {
+                                            self.cls_rdc_lbd = u16::try_from(val)
+                                                .unwrap_or_else(|_| panic!("invalid value {name}"))
+                                        }
                                         "ecl" => self.elm_cls_lim = val,
                                         "evl" => self.elm_grw_lim = val,
                                         "evo" => self.elm_var_occ = val,
-- 
2.43.0


From a537c50f426b8e33ffed6488bd48bf76a2dcb3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 25/35] fix: report the number of clauses subsumed in all the
 simplifications

---
 src/solver/search.rs | 4 ++--
 src/state.rs         | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/search.rs b/src/solver/search.rs
index 4f1f54d..5757928 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -157,7 +157,7 @@ impl SolveIF for Solver {
             }
             asg.eliminated.append(elim.eliminated_lits());
             state[Stat::Simplify] += 1;
-            state[Stat::SubsumedClause] = elim.num_subsumed;
+            state[Stat::SubsumedClause] += elim.num_subsumed;
         }
         #[cfg(splr_verif)]
         crate::verif::observe(crate::verif::Event::Preprocessed, asg, cdb, state);
@@ -377,7 +377,7 @@ fn search(
                         elim.simplify(asg, cdb, state, false)?;
                         asg.eliminated.append(elim.eliminated_lits());
                         state[Stat::Simplify] += 1;
-                        state[Stat::SubsumedClause] = elim.num_subsumed;
+                        state[Stat::SubsumedClause] += elim.num_subsumed;
                         #[cfg(splr_verif)]
                         crate::verif::observe(crate::verif::Event::Simplified, asg, cdb, state);
                     }
diff --git a/src/state.rs b/src/state.rs
index d5b9845..3e364e7 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -629,6 +629,7 @@ impl StateIF for State {
         );
         self[LogUsizeId::Stage] = self.stm.current_stage();
         self[LogUsizeId::StageCycle] = self.stm.current_cycle();
+        self[LogUsizeId::SubsumedClause] = self[Stat::SubsumedClause];
         self[LogUsizeId::Vivify] = self[Stat::Vivification];
         if self.config.show_cdb_heatmap {
             let big_change = 0.002;
-- 
2.43.0


From 66bf435276789b3d71ddc6fc88aa2d85874e6cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 26/35] fix: don't drop the fraction of the time limit

---
 src/state.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 3e364e7..e6ac4ed 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -1,8 +1,8 @@
 /// Module `state` is a collection of internal data.
 #[cfg(feature = "platform_wasm")]
-use instant::{Duration, Instant};
+use instant::Instant;
 #[cfg(not(feature = "platform_wasm"))]
-use std::time::{Duration, Instant};
+use std::time::Instant;
 use {
     crate::{
         assign, cdb,
@@ -389,13 +389,10 @@ macro_rules! f {
 
 impl StateIF for State {
     fn is_timeout(&self) -> bool {
-        Duration::from_secs(self.config.c_timeout as u64) < self.start.elapsed()
+        self.config.c_timeout.max(0.0) < self.start.elapsed().as_secs_f64()
     }
     fn elapsed(&self) -> Option<f64> {
-        Some(
-            self.start.elapsed().as_secs_f64()
-                / Duration::from_secs(self.config.c_timeout as u64).as_secs_f64(),
-        )
+        Some(self.start.elapsed().as_secs_f64() / self.config.c_timeout.max(0.0))
     }
     fn progress_header(&mut self) {
         if !self.config.splr_interface || self.config.quiet_mode {
-- 
2.43.0


From 0ed5a97f39290bc4509e1ef629fad25f6d76d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 27/35] fix: don't crash on a long file name with multibyte
 characters

---
 src/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index e6ac4ed..f08b467 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -817,7 +817,11 @@ impl fmt::Display for State {
             CNFIndicator::LitVec(n) => format!("(embedded {n} element vector)"),
         };
         if width <= fname.len() {
-            fname.truncate(58 - vclen);
+            let mut len = 58_usize.saturating_sub(vclen);
+            while !fname.is_char_boundary(len) {
+                len -= 1;
+            }
+            fname.truncate(len);
         }
         let fnlen = fname.len();
         if width < vclen + fnlen + 1 {
-- 
2.43.0


From 2781af60b31f28ba000d0173dad15ecefd866387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 28/35] fix: bring the summary up to date when preprocessing
 refutes the problem

---
 src/solver/search.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/search.rs b/src/solver/search.rs
index 5757928..80ebf94 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -62,6 +62,7 @@ impl SolveIF for Solver {
                 analyze_final(asg, state, &cdb[ci]);
 
                 state.log(None, "By vivifier as a pre-possessor");
+                state.progress(asg, cdb);
                 return Ok(Certificate::UNSAT);
             }
             debug_assert!(!asg.remains());
@@ -76,6 +77,7 @@ impl SolveIF for Solver {
                     return Err(SolverError::OutOfMemory);
                 }
                 state.log(None, "By eliminator");
+                state.progress(asg, cdb);
                 return Ok(Certificate::UNSAT);
             }
 
@@ -106,6 +108,7 @@ impl SolveIF for Solver {
                             debug_assert!(asg.assigned(l).is_none());
                             cdb.certificate_add_assertion(l);
                             if asg.assign_at_root_level(l).is_err() {
+                                state.progress(asg, cdb);
                                 return Ok(Certificate::UNSAT);
                             }
                         } else if p == 0 {
@@ -113,6 +116,7 @@ impl SolveIF for Solver {
                             debug_assert!(asg.assigned(l).is_none());
                             cdb.certificate_add_assertion(l);
                             if asg.assign_at_root_level(l).is_err() {
+                                state.progress(asg, cdb);
                                 return Ok(Certificate::UNSAT);
                             }
                         }
-- 
2.43.0


From e3654d5a793501548d5218fc78d534d987924733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 29/35] verif: candidates are looked up in the heap itself

---
 src/assign/heap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/assign/heap.rs b/src/assign/heap.rs
index 1b9517a..c92b0a2 100644
--- a/src/assign/heap.rs
+++ b/src/assign/heap.rs
@@ -260,7 +260,8 @@ impl VarIdHeap {
 impl AssignStack {
     /// return `true` if the var is a candidate in the decision heap.
     pub fn verif_in_heap(&self, vi: VarId) -> bool {
-        self.var_order.contains(vi)
+        let i = self.var_order.idxs[vi];
+        0 < i && i <= self.var_order.idxs[0] && self.var_order.heap[i as usize] as usize == vi
     }
     /// return the literals kept by trail saving.
     #[cfg(feature = "trail_saving")]
-- 
2.43.0


From 1205f4b2d1dd9b184af7347a452933650442698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 30/35] fix: windowed averages started at another value than
 zero went astray

---
 src/types/ema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/ema.rs b/src/types/ema.rs
index 9164c39..0bdd5ad 100644
--- a/src/types/ema.rs
+++ b/src/types/ema.rs
@@ -320,7 +320,7 @@ impl<const N: usize> Ewa<N> {
                 fast: initial,
                 slow: initial,
             },
-            pool: [initial; N],
+            pool: [initial / N as f64; N],
             last: 0,
         }
     }
@@ -398,7 +398,7 @@ impl<const N: usize> Ewa2<N> {
                 fast: initial,
                 slow: initial,
             },
-            pool: [initial; N],
+            pool: [initial / N as f64; N],
             last: 0,
             #[cfg(feature = "EMA_calibration")]
             cals: initial,
-- 
2.43.0


From c7e45bcdfcb7aaadf813b507eb01530e18274b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:44 +0000
Subject: [PATCH 31/35] fix: leaving the last level only, vars of the level
 below were rewarded as unassigned

save_trail rewarded and requeued everything after the start of the second last
level even if the target level is above it and its vars stay assigned.
---
 src/assign/trail_saving.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assign/trail_saving.rs b/src/assign/trail_saving.rs
index 8328f2d..333084c 100644
--- a/src/assign/trail_saving.rs
+++ b/src/assign/trail_saving.rs
@@ -42,7 +42,7 @@ impl TrailSavingIF for AssignStack {
                     self.insert_heap(vi);
                 }
             }
-            free = lim2;
+            free = lim.max(lim2);
         }
         for i in free..self.trail.len() {
             let vi = self.trail[i].vi();
-- 
2.43.0


From 57e54906acaaf93328ba75e1077fdf16b86b6351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:53 +0000
Subject: [PATCH 32/35] verif: the eliminator's decisions are observable

---
 src/processor/eliminate.rs | 35 +++++++++++++++++++++++++++++
 src/processor/subsume.rs   |  5 +++++
 src/verif.rs               | 46 +++++++++++++++++++++++++++++++++++++-
 3 files changed, 85 insertions(+), 1 deletion(-)

diff --git a/src/processor/eliminate.rs b/src/processor/eliminate.rs
index 47522f3..83161a5 100644
--- a/src/processor/eliminate.rs
+++ b/src/processor/eliminate.rs
@@ -42,8 +42,12 @@ pub fn eliminate_var(
             elim.eliminate_grow_limit,
         )
     {
+        #[cfg(splr_verif)]
+        observe_elimination(cdb, w, state, vi, *timedout, false);
         return Ok(());
     } else {
+        #[cfg(splr_verif)]
+        observe_elimination(cdb, w, state, vi, *timedout, true);
         *timedout -= num_combination;
     }
     let pos = w.pos_occurs.clone();
@@ -135,6 +139,37 @@ pub fn eliminate_var(
     elim.backward_subsumption_check(asg, cdb, timedout)
 }
 
+#[cfg(splr_verif)]
+fn observe_elimination(
+    cdb: &impl ClauseDBIF,
+    occurs: &super::heap::LitOccurs,
+    state: &State,
+    vi: VarId,
+    budget: usize,
+    accepted: bool,
+) {
+    use crate::{
+        cdb,
+        verif::{observe_step, Step},
+    };
+    observe_step(|| {
+        let lits = |cids: &[ClauseId]| -> Vec<Vec<Lit>> {
+            cids.iter()
+                .map(|cid| cdb[*cid].iter().copied().collect())
+                .collect()
+        };
+        Step::Elimination {
+            vi,
+            pos: lits(&occurs.pos_occurs),
+            neg: lits(&occurs.neg_occurs),
+            budget,
+            num_clause: cdb.derefer(cdb::property::Tusize::NumClause),
+            state,
+            accepted,
+        }
+    });
+}
+
 /// returns `true` if elimination is impossible.
 fn skip_var_elimination(
     asg: &impl AssignIF,
diff --git a/src/processor/subsume.rs b/src/processor/subsume.rs
index 284d7a4..98db61a 100644
--- a/src/processor/subsume.rs
+++ b/src/processor/subsume.rs
@@ -27,6 +27,11 @@ impl Eliminator {
                     did, cdb[did], cid, cdb[cid],
                 );
                 debug_assert!(!cdb[did].is_dead());
+                #[cfg(splr_verif)]
+                crate::verif::observe_step(|| crate::verif::Step::Subsumption {
+                    by: cdb[cid].iter().copied().collect(),
+                    clause: cdb[did].iter().copied().collect(),
+                });
                 if !cdb[did].is(FlagClause::LEARNT) {
                     cdb.make_permanent(cid);
                 }
diff --git a/src/verif.rs b/src/verif.rs
index 8973444..53b8851 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,7 +1,12 @@
 //! Observation points for runtime monitors.
 //! This module exists only if Splr is built with `RUSTFLAGS="--cfg splr_verif"`.
 use {
-    crate::{assign::AssignStack, cdb::ClauseDB, state::State, types::ConflictContext},
+    crate::{
+        assign::AssignStack,
+        cdb::ClauseDB,
+        state::State,
+        types::{ConflictContext, Lit, VarId},
+    },
     std::cell::RefCell,
 };
 
@@ -45,3 +50,42 @@ pub(crate) fn observe(event: Event, asg: &AssignStack, cdb: &ClauseDB, state: &S
         set_monitor(Some(monitor));
     }
 }
+
+/// Decisions of the eliminator, told before they are carried out.
+pub enum Step<'a> {
+    /// A var was considered for elimination.
+    Elimination {
+        vi: VarId,
+        /// the clauses that contain the positive literal
+        pos: Vec<Vec<Lit>>,
+        /// the clauses that contain the negative literal
+        neg: Vec<Vec<Lit>>,
+        /// the number of combinations that can be afforded
+        budget: usize,
+        /// the number of clauses in the database
+        num_clause: usize,
+        state: &'a State,
+        /// Is the var going to be eliminated?
+        accepted: bool,
+    },
+    /// `clause` is going to be removed, since `by` subsumes it.
+    Subsumption { by: Vec<Lit>, clause: Vec<Lit> },
+}
+
+pub type StepMonitor = Box<dyn FnMut(&Step<'_>)>;
+
+thread_local! {
+    static STEP_MONITOR: RefCell<Option<StepMonitor>> = const { RefCell::new(None) };
+}
+
+/// Set the monitor of eliminator's decisions of the current thread and return the old one.
+pub fn set_step_monitor(monitor: Option<StepMonitor>) -> Option<StepMonitor> {
+    STEP_MONITOR.with(|m| m.replace(monitor))
+}
+
+pub(crate) fn observe_step<'a>(step: impl FnOnce() -> Step<'a>) {
+    if let Some(mut monitor) = set_step_monitor(None) {
+        monitor(&step());
+        set_step_monitor(Some(monitor));
+    }
+}
-- 
2.43.0


From 4df5b68541510e47656e93a0d52b41c9ccc216fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:53 +0000
Subject: [PATCH 33/35] fix: clearing the queue of the eliminator forgets every
 var in it

The heap holds vars from index 1, the last one at index idxs[0]. The last one
kept its flag ENQUEUED, and was never a candidate of elimination again.
---
 src/processor/heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor/heap.rs b/src/processor/heap.rs
index dc18f21..fa9ba9a 100644
--- a/src/processor/heap.rs
+++ b/src/processor/heap.rs
@@ -99,7 +99,7 @@ impl VarOrderIF for VarOccHeap {
         self.percolate_up(occur, n);
     }
     fn clear(&mut self, asg: &mut impl AssignIF) {
-        for v in &mut self.heap[0..self.idxs[0] as usize] {
+        for v in &self.heap[1..=self.idxs[0] as usize] {
             asg.var_mut(*v as usize).turn_off(FlagVar::ENQUEUED);
         }
         self.reset()
-- 
2.43.0


From 0e8a084f24f0d0ecba0d47960c92a211a703351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:53 +0000
Subject: [PATCH 34/35] fix: option --evl (elm_grw_lim) takes effect

It was overwritten by the interval scale before every elimination.
---
 src/processor/simplify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index c4456f5..e78af89 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -282,7 +282,8 @@ impl EliminateIF for Eliminator {
             if !force_run && self.mode == EliminatorMode::Dormant {
                 self.prepare(asg, cdb, true);
             }
-            self.eliminate_grow_limit = state.derefer(state::property::Tusize::IntervalScale) / 2;
+            self.eliminate_grow_limit = state.config.elm_grw_lim
+                + state.derefer(state::property::Tusize::IntervalScale) / 2;
             self.subsume_literal_limit = state.config.elm_cls_lim
                 + cdb.derefer(cdb::property::Tf64::LiteralBlockEntanglement) as usize;
             debug_assert!(!cdb
-- 
2.43.0


From 40ddeab5547c7d903a8e39194e1746af00e3b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:53 +0000
Subject: [PATCH 35/35] fix: a clause taken from the eliminator's queue on
 timeout isn't queued any more

It kept its flag ENQUEUED, so it was never a candidate of subsumption again.
---
 src/processor/simplify.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index e78af89..a415f85 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -430,6 +430,9 @@ impl Eliminator {
             }
             if let Some(cid) = self.clause_queue.pop() {
                 if *timedout == 0 {
+                    if !cid.is_lifted_lit() {
+                        cdb[cid].turn_off(FlagClause::ENQUEUED);
+                    }
                     self.clear_clause_queue(cdb);
                     self.clear_var_queue(asg);
                     return Ok(());
-- 
2.43.0

