//! P14..P18: everything that goes through files.
use crate::ctx::Cx;
use crate::drat;
use crate::formula::*;
use crate::mon::{self, Opts};
use crate::props::*;
use crate::refsat::{self, Ref};
use crate::rng::Rng;
use crate::run::*;
use splr::cnf::{CNF, CNFOperationError, CnfIf};
use splr::*;
use std::fs::File;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn case(cx: &mut Cx, r: &mut Rng, i: u64) {
    match cx.prop.as_str() {
        "P14" => p14(cx, r, i),
        "P15" => p15(cx, r),
        "P16" => p16(cx, r, i),
        "P17" => p17(cx, r),
        "P18" => p18(cx, r),
        _ => unreachable!(),
    }
}

/// A legal DIMACS text of the clauses, in some layout.
pub fn layout(r: &mut Rng, nv: usize, clauses: &[Vec<i32>], tags: &mut Vec<&'static str>) -> String {
    let nl = if r.chance(0.1) {
        tags.push("CRLF");
        "\r\n"
    } else {
        "\n"
    };
    let comment = |r: &mut Rng| -> String {
        let texts = ["c", "c a comment", "c p cnf 1 1", "c 1 2 0", "c 0", "c  tab\there", "c %"];
        format!("{}{}", r.pick(&texts), nl)
    };
    let mut s = String::new();
    if r.chance(0.4) {
        tags.push("leading comments");
        for _ in 0..r.range(1, 4) {
            s.push_str(&comment(r));
        }
    }
    match r.below(6) {
        0 => s.push_str(&format!("p  cnf   {}  {} {}", nv, clauses.len(), nl)),
        1 => s.push_str(&format!("p\tcnf\t{}\t{}{}", nv, clauses.len(), nl)),
        _ => s.push_str(&format!("p cnf {} {}{}", nv, clauses.len(), nl)),
    }
    // 0: a clause per line, 1: tokens broken anywhere, 2: everything on one line,
    // 3: one token per line, 4: some clauses share lines
    let style = r.below(5);
    tags.push(["a clause per line", "broken anywhere", "a single line", "a token per line", "shared lines"][style]);
    let comments = r.chance(0.4);
    if comments {
        tags.push("comments between clauses");
    }
    let blanks = r.chance(0.3);
    if blanks {
        tags.push("extra blanks and empty lines");
    }
    let mut fresh = true; // at the start of a line
    let gap = |r: &mut Rng, s: &mut String| {
        if blanks {
            for _ in 0..r.range(1, 3) {
                s.push(if r.chance(0.3) { '\t' } else { ' ' });
            }
        } else {
            s.push(' ');
        }
    };
    for (k, c) in clauses.iter().enumerate() {
        if fresh && comments && r.chance(0.2) {
            s.push_str(&comment(r));
        }
        if fresh && blanks && r.chance(0.2) {
            if r.bool() {
                gap(r, &mut s);
            }
            s.push_str(nl);
        }
        if fresh && blanks && r.chance(0.2) {
            gap(r, &mut s);
        }
        for l in c.iter().chain([&0]) {
            s.push_str(&l.to_string());
            let end = *l == 0;
            let newline = match style {
                0 => end,
                1 => r.chance(0.3),
                2 => false,
                3 => true,
                _ => end && r.chance(0.5),
            };
            let last = end && k + 1 == clauses.len();
            if newline && !last {
                if blanks && r.chance(0.2) {
                    gap(r, &mut s);
                }
                s.push_str(nl);
                fresh = true;
                if blanks && r.chance(0.1) {
                    s.push_str(nl);
                }
            } else if !last {
                gap(r, &mut s);
                fresh = false;
            }
        }
    }
    match r.below(8) {
        0 => tags.push("no final newline"),
        1 if clauses.last().is_some_and(|c| !c.is_empty()) => {
            tags.push("no final terminator");
            s.pop();
            s.push_str(if r.bool() { nl } else { "" });
        }
        2 => {
            tags.push("percent mark");
            s.push_str(nl);
            s.push('%');
            s.push_str(nl);
            if r.bool() {
                s.push('0');
                s.push_str(nl);
            }
            if r.bool() {
                s.push_str(nl);
            }
        }
        3 => {
            tags.push("trailing empty lines");
            s.push_str(nl);
            s.push_str(nl);
        }
        _ => s.push_str(nl),
    }
    s
}

/// An illegal DIMACS text; returns the defect and the clauses completed before it shows up.
pub fn corrupt(r: &mut Rng, f: &Formula) -> (Vec<u8>, &'static str, Vec<Vec<i32>>) {
    let body: String = f
        .clauses
        .iter()
        .map(|c| c.iter().map(|l| format!("{} ", l)).collect::<String>() + "0\n")
        .collect();
    let (nv, nc) = (f.nv, f.clauses.len());
    let garbage = [
        "x", "1x", "--1", "1.5", "-", "+", "0x1", "99999999999", "-99999999999", "1e3", "p", "½", "1,2",
        "2147483648", "\u{0}", "1-", "#", "$",
    ];
    match r.below(11) {
        0 => (Vec::new(), "empty file", vec![]),
        1 => (b"c nothing but a comment\nc\n".to_vec(), "only comments", vec![]),
        2 => (body.into_bytes(), "no header", vec![]),
        3 => {
            let bad = ["x", "-3", "2.5", "", "1e3", "0x3", "99999999999999999999999", "3,", "½"];
            let b = *r.pick(&bad);
            let h = match r.below(3) {
                0 => format!("p cnf {} {}\n", b, nc),
                1 if !b.is_empty() => format!("p cnf {} {}\n", nv, b),
                _ => format!("p cnf {} {}\n", b, b),
            };
            ((h + &body).into_bytes(), "malformed numbers in the header", vec![])
        }
        4 => {
            let h = ["p", "p cnf", "p dnf 3 2", "cnf 3 2", "p cnf 3", "P CNF 3 2", "pcnf 3 2", "p  3 2"];
            let mut s = r.pick(&h).to_string();
            s.push('\n');
            // what follows must not pass for the missing number
            s.push_str(&body);
            (s.into_bytes(), "malformed header", vec![])
        }
        5 => {
            // not UTF-8
            let at = r.below(nc + 1);
            let mut s = format!("p cnf {} {}\n", nv, nc).into_bytes();
            for (k, c) in f.clauses.iter().enumerate() {
                if k == at {
                    s.extend([0xff, 0xfe, b' ', b'0', b'\n']);
                }
                s.extend((c.iter().map(|l| format!("{} ", l)).collect::<String>() + "0\n").into_bytes());
            }
            if at == nc {
                s.extend([0xc3, 0x28, b'\n']);
            }
            (s, "not UTF-8", f.clauses[..at].to_vec())
        }
        6 | 7 => {
            // a literal out of range
            let at = r.below(nc + 1);
            let d = match r.below(4) {
                0 => i32::MAX as i64,
                1 => -(i32::MAX as i64),
                2 => i32::MIN as i64,
                _ => {
                    let x = nv as i32 + 1 + r.below(3) as i32;
                    r.sign(x) as i64
                }
            };
            let mut s = format!("p cnf {} {}\n", nv, nc + 1);
            for k in 0..=nc {
                if k == at {
                    let mut c: Vec<i64> = if nv == 0 { vec![] } else { vec![r.sign(1) as i64] };
                    let j = r.below(c.len() + 1);
                    c.insert(j, d);
                    s.push_str(&(c.iter().map(|l| format!("{} ", l)).collect::<String>() + "0\n"));
                }
                if k < nc {
                    s.push_str(&(f.clauses[k].iter().map(|l| format!("{} ", l)).collect::<String>() + "0\n"));
                }
            }
            (s.into_bytes(), "literal out of range", f.clauses[..at].to_vec())
        }
        _ => {
            // garbage inside
            let at = r.below(nc + 1);
            let g = *r.pick(&garbage);
            let mut s = format!("p cnf {} {}\n", nv, nc);
            for k in 0..=nc {
                if k == at {
                    s.push_str(g);
                    s.push(if r.bool() { ' ' } else { '\n' });
                }
                if k < nc {
                    s.push_str(&(f.clauses[k].iter().map(|l| format!("{} ", l)).collect::<String>() + "0\n"));
                }
            }
            (s.into_bytes(), "garbage token", f.clauses[..at].to_vec())
        }
    }
}

/// what a freshly loaded solver holds
fn loaded(s: &Solver) -> Vec<Vec<i32>> {
    use splr::assign::AssignIF;
    use splr::cdb::ClauseDBIF;
    let mut v: Vec<Vec<i32>> =
        s.cdb.iter().skip(1).filter(|c| !c.is_dead()).map(|c| c.iter().map(|l| i32::from(*l)).collect()).collect();
    v.extend(s.asg.stack_iter().map(|l| vec![i32::from(*l)]));
    v
}

/// Do the clause sets have the same models over `nv` vars? None: not settled
pub fn same_models(nv: usize, a: &[Vec<i32>], b: &[Vec<i32>], cap: usize) -> Option<Result<(), String>> {
    if nv <= 14 {
        let masks = |cs: &[Vec<i32>]| -> Vec<(u32, u32)> {
            cs.iter()
                .map(|c| {
                    let (mut p, mut n) = (0u32, 0u32);
                    for l in c {
                        if *l > 0 {
                            p |= 1 << (*l - 1)
                        } else {
                            n |= 1 << (-*l - 1)
                        }
                    }
                    (p, n)
                })
                .collect()
        };
        let (x, y) = (masks(a), masks(b));
        for m in 0..(1u32 << nv) {
            let p = x.iter().all(|(p, n)| m & p != 0 || !m & n != 0);
            let q = y.iter().all(|(p, n)| m & p != 0 || !m & n != 0);
            if p != q {
                let lits: Vec<i32> = (1..=nv as i32).map(|v| if m >> (v - 1) & 1 == 1 { v } else { -v }).collect();
                return Some(Err(format!(
                    "{:?} is {} model of the original, and {} of the other",
                    lits,
                    if p { "a" } else { "no" },
                    if q { "one" } else { "none" }
                )));
            }
        }
        return Some(Ok(()));
    }
    let key = |c: &Vec<i32>| {
        let mut c = c.clone();
        c.sort();
        c.dedup();
        c
    };
    let sa: std::collections::HashSet<Vec<i32>> = a.iter().map(key).collect();
    let sb: std::collections::HashSet<Vec<i32>> = b.iter().map(key).collect();
    let mut left = 400;
    for (from, to, fs, name) in [(a, b, &sa, "the other holds"), (b, a, &sb, "the other lost")] {
        for c in to {
            if fs.contains(&key(c)) {
                continue;
            }
            if left == 0 {
                return None;
            }
            left -= 1;
            match implies(nv, from, c, cap) {
                Some(true) => (),
                Some(false) => return Some(Err(format!("{} {:?}", name, c))),
                None => return None,
            }
        }
    }
    Some(Ok(()))
}

/// DIMACS files
fn p14(cx: &mut Cx, r: &mut Rng, i: u64) {
    let mut f = match r.below(10) {
        0 => degenerate(r),
        1..=5 => generate(r, Size::Tiny),
        6..=8 => generate(r, Size::Small),
        _ => generate(r, Size::Medium),
    };
    if f.clauses.iter().map(|c| c.len()).sum::<usize>() > 40_000 {
        return;
    }
    cx.evaluations += 1;
    let path = cx.tmp.join("in.cnf");
    if i % 4 == 3 {
        let (text, what, before) = corrupt(r, &f);
        cx.witness = format!("c {}\n{}", what, String::from_utf8_lossy(&text));
        std::fs::write(&path, &text).expect("scratch file");
        cx.count(&format!("corruption: {}", what), 1);
        let c = Config { cnf_file: path.clone(), ..config() };
        let a = guard(|| Solver::build(&c).map(|_| ()));
        let b = guard(|| Solver::try_from(path.as_path()).map(|_| ()));
        for (name, res) in [("build", a), ("try_from", b)] {
            match res {
                Err(p) => return cx.fail(format!("{}: {} for a file with {}", name, caught(p).brief(), what)),
                Ok(Ok(())) => return cx.fail(format!("{} accepts a file with {}", name, what)),
                Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => {
                    let g = Formula::new(f.nv, before.clone(), Known::Unknown, "");
                    if before.is_empty() || truth(&g, 5000) == Some(true) {
                        return cx.fail(format!("{}: a file with {} counts as unsatisfiable", name, what));
                    }
                }
                Ok(Err(SolverError::InvalidLiteral | SolverError::IOError)) => cx.count("errors reported", 1),
                Ok(Err(e)) => return cx.fail(format!("{}: {:?} for a file with {}", name, e, what)),
            }
        }
        if i % 64 == 3 {
            let none = cx.tmp.join("no-such-file.cnf");
            let dir = cx.tmp.clone();
            for p in [none, dir] {
                match guard(|| Solver::try_from(p.as_path()).map(|_| ())) {
                    Ok(Err(SolverError::IOError)) => cx.count("errors reported", 1),
                    Ok(o) => return cx.fail(format!("{} gives {:?}", p.display(), o)),
                    Err(c) => return cx.fail(format!("{}: {}", p.display(), caught(c).brief())),
                }
            }
        }
        cx.nontrivial(f.hash() ^ 1);
        return;
    }
    // unused variables at the end
    if r.chance(0.3) {
        f.nv += r.range(1, 5);
        if let Known::Model(m) = &mut f.known {
            m.resize(f.nv + 1, false);
        }
        cx.count("layout: unused variables", 1);
    }
    if r.chance(0.04) {
        // an explicit empty clause
        let at = r.below(f.clauses.len() + 1);
        f.clauses.insert(at, vec![]);
        f.known = Known::Unsat;
        cx.count("layout: an empty clause", 1);
    }
    let mut tags = Vec::new();
    let text = layout(r, f.nv, &f.clauses, &mut tags);
    cx.witness = format!("c layout: {}\n{}", tags.join(", "), text);
    std::fs::write(&path, &text).expect("scratch file");
    for t in &tags {
        cx.count(&format!("layout: {}", t), 1);
    }
    let c = Config { cnf_file: path.clone(), ..config() };
    let via_path = i % 8 == 1;
    let built = guard(|| if via_path { Solver::try_from(path.as_path()) } else { Solver::build(&c) });
    let t = truth(&f, 8000);
    match built {
        Err(p) => cx.fail(format!("reading a legal file: {}", caught(p).brief())),
        Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => match t {
            Some(true) => cx.fail("a satisfiable file is refuted while it is loaded"),
            Some(false) => {
                cx.count("refuted while loading", 1);
                cx.nontrivial(f.hash());
            }
            None => cx.unclear("truth not known"),
        },
        Ok(Err(e)) => cx.fail(format!("{:?} for a legal file", e)),
        Ok(Ok(mut s)) => {
            if s.asg.num_vars != f.nv {
                return cx.fail(format!("{} variables instead of {}", s.asg.num_vars, f.nv));
            }
            if f.clauses.iter().map(|c| c.len()).sum::<usize>() < 6000 {
                match same_models(f.nv, &f.clauses, &loaded(&s), 4000) {
                    Some(Err(e)) => return cx.fail(format!("the loaded problem differs: {}", e)),
                    Some(Ok(())) => cx.count("loaded problems equal to the file", 1),
                    None => cx.count("equivalence not settled", 1),
                }
            }
            let mut o = Opts::new(budget(cx));
            o.every = u64::MAX;
            let (out, seen) = mon::watch(&mut s, &o);
            absorb(cx, &seen);
            if judge(cx, &f, &out, t) {
                cx.nontrivial(f.hash());
                cx.sample(|| format!("{} clauses, layout {}: {}", f.clauses.len(), tags.join(", "), out.brief()));
            }
        }
    }
}

pub struct Ran {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
    pub secs: f64,
}

/// run a program inside `dir`, at most `limit` seconds; None: it took longer
pub fn run_in(dir: &Path, exe: &Path, args: &[String], input: Option<&Path>, limit: f64) -> Option<Ran> {
    let (o, e) = (dir.join(".stdout"), dir.join(".stderr"));
    let t = Instant::now();
    let mut child = Command::new(exe)
        .args(args)
        .current_dir(dir)
        .env_remove("SPLR_TIMEOUT")
        .stdin(match input {
            Some(p) => Stdio::from(File::open(p).expect("input file")),
            None => Stdio::null(),
        })
        .stdout(File::create(&o).expect("scratch file"))
        .stderr(File::create(&e).expect("scratch file"))
        .spawn()
        .expect("can't start the program");
    let mut nap = 200;
    loop {
        match child.try_wait().expect("wait") {
            Some(st) => {
                let read = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
                let ran = Ran { code: st.code(), out: read(&o), err: read(&e), secs: t.elapsed().as_secs_f64() };
                let _ = std::fs::remove_file(&o);
                let _ = std::fs::remove_file(&e);
                return Some(ran);
            }
            None if limit < t.elapsed().as_secs_f64() => {
                let _ = child.kill();
                let _ = child.wait();
                let _ = std::fs::remove_file(&o);
                let _ = std::fs::remove_file(&e);
                return None;
            }
            None => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(10_000);
            }
        }
    }
}

/// a fresh directory below the scratch directory
pub fn fresh(cx: &Cx, name: &str) -> PathBuf {
    let d = cx.tmp.join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Status {
    Sat,
    Unsat,
    Unknown,
}

/// without escape sequences
fn plain(text: &str) -> String {
    let mut s = String::new();
    let mut it = text.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
            s.push('\n');
        } else {
            s.push(c);
        }
    }
    s
}

/// the status lines in what was printed
fn statuses(text: &str) -> Vec<Status> {
    plain(text)
        .split(['\n', '\r'])
        .filter_map(|l| {
            let t = l.trim_start().strip_prefix("s ")?;
            if t.starts_with("SATISFIABLE") {
                Some(Status::Sat)
            } else if t.starts_with("UNSATISFIABLE") {
                Some(Status::Unsat)
            } else if t.starts_with("UNKNOWN") {
                Some(Status::Unknown)
            } else {
                None
            }
        })
        .collect()
}

/// parse an answer: comments, one status line, values or a lone zero
fn read_answer(text: &str) -> Result<(Status, Vec<i32>), String> {
    let mut status = None;
    let mut vals: Vec<i32> = Vec::new();
    let mut closed = false;
    for line in text.lines() {
        if line.starts_with('c') || line.trim().is_empty() {
            continue;
        }
        if let Some(s) = line.strip_prefix("s ") {
            if status.is_some() {
                return Err("two status lines".into());
            }
            status = Some(match s.trim() {
                "SATISFIABLE" => Status::Sat,
                "UNSATISFIABLE" => Status::Unsat,
                "UNKNOWN" => Status::Unknown,
                x => return Err(format!("status '{}'", x)),
            });
            continue;
        }
        if status.is_none() {
            return Err(format!("'{}' before the status line", line.chars().take(40).collect::<String>()));
        }
        let body = match line.strip_prefix("v ") {
            Some(b) => b,
            None if line.trim() == "0" && status != Some(Status::Sat) => line,
            None => return Err(format!("unexpected line '{}'", line.chars().take(60).collect::<String>())),
        };
        for t in body.split_whitespace() {
            if closed {
                return Err("values after the terminating zero".into());
            }
            match t.parse::<i32>() {
                Ok(0) => closed = true,
                Ok(x) => vals.push(x),
                Err(_) => return Err(format!("value '{}'", t)),
            }
        }
    }
    if !closed {
        return Err("no terminating zero".into());
    }
    match status {
        None => Err("no status line".into()),
        Some(s) => Ok((s, vals)),
    }
}

/// the command-line solver
fn p15(cx: &mut Cx, r: &mut Rng) {
    let Some(splr) = cx.splr.clone() else {
        return cx.unclear("no command-line solver");
    };
    let mut f = match r.below(12) {
        0 => degenerate(r),
        1..=4 => generate(r, Size::Tiny),
        5..=8 => generate(r, Size::Small),
        _ => generate(r, Size::Medium),
    };
    if f.clauses.iter().map(|c| c.len()).sum::<usize>() > 40_000 {
        return;
    }
    cx.evaluations += 1;
    if r.chance(0.2) {
        f.nv += r.range(1, 4);
        if let Known::Model(m) = &mut f.known {
            m.resize(f.nv + 1, false);
        }
    }
    let dir = fresh(cx, "cli");
    let illegal = r.chance(0.12);
    let (text, tag) = if illegal {
        let (t, what, _) = corrupt(r, &f);
        (t, what.to_string())
    } else {
        let mut tags = Vec::new();
        let t = if r.chance(0.3) { layout(r, f.nv, &f.clauses, &mut tags) } else { f.dimacs() };
        (t.into_bytes(), tags.join(", "))
    };
    // short and long names, the latter get abbreviated in the progress report
    let long = format!("{}{}.cnf", "x".repeat(r.below(4)), r.pick(&["a", "é", "あ", "𝄞"]).repeat(r.range(10, 40)));
    let names = ["a.cnf", "problem.cnf", "no-extension", "two.dots.cnf", "with blank.cnf", &long];
    let name = *r.pick(&names);
    let sub = r.chance(0.2);
    let input = if sub {
        std::fs::create_dir_all(dir.join("in")).expect("scratch directory");
        format!("in/{}", name)
    } else {
        name.to_string()
    };
    std::fs::write(dir.join(&input), &text).expect("scratch file");
    // options
    let mut args: Vec<String> = Vec::new();
    let mut opt = |r: &mut Rng, short: &str, long: &str, val: Option<&str>| {
        args.push(if r.bool() || short.is_empty() { format!("--{}", long) } else { format!("-{}", short) });
        if let Some(v) = val {
            args.push(v.to_string());
        }
    };
    if r.chance(0.6) {
        opt(r, "q", "quiet", None);
    }
    if r.bool() {
        opt(r, "C", "no-color", None);
    }
    if r.chance(0.1) {
        opt(r, "j", "journal", None);
    }
    if r.chance(0.1) {
        opt(r, "H", "heatmap", None);
    }
    let mut odir = PathBuf::new();
    if r.chance(0.4) {
        std::fs::create_dir_all(dir.join("out")).expect("scratch directory");
        opt(r, "o", "dir", Some("out"));
        odir = PathBuf::from("out");
    }
    let cert = r.chance(0.45);
    let mut proof = PathBuf::from("proof.drat");
    if cert {
        opt(r, "c", "certify", None);
        if r.bool() {
            opt(r, "p", "proof", Some("my.proof"));
            proof = PathBuf::from("my.proof");
        }
    }
    let mut tty = false;
    let mut answer = format!("ans_{}", name);
    match r.below(5) {
        0 => {
            opt(r, "r", "result", Some("-"));
            tty = true;
        }
        1 => {
            opt(r, "r", "result", Some("my.ans"));
            answer = "my.ans".into();
        }
        _ => (),
    }
    if r.chance(0.3) {
        let (o, v) = *r.pick(&[
            ("ecl", "4"),
            ("evl", "0"),
            ("evo", "0"),
            ("crl", "2"),
            ("cr1", "0.5"),
            ("rlt", "1.1"),
            ("vdr", "0.9"),
        ]);
        opt(r, "", o, Some(v));
    }
    let limit = if cx.thorough { 60.0 } else { 15.0 };
    opt(r, "t", "timeout", Some(&format!("{}", limit)));
    args.push(input.clone());
    let line = format!("splr {}", args.join(" "));
    cx.witness = format!("c {}\nc {}\n{}", line, tag, String::from_utf8_lossy(&text));
    let Some(ran) = run_in(&dir, &splr, &args, None, limit + 15.0) else {
        return cx.unclear("the command-line solver took too long");
    };
    let code = match ran.code {
        Some(10) => Status::Sat,
        Some(20) => Status::Unsat,
        Some(0) => Status::Unknown,
        c => {
            return cx.fail(format!("{}: ended with {:?}: {}", line, c, ran.err.chars().take(600).collect::<String>()));
        }
    };
    let said = statuses(&ran.out);
    if said.is_empty() {
        return cx.fail(format!("{}: no status line is printed", line));
    }
    if said.iter().any(|s| *s != code) {
        return cx.fail(format!("{}: exit code tells {:?}, the output {:?}", line, code, said));
    }
    // the answer
    let place = dir.join(&odir).join(&answer);
    let text = if tty {
        if place.exists() {
            return cx.fail(format!("{}: an answer file is made though '-' is given", line));
        }
        // the answer starts at its first comment line
        match ran.out.find("c This file").or(ran.out.find("c The empty")).or(ran.out.find("c An assign")) {
            Some(i) => {
                let t = &ran.out[i..];
                // something for the user can come behind it
                let at = t.find("\ns ").unwrap_or(0);
                let rest = &t[at..];
                let end = rest.find("\n0\n").or(rest.find(" 0\n")).map_or(t.len(), |k| at + k + 3);
                t[..end].to_string()
            }
            None => return cx.fail(format!("{}: no answer is printed", line)),
        }
    } else {
        match std::fs::read_to_string(&place) {
            Ok(t) => t,
            Err(e) => return cx.fail(format!("{}: answer file {}: {}", line, answer, e)),
        }
    };
    let (st, vals) = match read_answer(&text) {
        Ok(x) => x,
        Err(e) => return cx.fail(format!("{}: bad answer: {}", line, e)),
    };
    if st != code {
        return cx.fail(format!("{}: exit code tells {:?}, the answer {:?}", line, code, st));
    }
    cx.count("runs of the command-line solver", 1);
    if illegal {
        // garbage behind a refuted part isn't read any more
        if st == Status::Sat {
            return cx.fail(format!("{}: SAT for an illegal file ({})", line, tag));
        }
        if st == Status::Unsat {
            // as P14 has it
            cx.count("refuted before the defect", 1);
            return;
        }
        cx.count("illegal files reported", 1);
        cx.nontrivial(f.hash() ^ 1);
        return;
    }
    let t = truth(&f, 8000);
    match st {
        Status::Unknown => {
            if ran.secs < limit * 0.9 {
                return cx.fail(format!("{}: no answer after {:.1} s", line, ran.secs));
            }
            return cx.unclear("time out");
        }
        Status::Sat => {
            if let Err(e) = model_ok(&vals, f.nv, &f.clauses) {
                return cx.fail(format!("{}: wrong values: {}", line, e));
            }
            cx.count("answers SAT", 1);
        }
        Status::Unsat => {
            if !vals.is_empty() {
                return cx.fail(format!("{}: values for UNSAT", line));
            }
            if t == Some(true) {
                return cx.fail(format!("{}: UNSAT for a satisfiable formula", line));
            }
            cx.count("answers UNSAT", 1);
        }
    }
    // the proof
    let place = dir.join(&odir).join(&proof);
    if cert && st == Status::Unsat {
        let p = std::fs::read_to_string(&place)
            .map_err(|e| format!("proof file {}: {}", proof.display(), e))
            .and_then(|t| drat::parse(&t))
            .and_then(|steps| drat::check(f.nv, &f.clauses, &steps));
        match p {
            Err(e) => return cx.fail(format!("{}: {}", line, e)),
            Ok(_) => cx.count("proofs accepted", 1),
        }
    } else if t.is_none() && st == Status::Unsat {
        cx.unclear("UNSAT not confirmed");
    }
    // nothing else is left behind
    let mut extra = Vec::new();
    for d in [dir.clone(), dir.join("in"), dir.join("out")] {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() || p == dir.join(&input) || p == dir.join(&odir).join(&answer) {
                    continue;
                }
                if cert && p == place {
                    continue;
                }
                extra.push(p.file_name().unwrap().to_string_lossy().into_owned());
            }
        }
    }
    if !extra.is_empty() {
        return cx.fail(format!("{}: unexpected files {:?}", line, extra));
    }
    cx.nontrivial(f.hash());
    cx.sample(|| format!("{} on {} vars, {} clauses: {:?}", line, f.nv, f.clauses.len(), st));
}

/// the model checkers
fn p16(cx: &mut Cx, r: &mut Rng, i: u64) {
    let mut f = match r.below(10) {
        0 => degenerate(r),
        1..=5 => generate(r, Size::Tiny),
        6..=8 => generate(r, Size::Small),
        _ => generate(r, Size::Medium),
    };
    if f.clauses.iter().map(|c| c.len()).sum::<usize>() > 40_000 {
        return;
    }
    f.nv = f.nv.max(max_var(&f.clauses));
    cx.evaluations += 1;
    // an assignment: a model, close to a model, or any
    let model = match &f.known {
        Known::Model(m) => {
            let mut m = m.clone();
            m.resize(f.nv + 1, false);
            Some(m)
        }
        Known::Unsat => None,
        Known::Unknown => match refsat::solve(f.nv, &f.clauses, &[], 2000) {
            Ref::Sat(m) => Some(m),
            _ => None,
        },
    };
    let kind = r.below(4);
    let mut m = match model {
        Some(m) if kind < 3 => m,
        _ => (0..=f.nv).map(|_| r.bool()).collect(),
    };
    if kind == 1 && 0 < f.nv {
        let v = r.range(1, f.nv);
        m[v] = !m[v];
    }
    if kind == 2 && 0 < f.nv {
        // falsify a single clause, if possible only by its last literal
        if let Some(c) = f.clauses.get(r.below(f.clauses.len().max(1))) {
            for l in c {
                m[l.unsigned_abs() as usize] = *l < 0;
            }
        }
    }
    let want = first_falsified(&f.clauses, &m).is_none();
    let mut lits: Vec<i32> = (1..=f.nv as i32).map(|v| if m[v as usize] { v } else { -v }).collect();
    if r.bool() {
        r.shuffle(&mut lits);
    }
    if r.chance(0.1) && !lits.is_empty() {
        // a repeated literal
        let l = *r.pick(&lits);
        lits.push(l);
    }
    cx.witness = format!("c assignment {:?}\n{}", lits, f.dimacs());
    cx.count(if want { "models" } else { "assignments that aren't models" }, 1);
    let dmcr = i % 3 == 2 && cx.dmcr.is_some();
    if dmcr {
        let dir = fresh(cx, "dmcr");
        let mut tags = Vec::new();
        let text = if r.chance(0.3) { layout(r, f.nv, &f.clauses, &mut tags) } else { f.dimacs() };
        std::fs::write(dir.join("a.cnf"), text).expect("scratch file");
        let mut a = String::new();
        for _ in 0..r.below(4) {
            a.push_str("c a comment v 1 2 0\n");
        }
        if r.chance(0.9) {
            a.push_str("s SATISFIABLE\n");
        }
        let per = if r.chance(0.3) { r.range(1, 30) } else { usize::MAX };
        if per == usize::MAX {
            a.push_str("v ");
            for l in &lits {
                a.push_str(&format!("{} ", l));
            }
            a.push_str(if r.chance(0.9) { "0\n" } else { "0" });
        } else {
            for ch in lits.chunks(per) {
                a.push_str("v ");
                for l in ch {
                    a.push_str(&format!("{} ", l));
                }
                a.push('\n');
            }
            a.push_str("v 0\n");
        }
        let mut args = Vec::new();
        if r.bool() {
            args.push(if r.bool() { "-C".to_string() } else { "--no-color".to_string() });
        }
        let stdin = dir.join("stdin.txt");
        let mut input = None;
        match r.below(3) {
            0 => {
                std::fs::write(&stdin, &a).expect("scratch file");
                input = Some(stdin.as_path());
            }
            1 => std::fs::write(dir.join("ans_a.cnf"), &a).expect("scratch file"),
            _ => {
                std::fs::write(dir.join("x.ans"), &a).expect("scratch file");
                args.push(if r.bool() { "-a".to_string() } else { "--assign".to_string() });
                args.push("x.ans".to_string());
            }
        }
        args.push("a.cnf".to_string());
        cx.witness = format!("c dmcr {}\nc answer {}\n{}", args.join(" "), a.replace('\n', "\nc  "), f.dimacs());
        let exe = cx.dmcr.clone().unwrap();
        let Some(ran) = run_in(&dir, &exe, &args, input, 30.0) else {
            return cx.unclear("dmcr took too long");
        };
        if ran.code != Some(0) {
            return cx.fail(format!("dmcr ended with {:?}: {}", ran.code, ran.err.chars().take(500).collect::<String>()));
        }
        let valid = ran.out.contains("A valid assignment set");
        if valid && ran.out.contains("An invalid") {
            return cx.fail(format!("dmcr tells both: {}", ran.out));
        }
        if valid != want {
            return cx.fail(format!(
                "dmcr {} {}: {}",
                if valid { "accepts" } else { "refuses" },
                if want { "a model" } else { "an assignment that is no model" },
                ran.out.trim()
            ));
        }
        if let Some(k) = ran.out.find("due to [") {
            let t = &ran.out[k + 8..];
            let c: Vec<i32> =
                t[..t.find(']').unwrap_or(0)].split(',').filter_map(|x| x.trim().parse().ok()).collect();
            if let Err(e) = falsified_by(&f, &m, &c) {
                return cx.fail(format!("dmcr: {}", e));
            }
            cx.count("clauses named", 1);
        }
        cx.count(if valid { "accepted by dmcr" } else { "refused by dmcr" }, 1);
        cx.nontrivial(f.hash() ^ m.iter().fold(3, |a, b| a * 31 % 1_000_003 + *b as u64));
        return;
    }
    let path = cx.tmp.join("v.cnf");
    let built = if i % 3 == 0 {
        load(&f.clauses, config())
    } else {
        std::fs::write(&path, f.dimacs()).expect("scratch file");
        let c = Config { cnf_file: path, ..config() };
        match guard(|| Solver::build(&c)) {
            Ok(Ok(s)) => Ok(s),
            Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => Err(Out::UnsatAtLoad),
            Ok(Err(e)) => Err(Out::Error(e)),
            Err(c) => Err(caught(c)),
        }
    };
    let mut s = match built {
        Ok(s) => s,
        Err(Out::UnsatAtLoad) if !want => {
            cx.count("refuted while loading", 1);
            return;
        }
        Err(o) => return cx.fail(format!("loading: {}", o.brief())),
    };
    // the assignment in one or two pieces
    let cut = if r.chance(0.2) && 1 < lits.len() { r.range(1, lits.len() - 1) } else { lits.len() };
    let mut refused = false;
    for part in [&lits[..cut], &lits[cut..]] {
        if part.is_empty() && cut != 0 {
            continue;
        }
        match guard(|| s.inject_assignment(part)) {
            Ok(Ok(())) => (),
            Ok(Err(SolverError::Inconsistent | SolverError::RootLevelConflict(_))) => {
                refused = true;
                break;
            }
            Ok(Err(e)) => return cx.fail(format!("inject_assignment: {:?}", e)),
            Err(c) => return cx.fail(format!("inject_assignment: {}", caught(c).brief())),
        }
    }
    let verdict = if refused {
        cx.count("refused by inject_assignment", 1);
        None
    } else {
        match guard(|| s.validate()) {
            Ok(v) => Some(v),
            Err(c) => return cx.fail(format!("validate: {}", caught(c).brief())),
        }
    };
    match (&verdict, want) {
        (None, true) | (Some(Some(_)), true) => cx.fail(format!("a model is refused, {:?}", verdict)),
        (Some(None), false) => cx.fail("an assignment that is no model is accepted"),
        (Some(Some(c)), false) => {
            if let Err(e) = falsified_by(&f, &m, c) {
                return cx.fail(e);
            }
            cx.count("clauses named", 1);
        }
        _ => (),
    }
    cx.count(if want { "accepted by the library" } else { "refused by the library" }, 1);
    cx.nontrivial(f.hash() ^ m.iter().fold(3, |a, b| a * 31 % 1_000_003 + *b as u64));
    cx.sample(|| format!("{} vars, {} clauses, model: {}, verdict {:?}", f.nv, f.clauses.len(), want, verdict));
}

/// `c` is named as falsified: it has to be (a part of) a clause falsified by `m`
fn falsified_by(f: &Formula, m: &[bool], c: &[i32]) -> Result<(), String> {
    if c.is_empty() {
        return Err("an empty clause is named".into());
    }
    if c.iter().any(|l| *l == 0 || f.nv < l.unsigned_abs() as usize || lit_true(*l, m)) {
        return Err(format!("the clause named isn't falsified: {:?}", c));
    }
    let ok = f
        .clauses
        .iter()
        .any(|d| c.iter().all(|l| d.contains(l)) && d.iter().all(|l| !lit_true(*l, m)));
    if ok { Ok(()) } else { Err(format!("the clause named isn't one of the formula: {:?}", c)) }
}

fn sorted(c: &[i32]) -> Vec<i32> {
    let mut c = c.to_vec();
    c.sort();
    c
}

fn bag(cs: &[Vec<i32>]) -> Vec<Vec<i32>> {
    let mut v: Vec<Vec<i32>> = cs.iter().map(|c| sorted(c)).collect();
    v.sort();
    v
}

/// strict reading of a saved file
fn strict(text: &str) -> Result<(usize, Vec<Vec<i32>>), String> {
    let mut header = None;
    let mut cs: Vec<Vec<i32>> = Vec::new();
    let mut c: Vec<i32> = Vec::new();
    for line in text.lines() {
        if line.starts_with('c') {
            continue;
        }
        if header.is_none() {
            let t: Vec<&str> = line.split_whitespace().collect();
            if t.len() != 4 || t[0] != "p" || t[1] != "cnf" {
                return Err(format!("bad header '{}'", line));
            }
            header = Some((
                t[2].parse::<usize>().map_err(|_| format!("bad header '{}'", line))?,
                t[3].parse::<usize>().map_err(|_| format!("bad header '{}'", line))?,
            ));
            continue;
        }
        for t in line.split_whitespace() {
            match t.parse::<i32>() {
                Ok(0) => {
                    if c.is_empty() {
                        return Err("an empty clause".into());
                    }
                    cs.push(std::mem::take(&mut c))
                }
                Ok(x) => c.push(x),
                Err(_) => return Err(format!("bad token '{}'", t)),
            }
        }
    }
    let Some((nv, nc)) = header else {
        return Err("no header".into());
    };
    if !c.is_empty() {
        return Err("the last clause isn't terminated".into());
    }
    if cs.len() != nc {
        return Err(format!("{} clauses, the header tells {}", cs.len(), nc));
    }
    if nv < max_var(&cs) {
        return Err(format!("variable {}, the header tells {}", max_var(&cs), nv));
    }
    Ok((nv, cs))
}

/// the CNF toolkit
/// formulas so large that the toolkit stops looking for repeated clauses
fn p17_large(cx: &mut Cx, r: &mut Rng) {
    cx.evaluations += 1;
    let path = cx.tmp.join("t.cnf");
    let near = r.bool();
    let n = if near { r.range(99_985, 100_015) } else { r.range(100_001, 112_000) };
    let nv = r.range(2_000, 9_000);
    let mut set = std::collections::HashSet::new();
    let mut have: Vec<Vec<i32>> = Vec::new();
    while have.len() < n {
        let k = r.range(2, 4);
        let c = distinct_clause(r, nv, k);
        if set.insert(sorted(&c)) {
            have.push(c);
        }
    }
    let mut nv_min = max_var(&have);
    let by_file = !near && r.bool();
    cx.witness = format!("{} clauses over {} variables, {}", n, nv, if by_file { "from a file" } else { "from vectors" });
    let text = |have: &[Vec<i32>], nv: usize| {
        let mut t = format!("p cnf {} {}\n", nv, have.len());
        for c in have {
            for l in c {
                t.push_str(&format!("{} ", l));
            }
            t.push_str("0\n");
        }
        t
    };
    let made = guard(|| {
        if by_file {
            std::fs::write(&path, text(&have, nv_min)).expect("scratch file");
            CNF::load(&path)
        } else {
            CNF::from_vec_i32(have.clone())
        }
    });
    let mut cnf = match made {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return cx.fail(format!("{:?} for legal clauses", e)),
        Err(c) => return cx.fail(caught(c).brief()),
    };
    for _ in 0..r.range(1, 40) {
        let c = match r.below(4) {
            0 => {
                let mut c = r.pick(&have).clone();
                r.shuffle(&mut c);
                c
            }
            1 if r.chance(0.2) => vec![],
            _ => {
                let k = r.range(1, 5);
                (0..k)
                    .map(|_| {
                        let v = r.range(1, nv_min + 2) as i32;
                        r.sign(v)
                    })
                    .collect()
            }
        };
        let known = set.contains(&sorted(&c));
        // up to the limit repetitions are refused; beyond it they may be kept
        let strict = have.len() <= 100_000 && !by_file;
        match guard(|| cnf.add_clause(c.clone()).map(|_| ())) {
            Ok(Ok(())) if c.is_empty() => return cx.fail("an empty clause is accepted"),
            Ok(Ok(())) if known && strict => return cx.fail(format!("{:?} is accepted again as clause {}", c, have.len())),
            Ok(Ok(())) => {
                set.insert(sorted(&c));
                nv_min = nv_min.max(max_var(std::slice::from_ref(&c)));
                have.push(c);
            }
            Ok(Err(CNFOperationError::AddingEmptyClause)) if c.is_empty() => (),
            Ok(Err(CNFOperationError::AddingClauseExists)) if known => cx.count("repetitions refused", 1),
            Ok(Err(e)) => return cx.fail(format!("add_clause {:?} after {} clauses: {:?}", c, have.len(), e)),
            Err(p) => return cx.fail(format!("add_clause {:?} after {} clauses: {}", c, have.len(), caught(p).brief())),
        }
        if cnf.num_clauses() != have.len() || cnf.num_vars() as usize != nv_min {
            return cx.fail(format!(
                "{} clauses, {} variables instead of {}, {}",
                cnf.num_clauses(), cnf.num_vars(), have.len(), nv_min
            ));
        }
    }
    match guard(|| cnf.save(&path)) {
        Ok(Ok(())) => (),
        Ok(Err(e)) => return cx.fail(format!("save: {:?}", e)),
        Err(p) => return cx.fail(format!("save: {}", caught(p).brief())),
    }
    let saved = std::fs::read_to_string(&path).unwrap_or_default();
    if let Err(e) = saved_ok(&saved, &have, nv_min) {
        return cx.fail(format!("the saved file: {}", e));
    }
    if 100_000 < have.len() {
        match guard(|| CNF::load(&path)) {
            Ok(Ok(c)) => {
                let (mut u, mut v) = (bag(&have), match strict(&c.dump_to_string()) {
                    Ok((_, cs)) => bag(&cs),
                    Err(e) => return cx.fail(format!("the reloaded formula: {}", e)),
                });
                if v.len() != c.num_clauses() || c.num_vars() as usize != nv_min {
                    return cx.fail("the reloaded formula has other counts");
                }
                u.dedup();
                v.dedup();
                if u != v {
                    return cx.fail("the reloaded formula has other clauses");
                }
            }
            Ok(Err(e)) => return cx.fail(format!("loading the saved file: {:?}", e)),
            Err(p) => return cx.fail(format!("loading the saved file: {}", caught(p).brief())),
        }
        cx.count("files of over 100000 clauses reloaded", 1);
    }
    cx.count("formulas of about 100000 clauses", 1);
    cx.nontrivial(n as u64 ^ (nv as u64) << 20);
}

fn p17(cx: &mut Cx, r: &mut Rng) {
    if r.below(1500) == 0 {
        return p17_large(cx, r);
    }
    let f = match r.below(8) {
        0 => degenerate(r),
        1..=4 => generate(r, Size::Tiny),
        _ => generate(r, Size::Small),
    };
    if f.clauses.iter().map(|c| c.len()).sum::<usize>() > 40_000 {
        return;
    }
    cx.evaluations += 1;
    let path = cx.tmp.join("t.cnf");
    let mut log: Vec<String> = Vec::new();
    let wit = |cx: &mut Cx, log: &[String]| cx.witness = log.join("\n");
    if r.chance(0.25) {
        // illegal files
        let (text, what, _) = corrupt(r, &f);
        log.push(format!("c load a file with {}\n{}", what, String::from_utf8_lossy(&text)));
        wit(cx, &log);
        std::fs::write(&path, &text).expect("scratch file");
        cx.count(&format!("corruption: {}", what), 1);
        match guard(|| CNF::load(&path)) {
            Ok(Ok(_)) => cx.fail(format!("a file with {} is accepted", what)),
            Ok(Err(_)) => {
                cx.count("illegal files reported", 1);
                cx.nontrivial(f.hash() ^ 1);
            }
            Err(c) => cx.fail(format!("a file with {}: {}", what, caught(c).brief())),
        }
        return;
    }
    // the reference: clauses in order
    let mut have: Vec<Vec<i32>>;
    let mut nv_min;
    let mut cnf = match r.below(3) {
        0 => {
            log.push(format!("from_vec_i32\n{}", f.dimacs()));
            wit(cx, &log);
            let clash = f
                .clauses
                .iter()
                .filter(|c| c.len() == 1)
                .any(|c| f.clauses.iter().any(|d| d.len() == 1 && d[0] == -c[0]));
            match guard(|| CNF::from_vec_i32(f.clauses.clone())) {
                Ok(Ok(c)) => {
                    have = f.clauses.clone();
                    nv_min = max_var(&have);
                    c
                }
                Ok(Err(CNFOperationError::AddignConflictingAssingment)) if clash => {
                    cx.count("conflicting units reported", 1);
                    return;
                }
                Ok(Err(e)) => return cx.fail(format!("from_vec_i32: {:?}", e)),
                Err(c) => return cx.fail(format!("from_vec_i32: {}", caught(c).brief())),
            }
        }
        1 => {
            let mut tags = Vec::new();
            // legal, without repeated clauses
            let mut cs: Vec<Vec<i32>> = Vec::new();
            let mut seen = std::collections::HashSet::new();
            for c in &f.clauses {
                if seen.insert(sorted(c)) {
                    cs.push(c.clone());
                }
            }
            let text = layout(r, f.nv, &cs, &mut tags);
            log.push(format!("load\n{}", text));
            wit(cx, &log);
            std::fs::write(&path, &text).expect("scratch file");
            match guard(|| CNF::load(&path)) {
                Ok(Ok(c)) => {
                    have = cs;
                    nv_min = max_var(&have);
                    c
                }
                Ok(Err(e)) => return cx.fail(format!("load: {:?} for a legal file ({})", e, tags.join(", "))),
                Err(c) => return cx.fail(format!("load: {}", caught(c).brief())),
            }
        }
        _ => {
            have = Vec::new();
            nv_min = 0;
            CNF::default()
        }
    };
    for step in 0..r.range(1, 6) {
        match r.below(4) {
            0 | 1 => {
                for _ in 0..r.range(1, 10) {
                    let c: Vec<i32> = match r.below(8) {
                        0 => vec![],
                        1 if !have.is_empty() => {
                            // known already, maybe in another order
                            let mut c = r.pick(&have).clone();
                            r.shuffle(&mut c);
                            c
                        }
                        _ => {
                            let k = r.range(1, 6);
                            (0..k)
                                .map(|_| {
                                    let v = r.range(1, f.nv + 3) as i32;
                                    r.sign(v)
                                })
                                .collect()
                        }
                    };
                    log.push(format!("add_clause {:?}", c));
                    wit(cx, &log);
                    let known = have.iter().any(|d| sorted(d) == sorted(&c));
                    match guard(|| cnf.add_clause(c.clone()).map(|_| ())) {
                        Ok(Ok(())) if c.is_empty() => return cx.fail("an empty clause is accepted"),
                        Ok(Ok(())) if known => return cx.fail(format!("{:?} is accepted again", c)),
                        Ok(Ok(())) => {
                            nv_min = nv_min.max(max_var(std::slice::from_ref(&c)));
                            have.push(c);
                            cx.count("clauses added", 1);
                        }
                        Ok(Err(CNFOperationError::AddingEmptyClause)) if c.is_empty() => (),
                        Ok(Err(CNFOperationError::AddingClauseExists)) if known => cx.count("repetitions refused", 1),
                        Ok(Err(e)) => return cx.fail(format!("add_clause {:?}: {:?}", c, e)),
                        Err(p) => return cx.fail(format!("add_clause {:?}: {}", c, caught(p).brief())),
                    }
                }
            }
            2 => {
                log.push("save".into());
                wit(cx, &log);
                match guard(|| cnf.save(&path)) {
                    Ok(Ok(())) => (),
                    Ok(Err(e)) => return cx.fail(format!("save: {:?}", e)),
                    Err(p) => return cx.fail(format!("save: {}", caught(p).brief())),
                }
                let text = std::fs::read_to_string(&path).unwrap_or_default();
                if let Err(e) = saved_ok(&text, &have, nv_min) {
                    return cx.fail(format!("the saved file: {}", e));
                }
                cx.count("files checked", 1);
                if r.bool() {
                    log.push("load the saved file".into());
                    wit(cx, &log);
                    match guard(|| CNF::load(&path)) {
                        Ok(Ok(c)) => {
                            // repeated clauses are kept once
                            let mut u = bag(&have);
                            u.dedup();
                            if c.num_clauses() != u.len() && c.num_clauses() != have.len() {
                                return cx.fail(format!("{} of {} clauses after reloading", c.num_clauses(), u.len()));
                            }
                            if c.num_clauses() != have.len() {
                                have = u;
                            }
                            cnf = c;
                        }
                        Ok(Err(e)) => return cx.fail(format!("loading the saved file: {:?}", e)),
                        Err(p) => return cx.fail(format!("loading the saved file: {}", caught(p).brief())),
                    }
                }
            }
            _ => {
                // the solver agrees
                if step == 0 || have.iter().map(|c| c.len()).sum::<usize>() > 3000 {
                    continue;
                }
                let g = Formula::new(nv_min, have.clone(), Known::Unknown, "toolkit");
                if cnf.save(&path).is_err() {
                    return cx.fail("save fails");
                }
                let c = Config { cnf_file: path.clone(), ..config() };
                let out = match guard(|| Solver::build(&c)) {
                    Ok(Ok(mut s)) => {
                        if s.asg.num_vars != nv_min {
                            return cx.fail(format!("the solver sees {} of {} variables", s.asg.num_vars, nv_min));
                        }
                        mon::watch(&mut s, &Opts::new(budget(cx))).0
                    }
                    Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => Out::UnsatAtLoad,
                    Ok(Err(e)) => Out::Error(e),
                    Err(c) => caught(c),
                };
                let t = if matches!(out, Out::Sat(_)) { None } else { truth(&g, 4000) };
                judge(cx, &g, &out, t);
                if cx.failed() {
                    return;
                }
                cx.count("solved through a saved file", 1);
            }
        }
        if cnf.num_clauses() != have.len() {
            return cx.fail(format!("{} clauses instead of {}", cnf.num_clauses(), have.len()));
        }
        if cnf.num_vars() as usize != nv_min {
            return cx.fail(format!("{} variables instead of {}", cnf.num_vars(), nv_min));
        }
        match guard(|| cnf.dump_to_string()) {
            Ok(t) => {
                if let Err(e) = saved_ok(&t, &have, nv_min) {
                    return cx.fail(format!("the dump: {}", e));
                }
            }
            Err(p) => return cx.fail(format!("dump_to_string: {}", caught(p).brief())),
        }
    }
    cx.nontrivial(Formula::new(nv_min, have.clone(), Known::Unknown, "").hash());
    cx.sample(|| format!("{} vars, {} clauses after {} steps", nv_min, have.len(), log.len()));
}

fn saved_ok(text: &str, have: &[Vec<i32>], nv: usize) -> Result<(), String> {
    let (n, cs) = strict(text)?;
    if n != nv {
        return Err(format!("{} variables instead of {}", n, nv));
    }
    if bag(&cs) != bag(have) {
        return Err("other clauses".into());
    }
    Ok(())
}

/// dumped problems
fn p18(cx: &mut Cx, r: &mut Rng) {
    let f = match r.below(10) {
        0 => degenerate(r),
        1..=6 => generate(r, Size::Tiny),
        _ => generate(r, Size::Small),
    };
    if f.clauses.iter().map(|c| c.len()).sum::<usize>() > 10_000 {
        return;
    }
    cx.evaluations += 1;
    let mut all = f.clauses.clone();
    let mut nv = f.nv;
    let mut log: Vec<String> = Vec::new();
    let split = r.range(0, f.clauses.len());
    let early: Vec<Vec<i32>> = f.clauses[..split].to_vec();
    let mut later: Vec<Vec<i32>> = f.clauses[split..].to_vec();
    let step_by_step = r.chance(0.5);
    if !step_by_step {
        later.clear();
    }
    let first: &[Vec<i32>] = if step_by_step { &early } else { &f.clauses };
    let wit = |cx: &mut Cx, log: &[String]| {
        cx.witness = format!(
            "c the clauses from {} on are added later\n{}{}",
            first.len(),
            f.dimacs(),
            log.join("\n")
        )
    };
    wit(cx, &log);
    let path = cx.tmp.join("d0.cnf");
    let mut s = match if r.chance(0.3) {
        let g = Formula::new(f.nv, first.to_vec(), Known::Unknown, "");
        std::fs::write(&path, g.dimacs()).expect("scratch file");
        let c = Config { cnf_file: path.clone(), ..config() };
        match guard(|| Solver::build(&c)) {
            Ok(Ok(s)) => Ok(s),
            Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => Err(Out::UnsatAtLoad),
            Ok(Err(e)) => Err(Out::Error(e)),
            Err(c) => Err(caught(c)),
        }
    } else {
        load(first, config())
    } {
        Ok(s) => s,
        Err(Out::UnsatAtLoad) => {
            cx.count("refuted while loading", 1);
            return;
        }
        Err(o) => return cx.fail(format!("loading: {}", o.brief())),
    };
    while s.asg.num_vars < f.nv {
        s.add_var();
        log.push("add_var".into());
    }
    for c in &later {
        match guard(|| s.add_clause(c.clone()).map(|_| ())) {
            Ok(Ok(())) => (),
            Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => {
                cx.count("refuted while loading", 1);
                return;
            }
            Ok(Err(e)) => return cx.fail(format!("add_clause: {:?}", e)),
            Err(c) => return cx.fail(format!("add_clause: {}", caught(c).brief())),
        }
    }
    for _ in 0..r.below(5) {
        wit(cx, &log);
        match r.below(4) {
            0 => {
                s.add_var();
                nv += 1;
                log.push("add_var".into());
            }
            1 | 2 if 0 < nv => {
                let v = r.range(1, nv) as i32;
                let l = r.sign(v);
                log.push(format!("add_assignment {}", l));
                match guard(|| s.add_assignment(l).map(|_| ())) {
                    Ok(Ok(())) => all.push(vec![l]),
                    Ok(Err(SolverError::RootLevelConflict(_) | SolverError::Inconsistent)) => return,
                    Ok(Err(e)) => return cx.fail(format!("add_assignment: {:?}", e)),
                    Err(c) => return cx.fail(format!("add_assignment: {}", caught(c).brief())),
                }
            }
            _ if 0 < nv => {
                let k = r.range(1, 4);
                let c: Vec<i32> = (0..k)
                    .map(|_| {
                        let v = r.range(1, nv) as i32;
                        r.sign(v)
                    })
                    .collect();
                log.push(format!("add_clause {:?}", c));
                match guard(|| s.add_clause(c.clone()).map(|_| ())) {
                    Ok(Ok(())) => all.push(c),
                    Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => return,
                    Ok(Err(e)) => return cx.fail(format!("add_clause: {:?}", e)),
                    Err(c) => return cx.fail(format!("add_clause: {}", caught(c).brief())),
                }
            }
            _ => (),
        }
    }
    wit(cx, &log);
    let path = cx.tmp.join("dump.cnf");
    let _ = std::fs::remove_file(&path);
    if let Err(c) = guard(|| s.dump_cnf(&path)) {
        return cx.fail(format!("dump_cnf: {}", caught(c).brief()));
    }
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(e) => return cx.fail(format!("no dump: {}", e)),
    };
    let (dv, dumped) = match strict(&text) {
        Ok(x) => x,
        Err(e) => return cx.fail(format!("the dump is malformed: {}", e)),
    };
    if dv != nv {
        return cx.fail(format!("{} variables in the dump instead of {}", dv, nv));
    }
    match same_models(nv, &all, &dumped, 4000) {
        Some(Err(e)) => return cx.fail(format!("the dump isn't equivalent: {}", e)),
        Some(Ok(())) => cx.count("dumps equivalent to the problem", 1),
        None => cx.unclear("equivalence not settled"),
    }
    // both are solved with the same verdict
    let g = Formula::new(nv, all.clone(), Known::Unknown, "dump");
    let c = Config { cnf_file: path, ..config() };
    let out = match guard(|| Solver::build(&c)) {
        Ok(Ok(mut s)) => mon::watch(&mut s, &Opts::new(budget(cx))).0,
        Ok(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => Out::UnsatAtLoad,
        Ok(Err(e)) => Out::Error(e),
        Err(c) => caught(c),
    };
    let t = if matches!(out, Out::Sat(_)) { None } else { truth(&g, 4000) };
    if judge(cx, &g, &out, t) && !cx.failed() {
        let mine = mon::watch(&mut s, &Opts::new(budget(cx))).0;
        let ok = match (&mine, &out) {
            (Out::Sat(m), Out::Sat(_)) => model_ok(m, nv, &all).map_err(|e| format!("the solver dumped from: {}", e)),
            (a, b) if a.is_unsat() && b.is_unsat() => Ok(()),
            (Out::Stopped(_), _) => Ok(()),
            (a, b) => Err(format!("the solver dumped from gives {}, the dump {}", a.brief(), b.brief())),
        };
        if let Err(e) = ok {
            return cx.fail(e);
        }
        cx.nontrivial(g.hash());
        cx.sample(|| format!("{} vars, {} clauses, dump of {} clauses: {}", nv, all.len(), dumped.len(), out.brief()));
    }
}
