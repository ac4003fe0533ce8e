//! P24: the command line means what the help text says.
use crate::ctx::Cx;
use crate::files::{fresh, run_in};
use crate::formula::{Size, generate};
use crate::rng::Rng;
use splr::Config;
use std::path::{Path, PathBuf};
use std::process::Command;

/// asks this program to be the one whose arguments are parsed
const PROBE: &str = "SPLR_MONITOR_OPTIONS";

/// The settings, one per line, `name=value`.
fn show(c: &Config) -> Vec<(&'static str, String)> {
    let f = |x: f64| format!("{:016x}", x.to_bits());
    let p = |x: &PathBuf| x.to_string_lossy().into_owned();
    vec![
        ("c_cbt_thr", c.c_cbt_thr.to_string()),
        ("c_cls_lim", c.c_cls_lim.to_string()),
        ("c_timeout", f(c.c_timeout)),
        ("splr_interface", c.splr_interface.to_string()),
        ("cnf_file", p(&c.cnf_file)),
        ("io_odir", p(&c.io_odir)),
        ("io_pfile", p(&c.io_pfile)),
        ("io_rfile", p(&c.io_rfile)),
        ("no_color", c.no_color.to_string()),
        ("quiet_mode", c.quiet_mode.to_string()),
        ("show_cdb_heatmap", c.show_cdb_heatmap.to_string()),
        ("show_journal", c.show_journal.to_string()),
        ("use_certification", c.use_certification.to_string()),
        ("crw_dcy_rat", f(c.crw_dcy_rat)),
        ("cls_rdc_lbd", c.cls_rdc_lbd.to_string()),
        ("cls_rdc_rm1", f(c.cls_rdc_rm1)),
        ("cls_rdc_rm2", f(c.cls_rdc_rm2)),
        ("rst_lbd_thr", f(c.rst_lbd_thr)),
        ("enable_eliminator", c.enable_eliminator.to_string()),
        ("elm_cls_lim", c.elm_cls_lim.to_string()),
        ("elm_grw_lim", c.elm_grw_lim.to_string()),
        ("elm_var_occ", c.elm_var_occ.to_string()),
        ("vrw_dcy_rat", f(c.vrw_dcy_rat)),
        ("vrw_dcy_stp", f(c.vrw_dcy_stp)),
    ]
}

/// If this process was started to parse its arguments, it does so and is gone.
pub fn probe() {
    if std::env::var_os(PROBE).is_none() {
        return;
    }
    let mut c = Config::default();
    c.inject_from_args();
    for (k, v) in show(&c) {
        println!("@{}={}", k, v);
    }
    std::process::exit(77);
}

struct Reply {
    code: Option<i32>,
    out: String,
    settings: Vec<(String, String)>,
}

fn ask(dir: &Path, args: &[String]) -> Reply {
    let o = Command::new(std::env::current_exe().expect("own path"))
        .args(args)
        .current_dir(dir)
        .env(PROBE, "1")
        .stdin(std::process::Stdio::null())
        .output()
        .expect("can't start the probe");
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let settings = out
        .lines()
        .filter_map(|l| l.strip_prefix('@').and_then(|l| l.split_once('=')))
        .map(|(k, v)| (k.to_string(), v.to_string()))
        .collect();
    Reply { code: o.status.code(), out, settings }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Flag,
    Number,
    Small,
    Real,
    Path,
}

/// short form, long form, what it takes, the setting it changes
const TABLE: [(&str, &str, Kind, &str); 21] = [
    ("C", "no-color", Kind::Flag, "no_color"),
    ("q", "quiet", Kind::Flag, "quiet_mode"),
    ("c", "certify", Kind::Flag, "use_certification"),
    ("H", "heatmap", Kind::Flag, "show_cdb_heatmap"),
    ("j", "journal", Kind::Flag, "show_journal"),
    ("", "cl", Kind::Number, "c_cls_lim"),
    ("", "crl", Kind::Small, "cls_rdc_lbd"),
    ("", "ecl", Kind::Number, "elm_cls_lim"),
    ("", "evl", Kind::Number, "elm_grw_lim"),
    ("", "evo", Kind::Number, "elm_var_occ"),
    ("", "cdr", Kind::Real, "crw_dcy_rat"),
    ("", "cr1", Kind::Real, "cls_rdc_rm1"),
    ("", "cr2", Kind::Real, "cls_rdc_rm2"),
    ("", "rlt", Kind::Real, "rst_lbd_thr"),
    ("", "vdr", Kind::Real, "vrw_dcy_rat"),
    ("", "vds", Kind::Real, "vrw_dcy_stp"),
    ("t", "timeout", Kind::Real, "c_timeout"),
    ("o", "dir", Kind::Path, "io_odir"),
    ("p", "proof", Kind::Path, "io_pfile"),
    ("r", "result", Kind::Path, "io_rfile"),
    ("", "", Kind::Flag, ""),
];

fn real(r: &mut Rng) -> (String, f64) {
    let x = match r.below(6) {
        0 => 0.0,
        1 => r.below(100_000) as f64,
        2 => r.below(1000) as f64 / 1000.0,
        3 => r.below(1 << 20) as f64 * 1e-9,
        4 => r.below(1 << 30) as f64 * 1e12,
        _ => r.below(64) as f64 / 8.0,
    };
    let t = match r.below(3) {
        0 => format!("{:e}", x),
        1 => format!("{:?}", x),
        _ => format!("{}", x),
    };
    let x = t.parse().expect("a number");
    (t, x)
}

fn number(r: &mut Rng, top: u64) -> (String, u64) {
    let bits = r.below(65) as u32;
    let mut x = if bits == 0 { 0 } else { r.next() >> (64 - bits) };
    if r.chance(0.1) {
        x = top.saturating_sub(r.below(2) as u64);
    }
    let x = x.min(top);
    let t = match r.below(8) {
        0 => format!("{:08}", x),
        _ => x.to_string(),
    };
    (t, x)
}

fn path(r: &mut Rng) -> String {
    r.pick(&["out", "a b", "x.cnf", "-", "--", "q", "./deep/er", "/nowhere/x", "-q", "--quiet", "7", "proof.drat", "name=value", "ä"])
        .to_string()
}

fn differ(want: &[(&'static str, String)], got: &[(String, String)]) -> Option<String> {
    if got.len() != want.len() {
        return Some("the arguments were not accepted".into());
    }
    for ((k, w), (_, g)) in want.iter().zip(got) {
        if w != g {
            return Some(format!("{} is {} instead of {}", k, g, w));
        }
    }
    None
}

fn set(want: &mut [(&'static str, String)], k: &str, v: String) {
    for (name, x) in want.iter_mut() {
        if *name == k {
            *x = v;
            return;
        }
    }
    panic!("no setting {}", k);
}

/// some valid options, applied to `want`
fn valid(r: &mut Rng, n: usize, want: &mut [(&'static str, String)]) -> Vec<String> {
    let mut args = Vec::new();
    for _ in 0..n {
        let (short, long, kind, field) = TABLE[r.below(TABLE.len() - 1)];
        args.push(if !short.is_empty() && r.bool() { format!("-{}", short) } else { format!("--{}", long) });
        match kind {
            Kind::Flag => set(want, field, "true".into()),
            Kind::Number | Kind::Small => {
                let top = if kind == Kind::Small { u16::MAX as u64 } else { usize::MAX as u64 };
                let (t, x) = number(r, top);
                args.push(t);
                set(want, field, x.to_string());
            }
            Kind::Real => {
                let (t, x) = real(r);
                args.push(t);
                set(want, field, format!("{:016x}", x.to_bits()));
            }
            Kind::Path => {
                let t = path(r);
                args.push(t.clone());
                set(want, field, t);
            }
        }
    }
    args
}

/// the line of the help text about an option: what it says is its default
fn told<'a>(help: &'a str, long: &str) -> Option<&'a str> {
    let key = format!("--{}", long);
    help.lines().find(|l| l.split_whitespace().any(|w| w == key))
}

fn help(cx: &mut Cx, dir: &Path, form: &str) {
    let rep = ask(dir, &[form.to_string()]);
    if rep.code != Some(0) {
        return cx.fail(format!("{} ends with {:?}", form, rep.code));
    }
    let defaults = show(&Config::default());
    for (short, long, kind, field) in &TABLE[..TABLE.len() - 1] {
        let Some(line) = told(&rep.out, long) else {
            // depends on the features of the build
            if !["cdr", "crl", "cr1", "cr2", "vds"].contains(long) {
                return cx.fail(format!("the help text doesn't mention --{}", long));
            }
            continue;
        };
        if !short.is_empty() && !line.split([' ', ',']).any(|w| w == format!("-{}", short)) {
            return cx.fail(format!("the help text doesn't mention -{}", short));
        }
        cx.count("lines of help judged", 1);
        let d = &defaults.iter().find(|(k, _)| k == field).expect("setting").1;
        let last = line.split_whitespace().next_back().unwrap_or("");
        let ok = match kind {
            Kind::Flag => d == "false",
            Kind::Number | Kind::Small => last == d,
            Kind::Real => {
                let d = f64::from_bits(u64::from_str_radix(d, 16).expect("bits"));
                last.parse::<f64>().is_ok_and(|x| (x - d).abs() <= 0.005001)
            }
            Kind::Path => d.is_empty() || last == d,
        };
        if !ok {
            return cx.fail(format!("the help text gives a wrong default: {:?}; it is {}", line, d));
        }
    }
}

pub fn p24(cx: &mut Cx, r: &mut Rng, i: u64) {
    let dir = cx.tmp.join("options");
    let file = r.pick(&["a.cnf", "b c.cnf", "x=y.cnf", "7", "sub/p.cnf", "./q.cnf"]).to_string();
    if !dir.join("sub").exists() {
        let d = fresh(cx, "options");
        std::fs::create_dir_all(d.join("sub")).expect("scratch directory");
        for n in ["a.cnf", "b c.cnf", "x=y.cnf", "7", "sub/p.cnf", "q.cnf"] {
            std::fs::write(d.join(n), "p cnf 1 1\n1 0\n").expect("scratch file");
        }
    }
    cx.evaluations += 1;
    if i % 64 == 0 {
        for form in ["-h", "--help"] {
            cx.witness = form.to_string();
            help(cx, &dir, form);
        }
        for form in ["-V", "--version"] {
            cx.witness = form.to_string();
            let rep = ask(&dir, &[form.to_string()]);
            if rep.code != Some(0) || rep.out.trim() != splr::VERSION {
                cx.fail(format!("{} ends with {:?} and prints {:?}", form, rep.code, rep.out));
            }
        }
        return;
    }
    if cx.splr.is_some() && i % 8 == 1 {
        return shown(cx, r);
    }
    if cx.dmcr.is_some() && i % 16 == 2 {
        return checker(cx, r);
    }
    let mut want = show(&Config::default());
    let n = match r.below(4) {
        0 => 1,
        1 => 2,
        _ => r.range(0, 12),
    };
    let mut args = valid(r, n, &mut want);
    if r.chance(0.75) {
        args.push(file.clone());
        set(&mut want, "cnf_file", file);
        cx.witness = format!("{:?}", args);
        cx.announce();
        let rep = ask(&dir, &args);
        cx.nontrivial(crate::rng::hash(cx.witness.as_bytes()));
        cx.count("options judged", n as u64);
        cx.sample(|| args.join(" "));
        if rep.code != Some(77) {
            return cx.fail(format!("valid arguments are refused ({:?}): {:?}", rep.code, rep.out));
        }
        if let Some(m) = differ(&want, &rep.settings) {
            cx.fail(m);
        }
        return;
    }
    // something is wrong with them
    let (what, bad): (&str, Vec<String>) = match r.below(9) {
        0 => ("unknown long option", vec![format!("--{}", r.pick(&["unknown", "qui", "quiets", "Quiet", "t", "q", "", "cr3", "no_color"]))]),
        1 => ("unknown short option", vec![format!("-{}", r.pick(&["x", "Q", "qc", "7", "", "cl", "v", "J"]))]),
        2 => {
            let o = r.pick(&["cl", "crl", "ecl", "evl", "evo"]);
            let v = r.pick(&["-1", "abc", "", "1.5", "0x10", "18446744073709551616", "1 ", "1,000", "1e3"]);
            ("malformed number", vec![format!("--{}", o), v.to_string()])
        }
        3 => {
            let o = r.pick(&["cdr", "cr1", "cr2", "rlt", "vdr", "vds", "timeout"]);
            let v = r.pick(&["abc", "", "1,5", "1.5s", "--quiet", "0.5.5", " 1"]);
            ("malformed number", vec![format!("--{}", o), v.to_string()])
        }
        4 => ("malformed number", vec!["-t".into(), r.pick(&["abc", "", "1,5", "10s"]).to_string()]),
        5 => {
            let o = r.pick(&["cl=5", "quiet=true", "dir=out", "result=-", "timeout=1.0"]);
            ("connected argument", vec![format!("--{}", o)])
        }
        6 => ("number out of range", vec!["--crl".into(), (u16::MAX as usize + 1 + r.below(200_000)).to_string()]),
        7 => ("second file", vec!["other.cnf".into()]),
        _ => {
            // an option that lacks its value is followed by nothing
            let (short, long, ..) = *r.pick(&TABLE[5..TABLE.len() - 1]);
            let o = if !short.is_empty() && r.bool() { format!("-{}", short) } else { format!("--{}", long) };
            ("missing value", vec![o])
        }
    };
    if what == "missing value" {
        args.extend(bad);
    } else {
        let at = if r.bool() { 0 } else { args.len() };
        for (k, b) in bad.into_iter().enumerate() {
            args.insert(at + k, b);
        }
        args.push(file);
    }
    cx.witness = format!("{}: {:?}", what, args);
    cx.announce();
    let rep = ask(&dir, &args);
    cx.nontrivial(crate::rng::hash(cx.witness.as_bytes()));
    cx.count(&format!("refused: {}", what), 1);
    match rep.code {
        Some(77) => cx.fail(format!("{}: the arguments are accepted", what)),
        Some(0) => cx.fail(format!("{}: ends like a success: {:?}", what, rep.out)),
        _ => (),
    }
}

/// control sequences `ESC [ ... letter` that end with `letter`
fn controls(t: &str, letter: impl Fn(char) -> bool) -> usize {
    t.split("\x1b[").skip(1).filter(|p| p.chars().find(|c| c.is_ascii_alphabetic()).is_some_and(&letter)).count()
}

/// a text without its control sequences
fn plain(t: &str) -> String {
    let mut parts = t.split("\x1b[");
    let mut s: String = parts.next().unwrap_or("").into();
    for p in parts {
        s.push_str(p.find(|c: char| c.is_ascii_alphabetic()).map_or("", |i| &p[i + 1..]));
    }
    s
}

/// the options of dmcr
fn checker(cx: &mut Cx, r: &mut Rng) {
    let exe = cx.dmcr.clone().expect("checker");
    let dir = fresh(cx, "checker");
    std::fs::write(dir.join("a.cnf"), "p cnf 2 2\n1 2 0\n-1 2 0\n").expect("scratch file");
    std::fs::write(dir.join("ans_a.cnf"), "s SATISFIABLE\nv 1 2 0\n").expect("scratch file");
    std::fs::write(dir.join("bad"), "s SATISFIABLE\nv 1 -2 0\n").expect("scratch file");
    let mut pick = |short: &str, long: &str| if r.bool() { format!("-{}", short) } else { format!("--{}", long) };
    let (h, v, c) = (pick("h", "help"), pick("V", "version"), pick("C", "no-color"));
    let a = pick("a", "assign");
    let (what, bad) = (r.below(4), r.bool());
    let mut args: Vec<String> = Vec::new();
    if what == 2 {
        args.push(c.clone());
    }
    if bad {
        args.extend([a, "bad".into()]);
    }
    if what < 2 {
        let at = r.below(1 + if args.is_empty() { 0 } else { 1 }) * args.len();
        args.insert(at, if what == 0 { h } else { v });
    }
    if 1 < what || r.bool() {
        args.push("a.cnf".into());
    }
    cx.witness = format!("dmcr {:?}", args);
    cx.announce();
    let Some(ran) = run_in(&dir, &exe, &args, None, 20.0) else {
        return cx.unclear("dmcr took too long");
    };
    cx.nontrivial(crate::rng::hash(cx.witness.as_bytes()));
    cx.count("options of dmcr judged", 1);
    if ran.code != Some(0) {
        return cx.fail(format!("dmcr ends with {:?}: {}", ran.code, ran.err));
    }
    let told = ran.out.contains("assignment set for");
    match what {
        0 => {
            for word in ["USAGE", "-h, --help", "-C, --no-color", "-V, --version", "-a, --assign", "<problem>"] {
                if !ran.out.contains(word) {
                    return cx.fail(format!("dmcr's help doesn't mention {:?}: {:?}", word, ran.out));
                }
            }
            if told {
                cx.fail(format!("dmcr checks instead of only helping: {:?}", ran.out));
            }
        }
        1 => {
            if ran.out.trim() != splr::VERSION {
                cx.fail(format!("dmcr's version is {:?}", ran.out));
            }
        }
        n => {
            let verdict = if bad { "An invalid assignment set for a.cnf" } else { "A valid assignment set for a.cnf" };
            if !plain(&ran.out).starts_with(verdict) {
                return cx.fail(format!("dmcr doesn't read the answer it is given: {:?}", ran.out));
            }
            // resetting isn't colouring
            let coloured = 0 < controls(&ran.out.replace("\x1b[000m", ""), |c| c == 'm');
            if coloured == (n == 2) {
                cx.fail(format!("colours are {} of dmcr: {:?}", if coloured { "in spite" } else { "missing without --no-color" }, ran.out));
            }
        }
    }
}

/// what the flags about output do to the output of the command-line solver
fn shown(cx: &mut Cx, r: &mut Rng) {
    let splr = cx.splr.clone().expect("command-line solver");
    let size = if r.bool() { Size::Tiny } else { Size::Small };
    let f = generate(r, size);
    let dir = fresh(cx, "shown");
    std::fs::write(dir.join("a.cnf"), f.dimacs()).expect("scratch file");
    let (quiet, plain, heat, here) = (r.bool(), r.bool(), r.bool(), r.chance(0.3));
    let mut args: Vec<String> = Vec::new();
    let mut add = |r: &mut Rng, on: bool, short: &str, long: &str| {
        if on {
            args.push(if r.bool() { format!("-{}", short) } else { format!("--{}", long) });
        }
    };
    add(r, quiet, "q", "quiet");
    add(r, plain, "C", "no-color");
    add(r, heat, "H", "heatmap");
    let journal = r.chance(0.3);
    add(r, journal, "j", "journal");
    if here {
        args.push("-r".into());
        args.push("-".into());
    }
    args.push("a.cnf".into());
    cx.witness = format!("{:?}\n{}", args, f.dimacs());
    cx.announce();
    let Some(ran) = run_in(&dir, &splr, &args, None, 20.0) else {
        return cx.unclear("the run took too long");
    };
    cx.nontrivial(crate::rng::hash(cx.witness.as_bytes()));
    cx.count("outputs judged", 1);
    let colours = controls(&ran.out, |c| c == 'm');
    if plain && 0 < colours {
        return cx.fail(format!("colours in spite of --no-color: {:?}", ran.out));
    }
    if quiet {
        // at the terminal nothing but the answer
        let text = ran.out.replace("\x1b[1G", "").replace("\x1b[K", "");
        let lines: Vec<&str> = text.lines().collect();
        if lines.is_empty() || !lines[0].contains("s ") && !lines[0].contains("SATISFIABLE") {
            return cx.fail(format!("the first line in spite of --quiet: {:?}", lines.first()));
        }
        if !here && lines.len() != 1 {
            return cx.fail(format!("{} lines in spite of --quiet: {:?}", lines.len(), text));
        }
        if here {
            if let Some(l) = lines[1..].iter().find(|l| !(l.is_empty() || ["c", "s ", "v "].iter().any(|p| l.starts_with(p)) || l.split_whitespace().all(|w| w.parse::<i32>().is_ok()))) {
                return cx.fail(format!("a line in spite of --quiet: {:?}", l));
            }
        }
    } else if ran.code == Some(10) || ran.code == Some(20) {
        let rows = ran.out.lines().filter(|l| l.trim_start().starts_with("LBD")).count();
        if !heat && 0 < rows {
            return cx.fail("a heatmap nobody asked for");
        }
        if heat && rows == 0 && ran.out.contains("#conflict") {
            return cx.fail("no heatmap in spite of --heatmap");
        }
    }
}

/// the number behind the last `key` in a text
fn field(text: &str, key: &str) -> Option<f64> {
    let at = text.rfind(key)? + key.len();
    let rest = text[at..].trim_start();
    let end = rest.find([',', '\n', ' ']).unwrap_or(rest.len());
    rest[..end].parse().ok()
}

/// P25: the report of the command-line solver
pub fn reported(cx: &mut Cx, r: &mut Rng) {
    let splr = cx.splr.clone().expect("command-line solver");
    let size = match r.below(4) {
        0 => Size::Tiny,
        1 => Size::Small,
        _ => Size::Medium,
    };
    let f = generate(r, size);
    if 20_000 < f.clauses.iter().map(|c| c.len()).sum::<usize>() {
        return;
    }
    let dir = fresh(cx, "report");
    let text = f.dimacs();
    std::fs::write(dir.join("a.cnf"), &text).expect("scratch file");
    cx.witness = format!("c splr with and without -q\n{}", text);
    cx.announce();
    let mut opts: Vec<String> = Vec::new();
    if r.bool() {
        opts.push("-C".into());
    }
    if r.chance(0.3) {
        opts.push("-H".into());
    }
    let mut texts = Vec::new();
    let mut last = String::new();
    for quiet in [true, false] {
        let mut args = opts.clone();
        args.push("-r".into());
        args.push("ans".into());
        if quiet {
            args.push("-q".into());
        }
        args.push("a.cnf".into());
        let Some(ran) = run_in(&dir, &splr, &args, None, 20.0) else {
            return cx.unclear("the run took too long");
        };
        let Ok(t) = std::fs::read_to_string(dir.join("ans")) else {
            return cx.fail(format!("{:?}: no answer file", args));
        };
        texts.push(t);
        last = plain(&ran.out);
    }
    cx.nontrivial(f.hash());
    let shorn: Vec<Vec<&str>> = texts
        .iter()
        .map(|t| t.lines().filter(|l| !l.contains("time:")).collect())
        .collect();
    if let Some((a, b)) = shorn[0].iter().zip(&shorn[1]).find(|(a, b)| a != b) {
        return cx.fail(format!("with --quiet: {:?}, without: {:?}", a, b));
    }
    if shorn[0].len() != shorn[1].len() {
        return cx.fail("with --quiet the answer has another number of lines");
    }
    let t = &texts[1];
    if !t.contains("assign::NumVar") {
        return cx.count("answers without a report", 1);
    }
    // `NumBiClause` isn't `NumBiClauseCompletion`
    let get = |k: &str| field(t, &if k.contains("::") { format!("{} ", k) } else { k.into() }).ok_or_else(|| format!("the report lacks {}", k));
    let same = |k: &str, l: &str| {
        let (a, b) = (get(k)?, get(l)?);
        if a == b { Ok(()) } else { Err(format!("{} {} but {} {}", k, a, l, b)) }
    };
    let judge = || -> Result<(), String> {
        let var = get("#var:")?;
        if var != f.nv as f64 || get("#cls:")? != f.clauses.len() as f64 {
            return Err(format!("#var {}, #cls {} for {} and {}", var, get("#cls:")?, f.nv, f.clauses.len()));
        }
        let (rem, fix, elm) = (get("#rem:")?, get("#fix:")?, get("#elm:")?);
        if rem + fix + elm != var {
            return Err(format!("#rem {} + #fix {} + #elm {} isn't #var {}", rem, fix, elm, var));
        }
        let prg = get("prg%:")?;
        if 0.0 < var && 0.0001 < (prg - 100.0 * (fix + elm) / var).abs() {
            return Err(format!("prg% {} with #fix {}, #elm {} of {}", prg, fix, elm, var));
        }
        same("#var:", "assign::NumVar")?;
        same("#conflict:", "assign::NumConflict")?;
        same("#decision:", "assign::NumDecision")?;
        same("#propagate:", "assign::NumPropagation")?;
        same("LBD2:", "clause::NumLBD2")?;
        same("Remv:", "clause::NumLearnt")?;
        same("BinC:", "clause::NumBiClause")?;
        same("vivC:", "state::VivifiedClause")?;
        if get("Remv:")? + get("Perm:")? != get("clause::NumClause")? {
            return Err("Remv and Perm don't make up the clauses".into());
        }
        // what the progress showed last
        for k in ["#conflict:", "#decision:", "#propagate:", "#rem:", "#fix:", "#elm:", "Remv:", "LBD2:", "BinC:", "Perm:", "#RST:", "vivC:"] {
            let shown = field(&last, k).ok_or_else(|| format!("the progress lacks {}", k))?;
            if shown != get(k)? {
                return Err(format!("{} {} in the progress, {} in the report", k, shown, get(k)?));
            }
        }
        Ok(())
    };
    match judge() {
        Ok(()) => cx.count("reports judged", 1),
        Err(e) => cx.fail(e),
    }
}
