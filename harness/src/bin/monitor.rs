//! One worker: `monitor <property> --seed N --start I --step K --seconds S [--only I] [--count N]`
use splr_monitor::{ctx::Cx, props, run};
use std::path::PathBuf;
use std::time::Instant;

fn main() {
    #[cfg(not(feature = "no_io"))]
    splr_monitor::opts::probe();
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    let (mut seed, mut start, mut step, mut seconds, mut only, mut count) =
        (1u64, 0u64, 1u64, 10.0f64, None, u64::MAX);
    let mut tmp = std::env::temp_dir();
    let (mut splr, mut dmcr) = (None, None);
    let (mut thorough, mut dump) = (false, false);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--seed" => seed = v().parse().unwrap(),
            "--start" => start = v().parse().unwrap(),
            "--step" => step = v().parse().unwrap(),
            "--seconds" => seconds = v().parse().unwrap(),
            "--only" => only = Some(v().parse::<u64>().unwrap()),
            "--count" => count = v().parse().unwrap(),
            "--tmp" => tmp = PathBuf::from(v()),
            "--splr" => splr = Some(PathBuf::from(v())),
            "--dmcr" => dmcr = Some(PathBuf::from(v())),
            "--thorough" => thorough = true,
            "--dump" => dump = true,
            x => panic!("unknown argument {}", x),
        }
    }
    run::install_panic_hook();
    let mut cx = Cx::new(&prop, seed, thorough, tmp);
    cx.splr = splr;
    cx.dmcr = dmcr;
    cx.dump = dump;
    if let Some(i) = only {
        cx.begin(i);
        props::case(&mut cx, i);
        cx.end();
        cx.done();
        return;
    }
    let t = Instant::now();
    let mut i = start;
    let mut last = 0.0;
    let mut n = 0;
    while t.elapsed().as_secs_f64() < seconds && n < count {
        cx.begin(i);
        props::case(&mut cx, i);
        cx.end();
        i += step;
        n += 1;
        let e = t.elapsed().as_secs_f64();
        if 1.0 < e - last {
            last = e;
            cx.flush_stats();
        }
        if 3 <= cx.violations {
            break;
        }
    }
    cx.done();
}
