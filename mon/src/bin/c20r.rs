//! C20: the parallel commands of ripdlt, built with ThreadSanitizer
use mon::cli::{self, Opt};
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::relog;
use mon::reports;
use mon::rng::fnv;
use mon::rt::*;

/// Where an access was made: the first frame outside of the standard library.
fn ours(stack: &[&str]) -> bool {
    stack.iter().find(|f| f.contains('/') && !f.contains("/rust/library/") && !f.contains("/rustc/") && !f.contains("sanitizer")).is_some_and(|f| f.contains("/repo/"))
}
/// reports of which at least one access was made by the code under test
fn races(err: &str) -> (usize, Vec<String>) {
    let mut all = 0;
    let mut r = vec![];
    for block in err.split("==================").filter(|b| b.contains("WARNING: ThreadSanitizer")) {
        all += 1;
        // stacks are separated by empty lines
        let mut hit = false;
        for para in block.split("\n\n").take(2) {
            let frames: Vec<&str> = para.lines().map(|l| l.trim()).filter(|l| l.starts_with('#')).collect();
            hit |= ours(&frames);
        }
        if hit {
            r.push(block.trim().lines().take(30).collect::<Vec<_>>().join("\n"));
        }
    }
    (all, r)
}

fn main() {
    run("C20", (300, 6_000), |c| {
        let mut b = if c.rng.pct(80) {
            let mut st = relog::style(&mut c.rng);
            st.msgs = st.msgs.max(30);
            relog::log(&mut c.rng, &st)
        } else {
            let cfg = Cfg::draw(&mut c.rng);
            log::<Dlt>(&mut c.rng, &cfg).bytes
        };
        if b.is_empty() {
            b.push(0);
        }
        b = b.repeat(1 + c.rng.below(20_000 / b.len() + 1));
        b.truncate(60_000);
        c.input(&b);
        let file = cli::scratch_file("c20r");
        cli::write(&file, &b);
        let f = file.to_str().unwrap();
        let n_msgs = seq::<Dlt>(&b, 0).len();
        let have = cli::cpus();
        for cmd in reports::PARALLEL {
            let mut o = Opt { tsan: true, cpus: Some(c.rng.range(2.min(have), have)), ..Opt::default() };
            if c.rng.pct(30) {
                o.env.push(("RAYON_NUM_THREADS".into(), c.rng.range(2, 16).to_string()));
            }
            let m = *c.rng.pick(&["mmap", "read"]);
            c.note(format!("ripdlt {} {} under ThreadSanitizer, {:?} CPUs {:?}", m, cmd, o.cpus, o.env));
            let r = cli::run("ripdlt", &[m, cmd, f], None, &o);
            let e = String::from_utf8_lossy(&r.stderr);
            if e.contains("FATAL: ThreadSanitizer") {
                cli::die(&e);
            }
            let (all, ours) = races(&e);
            if let Some(x) = ours.first() {
                return Err(format!("{}: {} data races, {} of them in the code under test:\n{}", cmd, all, ours.len(), x));
            }
            ensure!(r.signal.is_none() && (r.ok() || all > 0 && r.code == Some(66)), "{}: {}", cmd, r.describe());
            if *cmd == "par_count" {
                let l = r.lines();
                let n = l.iter().find(|x| !x.starts_with("available")).and_then(|x| x.split(' ').next()?.parse::<usize>().ok());
                ensure!(n == Some(n_msgs), "par_count: {:?} instead of {}", l, n_msgs);
            }
            c.ev("parallel commands under ThreadSanitizer", 1);
            c.ev("reports inside third-party code (not judged)", all);
            c.seen("command x CPUs x threads", fnv(format!("{} {:?} {:?}", cmd, o.cpus, o.env).as_bytes()));
            c.judged((n_msgs > 1).then(|| fnv(&b) ^ fnv(cmd.as_bytes())));
        }
        let _ = std::fs::remove_file(&file);
        Ok(())
    })
}
