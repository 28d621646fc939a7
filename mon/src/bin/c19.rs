//! C19: ripdlt completes every report on every readable file
use mon::hints;
use mon::cli::{self, Opt};
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::relog;
use mon::reports::{PARALLEL, SEQUENTIAL};
use mon::rng::fnv;
use mon::rt::*;

fn file(c: &mut Case) -> (Vec<u8>, &'static str) {
    let rng = &mut c.rng;
    let (b, k): (Vec<u8>, &'static str) = match c.n % 14 {
        0 => {
            let n = rng.below(60);
            (rng.bytes(n), "few random bytes")
        }
        1 => {
            let n = rng.below(300_000);
            (rng.bytes(n), "many random bytes")
        }
        2 => {
            let n = rng.range(1, 80_000);
            let x = filler::<Dlt>(rng, n);
            (x, "no messages")
        }
        3 => {
            // all flags with bodies around the lengths they need
            let mut v = vec![];
            for _ in 0..rng.range(1, 60) {
                let n = rng.below(32);
                let mut h = Dlt::header(rng, Dlt::MIN + n);
                h[16] = rng.u8();
                let x = rng.bytes(n);
                h.extend(x);
                v.extend(h);
            }
            let k = rng.below(10);
            let n = v.len();
            v.truncate(n - k);
            (v, "short messages of all flags")
        }
        4 => {
            let mut v = vec![];
            let n = rng.range(20, 3000);
            let h = Dlt::header(rng, Dlt::MIN + rng.clone().below(200));
            for _ in 0..n {
                v.extend(&h);
            }
            (v, "chain of overlapping entries")
        }
        5 => {
            let mut v = vec![];
            for _ in 0..rng.range(1, 20_000) {
                v.extend(Dlt::MARKER);
            }
            (v, "markers only")
        }
        6 => {
            let mut v = vec![];
            for _ in 0..rng.range(1, 5000) {
                v.extend(b"Hello World");
                if rng.pct(5) {
                    v.extend(Dlt::MARKER);
                }
            }
            (v, "matches outside of messages")
        }
        12 => (mass::<Dlt>(rng, 70_000, false).bytes, "one thing repeated"),
        13 => {
            // the same few messages again and again
            let mut st = relog::style(rng);
            st.msgs = 10;
            let b = relog::log(rng, &st);
            let k = *rng.pick(&[300, 1100, 5000, 20_000, 70_000]);
            let k = if rng.hinted() { hints::size(rng, 1_000_000).unwrap_or(k) } else { k };
            (b.repeat(k.min(2_000_000 / (b.len() + 1))), "a log repeated")
        }
        7 | 8 => {
            let cfg = Cfg::draw(rng);
            (log::<Dlt>(rng, &cfg).bytes, "hostile log")
        }
        _ => {
            let st = relog::style(rng);
            let mut b = relog::log(rng, &st);
            for _ in 0..rng.below(4) {
                mutate(rng, &mut b);
            }
            (b, "mutated log")
        }
    };
    if b.is_empty() {
        (vec![rng.u8()], k)
    } else {
        (b, k)
    }
}

/// the number of lines a finished report has at least, and how its last one starts
fn finished(cmd: &str, l: &[String]) -> bool {
    let last = l.last().map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "histogram_payload_size" => last.starts_with("Payload in total: ") && last.ends_with(" kB"),
        "histogram_message_size" => last.starts_with("DLT messages in total: ") && last.ends_with(" kB"),
        c if c.contains("count") => {
            let (n, w) = last.split_once(' ').unwrap_or(("", ""));
            n.parse::<usize>().is_ok() && !w.is_empty()
        }
        "iter" | "itertools" | "par_iter" => last.ends_with(" lifecycles >= 1800s"),
        _ => !l.is_empty(),
    }
}

fn main() {
    run("C19", (5_000, 150_000), |c| {
        let (b, kind) = file(c);
        c.input(&b);
        let (path, dir) = cli::named_file(&mut c.rng, "c19");
        c.seen("file names", fnv(path.file_name().unwrap().as_encoded_bytes()));
        cli::write(&path, &b);
        let f = path.to_str().unwrap();
        let have = cli::cpus();
        let cmds: Vec<&str> = SEQUENTIAL.iter().chain(PARALLEL).copied().collect();
        let few = c.rng.pct(70);
        let n_msgs = seq::<Dlt>(&b, 0).len();
        for cmd in cmds {
            if few && c.rng.pct(50) {
                continue;
            }
            let m = *c.rng.pick(&["mmap", "read"]);
            let mut o = Opt { dev: c.rng.pct(40), ..Opt::default() };
            if cmd.starts_with("par_") {
                o.cpus = Some(c.rng.range(1, have));
                if c.rng.pct(30) {
                    o.env.push(("RAYON_NUM_THREADS".into(), c.rng.range(1, 16).to_string()));
                }
            }
            c.note(format!("ripdlt {} {} on {} ({} bytes), {:?} CPUs, {} build", m, cmd, kind, b.len(), o.cpus, if o.dev { "unoptimised" } else { "optimised" }));
            let mut f = f;
            if c.rng.pct(20) {
                o.cwd = path.parent().map(|p| p.to_path_buf());
                f = path.file_name().unwrap().to_str().unwrap();
            }
            let r = cli::run("ripdlt", &[m, cmd, f], None, &o);
            ensure!(r.ok(), "{} {}: {}", m, cmd, r.describe());
            let mut l = r.lines();
            l.retain(|x| !x.starts_with("available parallelism"));
            ensure!(finished(cmd, &l), "{} {}: exits with 0, but prints only {:?}", m, cmd, l);
            c.ev(if o.dev { "reports by the unoptimised build" } else { "reports by the optimised build" }, 1);
            c.seen("report x access x CPUs x build", fnv(format!("{} {} {:?} {}", m, cmd, o.cpus, o.dev).as_bytes()));
            c.ev("lines printed", l.len());
        }
        let _ = std::fs::remove_dir_all(&dir);
        c.ev(&format!("files: {}", kind), 1);
        c.ev("messages in the files", n_msgs);
        c.judged(Some(fnv(&b)));
        c.sample(|| format!("{}, {} bytes, {} messages: {}", kind, b.len(), n_msgs, hexs(&b, 60)));
        Ok(())
    })
}
