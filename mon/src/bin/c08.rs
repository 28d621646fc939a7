//! C08: processing partitions in parallel gives the sequential result
use matchit::partition_from;
use mon::hints;
use mon::cli::{self, Opt};
use mon::gen::*;
use mon::model::*;
use mon::rec::Observe;
use mon::relog;
use mon::reports::{self, *};
use mon::rng::{fnv, Rng};
use mon::rt::*;
use mon::ensure;
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltStorageEntry};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

/// Threads take partitions in a prescribed random order and read them while the others do, too:
/// a step gate lets a random thread go on after each message, so that readings interleave.
fn threads(c: &mut Case) -> Res {
    let b: Vec<u8> = if c.rng.pct(50) {
        let cfg = Cfg::draw(&mut c.rng);
        log::<Dlt>(&mut c.rng, &cfg).bytes
    } else {
        let st = relog::style(&mut c.rng);
        relog::log(&mut c.rng, &st)
    };
    c.input(&b);
    let want = seq::<Dlt>(&b, 0);
    let num = match c.rng.below(3) {
        0 => c.rng.range(1, 9),
        1 => c.rng.range(1, 64),
        _ => c.rng.range(1, 2 * want.len() + 2),
    };
    let parts = partition_from::<DltStorageEntry>(&b, num);
    c.note(format!("{} partitions ({} requested) of {} bytes", parts.len(), num, b.len()));
    // sequentially, partition by partition
    let mut all = vec![];
    let base = b.as_ptr() as usize;
    for p in &parts {
        let o = p.as_ptr() as usize - base;
        for (x, n) in drain(p, "partition", dltit_offset(p))? {
            all.push((x + o, n));
        }
    }
    same(&format!("messages of {} partitions one after the other", parts.len()), &all, &want)?;
    // on threads
    let nt = c.rng.range(2, 4);
    let mut order: Vec<usize> = (0..parts.len()).collect();
    c.rng.shuffle(&mut order);
    let next = AtomicUsize::new(0);
    let trace = Mutex::new((vec![], Rng::new(c.rng.u64(), 1, 1)));
    let cv = Condvar::new();
    let found: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..nt {
            let (order, parts, next, trace, found, cv) = (&order, &parts, &next, &trace, &found, &cv);
            s.spawn(move || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= order.len() {
                    break;
                }
                let p = parts[order[k]];
                let mut mine = vec![];
                let mut it = dltit(p);
                loop {
                    let m = it.next();
                    {
                        let mut g = trace.lock().unwrap();
                        g.0.push((t as u64) << 32 | order[k] as u64);
                        if g.1.pct(30) {
                            // let another thread go first, if there is one
                            let _ = cv.wait_timeout(g, std::time::Duration::from_micros(20)).unwrap();
                        } else {
                            cv.notify_all();
                        }
                    }
                    match m {
                        Some(e) => mine.push((e.addr() - base, e.size())),
                        None => break,
                    }
                    if mine.len() > p.len() {
                        break;
                    }
                }
                found.lock().unwrap().extend(mine);
            });
        }
    });
    let mut f = found.into_inner().unwrap();
    f.sort();
    same(&format!("messages of {} partitions read by {} threads", parts.len(), nt), &f, &want)?;
    let tr = trace.into_inner().unwrap().0;
    let bytes: Vec<u8> = tr.iter().flat_map(|x| x.to_le_bytes()).collect();
    c.ev("reads on threads", tr.len());
    c.ev("switches between threads", tr.windows(2).filter(|w| w[0] >> 32 != w[1] >> 32).count());
    c.seen("distinct interleavings", fnv(&bytes));
    c.judged((want.len() > 1).then(|| fnv(&b) ^ num as u64));
    if want.len() > 1 {
        c.sample(|| format!("{} bytes, {} messages, {} partitions, {} threads, first reads (thread:partition) {:?}", b.len(), want.len(), parts.len(), nt, tr.iter().take(12).map(|x| format!("{}:{}", x >> 32, x & 0xffff_ffff)).collect::<Vec<_>>()));
    }
    Ok(())
}

fn sum_hist(a: &mut Hist, b: Hist) {
    for (k, v) in b {
        *a.entry(k).or_insert(0) += v;
    }
}

/// the parallel commands of ripdlt against their sequential counterparts
fn commands(c: &mut Case) -> Res {
    let mut st = relog::style(&mut c.rng);
    st.msgs = st.msgs.max(30);
    let mut b = relog::log(&mut c.rng, &st);
    if c.rng.pct(20) {
        let cfg = Cfg::draw(&mut c.rng);
        b = log::<Dlt>(&mut c.rng, &cfg).bytes;
    }
    if b.is_empty() {
        b.push(0);
    }
    if c.rng.hinted() && c.rng.raw(4) == 0 {
        // that many bytes, that many messages, or that many times
        if let Some(k) = hints::size(&mut c.rng, 3_000_000) {
            let m = seq::<Dlt>(&b, 0).len().max(1);
            let n = *c.rng.pick(&[k / b.len() + 1, k / m + 1, k]);
            b = b.repeat(n.max(1).min(3_000_000 / b.len() + 1));
        }
    }
    // large enough for the threads to be busy at the same time
    match c.rng.below(20) {
        0 => {
            // more messages than 16 bits count
            b.truncate(seq::<Dlt>(&b, 0).first().map_or(1, |m| m.0 + m.1.min(100)));
            let n = ((66_000 + c.rng.below(8000)).min(6_000_000 / b.len())).max(1);
            b = b.repeat(n);
            c.ev("logs with a huge number of messages", 1);
        }
        1..=4 => {
            b = b.repeat(1 + c.rng.below(1_500_000 / b.len()));
            c.ev("large logs", 1);
        }
        _ => {}
    }
    c.input(&b);
    let file = cli::scratch_file("c08");
    mon::cli::write(&file, &b);
    let f = file.to_str().unwrap();
    let s = seq::<Dlt>(&b, 0);
    let clean = relog::is_clean::<Dlt>(&b, &s);
    // raw matches are only tied to messages if there is nothing else
    let tight = clean && s.iter().map(|m| m.1).sum::<usize>() == b.len();
    let have = cli::cpus();
    let mut cpus = vec![c.rng.range(1, have), c.rng.range(1, have)];
    if c.rng.pct(30) {
        cpus.push(1);
    }
    for n in cpus {
        let mut o = Opt { cpus: Some(n), ..Opt::default() };
        if c.rng.pct(50) {
            o.env.push(("RAYON_NUM_THREADS".into(), c.rng.range(1, 12).to_string()));
        }
        let m = *c.rng.pick(&["mmap", "read"]);
        let parts = partition_from::<DltStorageEntry>(&b, n);
        for cmd in reports::PARALLEL {
            if !c.rng.pct(60) {
                continue;
            }
            let seq_cmd = &cmd[4..];
            let p = cli::run("ripdlt", &[m, cmd, f], None, &o);
            c.note(format!("ripdlt {} {} on {} CPUs {:?}", m, cmd, n, o.env));
            ensure!(p.ok(), "{}: {}", cmd, p.describe());
            let mut got = p.lines();
            got.retain(|l| !l.starts_with("available parallelism"));
            c.ev("parallel commands", 1);
            c.seen("command x CPUs x threads", fnv(format!("{} {} {:?}", cmd, n, o.env).as_bytes()));
            match *cmd {
                "par_count" | "par_count_hello_world" => {}
                "par_count_hello_world_grepit" if clean => {}
                "par_count_hello_world_raw" if tight => {}
                "par_split_timestamp" => {
                    // the sum over the partitions
                    let mut want = Split::new();
                    for p in &parts {
                        for (k, v) in split_timestamp(&messages(p)) {
                            let e = want.entry(k).or_default();
                            sum_hist(&mut e.0, v.0);
                            e.1 += v.1;
                        }
                    }
                    let mut w = vec![CONT.to_string()];
                    w.extend(print_split(&want));
                    ensure!(got == w, "{}: {:?} instead of {:?}", cmd, got, w);
                    // messages per ECU: as the sequential command
                    let q = cli::run("ripdlt", &[m, seq_cmd, f], None, &Opt::default());
                    ensure!(q.ok(), "{}: {}", seq_cmd, q.describe());
                    let per = |l: &[String]| -> Vec<(String, String)> {
                        l.iter().filter_map(|x| x.split_once(" #lifecycles: ")).map(|(k, v)| (k.to_string(), v.rsplit(", ").next().unwrap_or("").to_string())).collect()
                    };
                    ensure!(per(&got) == per(&q.lines()), "{}: messages per ECU {:?}, sequentially {:?}", cmd, per(&got), per(&q.lines()));
                    c.ev("compared with the sequential command", 1);
                    continue;
                }
                "par_histogram_timestamp" => {
                    let mut want = Hist::new();
                    for p in &parts {
                        sum_hist(&mut want, hist_timestamp(&messages(p)));
                    }
                    let mut w = vec![CONT.to_string()];
                    w.extend(print_secs(&want));
                    ensure!(got == w, "{}: {:?} instead of {:?}", cmd, got, w);
                    continue;
                }
                "par_iter" => {
                    let mut want: Vec<String> = parts.iter().map(|p| format!("{} lifecycles >= 1800s", lifecycles(&messages(p)))).collect();
                    want.sort();
                    got.sort();
                    ensure!(got == want, "{}: {:?} instead of {:?} (in any order)", cmd, got, want);
                    continue;
                }
                _ => continue,
            }
            let q = cli::run("ripdlt", &[m, seq_cmd, f], None, &Opt::default());
            ensure!(q.ok(), "{}: {}", seq_cmd, q.describe());
            // the number is what counts
            let num = |l: &[String]| -> Option<usize> { l.first()?.split(' ').next()?.parse().ok() };
            ensure!(num(&got).is_some() && num(&got) == num(&q.lines()), "{} reports {:?} on {} CPUs, {} reports {:?}", cmd, got, n, seq_cmd, q.lines());
            if *cmd == "par_count" {
                ensure!(num(&got) == Some(s.len()), "{}: {:?} instead of {}", cmd, got, s.len());
            }
            c.ev("compared with the sequential command", 1);
        }
    }
    let _ = std::fs::remove_file(&file);
    c.judged((s.len() > 1).then(|| fnv(&b)));
    Ok(())
}

fn main() {
    // for C20: only what runs threads in ripdlt
    let only = std::env::var("MON_ONLY").is_ok();
    run("C08", (40_000, 1_000_000), move |c| if only || c.n % 20 == 0 { commands(c) } else { threads(c) })
}
