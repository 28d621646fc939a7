//! C20: threads reading one buffer, or several, concurrently never interfere
//!
//! Runs natively (results compared), under ThreadSanitizer and under Miri's race detector.
use mon::exer::{self, Digest};
use mon::gen::*;
use mon::model::*;
use mon::relog;
use mon::rng::{fnv, Rng};
use mon::rt::*;
use mon::ensure;
use matchit::partition_from;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::{ContainedBySearch, TIterator};
use rapiddlt::dlt_v1::{dltit_offset, DltStorageEntry};
use rapiddlt::dltbuffer::DltBuffer;
use std::sync::atomic::{AtomicUsize, Ordering};

#[cfg(feature = "miri-small")]
const TINY: bool = true;
#[cfg(not(feature = "miri-small"))]
const TINY: bool = false;

/// whether a type may be shared between threads, as the compiler says
struct Probe<T>(std::marker::PhantomData<T>);
trait Otherwise {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> Otherwise for &Probe<T> {}
impl<T: Sync> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}
macro_rules! is_sync {
    ($t:ty) => {
        (&Probe::<$t>(std::marker::PhantomData)).sync()
    };
}
/// only used for types that are Sync anyway, or by one thread
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}

/// things shared between the threads: finders and searches prepared once
struct Shared<'b> {
    b: &'b [u8],
    contained: ContainedBySearch<DltStorageEntry<'b>>,
    grep: GrepIterator<'b, DltStorageEntry<'b>>,
    capture: RegExMatcherIterator<'b, DltStorageEntry<'b>>,
    fwd: SearchIterator<'b, DltStorageEntry<'b>>,
    rev: RevSearchIterator<'b, DltStorageEntry<'b>>,
    parts: Vec<&'b [u8]>,
}

/// one thread's work, by its number; the result depends on nothing else
fn work<'b>(s: &Shared<'b>, p: &exer::Plan, what: usize) -> Result<Digest, String> {
    let b = s.b;
    let mut d = Digest::default();
    match what % 6 {
        0 => return exer::all(b, p),
        1 => {
            for q in &s.parts {
                for (o, e) in dltit_offset(q) {
                    exer::storage(&mut d, q, o, &e)?;
                    std::hint::spin_loop();
                }
            }
        }
        2 => {
            for &(a, e) in &p.ranges {
                if let Some((o, e)) = s.contained.contained_by(b, (a, e)) {
                    exer::storage(&mut d, b, o, &e)?;
                }
            }
        }
        3 => {
            for &o in &p.starts {
                if let Some((o, e)) = s.fwd.search(b, o) {
                    exer::storage(&mut d, b, o, &e)?;
                }
                if let Some((o, e)) = s.rev.search(b, o) {
                    exer::storage(&mut d, b, o, &e)?;
                }
            }
        }
        5 if !TINY => {
            // short operations in quick succession
            for _ in 0..(60_000 / (b.len() + 100)).clamp(1, 200) {
                for k in 2..4 {
                    d.add(work(s, p, k)?.h);
                }
            }
        }
        _ => {
            for &o in &p.starts {
                if let Some((o, e)) = s.grep.search(b, o) {
                    exer::storage(&mut d, b, o, &e)?;
                }
                if let Some((o, g)) = s.capture.capture(b, o) {
                    d.add(o as u64);
                    d.add((g.0 as u64) << 32 | g.1 as u64);
                }
            }
        }
    }
    Ok(d)
}

fn main() {
    run("C20", (12_000, 400_000), |c| {
        let mut b = if c.rng.pct(60) {
            let mut st = relog::style(&mut c.rng);
            if TINY {
                st.msgs = 3;
            }
            relog::log(&mut c.rng, &st)
        } else {
            let mut cfg = Cfg::draw(&mut c.rng);
            if TINY {
                cfg.max_segs = 4;
                cfg.big = 0;
            }
            log::<Dlt>(&mut c.rng, &cfg).bytes
        };
        if TINY {
            b.truncate(300);
        }
        c.input(&b);
        if let Ok(n) = std::env::var("MON_CAP") {
            b.truncate(n.parse().unwrap());
        }
        // buffers as the library hands them out: one, or further ones of the same length
        let mut logs = vec![b.clone()];
        while logs.len() < 4 && c.rng.pct(if TINY { 20 } else { 35 }) {
            let mut v = another::<Dlt>(&mut c.rng, &b);
            if c.rng.pct(70) {
                let k = c.rng.below(v.len() + 1);
                v.rotate_left(k);
            }
            logs.push(v);
        }
        c.ev(if logs.len() > 1 { "runs on several buffers" } else { "runs on one buffer" }, 1);
        let bufs: Vec<DltBuffer> = logs.into_iter().map(DltBuffer::Read).collect();
        let plans: Vec<exer::Plan> = bufs.iter().map(|x| exer::plan(&mut c.rng, x.as_slice(), true)).collect();
        let num = c.rng.range(1, 8);
        let prepare_one = |bytes| Shared {
            b: bytes,
            contained: ContainedBySearch::new(),
            grep: GrepIterator::new(if TINY { "World" } else { "H.* World" }, bytes, 0),
            capture: RegExMatcherIterator::new(if TINY { "(W)" } else { "key=([0-9]*);" }, bytes, 0),
            fwd: SearchIterator::new(bytes, 0),
            rev: RevSearchIterator::new(bytes, 0),
            parts: partition_from::<DltStorageEntry>(bytes, num),
        };
        let prepare = || bufs.iter().map(|x| prepare_one(x.as_slice())).collect::<Vec<Shared<'_>>>();
        let sh = prepare();
        // iterators that the compiler lets threads share are shared half of the time
        let sync = is_sync!(Shared<'static>);
        let share = sync && c.rng.pct(50);
        c.ev(if share { "runs with shared searches" } else { "runs with searches of each thread" }, 1);
        let nt = if TINY { 2 } else if c.n % 97 == 5 { c.rng.range(9, 70) } else { c.rng.range(2, 8) };
        let jobs: Vec<usize> = (0..nt * if TINY { 2 } else { 3 }).map(|_| c.rng.below(if TINY { 5 } else { 6 })).collect();
        let jobs: Vec<usize> = if TINY { jobs.into_iter().map(|j| if j == 0 && c.n % 8 > 0 { 1 } else { j }).collect() } else { jobs };
        // several threads at the same operation, or anything
        let all = if !TINY && c.rng.pct(20) { Some(c.rng.range(2, 5)) } else { None };
        let jobs: Vec<usize> = jobs.into_iter().map(|j| all.unwrap_or(j)).collect();
        let jobs: Vec<(usize, usize)> = jobs.into_iter().map(|j| (c.rng.below(bufs.len()), j)).collect();
        // what a single thread gets
        let mut want = vec![];
        for &(w, j) in &jobs {
            want.push(work(&sh[w], &plans[w], j)?.h);
        }
        let seed = c.rng.u64();
        let shared = Share(sh);
        let started = AtomicUsize::new(0);
        let next = AtomicUsize::new(0);
        let order = std::sync::Mutex::new(vec![]);
        let got: Vec<Result<Vec<(usize, u64)>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nt)
                .map(|t| {
                    let (shared, prepare, plans, jobs, started, next, order) = (&shared, &prepare, &plans, &jobs, &started, &next, &order);
                    s.spawn(move || {
                        let mut rng = Rng::new(seed, 20, t as u64);
                        // all start together
                        started.fetch_add(1, Ordering::SeqCst);
                        while started.load(Ordering::SeqCst) < nt {
                            std::thread::yield_now();
                        }
                        let mut r = vec![];
                        let own = if share { None } else { Some(prepare()) };
                        let sh = own.as_ref().unwrap_or_else(|| &(*shared).0);
                        loop {
                            let k = next.fetch_add(1, Ordering::SeqCst);
                            if k >= jobs.len() {
                                break;
                            }
                            for _ in 0..rng.below(if TINY { 2 } else { 50 }) {
                                std::hint::spin_loop();
                            }
                            let (w, j) = jobs[k];
                            r.push((k, work(&sh[w], &plans[w], j)?.h));
                            if TINY || rng.pct(50) {
                                std::thread::yield_now();
                            }
                            order.lock().unwrap().push((t, k));
                        }
                        Ok(r)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        });
        let mut n = 0;
        for g in got {
            for (k, h) in g? {
                ensure!(h == want[k], "job {} (kind {}, buffer {} of {}) of {} threads has another result than by itself", k, jobs[k].1, jobs[k].0, bufs.len(), nt);
                n += 1;
            }
        }
        ensure!(n == jobs.len(), "{} results of {} jobs", n, jobs.len());
        // moving the buffer between threads
        if c.rng.pct(20) {
            let num = c.rng.range(1, 5);
            let w = partition_from::<DltStorageEntry>(&b, num).len();
            let buf = bufs.into_iter().next().unwrap();
            let m = std::thread::spawn(move || buf.partition::<DltStorageEntry>(num).len()).join();
            ensure!(m.ok() == Some(w), "partitions of a moved buffer");
            c.ev("buffers moved to another thread", 1);
        }
        let o = order.into_inner().unwrap();
        let by: Vec<u8> = o.iter().flat_map(|x| [x.0 as u8, x.1 as u8]).collect();
        c.seen("distinct orders of completion", fnv(&by));
        c.ev("jobs on threads", n);
        c.ev("switches between threads", o.windows(2).filter(|w| w[0].0 != w[1].0).count());
        c.judged((!b.is_empty()).then(|| fnv(&b) ^ fnv(&by)));
        c.sample(|| format!("{} bytes, {} threads, jobs {:?}, completed (thread, job) {:?}", b.len(), nt, jobs, o));
        Ok(())
    })
}
