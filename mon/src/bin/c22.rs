//! C22: the memory in use does not grow with the log
//!
//! Every operation runs on an input and on many copies of it, under an allocator that counts: what
//! it holds at its peak has to be the same, however many copies there are. The reports of the real
//! ripdlt on mapped files run within a limit on the memory they may write to, which a file of a
//! few hundred kB needs as well.
use matchit::fromgenerator::FromAdaptFnCall;
use matchit::generator::adapter::AdapterTrait;
use matchit::generator::generator::Generator;
use matchit::generator::reducer::ReducerTrait;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::{partition_from, ContainedBySearch, FromBytesReadableTrait, NoOffsetIterator, TIterator};
use mon::cli::{self, Opt};
use mon::ensure;
use mon::hostile::hostile;
use mon::relog;
use mon::reports::*;
use mon::rng::{fnv, Rng};
use mon::rt::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::dltbuffer::DltBuffer;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hint::black_box;

struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        if n > 0 {
            let _ = CALLS.try_with(|c| c.set(c.get() + 1));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// most bytes in use while f runs, beyond those in use before, and bytes it has not given back
fn peak(f: &mut dyn FnMut()) -> (usize, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    f();
    ((PEAK.with(|p| p.get()) - base).max(0) as usize, (LIVE.with(|l| l.get()) - base).max(0) as usize)
}

/// what may be used in addition on any input
const SLACK: usize = 128 << 10;
/// what may be kept by an operation that has run before
const KEPT: usize = 1 << 10;

fn drain<T>(it: impl Iterator<Item = T>) -> usize {
    let mut n = 0;
    for x in it {
        black_box(&x);
        n += 1;
    }
    n
}

type Op<'a> = (String, Box<dyn Fn(&'a [u8]) -> usize + 'a>);

fn on_buffers<'a>(rng: &mut Rng, text: bool) -> Vec<Op<'a>> {
    type E<'a> = DltStorageEntry<'a>;
    let mut v: Vec<Op<'a>> = vec![
        ("sequential reading".into(), Box::new(|b| drain(<ReadFallbackIterator<E> as TIterator>::new(b, 0)))),
        ("strict reading".into(), Box::new(|b| drain(ReadIterator::<E>::new(b, 0)))),
        ("forward search".into(), Box::new(|b| drain(SearchIterator::<E>::new(b, 0)))),
        ("reverse search".into(), Box::new(|b| drain(RevSearchIterator::<E>::new(b, b.len())))),
    ];
    let pats: &[&str] = &["Hello World", "Hello", "(?s-u)x", "H", "key=([0-9]+);", "(?-u:\\x01)", "()", "(?s-u)."];
    let caps: &[&str] = &["key=([0-9]+);", "(H)ello", "()", "(?s-u)(.)", "(x)|H", "(D)LT", "(L)"];
    let far: &[&str] = &["H.* World", "(?s-u)H.*d", "(?s-u)H.*Z", "o.* H", "H.*?Z"];
    let farc: &[&str] = &["(H).* World", "(?s-u)(H).*Z", "H(.*)Z", "H.*(Z)?"];
    let on = text && rng.pct(50);
    let p = *rng.pick(if on { far } else { pats });
    v.push((format!("pattern search for {:?}", p), Box::new(move |b| drain(GrepIterator::<E>::new(p, b, 0)))));
    let p = *rng.pick(if on { farc } else { caps });
    v.push((format!("capture search for {:?}", p), Box::new(move |b| drain(RegExMatcherIterator::<E>::new(p, b, 0)))));
    let at = rng.below(1000);
    v.push(("containment search".into(), Box::new(move |b| {
        let s = ContainedBySearch::<E>::new();
        let step = 1 + b.len() / 60;
        (at % step + 1..=b.len()).step_by(step).filter(|a| s.contained_by(b, (a - 1, *a)).is_some()).count()
    })));
    let k = rng.range(1, 60);
    v.push((format!("{} partitions", k), Box::new(move |b| partition_from::<E>(b, k).len())));
    v
}

fn messages_of<'a>(b: &'a [u8]) -> impl Iterator<Item = DltStorageEntry<'a>> {
    NoOffsetIterator::new(<ReadFallbackIterator<DltStorageEntry> as TIterator>::new(b, 0))
}

/// pipelines fed with the messages
fn pipelines<'a>() -> Vec<Op<'a>> {
    fn all<R: ReducerTrait>(mut r: R, it: impl Iterator<Item = R::Input>) -> usize {
        for x in it {
            r.next(x);
        }
        black_box(&r.finalize());
        1
    }
    type E<'a> = DltStorageEntry<'a>;
    let ge = |a: &u64, b: &u64| b >= a;
    vec![
        ("count".into(), Box::new(|b: &'a [u8]| all(Generator::<E>::count(), messages_of(b)))),
        ("map, filter, sum".into(), Box::new(|b: &'a [u8]| all(Generator::map(|e: &E| e.len()).filter(|n: &usize| n % 2 == 0).sum(), messages_of(b)))),
        ("group, split".into(), Box::new(move |b: &'a [u8]| all(Generator::map(|e: &E| e.len() as u64).groupby(ge).split(|r: &(u64, u64)| r.1 - r.0, |_| Generator::count()), messages_of(b)))),
        ("fork".into(), Box::new(move |b: &'a [u8]| {
            all(Generator::fork(Generator::map(|e: &E| e.len() as u64).groupby(ge).count(), Generator::<E>::fold(0u64, |a: u64, e: E| a.max(e.len() as u64))), messages_of(b))
        })),
        ("group, merge".into(), Box::new(move |b: &'a [u8]| {
            let union = |a: &(u64, u64), b: &(u64, u64)| (a.0 <= b.1 && b.0 <= a.1).then(|| (a.0.min(b.0), a.1.max(b.1)));
            all(Generator::map(|e: &E| e.len() as u64).groupby(ge).merge(union, |r: &(u64, u64)| *r).count(), messages_of(b))
        })),
        ("iterator, group, split".into(), Box::new(move |b: &'a [u8]| {
            FromAdaptFnCall::split(FromAdaptFnCall::groupby(messages_of(b).map(|e| e.len() as u64), ge), |r: &(u64, u64)| r.1 % 8, |_| Generator::count()).len()
        })),
    ]
}

fn compare<'a>(c: &mut Case, kind: &str, ops: Vec<Op<'a>>, one: &'a [u8], many: &'a [u8]) -> Res {
    for (what, f) in ops {
        c.note(format!("{} on {} ({} bytes) and on {} copies", what, kind, one.len(), many.len() / one.len()));
        let name = what.split(" for ").next().unwrap_or("").to_string();
        let name = if name.ends_with("partitions") { "partitioning".to_string() } else { name };
        let (mut n, mut m) = (0, 0);
        let (a, _) = peak(&mut || n = f(one));
        let calls = CALLS.with(|c| c.get());
        let (z, kept) = peak(&mut || m = f(many));
        c.ev("allocations counted", CALLS.with(|c| c.get()) - calls);
        c.max(&format!("bytes in use, {}", name), z);
        c.max(&format!("results, {}", name), m);
        ensure!(z <= 2 * a + SLACK, "{}: {} bytes in use on {} bytes of {}, {} on {} copies", what, a, one.len(), kind, z, many.len() / one.len());
        ensure!(kept <= KEPT, "{}: {} bytes are not given back after {} copies of {}", what, kept, many.len() / one.len(), kind);
        c.max("bytes kept", kept);
        c.ev("pairs of runs compared", 1);
        c.seen("operation x input", fnv(format!("{} {}", name, kind).as_bytes()));
        c.judged((m > n).then(|| fnv(one) ^ fnv(what.as_bytes())));
    }
    Ok(())
}

fn inside(c: &mut Case) -> Res {
    let n = c.rng.range(96 << 10, 200 << 10);
    let (one, kind) = if c.rng.pct(30) {
        let mut v = vec![];
        while v.len() < n {
            let st = relog::style(&mut c.rng);
            v.extend(relog::log(&mut c.rng, &st));
            v.push(0);
        }
        (v, "a mixed log with fields")
    } else {
        hostile(&mut c.rng, n)
    };
    let many = one.repeat(16);
    c.input(&one);
    let mut rng = Rng::new(c.rng.u64(), 22, c.n);
    // a boundary between copies may join entries: nothing is said about what is found there
    compare(c, kind, on_buffers(&mut rng, kind.contains("text")), &one, &many)?;
    compare(c, kind, pipelines(), &one, &many)?;
    c.sample(|| format!("{} bytes of {} against 16 copies: {} operations", one.len(), kind, 14));
    Ok(())
}

/// mapping a file takes no memory of its size
fn mapped(c: &mut Case) -> Res {
    let p = cli::scratch_file("c22m");
    let f = std::fs::File::create(&p).unwrap_or_else(|_| cli::die("file"));
    let mut a = vec![];
    for n in [100_000u64, 40_000_000] {
        f.set_len(n).unwrap_or_else(|_| cli::die("file"));
        let mut l = 0;
        a.push(peak(&mut || l = DltBuffer::mmap_file(p.to_str().unwrap()).map_or(0, |b| b.len())));
        ensure!(l as u64 == n, "mapping {} bytes gives {}", n, l);
    }
    let _ = std::fs::remove_file(&p);
    ensure!(a[1].0 <= 2 * a[0].0 + SLACK, "mapping 100000 bytes takes {} bytes of memory, mapping 40000000 takes {}", a[0].0, a[1].0);
    ensure!(a[1].1 <= KEPT, "mapping 40000000 bytes does not give back {} bytes", a[1].1);
    c.ev("mapped files", 1);
    c.judged(Some(1));
    Ok(())
}

/// the real reports within a limit of memory
fn reports(c: &mut Case) -> Res {
    let mut one = vec![];
    let most = c.rng.range(200_000, 600_000);
    while one.len() < most {
        let st = relog::style(&mut c.rng);
        one.extend(relog::log(&mut c.rng, &st));
    }
    c.input(&one);
    let big = if c.thorough { 400 << 20 } else { 160 << 20 };
    let (small, large) = (cli::scratch_file("c22s"), cli::scratch_file("c22l"));
    cli::write(&small, &one);
    {
        use std::io::Write;
        let mut f = std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(&large).unwrap_or_else(|_| cli::die("file")));
        for _ in 0..big / one.len() {
            f.write_all(&one).unwrap_or_else(|_| cli::die("file"));
        }
        f.flush().unwrap_or_else(|_| cli::die("file"));
    }
    let mut all: Vec<&str> = [SEQUENTIAL, PARALLEL].concat();
    for _ in 0..if c.thorough { 12 } else { 6 } {
        let k = c.rng.below(all.len());
        let cmd = all.swap_remove(k);
        c.note(format!("ripdlt mmap {} on {} bytes, and on {} copies", cmd, one.len(), big / one.len()));
        let run = |f: &std::path::Path, data: Option<u64>| cli::run("ripdlt", &["mmap", cmd, f.to_str().unwrap()], None, &Opt { data, cpus: Some(4), ..Opt::default() });
        // what the small file needs
        let mut need = 12u64 << 20;
        while !run(&small, Some(need)).ok() {
            need += need / 4;
            ensure!(need < 400 << 20, "{} on {} bytes: {}", cmd, one.len(), run(&small, None).describe());
        }
        let limit = need + need / 4 + (4 << 20);
        let r = run(&large, Some(limit));
        c.max("MB of memory for a report", (limit >> 20) as usize);
        if !r.ok() {
            let free = run(&large, None);
            // a report that fails or takes too long anyway is the business of other properties
            ensure!(!free.ok(), "{} on {} bytes of log needs less than {} bytes of memory, but on {} copies of it more than {}: {}", cmd, one.len(), need, big / one.len(), limit, r.describe());
            c.ev("reports that fail without a limit", 1);
            continue;
        }
        c.ev("reports within a limit", 1);
        c.seen("reports", fnv(cmd.as_bytes()));
        c.judged(Some(fnv(&one) ^ fnv(cmd.as_bytes())));
    }
    let _ = std::fs::remove_file(&small);
    let _ = std::fs::remove_file(&large);
    Ok(())
}

/// dd_dlt within a limit of memory
fn wrapped(c: &mut Case) -> Res {
    let size = match c.rng.below(3) {
        0 => c.rng.range(1000, 65_000),
        _ => c.rng.range(24, 100),
    };
    let big = if c.thorough { 256u64 << 20 } else { 64 << 20 };
    let (small, large) = (cli::scratch_file("c22i"), cli::scratch_file("c22j"));
    for (p, n) in [(&small, 100_000), (&large, big)] {
        std::fs::File::create(p).and_then(|f| f.set_len(n)).unwrap_or_else(|_| cli::die("file"));
    }
    let run = |f: &std::path::Path, data: Option<u64>| {
        let o = Opt { data, stdin: Some(f.to_path_buf()), stdout: Some("/dev/null".into()), ..Opt::default() };
        cli::run("dd_dlt", &["ECU1", "APP1", &size.to_string()], None, &o)
    };
    c.note(format!("dd_dlt, payload size {}, on 100000 bytes and on {}", size, big));
    let mut need = 1u64 << 20;
    while !run(&small, Some(need)).ok() {
        need += need / 4;
        ensure!(need < 400 << 20, "dd_dlt: {}", run(&small, None).describe());
    }
    let limit = need + need / 4 + (4 << 20);
    c.max("MB of memory for dd_dlt", (limit >> 20) as usize);
    let r = run(&large, Some(limit));
    if r.ok() {
        c.ev("runs of dd_dlt within a limit", 1);
        c.judged(Some(fnv(b"dd_dlt") ^ size as u64));
    } else {
        let free = run(&large, None);
        ensure!(!free.ok(), "dd_dlt needs less than {} bytes of memory for 100000 bytes of input, but more than {} for {} bytes: {}", need, limit, big, r.describe());
        c.ev("reports that fail without a limit", 1);
    }
    let _ = std::fs::remove_file(&small);
    let _ = std::fs::remove_file(&large);
    Ok(())
}

fn main() {
    run("C22", (400, 20_000), |c| match c.n % 48 {
        4 => wrapped(c),
        5 => reports(c),
        6 => mapped(c),
        _ => inside(c),
    })
}
