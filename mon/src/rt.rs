//! The case runner: runs cases of one property, catches panics, keeps a journal for crashes and
//! hangs, counts what the monitors observed.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Stats {
    /// events observed, by kind
    pub ev: BTreeMap<String, u64>,
    /// distinct things observed, by kind
    pub seen: BTreeMap<String, HashSet<u64>>,
    pub distinct: HashSet<u64>,
    pub evaluations: u64,
    pub samples: Vec<String>,
    input: Vec<u8>,
    note: String,
}

pub struct Case<'a> {
    pub n: u64,
    pub rng: Rng,
    pub thorough: bool,
    pub seed: u64,
    st: &'a mut Stats,
}
impl Case<'_> {
    /// counts events the monitor saw
    pub fn ev(&mut self, k: &str, n: usize) {
        if n > 0 {
            *self.st.ev.entry(k.to_string()).or_insert(0) += n as u64;
        }
    }
    pub fn max(&mut self, k: &str, n: usize) {
        let e = self.st.ev.entry(format!("max:{}", k)).or_insert(0);
        *e = (*e).max(n as u64);
    }
    pub fn seen(&mut self, k: &str, h: u64) {
        let e = match self.st.seen.get_mut(k) {
            Some(e) => e,
            None => self.st.seen.entry(k.to_string()).or_default(),
        };
        if e.len() < 300_000 {
            e.insert(h);
        }
    }
    /// the input, for the replay file
    pub fn input(&mut self, b: &[u8]) {
        self.st.input.clear();
        self.st.input.extend_from_slice(&b[..b.len().min(1 << 20)]);
    }
    pub fn note(&mut self, s: String) {
        self.st.note = s;
    }
    /// one execution of the code under test was judged; h tells non-trivial ones apart
    pub fn judged(&mut self, h: Option<u64>) {
        self.st.evaluations += 1;
        if let Some(h) = h {
            if self.st.distinct.len() < 250_000 {
                self.st.distinct.insert(h);
            }
        }
    }
    pub fn wants_sample(&self) -> bool {
        self.st.samples.len() < 3
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.wants_sample() {
            let mut s = s();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.st.samples.push(s);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn hexs(b: &[u8], max: usize) -> String {
    if b.len() <= max {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..max]), b.len())
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub cases: Option<u64>,
    pub secs: f64,
    pub only: Option<u64>,
    pub out: Option<String>,
    pub journal: Option<String>,
    pub skip: Vec<u64>,
    pub input: Option<String>,
}
pub fn args() -> Args {
    let mut a = Args { seed: 1, thorough: false, shard: 0, shards: 1, cases: None, secs: 1e9, only: None, out: None, journal: None, skip: vec![], input: None };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        match k.as_str() {
            "--seed" => a.seed = v.parse().unwrap(),
            "--tier" => a.thorough = v == "thorough",
            "--shard" => a.shard = v.parse().unwrap(),
            "--shards" => a.shards = v.parse().unwrap(),
            "--cases" => a.cases = Some(v.parse().unwrap()),
            "--secs" => a.secs = v.parse().unwrap(),
            "--case" => a.only = Some(v.parse().unwrap()),
            "--out" => a.out = Some(v),
            "--journal" => a.journal = Some(v),
            "--input" => a.input = Some(v),
            "--skip" => a.skip.push(v.parse().unwrap()),
            _ => panic!("unknown argument {}", k),
        }
    }
    a
}

#[cfg(not(miri))]
fn journal(p: &str) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).expect("journal");
    f.set_len(4096).unwrap();
    let m = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(m != libc::MAP_FAILED);
    m as *mut u64
}
#[cfg(miri)]
fn journal(_p: &str) -> *mut u64 {
    Box::leak(Box::new([0u64; 2])).as_mut_ptr()
}

/// Runs `total` cases (quick, thorough) of the property and exits: 0 held, 10 violation.
#[cfg(not(feature = "fuzz"))]
pub fn run(id: &str, cases: (u64, u64), mut f: impl FnMut(&mut Case) -> Res) -> ! {
    run_cases(id, args(), cases, &mut f)
}
#[cfg(feature = "fuzz")]
pub fn run(id: &str, _cases: (u64, u64), f: impl FnMut(&mut Case) -> Res) -> ! {
    fuzz::run(id, args(), f)
}

#[cfg(not(feature = "fuzz"))]
fn run_cases(id: &str, a: Args, cases: (u64, u64), f: &mut dyn FnMut(&mut Case) -> Res) -> ! {
    let stream = crate::rng::fnv(id.as_bytes());
    let total = a.cases.unwrap_or(if a.thorough { cases.1 } else { cases.0 });
    let mut st = Stats::default();
    let j = a.journal.as_deref().map(journal);
    hook();
    let t0 = std::time::Instant::now();
    let mut c = a.only.unwrap_or(a.shard);
    let mut viol: Option<(u64, String)> = None;
    let mut done = 0u64;
    let mut capped = false;
    while c < total || a.only.is_some() {
        if !a.skip.contains(&c) {
            if let Some(j) = j {
                unsafe {
                    std::ptr::write_volatile(j, c);
                    std::ptr::write_volatile(j.add(1), done + 1);
                }
            }
            st.input.clear();
            st.note.clear();
            let mut case = Case { n: c, rng: Rng::new(a.seed, stream, c), thorough: a.thorough, seed: a.seed, st: &mut st };
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
            let r = match r {
                Ok(r) => r,
                Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
            };
            done += 1;
            if let Err(m) = r {
                viol = Some((c, m));
                break;
            }
        }
        if a.only.is_some() {
            break;
        }
        if t0.elapsed().as_secs_f64() > a.secs {
            capped = true;
            break;
        }
        c += a.shards;
    }
    finish(id, &a, &st, done, capped, viol, String::new())
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", l, m));
        if std::thread::current().name() != Some("main") {
            eprintln!("panic at {}: {}", l, m);
        }
    }));
}

fn finish(id: &str, a: &Args, st: &Stats, done: u64, capped: bool, viol: Option<(u64, String)>, extra: String) -> ! {
    let mut o = String::new();
    o.push_str(&format!("{{\"property\":{},\"cases\":{},\"capped\":{},\"evaluations\":{}", js(id), done, capped, st.evaluations));
    o.push_str(&format!(",\"samples\":[{}]", st.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(",\"ev\":{{{}}}", st.ev.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    if let Some((c, m)) = &viol {
        o.push_str(&format!(",\"violation\":{{\"case\":{},\"message\":{},\"note\":{},\"input\":{}{}}}", c, js(m), js(&st.note), js(&hex(&st.input)), extra));
        eprintln!("case {} of {}: {}", c, id, m);
        if !st.note.is_empty() {
            eprintln!("  {}", st.note);
        }
        if a.only.is_some() {
            eprintln!("  input ({} bytes): {}", st.input.len(), hexs(&st.input, 400));
        }
    }
    o.push_str("}\n");
    if let Some(p) = &a.out {
        std::fs::write(p, &o).expect("out");
        // name, count, hashes
        let mut b: Vec<u8> = vec![];
        let mut put = |n: &str, s: &HashSet<u64>| {
            b.extend((n.len() as u32).to_le_bytes());
            b.extend(n.as_bytes());
            b.extend((s.len() as u64).to_le_bytes());
            for x in s {
                b.extend(x.to_le_bytes());
            }
        };
        put("", &st.distinct);
        for (k, s) in &st.seen {
            put(k, s);
        }
        std::fs::write(format!("{}.sets", p), &b).expect("sets");
    } else {
        print!("{}", o);
        println!("distinct {} seen {:?}", st.distinct.len(), st.seen.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>());
    }
    let _ = std::io::stdout().flush();
    let rc = if viol.is_some() { 10 } else { 0 };
    // libFuzzer takes an exit for a crash
    #[cfg(feature = "fuzz")]
    unsafe {
        libc::_exit(rc)
    }
    #[cfg(not(feature = "fuzz"))]
    std::process::exit(rc);
}

/// Coverage-guided cases: libFuzzer supplies the bytes that the draws of a case are made of.
#[cfg(feature = "fuzz")]
mod fuzz {
    use super::*;
    use std::ffi::{c_char, c_int, CString};

    extern "C" {
        fn LLVMFuzzerRunDriver(argc: *mut c_int, argv: *mut *mut *mut c_char, f: extern "C" fn(*const u8, usize) -> c_int) -> c_int;
    }

    struct State {
        id: String,
        a: Args,
        st: Stats,
        t0: std::time::Instant,
        done: u64,
        j: Option<*mut u64>,
        f: *mut dyn FnMut(&mut Case) -> Res,
    }
    static mut STATE: *mut State = std::ptr::null_mut();
    /// the journal keeps the input, for crashes
    const ROOM: usize = 4064;

    fn one(s: &mut State, b: &[u8]) {
        if let Some(j) = s.j {
            unsafe {
                std::ptr::write_volatile(j.add(1), s.done + 1);
                std::ptr::write_volatile(j.add(2), b.len() as u64);
                std::ptr::copy_nonoverlapping(b.as_ptr(), j.add(3) as *mut u8, b.len().min(ROOM));
            }
        }
        s.st.input.clear();
        s.st.note.clear();
        let n = b.iter().take(3).fold(0, |a, x| a << 8 | *x as u64);
        let mut case = Case { n, rng: Rng::from_bytes(&b[b.len().min(3)..], n), thorough: s.a.thorough, seed: s.a.seed, st: &mut s.st };
        let f = unsafe { &mut *s.f };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        s.done += 1;
        let r = r.unwrap_or_else(|_| Err(PANIC.with(|p| p.borrow().clone())));
        if let Err(m) = r {
            finish(&s.id, &s.a, &s.st, s.done, false, Some((n, m)), format!(",\"fuzz\":{}", js(&hex(b))));
        }
    }

    extern "C" fn call(p: *const u8, n: usize) -> c_int {
        let s = unsafe { &mut *STATE };
        let b = if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(p, n) } };
        one(s, b);
        let over = s.a.cases.is_some_and(|c| s.done >= c);
        if over || s.done % 16 == 0 && s.t0.elapsed().as_secs_f64() > s.a.secs {
            finish(&s.id, &s.a, &s.st, s.done, !over, None, String::new());
        }
        0
    }

    pub fn run(id: &str, a: Args, mut f: impl FnMut(&mut Case) -> Res) -> ! {
        let j = a.journal.as_deref().map(journal);
        hook();
        let (seed, shard, input) = (a.seed, a.shard, a.input.clone());
        let f: *mut (dyn FnMut(&mut Case) -> Res + '_) = &mut f;
        let f: *mut (dyn FnMut(&mut Case) -> Res + 'static) = unsafe { std::mem::transmute(f) };
        let s = Box::leak(Box::new(State { id: id.to_string(), a, st: Stats::default(), t0: std::time::Instant::now(), done: 0, j, f }));
        if let Some(p) = input {
            let b = std::fs::read(p).expect("input");
            one(s, &b);
            finish(&s.id, &s.a, &s.st, s.done, false, None, String::new());
        }
        unsafe { STATE = s };
        // inputs to start from
        let dir = std::env::temp_dir().join(format!("corpus.{}.{}", id, shard));
        std::fs::create_dir_all(&dir).expect("corpus");
        let mut r = Rng::new(seed, 99, shard);
        for i in 0..48 {
            let n = *r.pick(&[20, 60, 200, 600, 2000]);
            let mut b = r.bytes(n);
            if i % 3 == 0 && n > 40 {
                // an entry as it is
                b[3] = 0;
                b[4..8].copy_from_slice(b"DLT\x01");
                b[22] = 0;
                b[23] = 14;
            }
            std::fs::write(dir.join(i.to_string()), b).expect("corpus");
        }
        let args: Vec<CString> = [
            "monitor".to_string(),
            format!("-seed={}", seed * 1000 + shard + 1),
            "-max_len=4000".into(),
            "-len_control=20".into(),
            "-timeout=100000".into(),
            "-rss_limit_mb=0".into(),
            "-malloc_limit_mb=0".into(),
            "-use_value_profile=1".into(),
            "-reload=0".into(),
            "-detect_leaks=0".into(),
            "-handle_segv=0".into(),
            "-handle_bus=0".into(),
            "-handle_ill=0".into(),
            "-handle_fpe=0".into(),
            "-handle_abrt=0".into(),
            "-handle_int=0".into(),
            "-handle_term=0".into(),
            format!("-artifact_prefix={}/", dir.display()),
            dir.display().to_string(),
        ]
        .into_iter()
        .map(|x| CString::new(x).unwrap())
        .collect();
        let mut v: Vec<*mut c_char> = args.iter().map(|x| x.as_ptr() as *mut c_char).collect();
        let mut n = v.len() as c_int;
        v.push(std::ptr::null_mut());
        let mut p = v.as_mut_ptr();
        unsafe { LLVMFuzzerRunDriver(&mut n, &mut p, call) };
        std::process::exit(3)
    }
}

// ---- shared observers

use crate::rec::Observe;

/// Drains an iterator of records with offsets: checks that each record lies where it says it does,
/// that it ends, and that it stays exhausted. Returns (offset, size).
pub fn drain<'b, T: Observe<'b>>(b: &'b [u8], what: &str, mut it: impl Iterator<Item = (usize, T)>) -> Result<Vec<(usize, usize)>, String> {
    let mut r = vec![];
    let base = b.as_ptr() as usize;
    while let Some((o, t)) = it.next() {
        let n = t.size();
        ensure!(t.addr() == base.wrapping_add(o), "{}: offset {} reported for a record at {}", what, o, t.addr() as isize - base as isize);
        ensure!(o <= b.len() && n <= b.len() - o, "{}: record at {} of {} bytes reaches beyond the buffer of {}", what, o, n, b.len());
        r.push((o, n));
        ensure!(r.len() <= b.len() + 1, "{}: does not end: {} records in {} bytes", what, r.len(), b.len());
    }
    for _ in 0..3 {
        if let Some((o, _)) = it.next() {
            return Err(format!("{}: yields a record at {} after it was exhausted", what, o));
        }
    }
    Ok(r)
}
pub fn drain_plain<'b, T: Observe<'b>>(b: &'b [u8], what: &str, mut it: impl Iterator<Item = T>) -> Result<Vec<(usize, usize)>, String> {
    let mut r = vec![];
    let base = b.as_ptr() as usize;
    while let Some(t) = it.next() {
        r.push((t.addr().wrapping_sub(base), t.size()));
        ensure!(r.len() <= b.len() + 1, "{}: does not end: {} records in {} bytes", what, r.len(), b.len());
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{}: yields a record after it was exhausted", what);
    }
    Ok(r)
}

/// Consumes an iterator in the other ways that `Iterator` offers: each has to give what `next` gives.
pub fn protocol<I: Iterator, K: PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, mk: impl Fn() -> I, key: impl Fn(I::Item) -> K, want: &[K]) -> Res {
    let n = want.len();
    match c.rng.below(7) {
        0 => {
            c.ev("consumed by: size_hint and next", 1);
            let mut it = mk();
            let mut k = 0;
            loop {
                let (lo, hi) = it.size_hint();
                let left = n.saturating_sub(k);
                ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size_hint {:?} with {} values left", what, (lo, hi), left);
                match it.next() {
                    None => break,
                    Some(x) => ensure!(want.get(k) == Some(&key(x)), "{}: value {} differs when read again", what, k),
                }
                k += 1;
            }
            ensure!(k == n, "{}: {} values when read again, not {}", what, k, n);
        }
        1 => {
            c.ev("consumed by: nth", 1);
            let mut it = mk();
            let mut k = 0;
            for _ in 0..12 {
                let d = if c.rng.pct(70) { c.rng.below(3) } else { c.rng.below(n + 2) };
                let g = it.nth(d).map(&key);
                ensure!(g.as_ref() == want.get(k + d), "{}: nth({}) behind {} values gives {:?} instead of {:?}", what, d, k, g, want.get(k + d));
                k = (k + d + 1).min(n);
                if g.is_none() {
                    break;
                }
            }
            let rest = it.map(&key).collect::<Vec<_>>();
            ensure!(rest == want[k.min(n)..], "{}: {} values instead of {} are left behind nth", what, rest.len(), n - k.min(n));
        }
        2 => {
            c.ev("consumed by: count", 1);
            let g = mk().count();
            ensure!(g == n, "{}: count() gives {} instead of {}", what, g, n);
        }
        3 => {
            c.ev("consumed by: last", 1);
            let g = mk().last().map(&key);
            ensure!(g.as_ref() == want.last(), "{}: last() gives {:?} instead of {:?}", what, g, want.last());
        }
        4 => {
            c.ev("consumed by: fold", 1);
            let mut g = vec![];
            mk().for_each(|x| g.push(key(x)));
            ensure!(g == want, "{}: for_each sees {} values instead of {}, or others", what, g.len(), n);
        }
        5 => {
            c.ev("consumed by: step_by, skip", 1);
            let (a, d) = (c.rng.below(n + 2), c.rng.range(1, 4));
            let g = mk().skip(a).step_by(d).map(&key).collect::<Vec<_>>();
            let w = want.iter().skip(a).step_by(d).collect::<Vec<_>>();
            ensure!(g.iter().collect::<Vec<_>>() == w, "{}: skip({}).step_by({}) gives {} values instead of {}, or others", what, a, d, g.len(), w.len());
        }
        _ => {
            c.ev("consumed by: by_ref in parts", 1);
            let mut it = mk();
            let a = c.rng.below(n + 2);
            let mut g: Vec<K> = it.by_ref().take(a).map(&key).collect();
            ensure!(g.len() == a.min(n), "{}: take({}) gives {} values of {}", what, a, g.len(), n);
            if let Some(x) = it.by_ref().find(|_| true) {
                g.push(key(x));
            }
            g.extend(it.map(&key));
            ensure!(g == want, "{}: in parts {} values instead of {}, or others", what, g.len(), n);
        }
    }
    Ok(())
}

pub fn same(what: &str, got: &[(usize, usize)], want: &[(usize, usize)]) -> Res {
    if got == want {
        return Ok(());
    }
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{}: record {} is {:?} but should be {:?} (offset, size); {} records instead of {}",
        what,
        k,
        got.get(k),
        want.get(k),
        got.len(),
        want.len()
    ))
}

/// An inaccessible page right behind (or before) the data: any access outside of it is fatal.
#[cfg(not(miri))]
pub struct Guarded {
    map: *mut u8,
    size: usize,
    p: *mut u8,
    n: usize,
}
#[cfg(not(miri))]
impl Guarded {
    pub fn new(b: &[u8], at_end: bool) -> Guarded {
        const PG: usize = 4096;
        let body = (b.len().max(1) + PG - 1) / PG * PG;
        let size = body + 2 * PG;
        unsafe {
            let map = libc::mmap(std::ptr::null_mut(), size, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(map != libc::MAP_FAILED);
            let map = map as *mut u8;
            assert!(libc::mprotect(map.add(PG) as *mut _, body, libc::PROT_READ | libc::PROT_WRITE) == 0);
            let p = if at_end { map.add(PG + body - b.len()) } else { map.add(PG) };
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            assert!(libc::mprotect(map.add(PG) as *mut _, body, libc::PROT_READ) == 0);
            Guarded { map, size, p, n: b.len() }
        }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.n) }
    }
}
#[cfg(not(miri))]
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map as *mut _, self.size);
        }
    }
}
