//! C18: every operation ends within bounded work and constant stack on any input
//!
//! The records count how often the library reads them and how deep the stack is when it does.
//! All work is done on a thread with a small stack.
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::readit::ReadIterator;
use matchit::{partition_from, ContainedBySearch, TIterator};
use mon::ensure;
use mon::gen::*;
use mon::hostile::hostile;
use mon::model::*;
use mon::rec::*;
use mon::rng::{fnv, Rng};
use mon::rt::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// stack the operations may use between their caller and an entry read
const DEPTH: usize = 48 << 10;
const STACK: usize = 512 << 10;

struct Seen {
    what: String,
    reads: u64,
    depth: usize,
}

/// runs an operation within a budget of entry reads
fn within(out: &mut Vec<Seen>, what: &str, budget: u64, f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    let here = 0u8;
    let base = std::hint::black_box(&here) as *const u8 as usize;
    READS.with(|r| r.set(0));
    BUDGET.with(|b| b.set(budget));
    DEEPEST.with(|d| d.set(usize::MAX));
    let r = catch_unwind(AssertUnwindSafe(f));
    BUDGET.with(|b| b.set(u64::MAX));
    let reads = READS.with(|r| r.get());
    let depth = base.saturating_sub(DEEPEST.with(|d| d.get()).min(base));
    match r {
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return Err(if m == BUDGET_MSG { format!("{}: more than {} entry reads", what, budget) } else { format!("{}: panic: {}", what, m) });
        }
        Ok(r) => r?,
    }
    ensure!(depth <= DEPTH, "{}: {} bytes of stack in use at an entry read", what, depth);
    out.push(Seen { what: what.to_string(), reads, depth });
    Ok(())
}

fn exhaust<T>(what: &str, b: &[u8], mut it: impl Iterator<Item = T>) -> Result<(), String> {
    let mut n = 0;
    while it.next().is_some() {
        n += 1;
        ensure!(n <= b.len() + 1, "{}: does not end", what);
    }
    ensure!(it.next().is_none(), "{}: goes on behind its end", what);
    Ok(())
}

fn ops(b: &[u8], rng: &mut Rng, large: bool, text: bool) -> Result<Vec<Seen>, String> {
    let mut out = vec![];
    let linear = 4 * b.len() as u64 + 64;
    let o = if rng.pct(50) { 0 } else { rng.below(b.len() + 1) };
    within(&mut out, "sequential reading", linear, || exhaust("sequential reading", b, <ReadFallbackIterator<Counted> as TIterator>::new(b, o)))?;
    within(&mut out, "strict reading", linear, || exhaust("strict reading", b, ReadIterator::<Counted>::new(b, o)))?;
    within(&mut out, "forward search", linear, || exhaust("forward search", b, SearchIterator::<Counted>::new(b, o)))?;
    let e = if rng.pct(50) { b.len() } else { rng.below(b.len() + 1) };
    within(&mut out, "reverse search", linear, || exhaust("reverse search", b, RevSearchIterator::<Counted>::new(b, e)))?;
    // patterns that stay short: the cost of the pattern itself is not the library's
    let pats: &[&str] = &["Hello World", "Hello", "(?s-u)x", "H", "key=([0-9]+);", "(?-u:\\x01)", "LT", "()", "(?s-u)."];
    for _ in 0..if large { 2 } else { 3 } {
        let p = *rng.pick(pats);
        within(&mut out, "pattern search", linear, || exhaust("pattern search", b, GrepIterator::<Counted>::new(p, b, o)))?;
        let p = *rng.pick(&["key=([0-9]+);", "(H)ello", "()", "(?s-u)(.)", "(x)|H", "(D)LT", "(L)"]);
        within(&mut out, "capture search", linear, || exhaust("capture search", b, RegExMatcherIterator::<Counted>::new(p, b, o)))?;
    }
    if text {
        // patterns that match on over any number of messages
        for _ in 0..2 {
            let p = *rng.pick(&["H.* World", "H.*World", "(?s-u)H.*d", "(?s-u)H.*Z", "(?s-u)H.*", "o.* H", "(?s-u)ECU1.*Z", "H.*?Z"]);
            within(&mut out, "pattern search", linear, || exhaust("pattern search", b, GrepIterator::<Counted>::new(p, b, o)))?;
            let p = *rng.pick(&["(H).* World", "(?s-u)H.*(d)", "(?s-u)(H).*Z", "H(.*)Z", "(H.*)", "H.*(Z)?"]);
            within(&mut out, "capture search", linear, || exhaust("capture search", b, RegExMatcherIterator::<Counted>::new(p, b, o)))?;
        }
    }
    let all = find_all(b, Dlt::MARKER);
    let search = ContainedBySearch::<Counted>::new();
    let cont = |m: u64| 8 * m + 256;
    for k in 0..if large { 3 } else { 8 } {
        let a = match k {
            0 => b.len().saturating_sub(1),
            1 => b.len() / 2,
            _ => rng.below(b.len() + 1),
        };
        let z = a + if rng.pct(50) { 1 } else { rng.below(200) };
        let m = all.partition_point(|x| *x < a) as u64;
        within(&mut out, "containment search", cont(m), || {
            search.contained_by(b, (a, z));
            Ok(())
        })?;
    }
    let s = seq::<Dlt>(b, 0).len() as u64;
    let num = rng.range(1, if large { 8 } else { 40 });
    let most = (2 * num as u64 + 4 + s).saturating_mul(cont(all.len() as u64));
    within(&mut out, "partitioning", most, || {
        let p = partition_from::<Counted>(b, num);
        ensure!(p.len() <= b.len(), "{} partitions of {} bytes", p.len(), b.len());
        Ok(())
    })?;
    Ok(out)
}

fn main() {
    run("C18", (24_000, 700_000), |c| {
        let n = match c.n % 1000 {
            500..=503 => (2 << 20) + c.rng.below(1 << 20),
            k if k % 50 == 7 => c.rng.range(30_000, 200_000),
            k if k % 5 == 0 => c.rng.range(2000, 12_000),
            _ => c.rng.below(1500),
        };
        let (b, kind) = hostile(&mut c.rng, n);
        c.input(&b);
        c.note(format!("{}, {} bytes", kind, b.len()));
        let mut rng = Rng::new(c.rng.u64(), 18, c.n);
        let large = n > 100_000;
        let text = kind.contains("text");
        let bb = b.clone();
        let t0 = std::time::Instant::now();
        let t = std::thread::Builder::new().stack_size(STACK).spawn(move || ops(&bb, &mut rng, large, text)).unwrap();
        let r = t.join().map_err(|_| "panic".to_string())??;
        c.max("ms of one run", t0.elapsed().as_millis() as usize);
        for s in &r {
            c.ev(&format!("{}: entry reads", s.what), s.reads as usize);
            c.max(&format!("stack bytes at an entry read, {}", s.what), s.depth);
            if !s.what.starts_with('c') && !s.what.starts_with("part") || s.what.starts_with("capture") {
                c.max(&format!("{}: entry reads per 1000 bytes", s.what), if b.len() < 500 { 0 } else { (s.reads * 1000) as usize / b.len() });
            }
        }
        c.max("bytes of input", b.len());
        c.ev(&format!("inputs: {}", kind), 1);
        c.seen("kinds of input", fnv(kind.as_bytes()));
        c.judged((b.len() > 20).then(|| fnv(&b)));
        c.sample(|| format!("{}, {} bytes: {}", kind, b.len(), r.iter().map(|s| format!("{} {} reads, {} bytes of stack", s.what, s.reads, s.depth)).collect::<Vec<_>>().join("; ")));
        Ok(())
    })
}
