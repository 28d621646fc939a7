//! Runs every operation of the libraries over one buffer and digests what they return.
//! Every reference that comes back is checked to lie in the message it belongs to.
use crate::ensure;
use crate::model::*;
use crate::rec::Observe;
use crate::rng::{fnv, Rng};
use matchit::fromgenerator::FromAdaptFnCall;
use matchit::generator::generator::Generator;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::{search_last_marker, search_marker, SearchableMarkerTrait};
use matchit::{partition_from, ContainedBySearch, FromBytesReadableTrait, NoOffsetIterator, TIterator};
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltEntry, DltStorageEntry};

/// fed with everything observed; equal digests: equal results
#[derive(Default, Clone)]
pub struct Digest {
    pub h: u64,
    pub n: usize,
    pub refs: usize,
}
impl Digest {
    pub fn add(&mut self, v: u64) {
        self.n += 1;
        self.h = (self.h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    }
    fn opt(&mut self, v: Option<usize>) {
        self.add(v.map_or(u64::MAX, |x| x as u64));
    }
}

fn inside<T: ?Sized>(d: &mut Digest, what: &str, r: &T, lo: usize, hi: usize) -> Result<(), String> {
    let a = r as *const T as *const u8 as usize;
    let n = std::mem::size_of_val(r);
    d.refs += 1;
    ensure!(a >= lo && a + n <= hi, "{}: {} bytes at {} of a message of {} bytes", what, n, a as isize - lo as isize, hi - lo);
    Ok(())
}

/// everything an entry offers
pub fn entry(d: &mut Digest, e: &DltEntry<'_>, lo: usize, hi: usize) -> Result<(), String> {
    inside(d, "standard header", e.header, lo, hi)?;
    inside(d, "body", e.tail, lo, hi)?;
    let t = &e.header.header_type;
    let f = [t.is_extended_header(), t.is_msb_first(), t.is_with_ecu_id(), t.is_with_session_id(), t.is_with_timestamp()];
    d.add(f.iter().fold(t.version() as u64, |a, x| a << 1 | *x as u64));
    d.add(e.header.length() as u64);
    d.opt(e.ecu_id().map(|x| x as usize));
    d.opt(e.timestamp().map(|x| x as usize));
    if let Some(x) = e.extended_header() {
        inside(d, "extended header", x, lo, hi)?;
        let i = x.msin.info();
        d.add(fnv(format!("{:?}", i).as_bytes()) ^ x.noar as u64);
        d.add(fnv(&x.apid) ^ fnv(&x.ctid).rotate_left(7));
    }
    if let Some(p) = e.payload() {
        inside(d, "payload", p, lo, hi)?;
        d.add(fnv(p));
    }
    // reads every byte
    d.add(fnv(e.tail));
    Ok(())
}
pub fn storage(d: &mut Digest, b: &[u8], o: usize, e: &DltStorageEntry<'_>) -> Result<(), String> {
    let lo = b.as_ptr() as usize + o;
    let n = e.len();
    ensure!(e.addr() == lo, "record reported at {} lies at {}", o, e.addr() as isize - b.as_ptr() as isize);
    ensure!(o <= b.len() && n <= b.len() - o, "record of {} bytes at {} of {}", n, o, b.len());
    inside(d, "storage header", e.storage_header, lo, lo + n)?;
    d.add(o as u64);
    d.add(n as u64);
    d.add(e.storage_header.secs.get() as u64);
    d.add(e.storage_header.msecs.get() as u32 as u64);
    d.add(fnv(&e.storage_header.ecu));
    entry(d, &e.dlt, lo, lo + n)
}

pub struct Plan {
    pub starts: Vec<usize>,
    pub offsets: Vec<usize>,
    pub ranges: Vec<(usize, usize)>,
    pub parts: Vec<usize>,
    pub patterns: Vec<&'static str>,
    pub debug: bool,
}

const PATTERNS: &[&str] = &["H.* World", "Hello", "key=([0-9]+);", "(?s-u)(.)", "()", "D(L)T", "(?s-u)\\x01(.*)\\x01", "x*", "(a)|b"];

pub fn plan(rng: &mut Rng, b: &[u8], small: bool) -> Plan {
    let n = b.len();
    let marks = find_all(b, Dlt::MARKER);
    let small = small || n > 8_000;
    let k = if small { 2 } else { 5 };
    let mut p = Plan { starts: vec![0, n], offsets: vec![], ranges: vec![(0, n), (n, n + 1), (n.saturating_sub(1), n)], parts: vec![1], patterns: vec![], debug: rng.pct(10) };
    if n <= 40 && !small {
        p.offsets.extend(0..=n);
    }
    for _ in 0..k {
        p.starts.push(rng.below(n + 3));
        p.offsets.push(rng.below(n + 1));
        let a = rng.below(n + 1);
        p.ranges.push((a, a + rng.below(30)));
        p.parts.push(rng.range(1, 20));
        if !marks.is_empty() {
            let m = *rng.pick(&marks);
            p.offsets.push(m);
            p.offsets.push(m + rng.below(20));
            p.starts.push(m + rng.below(3));
            p.ranges.push((m + rng.below(24), m + 24));
            p.ranges.push((m, m + 1));
        }
    }
    p.offsets.retain(|o| *o <= n);
    p.starts.insert(0, usize::MAX - rng.below(24));
    p.ranges.push((rng.below(n + 1), usize::MAX - rng.below(24)));
    p.parts.truncate(if small { 2 } else { 4 });
    // an interpreter needs very long for pattern search
    let pats = if cfg!(miri) { rng.pct(15) as usize } else if small { 1 } else { 2 };
    for _ in 0..pats {
        p.patterns.push(rng.pick(PATTERNS));
    }
    p
}

/// all operations; the digest depends on the contents and the plan only, not on where the buffer lies
pub fn all(b: &[u8], p: &Plan) -> Result<Digest, String> {
    let mut d = Digest::default();
    let base = b.as_ptr() as usize;
    let limit = b.len() + 2;
    for &o in &p.offsets {
        let s = &b[o..];
        match DltStorageEntry::try_read(s) {
            Some((n, e)) => {
                ensure!(n == e.len(), "read {} bytes of a record of {}", n, e.len());
                storage(&mut d, b, o, &e)?;
                if p.debug {
                    d.add(fnv(format!("{:?}", e).as_bytes()));
                }
            }
            None => d.add(0),
        }
        // also without its marker
        match DltStorageEntry::try_read_valid_marker(s) {
            Some((_, e)) => storage(&mut d, b, o, &e)?,
            None => d.add(1),
        }
        match DltEntry::try_read(s) {
            Some((n, e)) => {
                ensure!(n <= s.len() && n == e.len(), "bare message of {} bytes in {}", n, s.len());
                entry(&mut d, &e, base + o, base + o + n)?;
            }
            None => d.add(2),
        }
        d.opt(search_marker::<DltStorageEntry>(s));
        d.opt(search_last_marker::<DltStorageEntry>(s));
    }
    macro_rules! walk {
        ($it:expr) => {{
            let mut it = $it;
            let mut n = 0;
            while let Some((o, e)) = it.next() {
                storage(&mut d, b, o, &e)?;
                n += 1;
                ensure!(n <= limit, "does not end");
            }
            ensure!(it.next().is_none(), "goes on behind its end");
            d.add(n as u64);
        }};
    }
    for &s in &p.starts {
        walk!(<ReadFallbackIterator<DltStorageEntry> as TIterator>::new(b, s));
        walk!(SearchIterator::<DltStorageEntry>::new(b, s));
        walk!(RevSearchIterator::<DltStorageEntry>::new(b, s));
        walk!(ReadIterator::<DltStorageEntry>::new(b, s));
        let mut n = 0;
        for (o, e) in ReadIterator::<DltEntry>::new(b, s) {
            entry(&mut d, &e, base + o, base + o + e.len())?;
            n += 1;
            ensure!(n <= limit, "does not end");
        }
        let it = SearchIterator::<DltStorageEntry>::new(b, 0);
        if let Some((o, e)) = it.search(b, s) {
            storage(&mut d, b, o, &e)?;
        }
        let it = RevSearchIterator::<DltStorageEntry>::new(b, 0);
        if let Some((o, e)) = it.search(b, s) {
            storage(&mut d, b, o, &e)?;
        }
    }
    for e in dltit(b) {
        storage(&mut d, b, e.addr().wrapping_sub(base), &e)?;
    }
    walk!(dltit_offset(b));
    let search = ContainedBySearch::<DltStorageEntry>::new();
    for &r in &p.ranges {
        match search.contained_by(b, r) {
            Some((o, e)) => storage(&mut d, b, o, &e)?,
            None => d.add(3),
        }
    }
    for &n in &p.parts {
        for s in partition_from::<DltStorageEntry>(b, n) {
            let (a, e) = ((s.as_ptr() as usize).wrapping_sub(base), s.len());
            ensure!(a <= b.len() && e <= b.len() - a, "partition of {} bytes at {} of {}", e, a as isize, b.len());
            d.refs += 1;
            d.add(a as u64);
            d.add(fnv(s));
        }
    }
    for &pat in &p.patterns {
        let s = p.starts[p.starts.len() - 1];
        for s in [0, s] {
            walk!(GrepIterator::<DltStorageEntry>::new(pat, b, s));
            if pat.contains('(') {
                let mut n = 0;
                for (o, g) in RegExMatcherIterator::<DltStorageEntry>::new(pat, b, s) {
                    ensure!(o <= g.0 && g.0 <= g.1 && g.1 <= b.len(), "group {:?} of {} bytes", g, b.len());
                    d.add(o as u64);
                    d.add(g.0 as u64);
                    d.add(g.1 as u64);
                    n += 1;
                    ensure!(n <= limit, "does not end");
                }
            }
        }
    }
    // push pipelines over the messages
    let secs = |e: &DltStorageEntry<'_>| e.storage_header.secs.get();
    let runs: Vec<(u32, u32)> = dltit(b).groupby(|a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.storage_header.secs.get() >= a.storage_header.secs.get()).map(|r| (secs(&r.0), secs(&r.1))).collect();
    for r in runs {
        d.add((r.0 as u64) << 32 | r.1 as u64);
    }
    let per = NoOffsetIterator::new(dltit_offset(b)).split(
        |e: &DltStorageEntry<'_>| e.storage_header.ecu,
        |_| Generator::fork(Generator::map(|e: &DltStorageEntry<'_>| e.len()).count(), Generator::filter(|e: &DltStorageEntry<'_>| e.dlt.payload().is_some()).count()),
    );
    for (k, v) in per {
        d.add(fnv(&k) ^ (v.0 as u64) << 32 ^ v.1 as u64);
    }
    Ok(d)
}
