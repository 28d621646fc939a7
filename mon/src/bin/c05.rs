//! C05: forward, strict and reverse iteration agree with the log's contents
use matchit::readit::ReadIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::{search_last_marker, search_marker, SearchableMarkerTrait};
use matchit::TIterator;
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::rec::*;
use mon::rng::fnv;
use mon::rt::*;
use rapiddlt::dlt_v1::{DltEntry, DltStorageEntry};

fn judge<'b, F: Fmt, T: Observe<'b> + SearchableMarkerTrait<'b>>(c: &mut Case, b: &'b [u8], s: usize) -> Res {
    let w = seq::<F>(b, s);
    same(&format!("{}: forward search from {} of {}", F::NAME, s, b.len()), &drain(b, "forward", <SearchIterator<T> as TIterator>::new(b, s))?, &w)?;
    c.ev("forward", w.len());
    let how = c.rng.below(3);
    let pair = |(o, t): (usize, T)| (o, t.size());
    if how == 0 {
        protocol(c, "forward search", || <SearchIterator<T> as TIterator>::new(b, s), pair, &w)?;
    }
    // a single search: the entry at the next (previous) marker, if it is valid; otherwise
    // nothing, or the first valid one in that direction
    let f = <SearchIterator<T> as TIterator>::new(b, c.rng.below(b.len() + 1)).search(b, s).map(pair);
    let e = find(b, F::MARKER, s).and_then(|i| F::valid_at(b, i).map(|n| (i, n)));
    ensure!(f == e || e.is_none() && f == w.first().copied(), "{}: single forward search from {} of {}: {:?} instead of {:?}", F::NAME, s, b.len(), f, e);
    if s <= b.len() {
        let f = <RevSearchIterator<T> as TIterator>::new(b, c.rng.below(b.len() + 1)).search(b, s).map(pair);
        let e = find_all(&b[..s], F::MARKER).last().and_then(|&i| F::valid_at(b, i).map(|n| (i, n)));
        ensure!(f == e || e.is_none() && f == rev::<F>(b, s).first().copied(), "{}: single reverse search from {} of {}: {:?} instead of {:?}", F::NAME, s, b.len(), f, e);
    }
    let w = rev::<F>(b, s);
    same(&format!("{}: reverse search from {} of {}", F::NAME, s, b.len()), &drain(b, "reverse", <RevSearchIterator<T> as TIterator>::new(b, s))?, &w)?;
    c.ev("reverse", w.len());
    if how == 1 {
        protocol(c, "reverse search", || <RevSearchIterator<T> as TIterator>::new(b, s), pair, &w)?;
    }
    let w = strict(b, s, F::valid_at);
    same(&format!("{}: strict reading from {} of {}", F::NAME, s, b.len()), &drain(b, "strict", ReadIterator::<T>::new(b, s))?, &w)?;
    c.ev("strict", w.len());
    if how == 2 {
        protocol(c, "strict reading", || ReadIterator::<T>::new(b, s), pair, &w)?;
    }
    // any part of the buffer is a buffer
    let e = s + if b.len() > s { c.rng.below(b.len() - s + 1) } else { 0 };
    if s <= b.len() {
        let p = &b[s..e.min(b.len())];
        let all = find_all(p, F::MARKER);
        let (f, l) = (search_marker::<T>(p), search_last_marker::<T>(p));
        ensure!(f == all.first().copied(), "{}: first marker at {:?} instead of {:?} in [{}..{}]", F::NAME, f, all.first(), s, e);
        ensure!(l == all.last().copied(), "{}: last marker at {:?} instead of {:?} in [{}..{}]", F::NAME, l, all.last(), s, e);
        c.ev("marker searches", 2);
    }
    Ok(())
}

fn with<F: Fmt>(c: &mut Case, f: impl for<'b> Fn(&mut Case, &'b [u8], usize) -> Res) -> Res {
    let mut cfg = Cfg::draw(&mut c.rng);
    if F::MAX < 300 {
        cfg.big *= 5;
    }
    let l = if c.n % 12_000 < 6 { mass::<F>(&mut c.rng, 70_000, true) } else { log::<F>(&mut c.rng, &cfg) };
    c.input(&l.bytes);
    if l.features & F_MASS != 0 {
        c.ev("long logs of one repeated piece", 1);
    }
    let mut pl = Placed::new(&mut c.rng, &l.bytes);
    let b = pl.get();
    let mut starts = vec![0, b.len(), b.len().saturating_sub(1), b.len() + 1, b.len() + 1000, usize::MAX - c.rng.below(24)];
    let all = seq::<F>(b, 0);
    for _ in 0..3 {
        starts.push(c.rng.below(b.len() + 1));
        if !all.is_empty() {
            let m = all[c.rng.below(all.len())];
            starts.push(m.0 + c.rng.below(F::MARKER.len() + 2));
            starts.push((m.0 + m.1).saturating_sub(c.rng.below(4)));
        }
    }
    for s in starts {
        c.note(format!("{} start {}", F::NAME, s));
        f(c, b, s)?;
    }
    c.seen("log features", l.features as u64 | (fnv(F::NAME.as_bytes()) << 32));
    c.judged((!l.bytes.is_empty()).then(|| fnv(&l.bytes)));
    if all.len() > 1 {
        c.sample(|| format!("{} [{}] {} bytes, {} messages: {}", F::NAME, feature_names(l.features), b.len(), all.len(), hexs(&l.bytes, 80)));
    }
    if l.bytes.len() < 5_000 && c.rng.pct(12) {
        let v = another::<F>(&mut c.rng, &l.bytes);
        pl.replace(&v);
        c.input(&v);
        for s in [0, v.len(), c.rng.below(v.len() + 1)] {
            c.note(format!("{} start {} in a buffer that held another log", F::NAME, s));
            f(c, pl.get(), s)?;
        }
        c.ev("buffers used again", 1);
    }
    Ok(())
}

/// strict reading of messages without storage headers
fn bare(c: &mut Case) -> Res {
    let mut v = vec![];
    for _ in 0..c.rng.below(30) {
        let n = c.rng.below(60);
        v.push(c.rng.u8());
        v.push(c.rng.u8());
        v.extend((4 + n as u16).to_be_bytes());
        v.extend(filler::<Dlt>(&mut c.rng, n));
    }
    if c.rng.pct(50) {
        mutate(&mut c.rng, &mut v);
    }
    c.input(&v);
    let pl = Placed::new(&mut c.rng, &v);
    let b = pl.get();
    for s in [0, c.rng.below(b.len() + 1), b.len(), b.len() + 1, usize::MAX - c.rng.below(24)] {
        let w = strict(b, s, bare_at);
        same(&format!("bare: strict reading from {} of {}", s, b.len()), &drain(b, "strict", <ReadIterator<DltEntry> as TIterator>::new(b, s))?, &w)?;
        c.ev("strict bare", w.len());
    }
    c.judged(Some(fnv(&v)));
    Ok(())
}

fn main() {
    run("C05", (150_000, 6_000_000), |c| match c.n % 8 {
        7 if c.n % 16 >= 8 => with::<FRecM>(c, |c, b, s| judge::<FRecM, RecM>(c, b, s)),
        7 => with::<FRecZ>(c, |c, b, s| judge::<FRecZ, RecZ>(c, b, s)),
        0 => with::<FRec8>(c, |c, b, s| judge::<FRec8, Rec8>(c, b, s)),
        1 => with::<FRec4>(c, |c, b, s| judge::<FRec4, Rec4>(c, b, s)),
        2 => bare(c),
        _ => with::<Dlt>(c, |c, b, s| judge::<Dlt, DltStorageEntry>(c, b, s)),
    })
}
