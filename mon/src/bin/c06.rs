//! C06: containment search finds the outermost message around a byte range
use matchit::searchable::SearchableMarkerTrait;
use matchit::ContainedBySearch;
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::rec::*;
use mon::rng::fnv;
use mon::rt::*;
use rapiddlt::dlt_v1::DltStorageEntry;

fn judge<'b, F: Fmt, T: Observe<'b> + SearchableMarkerTrait<'b>>(c: &mut Case, b: &'b [u8], s: &[(usize, usize)], q: &[(usize, usize)]) -> Res {
    let search = ContainedBySearch::<T>::new();
    if c.rng.pct(20) {
        // a search has no memory of the buffers it was used on
        let p = &b[c.rng.below(b.len() + 1)..];
        for _ in 0..3 {
            let a = c.rng.below(p.len() + 1);
            let _ = search.contained_by(p, (a, a + 1));
        }
        c.ev("searches used on another buffer before", 1);
    }
    for &(a, e) in q {
        let want = if a >= e || e > b.len() { None } else { contained(s, a, e) };
        let got = search.contained_by(b, (a, e));
        let g = got.as_ref().map(|(o, t)| (*o, t.size()));
        ensure!(g == want, "{}: [{}..{}] of {} bytes is contained by {:?} but should be by {:?} (offset, size)", F::NAME, a, e, b.len(), g, want);
        if let Some((o, t)) = got {
            ensure!(t.addr() == b.as_ptr() as usize + o, "{}: the message reported at {} lies elsewhere", F::NAME, o);
            c.ev("contained", 1);
        } else if a >= e || e > b.len() {
            c.ev("empty, reversed or outside", 1);
        } else {
            c.ev("not contained", 1);
        }
    }
    Ok(())
}

fn with<F: Fmt>(c: &mut Case, f: impl for<'b> Fn(&mut Case, &'b [u8], &[(usize, usize)], &[(usize, usize)]) -> Res) -> Res {
    let mut cfg = Cfg::draw(&mut c.rng);
    if F::MAX < 300 {
        cfg.big *= 5;
    }
    let l = if c.n % 12_000 < 6 { mass::<F>(&mut c.rng, 5000, true) } else { log::<F>(&mut c.rng, &cfg) };
    c.input(&l.bytes);
    if l.features & F_MASS != 0 {
        c.ev("long logs of one repeated piece", 1);
    }
    let mut pl = Placed::new(&mut c.rng, &l.bytes);
    let b = pl.get();
    let s = seq::<F>(b, 0);
    let n = b.len();
    let mut q = vec![(0, 0), (0, 1), (0, n), (n, n), (n, n + 1), (n.saturating_sub(1), n), (n + 3, n + 5), (3, 2), (0, usize::MAX), (usize::MAX, usize::MAX), (usize::MAX - 1, usize::MAX), (usize::MAX, 1)];
    if n <= 48 {
        for a in 0..=n + 1 {
            for e in 0..=n + 1 {
                q.push((a, e));
            }
        }
        c.ev("buffers with all ranges", 1);
    }
    for _ in 0..8 {
        let a = c.rng.below(n + 1);
        q.push((a, a + 1));
        q.push((a, a + c.rng.below(60)));
        q.push((a, c.rng.below(n + 2)));
    }
    for _ in 0..8 {
        if let Some(&(o, z)) = (!s.is_empty()).then(|| &s[c.rng.below(s.len())]) {
            // around both ends of a message
            let a = o + c.rng.below(4);
            q.push((a, o + z));
            q.push((a, o + z + 1));
            q.push((o + c.rng.below(z), o + z));
            q.push(((o + z).saturating_sub(1 + c.rng.below(3)), o + z + c.rng.below(3)));
            q.push((o.saturating_sub(1), o + 1));
            q.push((o, o + 1));
            q.push((o + 1, o + 2));
            let p = o + c.rng.below(z);
            q.push((p, p + 1));
        }
    }
    c.note(format!("{}", F::NAME));
    f(c, b, &s, &q)?;
    c.seen("log features", l.features as u64 | (fnv(F::NAME.as_bytes()) << 32));
    c.judged((s.len() > 0).then(|| fnv(&l.bytes)));
    if s.len() > 1 {
        c.sample(|| format!("{} [{}] {} bytes, {} messages, {} ranges: {}", F::NAME, feature_names(l.features), n, s.len(), q.len(), hexs(&l.bytes, 80)));
    }
    if n < 5_000 && c.rng.pct(12) {
        let v = another::<F>(&mut c.rng, &l.bytes);
        pl.replace(&v);
        c.input(&v);
        c.note(format!("{} in a buffer that held another log", F::NAME));
        let s = seq::<F>(&v, 0);
        f(c, pl.get(), &s, &q)?;
        c.ev("buffers used again", 1);
    }
    Ok(())
}

fn main() {
    run("C06", (120_000, 4_000_000), |c| match c.n % 6 {
        5 if c.n % 12 >= 6 => with::<FRecM>(c, |c, b, s, q| judge::<FRecM, RecM>(c, b, s, q)),
        5 => with::<FRecZ>(c, |c, b, s, q| judge::<FRecZ, RecZ>(c, b, s, q)),
        0 => with::<FRec8>(c, |c, b, s, q| judge::<FRec8, Rec8>(c, b, s, q)),
        1 => with::<FRec4>(c, |c, b, s, q| judge::<FRec4, Rec4>(c, b, s, q)),
        _ => with::<Dlt>(c, |c, b, s, q| judge::<Dlt, DltStorageEntry>(c, b, s, q)),
    })
}
