//! C04: sequential reading yields every message of a log once, in order, past corruption
use matchit::searchable::{readfallbackit::ReadFallbackIterator, SearchableMarkerTrait};
use matchit::{NoOffsetIterator, TIterator};
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::rec::*;
use mon::rng::fnv;
use mon::rt::*;
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltStorageEntry};

fn judge<'b, F: Fmt, T: Observe<'b> + SearchableMarkerTrait<'b>>(c: &mut Case, b: &'b [u8], start: usize) -> Result<Vec<(usize, usize)>, String> {
    let want = seq::<F>(b, start);
    let got = drain(b, "sequential", <ReadFallbackIterator<T> as TIterator>::new(b, start))?;
    same(&format!("{}: sequential reading from {} of {}", F::NAME, start, b.len()), &got, &want)?;
    let got = drain_plain(b, "sequential without offsets", NoOffsetIterator::new(ReadFallbackIterator::<T>::new(b, start)))?;
    same(&format!("{}: reading without offsets from {}", F::NAME, start), &got, &want)?;
    // stopped and taken up again at the end of the last message: the rest
    if want.len() > 1 {
        let k = c.rng.below(want.len());
        let rest = drain(b, "resumed", ReadFallbackIterator::<T>::new(b, want[k].0 + want[k].1))?;
        same(&format!("{}: reading on behind message {}", F::NAME, k), &rest, &want[k + 1..])?;
    }
    c.ev("messages", want.len());
    let base = b.as_ptr() as usize;
    if c.rng.pct(50) {
        protocol(c, "sequential reading", || ReadFallbackIterator::<T>::new(b, start), |(o, t)| (o, t.size()), &want)?;
    } else {
        protocol(c, "sequential reading without offsets", || NoOffsetIterator::new(ReadFallbackIterator::<T>::new(b, start)), |t| (t.addr() - base, t.size()), &want)?;
    }
    Ok(want)
}

fn with<F: Fmt>(c: &mut Case, f: impl for<'b> Fn(&mut Case, &'b [u8], usize) -> Result<Vec<(usize, usize)>, String>) -> Res {
    let mut cfg = Cfg::draw(&mut c.rng);
    if F::MAX < 300 {
        cfg.big *= 5;
    }
    let l = if c.n % 12_000 < 6 { mass::<F>(&mut c.rng, 70_000, true) } else { log::<F>(&mut c.rng, &cfg) };
    c.input(&l.bytes);
    if l.features & F_MASS != 0 {
        c.ev("long logs of one repeated piece", 1);
    }
    let mut pl = Placed::new(&mut c.rng, &l.bytes);
    let b = pl.get();
    let all = f(c, b, 0)?;
    let mut starts = vec![b.len(), b.len().saturating_sub(1), b.len() + 1, b.len() + 100, usize::MAX - c.rng.below(24)];
    for _ in 0..4 {
        starts.push(c.rng.below(b.len() + 1));
    }
    for _ in 0..3 {
        if !all.is_empty() {
            // around message starts and ends
            let m = all[c.rng.below(all.len())];
            starts.push(m.0 + c.rng.below(4));
            starts.push((m.0 + m.1).saturating_sub(c.rng.below(4)));
        }
    }
    for s in starts {
        c.note(format!("{} start {}", F::NAME, s));
        f(c, b, s)?;
    }
    // garbage around the log does not change it
    let bytes = b.len();
    let inside: usize = all.iter().map(|m| m.1).sum();
    c.ev("bytes outside messages", bytes - inside);
    for m in find_all(b, F::MARKER) {
        if F::valid_at(b, m).is_none() {
            c.ev("corrupted entries", 1);
        } else if !all.iter().any(|x| x.0 == m) {
            c.ev("embedded or overlapped entries", 1);
        }
    }
    if bytes < 5_000 && c.rng.pct(12) {
        let v = another::<F>(&mut c.rng, &l.bytes);
        pl.replace(&v);
        c.input(&v);
        let s = c.rng.below(bytes + 1);
        c.note(format!("{} start 0 and {} in a buffer that held another log", F::NAME, s));
        f(c, pl.get(), 0)?;
        f(c, pl.get(), s)?;
        c.ev("buffers used again", 1);
    }
    c.seen("log features", l.features as u64 | (fnv(F::NAME.as_bytes()) << 32));
    c.judged((!l.bytes.is_empty()).then(|| fnv(&l.bytes)));
    if all.len() > 1 {
        c.sample(|| format!("{} [{}] {} bytes, {} messages: {}", F::NAME, feature_names(l.features), bytes, all.len(), hexs(&l.bytes, 80)));
    }
    Ok(())
}

fn main() {
    run("C04", (300_000, 12_000_000), |c| {
        match c.n % 7 {
            6 if c.n % 14 >= 7 => with::<FRecM>(c, |c, b, s| judge::<FRecM, RecM>(c, b, s)),
            6 => with::<FRecZ>(c, |c, b, s| judge::<FRecZ, RecZ>(c, b, s)),
            0 => with::<FRec8>(c, |c, b, s| judge::<FRec8, Rec8>(c, b, s)),
            1 => with::<FRec4>(c, |c, b, s| judge::<FRec4, Rec4>(c, b, s)),
            _ => with::<Dlt>(c, |c, b, s| {
                let want = judge::<Dlt, DltStorageEntry>(c, b, s)?;
                if s == 0 {
                    same("dltit_offset", &drain(b, "dltit_offset", dltit_offset(b))?, &want)?;
                    same("dltit", &drain_plain(b, "dltit", dltit(b))?, &want)?;
                    // interleaving two iterators over one buffer
                    let (mut i, mut j) = (dltit_offset(b), dltit_offset(b));
                    let mut k = (0, 0);
                    for _ in 0..2 * want.len() {
                        if c.rng.pct(50) {
                            let g = i.next().map(|x| x.0);
                            ensure!(g == want.get(k.0).map(|x| x.0), "first of two iterators: {:?}", g);
                            k.0 += 1;
                        } else {
                            let g = j.next().map(|x| x.0);
                            ensure!(g == want.get(k.1).map(|x| x.0), "second of two iterators: {:?}", g);
                            k.1 += 1;
                        }
                    }
                }
                Ok(want)
            }),
        }
    })
}
