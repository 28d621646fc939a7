//! C07: partitions tile the log and never split a message
use matchit::partition_from;
use matchit::searchable::SearchableMarkerTrait;
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::rec::*;
use mon::rng::fnv;
use mon::rt::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::dltbuffer::DltBuffer;

fn tiling(c: &mut Case, what: &str, b: &[u8], parts: &[&[u8]], num: usize, s: &[(usize, usize)]) -> Res {
    let base = b.as_ptr() as usize;
    let mut p = 0;
    let mut cuts = vec![];
    for (i, x) in parts.iter().enumerate() {
        ensure!(!x.is_empty(), "{}: partition {} of {} is empty", what, i, parts.len());
        ensure!(x.as_ptr() as usize == base + p, "{}: partition {} starts at {} but the one before ends at {}", what, i, (x.as_ptr() as usize).wrapping_sub(base) as isize, p);
        p += x.len();
        ensure!(p <= b.len(), "{}: partition {} reaches to {} of {}", what, i, p, b.len());
        cuts.push(p);
    }
    ensure!(p == b.len(), "{}: {} partitions cover {} of {} bytes", what, parts.len(), p, b.len());
    for &k in &cuts {
        // the message that starts before the cut ends before it
        let j = s.partition_point(|m| m.0 < k);
        if j > 0 {
            let m = s[j - 1];
            ensure!(m.0 + m.1 <= k, "{}: the partition border at {} splits the message at {} of {} bytes", what, k, m.0, m.1);
        }
    }
    let share = (b.len() + num - 1) / num;
    let longest = s.iter().map(|m| m.1).max().unwrap_or(0);
    for (i, x) in parts.iter().enumerate() {
        ensure!(x.len() <= 2 * share + longest, "{}: partition {} has {} bytes, the even share is {} and the longest message {}", what, i, x.len(), share, longest);
    }
    c.ev("partitions", parts.len());
    c.ev("borders", cuts.len().saturating_sub(1));
    c.ev("borders inside garbage", cuts.iter().filter(|k| **k < b.len() && !s.iter().any(|m| m.0 == **k || m.0 + m.1 == **k)).count());
    c.seen("partition counts", (num as u64) << 32 | parts.len() as u64);
    Ok(())
}

fn judge<'b, F: Fmt, T: Observe<'b> + SearchableMarkerTrait<'b>>(c: &mut Case, b: &'b [u8], s: &[(usize, usize)], num: usize) -> Res {
    let parts = partition_from::<T>(b, num);
    tiling(c, &format!("{} {} partitions of {} bytes", F::NAME, num, b.len()), b, &parts, num, s)
}

fn nums(c: &mut Case, n: usize) -> Vec<usize> {
    let mut v = vec![1, 2, 3, 4, 8, n + 1];
    if n < 60 {
        v.extend(1..n + 5);
    }
    for _ in 0..4 {
        v.push(c.rng.range(1, 30));
        v.push(c.rng.range(1, n.max(1).min(3000)));
    }
    if n < 3000 {
        v.push(n.max(1));
        v.push(n / 2 + 1);
    }
    v.push(1_000_000);
    // one split per byte is expensive for large buffers
    v.retain(|x| n < 6000 || *x <= 2000);
    v
}

fn with<F: Fmt>(c: &mut Case, f: impl for<'b> Fn(&mut Case, &'b [u8], &[(usize, usize)], usize) -> Res) -> Res {
    let mut cfg = Cfg::draw(&mut c.rng);
    if F::MAX < 300 {
        cfg.big *= 5;
    }
    let l = if c.n % 1000 < 8 { mass::<F>(&mut c.rng, 5000, true) } else { log::<F>(&mut c.rng, &cfg) };
    c.input(&l.bytes);
    let mut pl = Placed::new(&mut c.rng, &l.bytes);
    let b = pl.get();
    let s = seq::<F>(b, 0);
    let mut ks = nums(c, b.len());
    if l.features & F_MASS != 0 {
        // a long chain is followed back from every border
        ks = if l.features & F_CHAIN != 0 { vec![2, c.rng.range(3, 12)] } else { vec![1, 2, 3, c.rng.range(4, 100), c.rng.range(100, 3000)] };
        c.ev("long logs of one repeated piece", 1);
    }
    for k in ks {
        c.note(format!("{} {} partitions", F::NAME, k));
        f(c, b, &s, k)?;
    }
    c.seen("log features", l.features as u64 | (fnv(F::NAME.as_bytes()) << 32));
    c.judged((!l.bytes.is_empty()).then(|| fnv(&l.bytes)));
    if s.len() > 1 {
        c.sample(|| format!("{} [{}] {} bytes, {} messages: {}", F::NAME, feature_names(l.features), b.len(), s.len(), hexs(&l.bytes, 80)));
    }
    if l.bytes.len() < 5_000 && c.rng.pct(12) {
        let v = another::<F>(&mut c.rng, &l.bytes);
        pl.replace(&v);
        c.input(&v);
        let s = seq::<F>(&v, 0);
        for k in [2, 3, c.rng.range(1, 30)] {
            c.note(format!("{} {} partitions of a buffer that held another log", F::NAME, k));
            f(c, pl.get(), &s, k)?;
        }
        c.ev("buffers used again", 1);
    }
    Ok(())
}

fn files(c: &mut Case) -> Res {
    let cfg = Cfg::draw(&mut c.rng);
    let mut l = log::<Dlt>(&mut c.rng, &cfg);
    if l.bytes.is_empty() {
        l.bytes.push(1);
    }
    c.input(&l.bytes);
    let p = mon::cli::scratch_file("c07");
    mon::cli::write(&p, &l.bytes);
    let s = seq::<Dlt>(&l.bytes, 0);
    for mmap in [true, false] {
        let f = p.to_str().unwrap();
        let buf = if mmap { DltBuffer::mmap_file(f) } else { DltBuffer::read_file(f) };
        let buf = buf.map_err(|e| format!("opening: {}", e))?;
        for _ in 0..4 {
            let k = c.rng.range(1, 40);
            let parts = buf.partition::<DltStorageEntry>(k);
            tiling(c, &format!("{} partitions of a {} file of {} bytes", k, if mmap { "mapped" } else { "read" }, l.bytes.len()), buf.as_slice(), &parts, k, &s)?;
            c.ev("file partitionings", 1);
        }
    }
    c.judged(Some(fnv(&l.bytes)));
    let _ = std::fs::remove_file(&p);
    Ok(())
}

fn main() {
    run("C07", (60_000, 2_000_000), |c| match c.n % 9 {
        8 if c.n % 18 >= 9 => with::<FRecM>(c, |c, b, s, k| judge::<FRecM, RecM>(c, b, s, k)),
        8 => with::<FRecZ>(c, |c, b, s, k| judge::<FRecZ, RecZ>(c, b, s, k)),
        0 => with::<FRec8>(c, |c, b, s, k| judge::<FRec8, Rec8>(c, b, s, k)),
        1 => with::<FRec4>(c, |c, b, s, k| judge::<FRec4, Rec4>(c, b, s, k)),
        2 => files(c),
        _ => with::<Dlt>(c, |c, b, s, k| judge::<Dlt, DltStorageEntry>(c, b, s, k)),
    })
}
