//! C17: no input causes memory errors, undefined behaviour, overflow or panics
//!
//! The same workload runs in several builds: with inaccessible pages around the buffer, overflow
//! and alignment checks; under AddressSanitizer; and (on small inputs) under Miri.
use mon::exer;
use mon::gen::*;
use mon::model::*;
use mon::rng::{fnv, Rng};
use mon::rt::*;

fn input(rng: &mut Rng) -> (Vec<u8>, u32) {
    let tiny = cfg!(feature = "miri-small");
    match rng.below(8) {
        // every short buffer is a torn entry
        0 => {
            let h = Dlt::header(rng, Dlt::MIN + 20);
            let mut h = if rng.pct(30) { Dlt::bad_header(rng) } else { h };
            let n = rng.below(40);
            let x = rng.bytes(n);
            h.extend(x);
            let k = rng.below(h.len() + 1);
            h.truncate(k);
            (h, 0)
        }
        // any flags with any length around the headers
        1 => {
            let mut v = vec![];
            for _ in 0..rng.range(1, 4) {
                let n = rng.below(30);
                let mut h = Dlt::header(rng, Dlt::MIN + n);
                h[16] = rng.u8();
                let x = rng.bytes(n);
                h.extend(x);
                v.extend(h);
            }
            let k = rng.below(4);
            let n = v.len();
            v.truncate(n - k.min(n));
            (v, 1)
        }
        2 => {
            let n = rng.below(if tiny { 30 } else { 200 });
            (filler::<Dlt>(rng, n), 2)
        }
        // lengths at their limits, with and without the bytes
        3 if !tiny && rng.pct(40) => {
            let total = Dlt::MAX - rng.below(3);
            let mut h = Dlt::header(rng, total);
            let n = total - Dlt::MIN;
            let x = if rng.pct(5) { filler::<Dlt>(rng, n) } else { rng.bytes(n) };
            h.extend(x);
            let pre = rng.below(5);
            let mut v = rng.bytes(pre);
            v.extend(h);
            let k = rng.below(3);
            let n = v.len();
            v.truncate(n - k);
            if rng.pct(50) {
                let x = Dlt::header(rng, Dlt::MIN);
                v.extend(x);
            }
            (v, 3)
        }
        4 => {
            let st = mon::relog::style(rng);
            let mut b = mon::relog::log(rng, &st);
            if tiny {
                b.truncate(400);
            }
            (b, 4)
        }
        _ => {
            let mut cfg = Cfg::draw(rng);
            if tiny {
                cfg.max_segs = 3;
                cfg.payload = 20;
                cfg.big = 0;
            }
            let l = log::<Dlt>(rng, &cfg);
            let mut b = l.bytes;
            if tiny {
                b.truncate(400);
            }
            (b, 16 | l.features << 8)
        }
    }
}

fn main() {
    run("C17", (120_000, 4_000_000), |c| {
        let tiny = cfg!(feature = "miri-small");
        let (bytes, kind) = input(&mut c.rng);
        c.input(&bytes);
        let p = exer::plan(&mut c.rng, &bytes, tiny);
        let d = match c.rng.below(if tiny { 1 } else { 3 }) {
            #[cfg(not(feature = "miri-small"))]
            k @ 1..=2 => {
                // an access outside ends the process
                let g = Guarded::new(&bytes, k == 1);
                c.note(format!("inaccessible page right {}", if k == 1 { "behind the buffer" } else { "before the buffer" }));
                c.ev("runs between inaccessible pages", 1);
                exer::all(g.get(), &p)?
            }
            _ => {
                let pl = Placed::new(&mut c.rng, &bytes);
                c.note("own allocation".into());
                exer::all(pl.get(), &p)?
            }
        };
        c.ev("results observed", d.n);
        c.ev("references checked", d.refs);
        c.seen("address alignments", (bytes.len() % 16) as u64);
        c.seen("kinds of input", kind as u64);
        c.judged((!bytes.is_empty()).then(|| fnv(&bytes)));
        c.sample(|| format!("{} bytes, {} results, {} references: {}", bytes.len(), d.n, d.refs, hexs(&bytes, 60)));
        Ok(())
    })
}
