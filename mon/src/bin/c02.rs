//! C02: optional header fields and payload lie exactly where the flags put them
use matchit::FromBytesReadableTrait;
use mon::gen::Placed;
use mon::model::*;
use mon::rng::fnv;
use mon::rt::*;
use mon::ensure;
use rapiddlt::dlt_v1::{DltEntry, DltStorageEntry};
use zerocopy::AsBytes;

fn judge(c: &mut Case, e: &DltEntry, htyp: u8, body: &[u8]) -> Res {
    let f = fields(htyp, body);
    let base = body.as_ptr() as usize;
    c.note(format!("htyp {:#04x}, body of {} bytes", htyp, body.len()));
    let g = e.ecu_id();
    ensure!(g == f.ecu, "ecu id {:?} instead of {:?}", g, f.ecu);
    let g = e.timestamp();
    ensure!(g == f.tmsp, "timestamp {:?} instead of {:?}", g, f.tmsp);
    match (e.extended_header(), f.ext) {
        (None, None) => {}
        (Some(h), Some((m, n, a, x))) => {
            ensure!(h as *const _ as *const u8 as usize == base + f.ext_off, "extended header at {} instead of {}", h as *const _ as *const u8 as isize - base as isize, f.ext_off);
            ensure!(h.msin.as_bytes() == [m] && h.noar == n && h.apid == a && h.ctid == x, "extended header {:?} instead of {:?}", h, (m, n, a, x));
            let (v, t) = msin(m);
            let i = h.msin.info();
            ensure!(i.0 == v && i.1.map(|t| format!("{:?}", t)) == t.map(type_name), "message info {:#04x} reads as {:?}", m, i);
            c.ev("extended headers", 1);
        }
        (g, w) => return Err(format!("extended header {:?} instead of {:?}", g, w)),
    }
    match (e.payload(), f.payload) {
        (None, None) => c.ev("too short for its flags", 1),
        (Some(p), Some(o)) => {
            ensure!(p.as_ptr() as usize == base + o && p.len() == body.len() - o, "payload of {} bytes at {} instead of {} at {}", p.len(), p.as_ptr() as isize - base as isize, body.len() - o, o);
            c.ev("payloads", 1);
            if p.is_empty() {
                c.ev("empty payloads", 1);
            }
        }
        (g, w) => return Err(format!("payload {:?} instead of starting at {:?} in a body of {}", g.map(|p| p.len()), w, body.len())),
    }
    c.ev("timestamps", f.tmsp.is_some() as usize);
    c.ev("ecu ids", f.ecu.is_some() as usize);
    c.seen("flag combination x body length", (htyp as u64) << 20 | body.len() as u64);
    c.judged(Some(fnv(body) ^ (htyp as u64) << 56));
    Ok(())
}

fn check(c: &mut Case, htyp: u8, body: &[u8]) -> Res {
    let mut v = Dlt::header(&mut c.rng, Dlt::MIN + body.len());
    v[16] = htyp;
    v.extend_from_slice(body);
    let extra = if c.rng.pct(50) { c.rng.below(30) } else { 0 };
    let x = c.rng.bytes(extra);
    v.extend(x);
    c.input(&v);
    let total = Dlt::MIN + body.len();
    let pl = Placed::new(&mut c.rng, &v);
    let b = pl.get();
    let Some((_, e)) = DltStorageEntry::try_read(b) else { return Err("valid message not read".into()) };
    judge(c, &e.dlt, htyp, &b[20..total])?;
    let pl = Placed::new(&mut c.rng, &v[16..]);
    let b = pl.get();
    let Some((_, e)) = DltEntry::try_read(b) else { return Err("valid bare message not read".into()) };
    judge(c, &e, htyp, &b[4..total - 16])
}

fn main() {
    run("C02", (256 + 80_000, 256 + 3_000_000), |c| {
        if c.n < 256 {
            for len in 0..=48 {
                for _ in 0..2 {
                    let body = c.rng.bytes(len);
                    check(c, c.n as u8, &body)?;
                }
            }
            c.ev("exhaustive: header types x body lengths 0..=48", 1);
        } else {
            for _ in 0..10 {
                let htyp = c.rng.u8();
                let len = match c.rng.below(5) {
                    0 => c.rng.below(30),
                    1 => 65531 - c.rng.below(30),
                    2 => c.rng.below(65532),
                    _ => c.rng.below(300),
                };
                let mut body = c.rng.bytes(len);
                if c.rng.pct(30) {
                    // edge values in the header fields
                    for x in body.iter_mut().take(30) {
                        *x = *c.rng.pick(&[0, 1, 0x7f, 0x80, 0xff]);
                    }
                }
                check(c, htyp, &body)?;
                c.sample(|| format!("htyp {:#04x} body of {} bytes {}", htyp, len, hexs(&body, 40)));
            }
        }
        Ok(())
    })
}
