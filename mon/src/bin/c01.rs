//! C01: a message is recognised exactly when its bytes form a valid DLT entry
use matchit::{searchable::SearchableMarkerTrait, FromBytesReadableTrait};
use mon::gen::{filler, Placed};
use mon::model::*;
use mon::rng::fnv;
use mon::rt::*;
use mon::{ensure, model};
use rapiddlt::dlt_v1::{DltEntry, DltStorageEntry};
use zerocopy::AsBytes;

fn bare(b: &[u8], e: &DltEntry, p: usize, total: usize) -> Res {
    let base = b.as_ptr() as usize;
    ensure!(e.header as *const _ as *const u8 as usize == base + p, "standard header is not at {}", p);
    ensure!(e.header.as_bytes() == &b[p..p + 4], "standard header bytes {:?} instead of {:?}", e.header.as_bytes(), &b[p..p + 4]);
    ensure!(e.header.length() == total, "declared length {} reported as {}", total, e.header.length());
    let t = b[p];
    let h = &e.header.header_type;
    let got = (h.is_extended_header(), h.is_msb_first(), h.is_with_ecu_id(), h.is_with_session_id(), h.is_with_timestamp(), h.version());
    let want = (t & 1 != 0, t & 2 != 0, t & 4 != 0, t & 8 != 0, t & 16 != 0, t >> 5);
    ensure!(got == want, "header type {:#04x} reads as {:?}", t, got);
    ensure!(e.tail.as_ptr() as usize == base + p + 4 && e.tail.len() == total - 4, "body of {} bytes at {} instead of {} at {}", e.tail.len(), e.tail.as_ptr() as isize - base as isize, total - 4, p + 4);
    ensure!(e.len() == total, "bare message of {} bytes says it has {}", total, e.len());
    ensure!(DltEntry::max_len() >= total, "bare message of {} bytes exceeds the advertised maximum of {}", total, DltEntry::max_len());
    Ok(())
}

fn check(c: &mut Case, raw: &[u8]) -> Res {
    let pl = Placed::new(&mut c.rng, raw);
    let b = pl.get();
    // bare
    match (DltEntry::try_read(b), model::bare_at(b, 0)) {
        (None, None) => c.ev("bare rejected", 1),
        (Some((n, e)), Some(w)) => {
            ensure!(n == w, "bare message of {} bytes read with size {}", w, n);
            bare(b, &e, 0, w)?;
            c.ev("bare accepted", 1);
        }
        (g, w) => {
            c.input(b);
            return Err(format!("bare message: read gives {:?}, the bytes say {:?}", g.map(|x| x.0), w));
        }
    }
    // with storage header
    let want = Dlt::valid_at(b, 0);
    let mut reads = vec![("try_read", DltStorageEntry::try_read(b))];
    if at(b, 0, Dlt::MARKER) {
        reads.push(("try_read_valid_marker", DltStorageEntry::try_read_valid_marker(b)));
    }
    for (what, got) in reads {
        match (got, want) {
            (None, None) => c.ev("storage rejected", 1),
            (Some((n, e)), Some(w)) => {
                ensure!(n == w && e.len() == w, "{}: entry of {} bytes read with size {} and len {}", what, w, n, e.len());
                ensure!(e.storage_header as *const _ as *const u8 == b.as_ptr(), "{}: storage header not at the start", what);
                let s = e.storage_header;
                ensure!(s.pattern == b[..4] && s.secs.get() == le32(b, 4) && s.msecs.get() == le32(b, 8) as i32 && s.ecu == b[12..16], "{}: storage header fields {:?} do not match {:?}", what, s, &b[..16]);
                bare(b, &e.dlt, SH, w - SH)?;
                ensure!(DltStorageEntry::max_len() >= w, "entry of {} bytes exceeds the advertised maximum of {}", w, DltStorageEntry::max_len());
                c.ev("storage accepted", 1);
                c.max("entry size", w);
            }
            (g, w) => {
                c.input(b);
                return Err(format!("{}: read gives {:?}, the bytes say {:?}", what, g.map(|x| x.0), w));
            }
        }
    }
    c.judged(if b.len() >= 4 { Some(fnv(&b[..b.len().min(64)]) ^ (b.len() as u64) << 40) } else { None });
    Ok(())
}

fn put(c: &mut Case, storage: bool, declared: usize, avail: usize) -> Vec<u8> {
    let mut v = vec![];
    if storage {
        v.extend(Dlt::header(&mut c.rng, SH));
        v.truncate(16);
    }
    v.push(c.rng.u8());
    v.push(c.rng.u8());
    v.extend((declared as u16).to_be_bytes());
    if v.len() < avail {
        let n = avail - v.len();
        v.extend(filler::<Dlt>(&mut c.rng, n));
    }
    v.truncate(avail);
    v
}

fn main() {
    run("C01", (150_000, 6_000_000), |c| {
        let n = c.n as usize;
        if n < 80 {
            // every declared length around every available length
            for avail in 0..100 {
                for st in [true, false] {
                    let v = put(c, st, n, avail);
                    c.input(&v);
                    check(c, &v)?;
                }
            }
            c.ev("exhaustive small lengths", 1);
        } else if n < 80 + 40 {
            // the ends of the length field
            let d = [65535, 65534, 65533, 32768, 32767, 256, 255, 257, 0x8000 | 3, 0x0400, 65519, 65520, 65521, 65516, 65517, 65518, 512, 4096, 1023, 40000][n % 20];
            for k in 0..8usize {
                for st in [true, false] {
                    let total = d + if st { SH } else { 0 };
                    let v = put(c, st, d, (total + k).saturating_sub(4));
                    c.input(&v);
                    check(c, &v)?;
                }
            }
            c.ev("length field ends", 1);
        } else {
            for _ in 0..10 {
                // random, mutated at the header
                let d = match c.rng.below(4) {
                    0 => c.rng.below(8),
                    1 => c.rng.below(65536),
                    2 => 256 * c.rng.below(4) + c.rng.below(6),
                    _ => c.rng.below(120),
                };
                let st = c.rng.pct(70);
                let total = d + if st { SH } else { 0 };
                let avail = match c.rng.below(4) {
                    0 => total,
                    1 => (total + c.rng.below(9)).saturating_sub(4),
                    2 => c.rng.below(total + 2),
                    _ => total + c.rng.below(200),
                };
                let mut v = put(c, st, d, avail);
                if c.rng.pct(20) {
                    // a field or the body looks like a marker, or has an extreme value
                    let x: [u8; 4] = *c.rng.pick(&[*b"DLT\x01", *b"DLS\x01", [0; 4], [255; 4], [0, 0, 0, 128], [128, 0, 0, 0], [255, 255, 255, 127]]);
                    let p = if c.rng.pct(50) { *c.rng.pick(&[4, 8, 12, 20]) } else { c.rng.below(30) };
                    // not over the length field
                    let l = if st { 18 } else { 2 };
                    if p + 4 <= v.len() && (p + 4 <= l || p >= l + 2) {
                        v[p..p + 4].copy_from_slice(&x);
                    }
                }
                if c.rng.pct(30) && !v.is_empty() {
                    let k = c.rng.below(v.len().min(20));
                    v[k] = if c.rng.pct(50) { v[k] ^ (1 << c.rng.below(8)) } else { c.rng.u8() };
                }
                c.input(&v);
                check(c, &v)?;
                c.sample(|| format!("declared {} available {} storage {}: {}", d, v.len(), st, hexs(&v, 60)));
            }
        }
        Ok(())
    })
}
