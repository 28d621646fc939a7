//! Hostile logs: valid messages, garbage, corrupted and truncated entries, embedded and overlapping
//! entries, markers split by message ends, chains, mutations.
use crate::hints;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Cfg {
    pub max_segs: usize,
    pub garbage: usize,
    pub corrupt: usize,
    pub embed: usize,
    /// percentage of messages of nearly maximum size
    pub big: usize,
    pub mutate: usize,
    /// largest ordinary payload
    pub payload: usize,
    /// percentage of logs with a gap that puts a marker across a multiple of a power of two
    pub gap: usize,
}
impl Cfg {
    pub fn hostile() -> Cfg {
        Cfg { max_segs: 14, garbage: 20, corrupt: 12, embed: 20, big: 1, mutate: 25, payload: 300, gap: 8 }
    }
    /// draws how hostile the log is
    pub fn draw(rng: &mut Rng) -> Cfg {
        let mut c = Cfg::hostile();
        match rng.below(10) {
            0 => {
                // a plain, well-formed log
                c.garbage = 0;
                c.corrupt = 0;
                c.embed = 0;
                c.mutate = 0;
                c.max_segs = 60;
            }
            1 => {
                c.embed = 60;
                c.payload = 900;
            }
            2 => {
                c.garbage = 60;
                c.payload = 40;
            }
            3 => {
                c.big = 25;
                c.max_segs = 6;
            }
            4 => {
                c.max_segs = 200;
                c.payload = 30;
            }
            5 => {
                c.max_segs = 3;
                c.payload = 30;
            }
            _ => {}
        }
        c
    }
}

#[derive(Default, Clone)]
pub struct Log {
    pub bytes: Vec<u8>,
    /// features that went into it
    pub features: u32,
}
pub const F_VALID: u32 = 1;
pub const F_GARBAGE: u32 = 2;
pub const F_CORRUPT: u32 = 4;
pub const F_TRUNC: u32 = 8;
pub const F_EMBED: u32 = 16;
pub const F_STRADDLE: u32 = 32;
pub const F_CHAIN: u32 = 64;
pub const F_BIG: u32 = 128;
pub const F_OVERRUN: u32 = 256;
pub const F_MUT: u32 = 512;
pub const F_GAP: u32 = 1024;
pub const F_MASS: u32 = 2048;
pub const FEATURES: &[(u32, &str)] = &[
    (F_VALID, "valid"),
    (F_GARBAGE, "garbage"),
    (F_CORRUPT, "corrupt"),
    (F_TRUNC, "truncated"),
    (F_EMBED, "embedded"),
    (F_STRADDLE, "straddling-marker"),
    (F_CHAIN, "chain"),
    (F_BIG, "max-size"),
    (F_OVERRUN, "embedded-overrun"),
    (F_MUT, "mutated"),
    (F_GAP, "boundary-gap"),
    (F_MASS, "mass"),
];
pub fn feature_names(f: u32) -> String {
    FEATURES.iter().filter(|x| f & x.0 != 0).map(|x| x.1).collect::<Vec<_>>().join("+")
}

fn payload_len(rng: &mut Rng, c: &Cfg, max: usize) -> usize {
    if rng.hinted() && rng.raw(24) == 0 {
        if let Some(n) = hints::size(rng, max) {
            return n;
        }
    }
    let n = match rng.below(10) {
        0..=2 => rng.below(9),
        3..=7 => rng.below(c.payload.min(64) + 1),
        _ => rng.below(c.payload + 1),
    };
    n.min(max)
}

pub fn filler<F: Fmt>(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = filled::<F>(rng, n);
    if rng.hinted() && rng.raw(8) == 0 {
        stamp(rng, &mut v);
    }
    v
}

/// puts the bytes of a hint somewhere
fn stamp(rng: &mut Rng, b: &mut [u8]) {
    if let Some(x) = hints::piece(rng) {
        if x.len() <= b.len() {
            let room = b.len() - x.len() + 1;
            let p = match rng.raw(4) {
                0 => 0,
                1 => room - 1,
                _ => rng.raw(room),
            };
            b[p..p + x.len()].copy_from_slice(&x);
        }
    }
}

fn filled<F: Fmt>(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(7) {
        0 => vec![0; n],
        1 => rng.bytes(n),
        2 => {
            // text
            let words: [&[u8]; 8] = [b"Hello World", b"Hello ", b" World", b"error=17;", b"\n", b"xyz", b"H", b"0123456789"];
            let mut v = vec![];
            while v.len() < n {
                v.extend_from_slice(rng.pick(&words[..]));
            }
            v.truncate(n);
            v
        }
        3 => {
            // marker bytes and pieces
            let mut v = vec![];
            while v.len() < n {
                let k = rng.range(1, F::MARKER.len());
                if rng.pct(50) {
                    v.extend_from_slice(&F::MARKER[..k]);
                } else {
                    v.extend_from_slice(&F::MARKER[F::MARKER.len() - k..]);
                }
                if rng.pct(20) {
                    v.push(rng.u8());
                }
            }
            v.truncate(n);
            v
        }
        4 => vec![0xff; n],
        5 => {
            let b = F::MARKER[0];
            vec![b; n]
        }
        _ => (0..n).map(|i| i as u8).collect(),
    }
}

/// one valid record with the given bytes after its header (which are cut to fit)
pub fn record<F: Fmt>(rng: &mut Rng, mut body: Vec<u8>) -> Vec<u8> {
    let hl = F::MIN;
    body.truncate(F::MAX - hl);
    let mut v = F::header(rng, hl + body.len());
    v.extend_from_slice(&body);
    v
}

fn garbage<F: Fmt>(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(4) {
        0 => rng.range(1, 4),
        1 => rng.range(1, 40),
        _ => rng.range(1, 120),
    };
    filler::<F>(rng, n)
}

fn embedded<F: Fmt>(rng: &mut Rng, c: &Cfg, depth: usize, out: &mut Log) -> Vec<u8> {
    let mut body = vec![];
    let k = rng.range(1, 3);
    for _ in 0..k {
        let n = rng.below(12);
        body.extend(filler::<F>(rng, n));
        match rng.below(6) {
            0 if depth > 0 => {
                let inner = embedded::<F>(rng, c, depth - 1, out);
                body.extend(record::<F>(rng, inner));
            }
            1 => {
                // declares more than the container holds
                out.features |= F_OVERRUN;
                let n = rng.below(20);
                let total = (F::MIN + n + rng.range(1, 100)).min(F::MAX);
                body.extend(F::header(rng, total));
                body.extend(filler::<F>(rng, n));
            }
            2 => body.extend(F::bad_header(rng)),
            _ => {
                let n = payload_len(rng, c, 60);
                let p = filler::<F>(rng, n);
                body.extend(record::<F>(rng, p));
            }
        }
    }
    let n = rng.below(12);
    body.extend(filler::<F>(rng, n));
    body
}

/// Sizes at which code that works in blocks could cut.
const BLOCKS: [usize; 13] = [16, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072];

/// A gap such that what follows starts at or shortly before a multiple of a power of two,
/// counted from the start of the buffer, or from the start or end of the last segment.
pub fn boundary_gap<F: Fmt>(rng: &mut Rng, last: usize, end: usize) -> Vec<u8> {
    let k = if rng.pct(25) { 65536 } else { *rng.pick(&BLOCKS) };
    let base = match rng.below(6) {
        0 => 0,
        1 => last,
        2 => last + 1,
        3 => last + F::MARKER.len(),
        _ => end,
    };
    let before = if rng.pct(70) { rng.below(F::MARKER.len() + 1) } else { rng.below(F::MIN + 2) };
    let mut p = base + k - before % k;
    while p < end {
        p += k;
    }
    let n = p - end;
    match rng.below(3) {
        0 => vec![0; n],
        1 => vec![F::MARKER[rng.below(F::MARKER.len())]; n],
        _ => clean(rng, n, F::MARKER),
    }
}

/// Garbage at the end such that the last marker lies across a multiple of a power of two before the end.
pub fn end_gap<F: Fmt>(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    let Some(q) = find_all(b, F::MARKER).last().copied() else { return vec![] };
    let k = if rng.pct(30) { 65536 } else { *rng.pick(&BLOCKS) };
    let mut e = q + k + rng.below(F::MARKER.len() + 1);
    while e < b.len() {
        e += k;
    }
    vec![0; e - b.len()]
}

pub fn log<F: Fmt>(rng: &mut Rng, c: &Cfg) -> Log {
    let mut l = Log::default();
    if c.mutate > 0 {
        if let Some(b) = rng.verbatim() {
            l.bytes = b;
            l.features = F_MUT;
            return l;
        }
    }
    let segs = rng.range(0, c.max_segs);
    let gap_at = if rng.pct(c.gap) { rng.below(segs + 1) } else { usize::MAX };
    let mut last = 0;
    for seg in 0..segs {
        if seg == gap_at {
            l.features |= F_GAP;
            let g = boundary_gap::<F>(rng, last, l.bytes.len());
            l.bytes.extend(g);
            let n = payload_len(rng, c, F::MAX - F::MIN);
            let p = clean(rng, n, F::MARKER);
            let r = record::<F>(rng, p);
            l.bytes.extend(r);
        }
        last = l.bytes.len();
        let d = rng.below(100);
        if d < c.garbage {
            l.features |= F_GARBAGE;
            let g = garbage::<F>(rng);
            l.bytes.extend(g);
        } else if d < c.garbage + c.corrupt {
            match rng.below(4) {
                0 => {
                    l.features |= F_CORRUPT;
                    let h = F::bad_header(rng);
                    l.bytes.extend(h);
                    let n = rng.below(30);
                    let g = filler::<F>(rng, n);
                    l.bytes.extend(g);
                }
                1 => {
                    l.features |= F_CORRUPT;
                    // marker alone or a torn header
                    let h = F::header(rng, F::MIN);
                    let k = rng.range(1, h.len() - 1);
                    l.bytes.extend_from_slice(&h[..k]);
                }
                2 => {
                    // declares more than was written: swallows what follows, or is cut by the end
                    l.features |= F_TRUNC;
                    let n = payload_len(rng, c, F::MAX - F::MIN - 1);
                    let total = (F::MIN + n + rng.range(1, 200)).min(F::MAX);
                    let h = F::header(rng, total);
                    l.bytes.extend(h);
                    let g = filler::<F>(rng, n);
                    l.bytes.extend(g);
                }
                _ => {
                    // declares so much that it cannot be valid
                    l.features |= F_CORRUPT;
                    let total = F::MAX - rng.below(3);
                    let h = F::header(rng, total);
                    l.bytes.extend(h);
                }
            }
        } else if d < c.garbage + c.corrupt + c.embed {
            match rng.below(5) {
                0 => {
                    // a marker across the end of a message, followed by what makes it look valid
                    l.features |= F_STRADDLE;
                    let k = rng.range(1, F::MARKER.len() - 1);
                    let n = payload_len(rng, c, 40);
                    let mut p = filler::<F>(rng, n);
                    p.extend_from_slice(&F::MARKER[..k]);
                    let r = record::<F>(rng, p);
                    l.bytes.extend(r);
                    let n = payload_len(rng, c, 10);
                    let p = filler::<F>(rng, n);
                    let r = record::<F>(rng, p);
                    l.bytes.extend_from_slice(&r[k..]);
                }
                1 => {
                    // overlapping chain: every entry declares more than the distance to the next
                    l.features |= F_CHAIN;
                    let n = rng.range(2, 30);
                    let extra = rng.range(1, F::MAX.min(60) - F::MIN);
                    let mut h = F::header(rng, F::MIN + extra);
                    if rng.pct(30) {
                        let k = rng.below(extra);
                        h.extend(filler::<F>(rng, k));
                    }
                    for _ in 0..n {
                        l.bytes.extend_from_slice(&h);
                    }
                }
                _ => {
                    l.features |= F_EMBED;
                    let depth = rng.below(4);
                    let b = embedded::<F>(rng, c, depth, &mut l);
                    let r = record::<F>(rng, b);
                    l.bytes.extend(r);
                }
            }
        } else if rng.pct(c.big) {
            l.features |= F_BIG | F_VALID;
            let room = F::MAX - F::MIN;
            let n = match rng.below(3) {
                0 => room,
                1 => room - rng.below(20.min(room)),
                _ => room - rng.below(room),
            };
            let mut p = filler::<F>(rng, n);
            if rng.pct(40) {
                // embedded entries anywhere in it, some reaching beyond its end
                for _ in 0..rng.range(1, 4) {
                    let x = if rng.pct(50) { n.saturating_sub(rng.below(60)) } else { rng.below(n) };
                    let total = if rng.pct(50) { F::MIN + rng.below(60.min(F::MAX - F::MIN)) } else { F::MAX };
                    let h = F::header(rng, total);
                    for (i, b) in h.iter().enumerate() {
                        if x + i < n {
                            p[x + i] = *b;
                        }
                    }
                    l.features |= F_EMBED;
                }
            }
            let r = record::<F>(rng, p);
            l.bytes.extend(r);
        } else {
            l.features |= F_VALID;
            let n = payload_len(rng, c, F::MAX - F::MIN);
            // without embedding, no marker may come about in a payload
            let p = if c.embed == 0 { clean(rng, n, F::MARKER) } else { filler::<F>(rng, n) };
            let r = record::<F>(rng, p);
            l.bytes.extend(r);
        }
    }
    if gap_at == segs {
        l.features |= F_GAP;
        let g = end_gap::<F>(rng, &l.bytes);
        l.bytes.extend(g);
    }
    if rng.hinted() && rng.raw(5) == 0 {
        guided::<F>(rng, c, &mut l);
    }
    if rng.pct(c.mutate) && !l.bytes.is_empty() && gap_at >= segs {
        l.features |= F_MUT;
        for _ in 0..rng.range(1, 4) {
            mutate(rng, &mut l.bytes);
        }
    }
    l
}

/// sizes, distances, counts and contents from the hints
fn guided<F: Fmt>(rng: &mut Rng, c: &Cfg, l: &mut Log) {
    const MOST: usize = 200_000;
    let have = l.bytes.len();
    let text = b"Hello World key=17;x ";
    match rng.raw(if c.garbage == 0 { 3 } else if c.mutate == 0 { 7 } else { 9 }) {
        0 => {
            // a message of that size
            if let Some(n) = hints::size(rng, F::MAX + 20) {
                let p = clean(rng, n.max(F::MIN) - F::MIN, F::MARKER);
                let r = record::<F>(rng, p);
                l.bytes.extend(r);
            }
        }
        1 => {
            // that many messages
            if let Some(n) = hints::size(rng, MOST / F::MIN) {
                let n = n.saturating_sub(if rng.raw(2) == 0 { seq::<F>(&l.bytes, 0).len() } else { 0 });
                let k = rng.raw(5);
                let p = clean(rng, k, F::MARKER);
                let r = record::<F>(rng, p);
                l.bytes.extend(r.repeat(n));
            }
        }
        2 => {
            // a message that ends there
            if let Some(n) = hints::size(rng, MOST) {
                if n >= have + F::MIN && n - have <= F::MAX {
                    let p = clean(rng, n - have - F::MIN, F::MARKER);
                    let r = record::<F>(rng, p);
                    l.bytes.extend(r);
                }
            }
        }
        k @ 3..=5 => {
            // that much garbage, or garbage up to there, or up to that distance from the end of a message
            if let Some(n) = hints::size(rng, MOST) {
                let n = match k {
                    3 => n,
                    4 => n.saturating_sub(have),
                    _ => {
                        let s = seq::<F>(&l.bytes, 0);
                        let p = if s.is_empty() { 0 } else { s[rng.raw(s.len())].0 };
                        (p + n).saturating_sub(have)
                    }
                };
                let g = match rng.raw(4) {
                    0 => vec![0; n],
                    1 => vec![F::MARKER[rng.raw(F::MARKER.len())]; n],
                    2 => text.iter().cycle().take(n).copied().collect(),
                    _ => clean(rng, n, F::MARKER),
                };
                l.bytes.extend(g);
            }
        }
        6 => {
            // that many markers or corrupted headers
            let u = if rng.raw(2) == 0 { F::MARKER.to_vec() } else { F::bad_header(rng) };
            if let Some(n) = hints::size(rng, MOST / u.len()) {
                l.features |= F_CORRUPT;
                l.bytes.extend(u.repeat(n));
            }
        }
        _ => {
            for _ in 0..rng.raw(4) + 1 {
                stamp(rng, &mut l.bytes);
            }
        }
    }
    if rng.raw(2) == 0 {
        let r = record::<F>(rng, text.to_vec());
        l.bytes.extend(r);
    }
}

/// bytes none of which occurs in the marker
pub fn clean(rng: &mut Rng, n: usize, marker: &[u8]) -> Vec<u8> {
    let mut v = rng.bytes(n);
    for b in v.iter_mut() {
        while marker.contains(b) {
            *b = b.wrapping_add(7);
        }
    }
    v
}

pub fn mutate(rng: &mut Rng, b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    let p = rng.below(b.len());
    match rng.below(6) {
        0 => b[p] = rng.u8(),
        1 => b[p] ^= 1 << rng.below(8),
        2 => {
            let k = rng.range(1, 30).min(b.len() - p);
            b.drain(p..p + k);
        }
        3 => {
            let k = rng.range(1, 60).min(b.len() - p);
            let d = b[p..p + k].to_vec();
            let q = rng.below(b.len());
            b.splice(q..q, d);
        }
        4 => b.truncate(p),
        _ => b[p] = *rng.pick(&[0, 1, 4, 0xff, 0x7f, 0x80]),
    }
}

/// A copy of the bytes in an exactly sized allocation at any alignment.
pub struct Placed {
    store: Vec<u8>,
    off: usize,
}
impl Placed {
    pub fn new(rng: &mut Rng, b: &[u8]) -> Placed {
        let off = rng.below(9);
        let mut store = Vec::with_capacity(off + b.len());
        store.resize(off, b'D');
        store.extend_from_slice(b);
        store.shrink_to_fit();
        Placed { store, off }
    }
    pub fn get(&self) -> &[u8] {
        &self.store[self.off..]
    }
    /// other bytes in the same place: nothing may be remembered about a buffer
    pub fn replace(&mut self, b: &[u8]) {
        self.store[self.off..].copy_from_slice(b);
    }
}

/// another log of the same length, at times with much in common with b
pub fn another<F: Fmt>(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match rng.below(5) {
        // an entry where there was none
        0 | 1 => {
            for _ in 0..rng.range(1, 3) {
                let n = rng.below(30);
                let p = filler::<F>(rng, n);
                let r = record::<F>(rng, p);
                let r = if rng.pct(30) { F::bad_header(rng) } else { r };
                if r.len() <= v.len() {
                    let at = rng.below((v.len() - r.len() + 1).min(200));
                    v[at..at + r.len()].copy_from_slice(&r);
                }
            }
        }
        // one less
        2 => {
            let m = find_all(&v, F::MARKER);
            if !m.is_empty() {
                let at = m[rng.below(m.len().min(3))];
                v[at] ^= 0x20;
            }
        }
        3 => {
            if !v.is_empty() {
                let k = rng.below(v.len());
                v.rotate_left(k);
            }
        }
        _ => {
            let c = Cfg::draw(rng);
            v = log::<F>(rng, &c).bytes;
            v.resize(b.len(), 0);
        }
    }
    v
}

/// A log with one thing repeated up to tens of thousands of times between ordinary segments:
/// nothing may be given up after some number of attempts, and no count may wrap.
pub fn mass<F: Fmt>(rng: &mut Rng, max: usize, chains: bool) -> Log {
    // (the coverage-guided runs do without the big ones)
    let max = if cfg!(feature = "fuzz") { max.min(1500) } else { max };
    let c = Cfg { max_segs: 4, gap: 0, big: 0, mutate: 0, ..Cfg::hostile() };
    let mut l = log::<F>(rng, &c);
    let unit = match rng.below(if chains { 8 } else { 7 }) {
        0 => {
            l.features |= F_CORRUPT;
            F::bad_header(rng)
        }
        1 => {
            l.features |= F_CORRUPT;
            F::MARKER.to_vec()
        }
        2 => {
            l.features |= F_CORRUPT;
            let h = F::header(rng, F::MIN);
            let k = rng.range(1, h.len() - 1);
            h[..k].to_vec()
        }
        3 => {
            l.features |= F_VALID;
            let n = rng.below(5);
            let p = filler::<F>(rng, n);
            record::<F>(rng, p)
        }
        4 => {
            l.features |= F_GARBAGE;
            b"Hello World key=17;x ".to_vec()
        }
        5 => {
            // some of a marker
            l.features |= F_GARBAGE;
            let k = rng.range(1, F::MARKER.len() - 1);
            F::MARKER[..k].to_vec()
        }
        6 => {
            // a message that does not match, or matches across its end only
            l.features |= F_VALID;
            record::<F>(rng, b" World Hello".to_vec())
        }
        _ => {
            l.features |= F_CHAIN;
            let extra = rng.range(1, F::MAX.min(60) - F::MIN);
            F::header(rng, F::MIN + extra)
        }
    };
    let n = *rng.pick(&[300, 700, 1100, 5000, 9000, 20_000, 40_000, 70_000]);
    let n = if rng.hinted() { hints::size(rng, 1_000_000).unwrap_or(n) } else { n };
    let n = n.min(max).min(1_600_000 / unit.len()).max(1);
    for _ in 0..n {
        l.bytes.extend_from_slice(&unit);
    }
    let p = filler::<F>(rng, 5);
    let r = record::<F>(rng, p);
    l.bytes.extend(r);
    l.bytes.extend(record::<F>(rng, b"Hello World key=17;x ".to_vec()));
    let m = log::<F>(rng, &c);
    l.bytes.extend(m.bytes);
    l.features |= m.features | F_MASS;
    l
}
