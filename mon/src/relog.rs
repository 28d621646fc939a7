//! Logs with meaningful fields, for pattern search and reports.
use crate::gen;
use crate::hints;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub secs: u32,
    pub us: u32,
    pub ecu: [u8; 4],
    pub htyp: u8,
    pub mcnt: u8,
    pub ecu_id: u32,
    pub seid: u32,
    pub tmsp: u32,
    pub ext: [u8; 10],
    pub payload: Vec<u8>,
    /// cut this many bytes of the body (a message shorter than its flags claim)
    pub cut: usize,
}
impl Msg {
    pub fn bytes(&self) -> Vec<u8> {
        let mut body = vec![];
        if self.htyp & 4 != 0 {
            body.extend(self.ecu_id.to_be_bytes());
        }
        if self.htyp & 8 != 0 {
            body.extend(self.seid.to_be_bytes());
        }
        if self.htyp & 16 != 0 {
            body.extend(self.tmsp.to_be_bytes());
        }
        if self.htyp & 1 != 0 {
            body.extend(self.ext);
        }
        body.extend(&self.payload);
        let n = body.len().saturating_sub(self.cut).min(65531);
        body.truncate(n);
        let mut v = b"DLT\x01".to_vec();
        v.extend(self.secs.to_le_bytes());
        v.extend(self.us.to_le_bytes());
        v.extend(self.ecu);
        v.push(self.htyp);
        v.push(self.mcnt);
        v.extend(((4 + body.len()) as u16).to_be_bytes());
        v.extend(body);
        v
    }
}

/// no marker starts inside of a message (but at its start)
pub fn is_clean<F: Fmt>(b: &[u8], s: &[(usize, usize)]) -> bool {
    let all = find_all(b, F::MARKER);
    let mut k = 0;
    for m in &all {
        while k < s.len() && s[k].0 + s[k].1 <= *m {
            k += 1;
        }
        if k < s.len() && s[k].0 < *m {
            return false;
        }
    }
    true
}

pub struct Style {
    pub msgs: usize,
    /// percentage of garbage or corrupted entries between messages
    pub dirt: usize,
    /// markers may occur inside messages
    pub hostile: bool,
    pub ecus: usize,
    pub words: Vec<Vec<u8>>,
    /// mostly the same, short text payloads
    pub plain: bool,
}

pub fn words() -> Vec<Vec<u8>> {
    ["Hello World", "Hello", " World", "HWorld", "H World", "H", "key=17;", "key=", "key=;", "=99;", ";", "\n", "<a>", "<b", ">", "abcabd", "abc", "x", "12345", "\u{fc}", "\u{20ac}"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .chain(hints::get().strs.iter().cloned().filter(|s| !s.is_empty()))
        .chain([vec![0xff], vec![0], vec![0x80, 0xfe], vec![b'D'], vec![b'L', b'T']])
        .collect()
}

pub fn style(rng: &mut Rng) -> Style {
    Style {
        msgs: *rng.pick(&[1, 3, 10, 30, 80, 200]),
        dirt: *rng.pick(&[0, 0, 10, 40]),
        hostile: rng.pct(30),
        ecus: rng.range(1, 5),
        words: words(),
        plain: rng.pct(15),
    }
}

fn text(rng: &mut Rng, st: &Style, max_words: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..rng.below(max_words + 1) {
        if rng.hinted() && rng.raw(30) == 0 {
            v.extend(hints::piece(rng).unwrap_or_default());
        }
        let w: &Vec<u8> = rng.pick(&st.words);
        v.extend_from_slice(w);
        if rng.pct(10) {
            v.push(rng.u8());
        }
    }
    v
}

pub fn log(rng: &mut Rng, st: &Style) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    if st.hostile && st.dirt > 0 {
        if let Some(b) = rng.verbatim() {
            return b;
        }
    }
    let n = rng.below(st.msgs + 1);
    let pool: [[u8; 4]; 8] = [*b"ECU1", *b"E002", *b"ecu\0", [0xff, 0xfe, b'a', 0x80], *b"Hell", [0, 0, 0, 0], *b"\xc3\xbcbe", *b"E 1\n"];
    let mut ecus: Vec<[u8; 4]> = pool.to_vec();
    rng.shuffle(&mut ecus);
    ecus.truncate(st.ecus.max(1));
    let mut secs: Vec<u32> = ecus.iter().map(|_| rng.below(1000) as u32).collect();
    let mut tm: Vec<u32> = ecus.iter().map(|_| rng.below(100_000) as u32).collect();
    let ids: Vec<u32> = (0..3).map(|_| rng.edgy_u32()).collect();
    let htyps: Vec<u8> = if rng.pct(50) { vec![0x31] } else { (0..4).map(|_| rng.u8()).collect() };
    let ascii_heads = rng.pct(40);
    let (mut first, mut reset) = (0, false);
    for i in 0..n {
        if rng.pct(st.dirt) {
            dirt(rng, st, &mut out);
        }
        let e = rng.below(ecus.len());
        // storage clock: mostly forward, now and then backwards
        match rng.below(20) {
            0 => secs[e] = secs[e].saturating_sub(rng.below(50) as u32),
            1 => secs[e] = rng.edgy_u32(),
            2..=6 => secs[e] = secs[e].saturating_add(rng.below(4) as u32),
            _ => {}
        }
        // time since start: resets are new lifecycles
        let edges = [18_000_000u32, 17_999_999, 18_000_001, 10_000, 9_999, 10_001, 20_000];
        match if reset { 0 } else { rng.below(20) } {
            0 => {
                tm[e] = rng.below(20_000) as u32;
                first = tm[e];
                reset = false;
            }
            3 => {
                // a lifecycle, or a step, of a duration at the edge of what reports distinguish; ended at once half of the time
                let from = if rng.pct(50) { first } else { tm[e] };
                tm[e] = from.saturating_add(*rng.pick(&edges));
                reset = rng.pct(50);
            }
            1 => tm[e] = tm[e].saturating_add(rng.below(40_000_000) as u32),
            2 => tm[e] = rng.edgy_u32(),
            _ => tm[e] = tm[e].saturating_add(rng.below(9_000) as u32),
        }
        let mut m = Msg {
            secs: secs[e],
            us: rng.below(1_000_000) as u32,
            ecu: ecus[e],
            htyp: *rng.pick(&htyps),
            mcnt: if ascii_heads { i as u8 & 0x7f } else { i as u8 },
            ecu_id: *rng.pick(&ids),
            seid: rng.u32(),
            tmsp: tm[e],
            ext: [0; 10],
            payload: vec![],
            cut: 0,
        };
        if ascii_heads {
            // nothing in the headers stops a pattern from matching across messages
            m.us = 0x20202020 & rng.u32();
            m.htyp &= 0x7f;
        }
        m.ext[0] = match rng.below(4) {
            0 => rng.u8(),
            1 => 0x41,
            _ => (rng.below(2) | rng.below(4) << 1 | rng.below(8) << 4) as u8,
        };
        m.ext[1] = rng.below(3) as u8;
        m.ext[2..6].copy_from_slice(b"APP1");
        m.ext[6..].copy_from_slice(b"CTX1");
        m.payload = if st.plain {
            if rng.pct(50) {
                b"Hello World".to_vec()
            } else {
                b"nothing to see".to_vec()
            }
        } else {
            let w = *rng.pick(&[0, 3, 8, 30]);
            text(rng, st, w)
        };
        if rng.pct(if st.plain { 0 } else { 1 }) {
            let k = rng.below(66000);
            if rng.pct(50) {
                m.payload.resize(k, b'.');
            } else {
                // text at the end, the maximum size now and then
                let k = if rng.pct(50) { 65531 - rng.below(6) } else { k };
                let head = m.bytes().len() - 20 - m.payload.len();
                let t = std::mem::take(&mut m.payload);
                m.payload.resize(k.saturating_sub(head + t.len()), b'.');
                m.payload.extend(t);
            }
        }
        if rng.hinted() && rng.raw(40) == 0 {
            if let Some(n) = hints::size(rng, 65_560) {
                // of that size, or its payload is
                let n = if rng.raw(2) == 0 { n } else { n.saturating_sub(m.bytes().len().saturating_sub(m.payload.len())) };
                m.payload.resize(n, b'.');
            }
        }
        if rng.hinted() && rng.raw(30) == 0 {
            // clocks that far apart
            let d = rng.near() as u32;
            match rng.raw(3) {
                0 => m.secs = secs[e].wrapping_add(d),
                1 => m.tmsp = first.wrapping_add(d),
                _ => m.tmsp = tm[e].wrapping_add(d),
            }
            secs[e] = m.secs;
            tm[e] = m.tmsp;
        }
        if rng.hinted() && rng.raw(50) == 0 {
            if let Some(x) = hints::piece(rng) {
                let n = x.len().min(4);
                m.ecu[..n].copy_from_slice(&x[..n]);
            }
        }
        if rng.hinted() && rng.raw(50) == 0 {
            if let Some(x) = hints::piece(rng) {
                let n = x.len().min(4);
                let k = *rng.pick(&[2, 6]);
                m.ext[k..k + n].copy_from_slice(&x[..n]);
            }
        }
        if !st.plain && rng.below(250) == 0 {
            // the same word thousands of times, then others
            let w = rng.pick(&st.words).clone();
            let k = *rng.pick(&[300, 3_000, 12_000, 40_000]);
            m.payload = w.repeat(k.min(60_000 / w.len()));
            m.payload.extend(text(rng, st, 4));
        }
        if rng.pct(8) && !st.plain {
            m.cut = rng.below(30);
        }
        let mut b = m.bytes();
        if st.hostile && rng.pct(20) {
            // another entry or marker in the payload
            let inner = match rng.below(3) {
                0 => m.bytes(),
                1 => Dlt::MARKER.to_vec(),
                _ => gen::record::<Dlt>(rng, b"Hello World key=1;".to_vec()),
            };
            let mut o = m.clone();
            o.payload.extend(inner);
            o.payload.extend(text(rng, st, 3));
            o.cut = 0;
            b = o.bytes();
        }
        out.extend(b);
    }
    if rng.pct(st.dirt) {
        dirt(rng, st, &mut out);
    }
    if st.dirt > 0 && rng.hinted() && rng.raw(6) == 0 {
        if let Some(n) = hints::size(rng, 200_000) {
            // that much garbage, or that many markers
            match rng.raw(3) {
                0 => out.resize(out.len() + n, 0),
                1 => out.extend(Dlt::MARKER.repeat(n.min(20_000))),
                _ => out.extend(b"Hello World key=17;".iter().cycle().take(n)),
            }
            out.extend(gen::record::<Dlt>(rng, b"1234567890123456789012Hello World key=17;".to_vec()));
        }
    }
    if st.dirt > 0 && rng.hinted() && rng.raw(6) == 0 {
        if let Some(n) = hints::size(rng, 3_000_000) {
            // up to there
            let n = n.saturating_sub(out.len());
            out.extend(b"Hello World key=17;".iter().cycle().take(n));
        }
    }
    if rng.hinted() && rng.raw(12) == 0 {
        if let Some(n) = hints::size(rng, 10_000) {
            let r = gen::record::<Dlt>(rng, b"1234567890123456789012Hello World key=17;".to_vec());
            out.extend(r.repeat(n));
        }
    }
    if st.hostile && rng.pct(40) {
        gen::mutate(rng, &mut out);
    }
    out
}

fn dirt(rng: &mut Rng, st: &Style, out: &mut Vec<u8>) {
    match rng.below(8) {
        7 if rng.pct(15) => {
            let g = gen::boundary_gap::<Dlt>(rng, out.len(), out.len());
            out.extend(g);
        }
        0 => {
            let h = Dlt::bad_header(rng);
            out.extend(h);
        }
        1 => {
            out.extend(Dlt::MARKER);
            let t = text(rng, st, 2);
            out.extend(t);
        }
        2 => {
            // cannot be valid unless the log is very long
            let h = Dlt::header(rng, Dlt::MAX);
            out.extend(h);
        }
        3 => {
            let n = rng.below(40);
            let b = rng.bytes(n);
            out.extend(b);
        }
        4 => {
            let h = Dlt::header(rng, Dlt::MIN);
            let k = rng.below(h.len());
            out.extend_from_slice(&h[..k]);
        }
        _ => {
            let t = text(rng, st, 6);
            out.extend(t);
        }
    }
}
