//! The reference: what a log contains, written from the DLT v1 layout and the property texts,
//! without using the code under test.

/// A record format that a log consists of.
pub trait Fmt {
    const NAME: &'static str;
    const MARKER: &'static [u8];
    /// smallest and largest record
    const MIN: usize;
    const MAX: usize;
    /// total size of the valid record at `p`, if there is one
    fn valid_at(b: &[u8], p: usize) -> Option<usize>;
    /// a record header declaring `total` bytes (with marker), without the bytes after it
    fn header(rng: &mut crate::rng::Rng, total: usize) -> Vec<u8>;
    /// a header that is never valid
    fn bad_header(rng: &mut crate::rng::Rng) -> Vec<u8>;
}

/// DLT entry with storage header
pub struct Dlt;
pub const SH: usize = 16;
pub const STD: usize = 4;

pub fn be16(b: &[u8], p: usize) -> usize {
    (b[p] as usize) << 8 | b[p + 1] as usize
}
pub fn be32(b: &[u8], p: usize) -> u32 {
    (b[p] as u32) << 24 | (b[p + 1] as u32) << 16 | (b[p + 2] as u32) << 8 | b[p + 3] as u32
}
pub fn le32(b: &[u8], p: usize) -> u32 {
    (b[p + 3] as u32) << 24 | (b[p + 2] as u32) << 16 | (b[p + 1] as u32) << 8 | b[p] as u32
}

/// size of the bare message (no storage header) at `p`
pub fn bare_at(b: &[u8], p: usize) -> Option<usize> {
    if p > b.len() || b.len() - p < STD {
        return None;
    }
    let l = be16(b, p + 2);
    if l < STD || l > b.len() - p {
        return None;
    }
    Some(l)
}

impl Fmt for Dlt {
    const NAME: &'static str = "dlt";
    const MARKER: &'static [u8] = b"DLT\x01";
    const MIN: usize = SH + STD;
    const MAX: usize = SH + 65535;
    fn valid_at(b: &[u8], p: usize) -> Option<usize> {
        if !at(b, p, Self::MARKER) || b.len() - p < SH {
            return None;
        }
        Some(SH + bare_at(b, p + SH)?)
    }
    fn header(rng: &mut crate::rng::Rng, total: usize) -> Vec<u8> {
        let mut v = Self::MARKER.to_vec();
        v.extend_from_slice(&rng.edgy_u32().to_le_bytes());
        v.extend_from_slice(&rng.edgy_u32().to_le_bytes());
        v.extend_from_slice(rng.pick(&[*b"ECU1", *b"E001", *b"ab\0\0", *b"\xff\x80\x81\xfe", *b"DLT\x02"]));
        v.push(rng.u8());
        v.push(rng.u8());
        v.extend_from_slice(&((total - SH) as u16).to_be_bytes());
        v
    }
    fn bad_header(rng: &mut crate::rng::Rng) -> Vec<u8> {
        let mut v = Self::header(rng, Self::MIN);
        let n = v.len();
        v[n - 2] = 0;
        v[n - 1] = rng.below(STD) as u8;
        v
    }
}

pub fn at(b: &[u8], p: usize, pat: &[u8]) -> bool {
    p <= b.len() && b.len() - p >= pat.len() && &b[p..p + pat.len()] == pat
}

/// first occurrence of `pat` at or after `from`
pub fn find(b: &[u8], pat: &[u8], from: usize) -> Option<usize> {
    let mut p = from;
    while p < b.len() && b.len() - p >= pat.len() {
        match b[p..].iter().position(|x| *x == pat[0]) {
            None => return None,
            Some(i) => {
                if at(b, p + i, pat) {
                    return Some(p + i);
                }
                p += i + 1;
            }
        }
    }
    None
}

pub fn find_all(b: &[u8], pat: &[u8]) -> Vec<usize> {
    let mut r = vec![];
    let mut p = 0;
    while let Some(i) = find(b, pat, p) {
        r.push(i);
        p = i + 1;
    }
    r
}

/// (offset, size) of the sequentially read log from `start`
pub fn seq<F: Fmt>(b: &[u8], start: usize) -> Vec<(usize, usize)> {
    let mut r = vec![];
    let mut p = start;
    while let Some(i) = find(b, F::MARKER, p) {
        match F::valid_at(b, i) {
            Some(n) => {
                r.push((i, n));
                p = i + n;
            }
            None => p = i + 1,
        }
    }
    r
}

/// every offset before `start` at which a whole marker before `start` begins a valid record, descending
pub fn rev<F: Fmt>(b: &[u8], start: usize) -> Vec<(usize, usize)> {
    let end = start.min(b.len());
    let mut r: Vec<_> = find_all(&b[..end], F::MARKER).into_iter().filter_map(|i| F::valid_at(b, i).map(|n| (i, n))).collect();
    r.reverse();
    r
}

/// the unbroken run of valid records from `start`
pub fn strict(b: &[u8], start: usize, valid: impl Fn(&[u8], usize) -> Option<usize>) -> Vec<(usize, usize)> {
    let mut r = vec![];
    let mut p = start;
    while let Some(n) = valid(b, p) {
        r.push((p, n));
        p += n;
    }
    r
}

/// the record of the log around [a, e)
pub fn contained(s: &[(usize, usize)], a: usize, e: usize) -> Option<(usize, usize)> {
    // records are disjoint and ascending: the last one that starts before a
    let k = s.partition_point(|m| m.0 < a);
    if k == 0 {
        return None;
    }
    let m = s[k - 1];
    if m.0 + m.1 >= e {
        Some(m)
    } else {
        None
    }
}

// ---- DLT fields, by the layout: htyp bits UEH 0, MSBF 1, WEID 2, WSID 3, WTMS 4, VERS 5..7

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Fields {
    pub ecu: Option<u32>,
    pub tmsp: Option<u32>,
    /// (msin, noar, apid, ctid) and its offset in the body
    pub ext: Option<(u8, u8, [u8; 4], [u8; 4])>,
    pub ext_off: usize,
    /// offset of the payload in the body
    pub payload: Option<usize>,
}

/// fields of the body (the bytes after the standard header)
pub fn fields(htyp: u8, body: &[u8]) -> Fields {
    let mut f = Fields::default();
    let mut o = 0;
    if htyp & 4 != 0 {
        if body.len() >= o + 4 {
            f.ecu = Some(be32(body, o));
        }
        o += 4;
    }
    if htyp & 8 != 0 {
        o += 4;
    }
    if htyp & 16 != 0 {
        if body.len() >= o + 4 {
            f.tmsp = Some(be32(body, o));
        }
        o += 4;
    }
    if htyp & 1 != 0 {
        if body.len() >= o + 10 {
            let q = |p: usize| [body[p], body[p + 1], body[p + 2], body[p + 3]];
            f.ext = Some((body[o], body[o + 1], q(o + 2), q(o + 6)));
            f.ext_off = o;
        }
        o += 10;
    }
    if body.len() >= o {
        f.payload = Some(o);
    }
    f
}

/// (verbose, type, type info) of a message info byte; the type numbers are MSTP, the info numbers MTIN
pub fn msin(b: u8) -> (bool, Option<(u8, u8)>) {
    let mstp = (b >> 1) & 7;
    let mtin = b >> 4;
    let max = match mstp {
        0 => 6,
        1 => 5,
        2 => 6,
        3 => 2,
        _ => 0,
    };
    (b & 1 == 1, if mtin >= 1 && mtin <= max { Some((mstp, mtin)) } else { None })
}

pub fn type_name(t: (u8, u8)) -> String {
    let (n, l): (&str, &[&str]) = match t.0 {
        0 => ("DltTypeLog", &["DltLogFatal", "DltLogDltError", "DltLogWarn", "DltLogInfo", "DltLogDebug", "DltLogVerbose"]),
        1 => ("DltTypeAppTrace", &["DltTraceVariable", "DltTraceFunctionIn", "DltTraceFunctionOut", "DltTraceState", "DltTraceVfb"]),
        2 => ("DltTypeNwTrace", &["DltNwTraceIpc", "DltNwTraceCan", "DltNwTraceFlexray", "DltNwTraceMost", "DltNwTraceEthernet", "DltNwTraceSomeip"]),
        _ => ("DltTypeControl", &["DltControlRequest", "DltControlResponse"]),
    };
    format!("{}({})", n, l[t.1 as usize - 1])
}
