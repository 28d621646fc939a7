//! Values worth trying: literals of the code under test that the code this check was written for did not
//! have (collected by check.py, none on the unchanged tree). They only steer what is generated; what is
//! judged, and how, stays the same.
use crate::rng::Rng;
use std::sync::OnceLock;

pub struct Hints {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

pub fn get() -> &'static Hints {
    static H: OnceLock<Hints> = OnceLock::new();
    H.get_or_init(|| {
        let mut h = Hints { ints: vec![], strs: vec![] };
        let Some(p) = std::env::var_os("MON_HINTS") else { return h };
        let Ok(t) = std::fs::read_to_string(p) else { return h };
        for l in t.lines() {
            match l.split_once(' ') {
                Some(("i", v)) => h.ints.extend(v.parse::<u64>()),
                Some(("s", v)) => h.strs.push((0..v.len() / 2).filter_map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect()),
                _ => {}
            }
        }
        h
    })
}

pub fn any() -> bool {
    let h = get();
    !h.ints.is_empty() || !h.strs.is_empty()
}

/// a size near a hint (or near it after one of the headers), at most max; big ones seldom
pub fn size(rng: &mut Rng, max: usize) -> Option<usize> {
    if !rng.hinted() || get().ints.is_empty() {
        return None;
    }
    let h = rng.near();
    let d = [0, 0, 0, 0, 0, 0, 16, 20, 4, 8, 24, 12, 35, 3, 5][rng.raw(15)];
    let h = h.saturating_sub(d);
    if h > max as u64 || (h > 20_000 && rng.raw(h as usize) > 20_000) {
        return None;
    }
    Some(h as usize)
}

/// bytes of a hint: a text, or a number in either order
pub fn piece(rng: &mut Rng) -> Option<Vec<u8>> {
    let h = get();
    if !rng.hinted() {
        return None;
    }
    if !h.strs.is_empty() && (h.ints.is_empty() || rng.raw(2) == 0) {
        return Some(h.strs[rng.raw(h.strs.len())].clone());
    }
    let v = rng.near();
    let n = if v < 256 { [1, 1, 2, 4][rng.raw(4)] } else if v < 65536 { [2, 2, 4][rng.raw(3)] } else if v < 1 << 32 { 4 } else { 8 };
    Some(match rng.raw(3) {
        0 => v.to_le_bytes()[..n].to_vec(),
        1 => v.to_be_bytes()[8 - n..].to_vec(),
        _ => v.to_string().into_bytes(),
    })
}
