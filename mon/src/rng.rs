//! xoshiro256** seeded by splitmix64: every case is a function of (seed, property, case number).
use crate::hints;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    hints: bool,
    /// draws come from here first: the input of a coverage-guided run
    #[cfg(feature = "fuzz")]
    data: Option<(std::sync::Arc<[u8]>, usize)>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(b: &[u8]) -> u64 {
    // 8 bytes at a time: only used to tell inputs apart
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

impl Rng {
    pub fn new(seed: u64, stream: u64, case: u64) -> Rng {
        let mut x = seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ stream.wrapping_mul(0xA24B_AED4_963E_E407) ^ case.wrapping_mul(0x9FB2_1C65_1E98_DF25);
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        // half of the cases try values that are new in the code under test
        let h = s[3] & 1 == 1 && hints::any();
        Rng {
            s,
            hints: h,
            #[cfg(feature = "fuzz")]
            data: None,
        }
    }
    pub fn hinted(&self) -> bool {
        self.hints
    }
    #[cfg(feature = "fuzz")]
    pub fn from_bytes(data: &[u8], case: u64) -> Rng {
        let mut r = Rng::new(1, 1, case);
        r.data = Some((data.into(), 0));
        r
    }
    /// up to n bytes of the guided input
    #[cfg(feature = "fuzz")]
    fn take(&mut self, n: usize) -> Option<&[u8]> {
        let (d, p) = self.data.as_mut()?;
        let k = n.min(d.len() - *p);
        *p += k;
        if k == 0 {
            return None;
        }
        Some(&d[*p - k..*p])
    }
    #[cfg(feature = "fuzz")]
    fn taken(&mut self, n: usize) -> Option<u64> {
        self.take(n).map(|b| b.iter().rev().fold(0, |a, x| a << 8 | *x as u64))
    }
    #[cfg(not(feature = "fuzz"))]
    #[inline(always)]
    fn taken(&mut self, _n: usize) -> Option<u64> {
        None
    }
    /// a guided input as it is, now and then
    #[cfg(feature = "fuzz")]
    pub fn verbatim(&mut self) -> Option<Vec<u8>> {
        if self.data.is_none() || self.raw(3) != 0 {
            return None;
        }
        let (d, p) = self.data.as_mut()?;
        let e = (*p).max(d.len().saturating_sub(24));
        let v = d[*p..e].to_vec();
        *p = e;
        Some(v)
    }
    #[cfg(not(feature = "fuzz"))]
    pub fn verbatim(&mut self) -> Option<Vec<u8>> {
        None
    }
    /// a number near a hint
    pub fn near(&mut self) -> u64 {
        let v = &hints::get().ints;
        if v.is_empty() {
            return self.u64() & 0xffff;
        }
        let h = v[self.raw(v.len())];
        let h = if self.raw(10) == 0 { h.wrapping_mul(self.raw(4) as u64 + 1) } else { h };
        match self.raw(8) {
            0 => h.wrapping_add(1),
            1 => h.wrapping_sub(1),
            _ => h,
        }
    }
    fn try_hint(&mut self) -> Option<u64> {
        (self.hints && !hints::get().ints.is_empty() && self.raw(24) == 0).then(|| self.near())
    }
    pub fn u64(&mut self) -> u64 {
        if let Some(v) = self.taken(8) {
            return v;
        }
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u8(&mut self) -> u8 {
        match self.try_hint() {
            Some(h) if h < 256 => h as u8,
            _ => self.taken(1).unwrap_or_else(|| self.u64()) as u8,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.try_hint() {
            Some(h) => h as u32,
            _ => self.taken(4).unwrap_or_else(|| self.u64()) as u32,
        }
    }
    /// 0..n, never a hint
    pub fn raw(&mut self, n: usize) -> usize {
        if let Some(v) = self.taken(if n <= 256 { 1 } else if n <= 65536 { 2 } else { 4 }) {
            return (v % n.max(1) as u64) as usize;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        match self.try_hint() {
            Some(h) if h < n as u64 => h as usize,
            _ => self.raw(n),
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        match self.try_hint() {
            Some(h) if lo as u64 <= h && h <= hi as u64 => h as usize,
            _ => lo + self.raw(hi - lo + 1),
        }
    }
    /// true in p percent of the cases
    pub fn pct(&mut self, p: usize) -> bool {
        self.raw(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.raw(v.len());
        &v[i]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        #[cfg(feature = "fuzz")]
        let b = {
            let n = b.len();
            let mut k = 0;
            if let Some(x) = self.take(n) {
                k = x.len();
                b[..k].copy_from_slice(x);
            }
            &mut b[k..]
        };
        for c in b.chunks_mut(8) {
            let w = self.u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.raw(i + 1));
        }
    }
    /// values around interesting magnitudes
    pub fn edgy_u32(&mut self) -> u32 {
        if let Some(h) = self.try_hint() {
            return h as u32;
        }
        match self.below(6) {
            0 => 0,
            1 => u32::MAX - self.below(3) as u32,
            2 => self.below(20) as u32,
            3 => 0x7fff_ffff_u32.wrapping_add(self.below(3) as u32),
            4 => self.below(2_000_000) as u32,
            _ => self.u32(),
        }
    }
}
