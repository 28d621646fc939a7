//! Other record types implementing the library's traits: the generic code has to work for them as well.
//! Small maximum sizes bring the library's search windows within reach of small inputs.
use crate::model::Fmt;
use crate::rng::Rng;
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::{DltEntry, DltStorageEntry};
use std::cell::Cell;

/// What the monitors need to see of a record returned by the library.
pub trait Observe<'b>: FromBytesReadableTrait<'b> + Copy {
    /// address of the record's first byte
    fn addr(&self) -> usize;
    /// total size
    fn size(&self) -> usize;
}

impl<'b> Observe<'b> for DltStorageEntry<'b> {
    fn addr(&self) -> usize {
        self.storage_header as *const _ as *const u8 as usize
    }
    fn size(&self) -> usize {
        self.len()
    }
}
impl<'b> Observe<'b> for DltEntry<'b> {
    fn addr(&self) -> usize {
        self.header as *const _ as *const u8 as usize
    }
    fn size(&self) -> usize {
        self.len()
    }
}

/// marker AB CD, then one byte total size (at least 4), then anything
#[derive(Debug, Clone, Copy)]
pub struct Rec8<'b>(pub &'b [u8]);
pub struct FRec8;
impl Fmt for FRec8 {
    const NAME: &'static str = "rec8";
    const MARKER: &'static [u8] = &[0xAB, 0xCD];
    const MIN: usize = 4;
    const MAX: usize = 255;
    fn valid_at(b: &[u8], p: usize) -> Option<usize> {
        if !crate::model::at(b, p, Self::MARKER) || b.len() - p < 4 {
            return None;
        }
        let n = b[p + 2] as usize;
        if n < 4 || n > b.len() - p {
            return None;
        }
        Some(n)
    }
    fn header(rng: &mut Rng, total: usize) -> Vec<u8> {
        vec![0xAB, 0xCD, total as u8, rng.u8()]
    }
    fn bad_header(rng: &mut Rng) -> Vec<u8> {
        vec![0xAB, 0xCD, rng.below(4) as u8, rng.u8()]
    }
}
impl<'b> FromBytesReadableTrait<'b> for Rec8<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        let n = FRec8::valid_at(b, 0)?;
        Some((n, Rec8(&b[..n])))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn max_len() -> usize {
        255
    }
}
impl<'b> SearchableMarkerTrait<'b> for Rec8<'b> {
    fn marker() -> &'static [u8] {
        FRec8::MARKER
    }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        Self::try_read(b)
    }
}
impl<'b> Observe<'b> for Rec8<'b> {
    fn addr(&self) -> usize {
        self.0.as_ptr() as usize
    }
    fn size(&self) -> usize {
        self.0.len()
    }
}

/// six byte marker, four bit size: fixed small records of 7..=22 bytes
#[derive(Debug, Clone, Copy)]
pub struct Rec4<'b>(pub &'b [u8]);
pub struct FRec4;
impl Fmt for FRec4 {
    const NAME: &'static str = "rec4";
    const MARKER: &'static [u8] = b"<rec:>";
    const MIN: usize = 7;
    const MAX: usize = 22;
    fn valid_at(b: &[u8], p: usize) -> Option<usize> {
        if !crate::model::at(b, p, Self::MARKER) || b.len() - p < 7 || b[p + 6] & 0xf0 != 0x60 {
            return None;
        }
        let n = 7 + (b[p + 6] & 15) as usize;
        if n > b.len() - p {
            return None;
        }
        Some(n)
    }
    fn header(_rng: &mut Rng, total: usize) -> Vec<u8> {
        let mut v = Self::MARKER.to_vec();
        v.push(0x60 | (total - 7) as u8);
        v
    }
    fn bad_header(rng: &mut Rng) -> Vec<u8> {
        let mut v = Self::MARKER.to_vec();
        v.push(rng.below(16) as u8);
        v
    }
}
impl<'b> FromBytesReadableTrait<'b> for Rec4<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        let n = FRec4::valid_at(b, 0)?;
        Some((n, Rec4(&b[..n])))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn max_len() -> usize {
        22
    }
}
impl<'b> SearchableMarkerTrait<'b> for Rec4<'b> {
    fn marker() -> &'static [u8] {
        FRec4::MARKER
    }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        Self::try_read(b)
    }
}
impl<'b> Observe<'b> for Rec4<'b> {
    fn addr(&self) -> usize {
        self.0.as_ptr() as usize
    }
    fn size(&self) -> usize {
        self.0.len()
    }
}

/// marker 00 00 (occurrences of it overlap), any byte, one byte total size of at least 4
#[derive(Debug, Clone, Copy)]
pub struct RecZ<'b>(pub &'b [u8]);
pub struct FRecZ;
impl Fmt for FRecZ {
    const NAME: &'static str = "recz";
    const MARKER: &'static [u8] = &[0, 0];
    const MIN: usize = 4;
    const MAX: usize = 90;
    fn valid_at(b: &[u8], p: usize) -> Option<usize> {
        if !crate::model::at(b, p, Self::MARKER) || b.len() - p < 4 {
            return None;
        }
        let n = b[p + 3] as usize;
        if n < 4 || n > 90 || n > b.len() - p {
            return None;
        }
        Some(n)
    }
    fn header(rng: &mut Rng, total: usize) -> Vec<u8> {
        vec![0, 0, rng.below(3) as u8, total as u8]
    }
    fn bad_header(rng: &mut Rng) -> Vec<u8> {
        vec![0, 0, rng.below(3) as u8, *rng.pick(&[0, 1, 2, 3, 91, 255])]
    }
}
impl<'b> FromBytesReadableTrait<'b> for RecZ<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        let n = FRecZ::valid_at(b, 0)?;
        Some((n, RecZ(&b[..n])))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn max_len() -> usize {
        90
    }
}
impl<'b> SearchableMarkerTrait<'b> for RecZ<'b> {
    fn marker() -> &'static [u8] {
        FRecZ::MARKER
    }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        Self::try_read(b)
    }
}
impl<'b> Observe<'b> for RecZ<'b> {
    fn addr(&self) -> usize {
        self.0.as_ptr() as usize
    }
    fn size(&self) -> usize {
        self.0.len()
    }
}

// ---- a DLT entry that counts how often the library reads it

thread_local! {
    pub static READS: Cell<u64> = const { Cell::new(0) };
    pub static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub const BUDGET_MSG: &str = "entry read budget exceeded";

thread_local! {
    /// lowest stack address seen in an entry read
    pub static DEEPEST: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[inline(never)]
fn tick() {
    let here = 0u8;
    let a = std::hint::black_box(&here) as *const u8 as usize;
    DEEPEST.with(|d| d.set(d.get().min(a)));
    READS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if n > BUDGET.with(|b| b.get()) {
            panic!("{}", BUDGET_MSG);
        }
    })
}

#[derive(Debug, Clone, Copy)]
pub struct Counted<'b>(pub DltStorageEntry<'b>);
impl<'b> FromBytesReadableTrait<'b> for Counted<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        tick();
        DltStorageEntry::try_read(b).map(|(n, e)| (n, Counted(e)))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn max_len() -> usize {
        DltStorageEntry::max_len()
    }
}
impl<'b> SearchableMarkerTrait<'b> for Counted<'b> {
    fn marker() -> &'static [u8] {
        DltStorageEntry::marker()
    }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        tick();
        DltStorageEntry::try_read_valid_marker(b).map(|(n, e)| (n, Counted(e)))
    }
}
impl<'b> Observe<'b> for Counted<'b> {
    fn addr(&self) -> usize {
        self.0.addr()
    }
    fn size(&self) -> usize {
        self.0.size()
    }
}

/// a marker of one byte, which may be all there is; of a longer record, the next byte tells the size
#[derive(Debug, Clone, Copy)]
pub struct RecM<'b>(pub &'b [u8]);
pub struct FRecM;
impl Fmt for FRecM {
    const NAME: &'static str = "recm";
    const MARKER: &'static [u8] = b"#";
    const MIN: usize = 1;
    const MAX: usize = 41;
    fn valid_at(b: &[u8], p: usize) -> Option<usize> {
        if !crate::model::at(b, p, Self::MARKER) {
            return None;
        }
        let n = match b.get(p + 1) {
            Some(x @ 128..) => (*x - 128) as usize,
            _ => 1,
        };
        (n > 0 && n <= 41 && n <= b.len() - p).then_some(n)
    }
    fn header(rng: &mut Rng, total: usize) -> Vec<u8> {
        match total {
            1 => vec![b'#'],
            _ => vec![b'#', 128 + (total as u8 + 1).min(41)],
        }
    }
    fn bad_header(rng: &mut Rng) -> Vec<u8> {
        vec![b'#', *rng.pick(&[128, 170, 200, 255])]
    }
}
impl<'b> FromBytesReadableTrait<'b> for RecM<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        let n = FRecM::valid_at(b, 0)?;
        Some((n, RecM(&b[..n])))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn max_len() -> usize {
        41
    }
}
impl<'b> SearchableMarkerTrait<'b> for RecM<'b> {
    fn marker() -> &'static [u8] {
        FRecM::MARKER
    }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        Self::try_read(b)
    }
}
impl<'b> Observe<'b> for RecM<'b> {
    fn addr(&self) -> usize {
        self.0.as_ptr() as usize
    }
    fn size(&self) -> usize {
        self.0.len()
    }
}
