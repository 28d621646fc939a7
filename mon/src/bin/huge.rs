//! C04, C05, C06, C07, C09, C10 on buffers of more than 4 GiB: offsets beyond 31 and 32 bits.
//!
//! The buffer is a mapping of zeros with pieces of well-formed logs around the boundaries; the expected
//! results are those of the pieces.
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::{search_last_marker, search_marker};
use matchit::{partition_from, ContainedBySearch, NoOffsetIterator, TIterator};
use mon::ensure;
use mon::gen;
use mon::model::*;
use mon::relog;
use mon::rng::fnv;
use mon::rt::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use regex::bytes::Regex;

struct Huge(*mut u8, usize);
impl Huge {
    fn new(n: usize) -> Huge {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        if p == libc::MAP_FAILED {
            mon::cli::die("mapping a huge buffer");
        }
        // zero pages instead of zeroed memory
        unsafe { libc::madvise(p, n, libc::MADV_NOHUGEPAGE) };
        Huge(p as *mut u8, n)
    }
    fn put(&mut self, at: usize, b: &[u8]) {
        assert!(at + b.len() <= self.1);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(at), b.len()) }
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
}
impl Drop for Huge {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut _, self.1) };
    }
}

fn main() {
    let prop = std::env::var("MON_PROP").unwrap_or_else(|_| mon::cli::die("MON_PROP not set"));
    let id: &'static str = Box::leak(prop.clone().into_boxed_str());
    run(id, (2, 40), |c| {
        let len = (1usize << 32) + c.rng.range(200_000, 400_000);
        let mut h = Huge::new(len);
        let mut want: Vec<(usize, usize)> = vec![];
        let mut pieces = vec![];
        // where a search in blocks of up to 512 MiB, from the message before or back from the message
        // behind, would cut a marker at each of its bytes; around 2 GiB and 4 GiB; at both ends
        let gap = 1usize << 29;
        let (mut end, mut last) = (0, 0);
        for k in 0..9 {
            let mut st = relog::style(&mut c.rng);
            st.hostile = false;
            st.dirt = 0;
            st.plain = true;
            st.msgs = 12;
            let (b, s) = loop {
                let b = relog::log(&mut c.rng, &st);
                let s = seq::<Dlt>(&b, 0);
                // whole messages only
                let end = s.last().map_or(0, |m| m.0 + m.1);
                if end == b.len() && relog::is_clean::<Dlt>(&b, &s) && !s.is_empty() && s[0].0 == 0 && b.len() < 60_000 {
                    break (b, s);
                }
            };
            let around = |c: &mut Case, p: usize| {
                if c.rng.pct(50) {
                    // across a marker
                    p - s[c.rng.below(s.len())].0 - c.rng.range(1, 3)
                } else {
                    p - c.rng.below(b.len())
                }
            };
            let at = match k {
                0 => c.rng.below(100),
                1..=3 => end + gap - k,
                4 => around(c, 1 << 31),
                5..=7 => last + gap + (k - 4),
                _ => around(c, 1 << 32),
            };
            h.put(at, &b);
            want.extend(s.iter().map(|m| (m.0 + at, m.1)));
            pieces.push((at, b.len()));
            end = at + b.len();
            last = at + s.last().unwrap().0;
        }
        // the last one ends with the buffer, or shortly before
        let tail = gen::record::<Dlt>(&mut c.rng, b"Hello World key=1; ECU1".to_vec());
        let at = len - tail.len() - c.rng.below(2) * 20;
        h.put(at, &tail);
        want.push((at, tail.len()));
        pieces.push((at, tail.len()));
        let np = pieces.len();
        // those around 2 GiB and 4 GiB
        let (at2, at4) = (pieces[4], pieces[8]);
        let b = h.get();
        c.note(format!("{} bytes, pieces {:?}", len, pieces));
        let in2 = at4.0 + c.rng.below(at4.1);
        let from = |s: usize| -> Vec<(usize, usize)> {
            // messages at the markers from there on
            want.iter().copied().filter(|m| m.0 >= s).collect()
        };
        let base = b.as_ptr() as usize;
        match id {
            "C04" => {
                same("sequential reading", &drain(b, "sequential", <ReadFallbackIterator<DltStorageEntry> as TIterator>::new(b, 0))?, &want)?;
                let g: Vec<_> = NoOffsetIterator::new(ReadFallbackIterator::<DltStorageEntry>::new(b, 1 << 31)).map(|t: DltStorageEntry| (t.storage_header as *const _ as usize - base, matchit::FromBytesReadableTrait::len(&t))).collect();
                same("reading from 2 GiB", &g, &from(1 << 31))?;
                same("reading from about 4 GiB", &drain(b, "sequential", ReadFallbackIterator::<DltStorageEntry>::new(b, in2))?, &from(in2))?;
            }
            "C05" => {
                same("forward search", &drain(b, "forward", <SearchIterator<DltStorageEntry> as TIterator>::new(b, 0))?, &want)?;
                same("forward search from about 4 GiB", &drain(b, "forward", <SearchIterator<DltStorageEntry> as TIterator>::new(b, in2))?, &from(in2))?;
                let mut w = want.clone();
                w.reverse();
                same("reverse search", &drain(b, "reverse", <RevSearchIterator<DltStorageEntry> as TIterator>::new(b, len))?, &w)?;
                for p in [at2, at4] {
                    let w: Vec<_> = want.iter().copied().filter(|m| m.0 >= p.0 && m.0 < p.0 + p.1).collect();
                    same("strict reading", &drain(b, "strict", ReadIterator::<DltStorageEntry>::new(b, p.0))?, &w)?;
                }
                // the first marker behind a piece, and the last one before the next
                for k in 0..np - 1 {
                    let (e, n) = (pieces[k].0 + pieces[k].1, pieces[k + 1].0);
                    let f = search_marker::<DltStorageEntry>(&b[e..]);
                    ensure!(f == Some(n - e), "first marker behind {} at {:?} instead of {}", e, f, n - e);
                    let l = search_last_marker::<DltStorageEntry>(&b[..n]);
                    let q = want.iter().filter(|m| m.0 < n).last().map(|m| m.0);
                    ensure!(l == q, "last marker before {} at {:?} instead of {:?}", n, l, q);
                }
                let l = search_last_marker::<DltStorageEntry>(b);
                ensure!(l == want.last().map(|m| m.0), "last marker at {:?} instead of {:?}", l, want.last());
            }
            "C06" => {
                let search = ContainedBySearch::<DltStorageEntry>::new();
                for _ in 0..200 {
                    let p = pieces[c.rng.below(np)];
                    let a = p.0 + c.rng.below(p.1);
                    let e = (a + *c.rng.pick(&[1, 1, 2, 10, 100])).min(len);
                    let w = contained(&want, a, e);
                    let g = search.contained_by(b, (a, e)).map(|(o, t)| (o, matchit::FromBytesReadableTrait::len(&t)));
                    ensure!(g == w, "[{}..{}] is contained by {:?} instead of {:?}", a, e, g, w);
                }
            }
            "C07" => {
                for num in [2, 3, 4, c.rng.range(5, 40)] {
                    let parts = partition_from::<DltStorageEntry>(b, num);
                    let mut p = 0;
                    let longest = want.iter().map(|m| m.1).max().unwrap_or(0);
                    for x in &parts {
                        ensure!(!x.is_empty() && x.as_ptr() as usize == base + p, "{} partitions: gap, overlap or empty at {}", num, p);
                        p += x.len();
                        ensure!(x.len() <= 2 * ((len + num - 1) / num) + longest, "{} partitions: one has {} bytes", num, x.len());
                        ensure!(!want.iter().any(|m| m.0 < p && m.0 + m.1 > p), "{} partitions: a message is split at {}", num, p);
                    }
                    ensure!(p == len, "{} partitions cover {} of {} bytes", num, p, len);
                }
            }
            "C09" | "C10" => {
                let pat = *c.rng.pick(&["(Hello) World", "key=([0-9]*);", "(ECU1)", "(World)"]);
                let re = Regex::new(pat).unwrap();
                for start in [0, in2] {
                    let hits: Vec<_> = want.iter().filter(|m| m.0 + m.1 > start).filter_map(|m| {
                        let s = start.max(m.0 + 4);
                        re.captures(&b[s..m.0 + m.1]).map(|x| (m.0, m.1, (x.get(1).unwrap().start() + s, x.get(1).unwrap().end() + s)))
                    }).collect();
                    if id == "C09" {
                        let w: Vec<_> = hits.iter().map(|h| (h.0, h.1)).collect();
                        same(&format!("search for {:?} from {}", pat, start), &drain(b, "grep", GrepIterator::<DltStorageEntry>::new(pat, b, start))?, &w)?;
                    } else {
                        let w: Vec<_> = hits.iter().map(|h| (h.0, h.2)).collect();
                        let g: Vec<_> = RegExMatcherIterator::<DltStorageEntry>::new(pat, b, start).take(w.len() + 1).collect();
                        ensure!(g == w, "capture of {:?} from {}: {:?} instead of {:?}", pat, start, g, w);
                    }
                    c.ev("hits in huge buffers", hits.len());
                }
            }
            x => mon::cli::die(x),
        }
        c.ev("buffers of more than 4 GiB", 1);
        c.ev("messages in huge buffers", want.len());
        c.judged(Some(fnv(format!("{:?}", want).as_bytes())));
        Ok(())
    })
}
