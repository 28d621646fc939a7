//! C09: every grep hit is a distinct valid message containing a match, none is missed
use matchit::searchable::{grepit::GrepIterator, SearchableMarkerTrait};
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::patterns;
use mon::rec::*;
use mon::relog;
use mon::rng::fnv;
use mon::rt::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use regex::bytes::Regex;

const PATTERNS: &[&str] = &[
    "Hello World", "H.* World", "H.*? World", "H[^W]*World", "Hello", "Hello World|key=", "[a-z]+=[0-9]+;", "(?-u:\\xff)", "x", "(?s).", "(?s).*", "", "a*", "abcabd|abc",
    "(?s-u)H.*d", "D", "LT", "DLT", "\\x01", "\\n", "(?i)hello", "[^ ]+ World", "(?s-u).{50}", "\\x00+", "(?s-u)\\xff.*\\xff", "=", "World.*Hello", "(?s-u)World.*Hello", "key=.*;",
    "(?s-u:;.*key)", "ECU1", "E002", "(?s-u)[\\x00-\\x04]", "\\.{100,}", "not there", "(?-u)LT\\x01", "(?s-u)\\x01.{3}", "H World", "[H ]+",
];

/// not repeated over the rest of a long log at every step
const CHEAP: &[&str] = &["Hello World", "Hello", "[a-z]+=[0-9]+;", "x", "DLT", "World.{0,8}Hello", "", "not there"];

fn pattern(c: &mut Case, b: &[u8]) -> String {
    if b.len() < 20_000 && c.rng.pct(40) {
        c.ev("patterns composed at random", 1);
        return patterns::random(&mut c.rng, b, false);
    }
    c.rng.pick(PATTERNS).to_string()
}

fn contains(re: &Regex, b: &[u8], from: usize, off: usize, end: usize) -> bool {
    // a match within [off, end): in the whole buffer, or in the message by itself
    if from < end && re.is_match_at(&b[..end], from.max(off)) {
        return true;
    }
    let mut p = from.max(off);
    while p < end {
        match re.find_at(b, p) {
            Some(m) if m.start() < end => {
                if m.end() <= end {
                    return true;
                }
                p = m.start() + 1;
            }
            _ => return false,
        }
    }
    false
}

fn judge<'b, F: Fmt, T: Observe<'b> + SearchableMarkerTrait<'b>>(c: &mut Case, b: &'b [u8], s: &[(usize, usize)], clean: bool, pat: &str, start: usize) -> Res {
    let re = Regex::new(pat).unwrap();
    let what = format!("{}: search for {:?} from {}", F::NAME, pat, start);
    c.note(what.clone());
    let got = drain(b, &what, GrepIterator::<T>::new(pat, b, start))?;
    let mut last = None;
    for &(o, n) in &got {
        ensure!(F::valid_at(b, o) == Some(n), "{}: hit at {} of {} bytes, where the bytes say {:?}", what, o, n, F::valid_at(b, o));
        ensure!(Some(o) > last, "{}: hit at {} after a hit at {:?}", what, o, last);
        ensure!(contains(&re, b, start, o, o + n), "{}: the message reported at {} does not contain a match at or after {}", what, o, start);
        last = Some(o);
    }
    c.ev("hits", got.len());
    protocol(c, &what, || GrepIterator::<T>::new(pat, b, start), |(o, t)| (o, t.size()), &got)?;
    // a single search: the next hit, whatever the state of the iterator
    let one = GrepIterator::<T>::new(pat, b, c.rng.below(b.len() + 1)).search(b, start).map(|(o, t)| (o, t.size()));
    ensure!(one.as_ref() == got.first(), "{}: a single search gives {:?}, the iterator {:?}", what, one, got.first());
    if clean {
        let ml = F::MARKER.len();
        let want: Vec<_> = s.iter().copied().filter(|(o, n)| start < o + n && re.is_match_at(&b[..o + n], start.max(o + ml))).collect();
        same(&what, &got, &want)?;
        c.ev("searches compared with the exact result", 1);
        c.ev("messages without a match", s.len() - want.len());
        // matches that reach from one message into the next
        if let Some(m) = re.find_at(b, start.min(b.len())) {
            if s.iter().any(|x| m.start() < x.0 + x.1 && m.end() > x.0 + x.1) {
                c.ev("first match crosses a message end", 1);
            }
        }
    } else {
        c.ev("searches on hostile logs", 1);
    }
    Ok(())
}

fn starts(c: &mut Case, b: &[u8], s: &[(usize, usize)]) -> Vec<usize> {
    let mut v = vec![0];
    match c.rng.below(3) {
        0 => v.push(if c.rng.pct(10) { usize::MAX - c.rng.below(24) } else { c.rng.below(b.len() + 2) }),
        _ => {
            if let Some(&(o, n)) = (!s.is_empty()).then(|| &s[c.rng.below(s.len())]) {
                v.push(o + c.rng.below(n + 1));
                v.push(o + c.rng.below(6));
            }
        }
    }
    v
}

fn main() {
    run("C09", (80_000, 3_000_000), |c| {
        if c.n % 4 == 3 {
            // other record types
            let cfg = Cfg::draw(&mut c.rng);
            if c.n % 24 == 7 {
                let l = log::<FRecM>(&mut c.rng, &cfg);
                c.input(&l.bytes);
                let pl = Placed::new(&mut c.rng, &l.bytes);
                let b = pl.get();
                let s = seq::<FRecM>(b, 0);
                let clean = relog::is_clean::<FRecM>(b, &s);
                let pat = &pattern(c, b)[..];
                for st in starts(c, b, &s) {
                    judge::<FRecM, RecM>(c, b, &s, clean, pat, st)?;
                }
                c.judged((s.len() > 1).then(|| fnv(b) ^ fnv(pat.as_bytes())));
            } else if c.n % 24 == 15 {
                let l = log::<FRecZ>(&mut c.rng, &cfg);
                c.input(&l.bytes);
                let pl = Placed::new(&mut c.rng, &l.bytes);
                let b = pl.get();
                let s = seq::<FRecZ>(b, 0);
                let clean = relog::is_clean::<FRecZ>(b, &s);
                let pat = &pattern(c, b)[..];
                for st in starts(c, b, &s) {
                    judge::<FRecZ, RecZ>(c, b, &s, clean, pat, st)?;
                }
                c.judged((s.len() > 1).then(|| fnv(b) ^ fnv(pat.as_bytes())));
            } else if c.n % 8 == 3 {
                let l = log::<FRec8>(&mut c.rng, &cfg);
                c.input(&l.bytes);
                let pl = Placed::new(&mut c.rng, &l.bytes);
                let b = pl.get();
                let s = seq::<FRec8>(b, 0);
                let clean = relog::is_clean::<FRec8>(b, &s);
                let pat = &pattern(c, b)[..];
                for st in starts(c, b, &s) {
                    judge::<FRec8, Rec8>(c, b, &s, clean, pat, st)?;
                }
                c.judged((s.len() > 1).then(|| fnv(b) ^ fnv(pat.as_bytes())));
            } else {
                let l = log::<FRec4>(&mut c.rng, &cfg);
                c.input(&l.bytes);
                let pl = Placed::new(&mut c.rng, &l.bytes);
                let b = pl.get();
                let s = seq::<FRec4>(b, 0);
                let clean = relog::is_clean::<FRec4>(b, &s);
                let pat = &pattern(c, b)[..];
                for st in starts(c, b, &s) {
                    judge::<FRec4, Rec4>(c, b, &s, clean, pat, st)?;
                }
                c.judged((s.len() > 1).then(|| fnv(b) ^ fnv(pat.as_bytes())));
            }
            return Ok(());
        }
        let long = c.n % 2000 < 8;
        let bytes = if long {
            c.ev("long logs of one repeated piece", 1);
            mass::<Dlt>(&mut c.rng, 40_000, false).bytes
        } else if c.n % 4 == 2 {
            let cfg = Cfg::draw(&mut c.rng);
            log::<Dlt>(&mut c.rng, &cfg).bytes
        } else {
            let st = relog::style(&mut c.rng);
            relog::log(&mut c.rng, &st)
        };
        c.input(&bytes);
        let mut pl = Placed::new(&mut c.rng, &bytes);
        if bytes.len() < 5_000 && c.rng.pct(12) {
            // the buffer held another log before
            let v = another::<Dlt>(&mut c.rng, &bytes);
            pl.replace(&v);
            let b = pl.get();
            let s = seq::<Dlt>(b, 0);
            let clean = relog::is_clean::<Dlt>(b, &s);
            let pat = &pattern(c, b)[..];
            c.input(&v);
            judge::<Dlt, DltStorageEntry>(c, b, &s, clean, pat, 0)?;
            pl.replace(&bytes);
            c.input(&bytes);
            let b = pl.get();
            let s = seq::<Dlt>(b, 0);
            let clean = relog::is_clean::<Dlt>(b, &s);
            judge::<Dlt, DltStorageEntry>(c, b, &s, clean, pat, 0)?;
            c.ev("buffers used again", 1);
        }
        let b = pl.get();
        let s = seq::<Dlt>(b, 0);
        let clean = relog::is_clean::<Dlt>(b, &s);
        c.ev(if clean { "clean logs" } else { "hostile logs" }, 1);
        for _ in 0..2 {
            let pat = &if long { c.rng.pick(CHEAP).to_string() } else { pattern(c, b) }[..];
            for st in starts(c, b, &s) {
                judge::<Dlt, DltStorageEntry>(c, b, &s, clean, pat, st)?;
            }
            c.judged((s.len() > 1).then(|| fnv(b) ^ fnv(pat.as_bytes())));
            if s.len() > 1 {
                c.sample(|| format!("pattern {:?}, {} bytes, {} messages, clean {}: {}", pat, b.len(), s.len(), clean, hexs(b, 120)));
            }
        }
        Ok(())
    })
}
