//! C10: capture search reports the first captured group of every matching message
use matchit::searchable::{grepit::RegExMatcherIterator, SearchableMarkerTrait};
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::patterns;
use mon::rec::*;
use mon::relog;
use mon::rng::fnv;
use mon::rt::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use regex::bytes::Regex;

const PATTERNS: &[&str] = &[
    "key=([0-9]*);", "key=([0-9]+);", "key=([0-9]+);?", "H(.*) World", "H(.*?) World", "(?:<a>|(<b))", "(?:<a>|(<b)>)", "(a)?bc", "()", "(x*)", "=([0-9]+);", "((?-u:\\xff))", "(?s-u)H(.*)",
    "D(.)", "(Hello)( World)", "(?:Hello|( World))", "(D)", "([0-9]{5})", "abc(abd)", "(?s-u)(.)", "(?s-u);(.*)key", "key=(.*);", "L(T)", "(?s-u)(.{30})", "not (there)", "(?:x|(H)) ", "(?i)h(ELLO)",
    "(?s-u)Hello(.*)Hello", "key=([0-9])|(H)ello", "(x)|(?:(H)| )World", "Hello( World)?(;)?", "(?:(a)|(b)|(c))+", "((Hel)lo|H)", "(?:(abc)|x|H).*;", "\\.(\\.{64})\\.",
];

/// not repeated over the rest of a long log at every step
const CHEAP: &[&str] = &["(Hello) World", "key=([0-9]*);", "(?:Hello|( World))", "(x)", "(D)", "(?:(x)|H)", "()", "not (there)"];

/// the group of the first match with the group from `from`, in `b` alone
fn first(re: &Regex, b: &[u8], from: usize) -> Option<(usize, usize)> {
    let mut l = re.capture_locations();
    let mut p = from;
    while p < b.len() {
        let m = re.captures_read_at(&mut l, b, p)?;
        if let Some(g) = l.get(1) {
            return Some(g);
        }
        p = m.end().max(m.start() + 1);
    }
    None
}

/// whether the group is that of some match within [off, end) at or after from
fn sound(re: &Regex, b: &[u8], from: usize, off: usize, end: usize, g: (usize, usize)) -> bool {
    let mut l = re.capture_locations();
    for hay in [&b[..end], b] {
        let mut p = from.max(off);
        while p < end {
            match re.captures_read_at(&mut l, hay, p) {
                Some(m) if m.start() < end => {
                    if m.end() <= end && l.get(1) == Some(g) {
                        return true;
                    }
                    if m.start() > g.0 {
                        break;
                    }
                    p = m.start() + 1;
                }
                _ => break,
            }
        }
    }
    false
}

fn judge<'b, F: Fmt, T: Observe<'b> + SearchableMarkerTrait<'b>>(c: &mut Case, b: &'b [u8], s: &[(usize, usize)], clean: bool, pat: &str, start: usize) -> Res {
    let re = Regex::new(pat).unwrap();
    let what = format!("{}: capture search for {:?} from {}", F::NAME, pat, start);
    c.note(what.clone());
    let mut it = RegExMatcherIterator::<T>::new(pat, b, start);
    let mut got = vec![];
    let mut last = None;
    while let Some((o, g)) = it.next() {
        let n = F::valid_at(b, o);
        let Some(n) = n else { return Err(format!("{}: hit at {}, where there is no valid message", what, o)) };
        ensure!(Some(o) > last, "{}: hit at {} after a hit at {:?}", what, o, last);
        ensure!(g.0 <= g.1 && g.0 >= o && g.1 <= o + n, "{}: group {:?} is not in the message at {} of {} bytes", what, g, o, n);
        ensure!(sound(&re, b, start, o, o + n, g), "{}: group {:?} of the message at {} does not belong to a match in it", what, g, o);
        last = Some(o);
        got.push((o, g));
        ensure!(got.len() <= b.len(), "{}: does not end", what);
    }
    ensure!(it.next().is_none(), "{}: yields a hit after it was exhausted", what);
    c.ev("hits", got.len());
    protocol(c, &what, || RegExMatcherIterator::<T>::new(pat, b, start), |x| x, &got)?;
    let one = RegExMatcherIterator::<T>::new(pat, b, c.rng.below(b.len() + 1)).capture(b, start);
    ensure!(one.as_ref() == got.first(), "{}: a single search gives {:?}, the iterator {:?}", what, one, got.first());
    if clean {
        let ml = F::MARKER.len();
        let want: Vec<_> = s.iter().filter(|(o, n)| start < o + n).filter_map(|(o, n)| first(&re, &b[..o + n], start.max(o + ml)).map(|g| (*o, g))).collect();
        if got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!("{}: hit {} is {:?} but should be {:?} (offset, group); {} hits instead of {}", what, k, got.get(k), want.get(k), got.len(), want.len()));
        }
        c.ev("searches compared with the exact result", 1);
        c.ev("messages without the group", s.len() - want.len());
    } else {
        c.ev("searches on hostile logs", 1);
    }
    Ok(())
}

fn all<'b, F: Fmt, T: Observe<'b> + SearchableMarkerTrait<'b>>(c: &mut Case, b: &'b [u8], pats: &[&str]) -> Res {
    let s = seq::<F>(b, 0);
    let clean = relog::is_clean::<F>(b, &s);
    c.ev(if clean { "clean logs" } else { "hostile logs" }, 1);
    for _ in 0..2 {
        let drawn;
        let pat = if pats.len() == PATTERNS.len() && b.len() < 20_000 && c.rng.pct(40) {
            drawn = patterns::random(&mut c.rng, b, true);
            c.ev("patterns composed at random", 1);
            &drawn
        } else {
            *c.rng.pick(pats)
        };
        let mut starts = vec![0];
        if c.rng.pct(40) {
            starts.push(if c.rng.pct(10) { usize::MAX - c.rng.below(24) } else { c.rng.below(b.len() + 2) });
        }
        if !s.is_empty() {
            let (o, n) = s[c.rng.below(s.len())];
            starts.push(o + c.rng.below(n + 1));
        }
        for st in starts {
            judge::<F, T>(c, b, &s, clean, pat, st)?;
        }
        c.judged((s.len() > 1).then(|| fnv(b) ^ fnv(pat.as_bytes())));
        if s.len() > 1 {
            c.sample(|| format!("pattern {:?}, {} bytes, {} messages, clean {}: {}", pat, b.len(), s.len(), clean, hexs(b, 120)));
        }
    }
    Ok(())
}

/// a message with thousands of matches that lack the group in front of one that has it, or of none
fn patient(c: &mut Case) -> Res {
    let (pat, no, yes) = *c.rng.pick(&[
        ("(?:Hello|( World))", "Hello", " World"),
        ("(?:<a>|(<b))", "<a>", "<b"),
        ("(?:<a>|(<b)>)", "<a>", "<b>"),
        ("(?:(x)|H)", "H", "x"),
        ("(a)?bc", "bc", "abc"),
        ("(?:x|(H)) ", "x ", "H "),
        ("(?:y|()z)", "y", "z"),
        ("()Hello|", "e", "Hello"),
    ]);
    let k = *c.rng.pick(&[10, 300, 1_100, 6_000, 13_000]) + c.rng.below(200);
    let has = c.rng.pct(80);
    let mut p = vec![b'.'; 22];
    p.extend(no.repeat(k.min(65_000 / no.len())).bytes());
    if has {
        p.extend(yes.bytes());
    }
    let small = |c: &mut Case| {
        let t = if c.rng.pct(50) { yes } else { no };
        record::<Dlt>(&mut c.rng, [b"......................", t.as_bytes()].concat())
    };
    let mut bytes = small(c);
    bytes.extend(record::<Dlt>(&mut c.rng, p));
    bytes.extend(small(c));
    c.input(&bytes);
    c.ev("messages with thousands of matches without the group", 1);
    all::<Dlt, DltStorageEntry>(c, &bytes, &[pat])
}

fn main() {
    run("C10", (80_000, 3_000_000), |c| {
        if c.n % 400 == 7 {
            return patient(c);
        }
        let k = c.n % 8;
        let cfg = Cfg::draw(&mut c.rng);
        let long = c.n % 2000 < 8;
        let z = c.n % 24 == 2;
        let one = c.n % 24 == 10;
        let bytes = match k {
            3.. if long => {
                c.ev("long logs of one repeated piece", 1);
                mass::<Dlt>(&mut c.rng, 40_000, false).bytes
            }
            0 => log::<FRec8>(&mut c.rng, &cfg).bytes,
            1 => log::<FRec4>(&mut c.rng, &cfg).bytes,
            2 if z => log::<FRecZ>(&mut c.rng, &cfg).bytes,
            2 if one => log::<FRecM>(&mut c.rng, &cfg).bytes,
            2 => log::<Dlt>(&mut c.rng, &cfg).bytes,
            _ => {
                let st = relog::style(&mut c.rng);
                relog::log(&mut c.rng, &st)
            }
        };
        c.input(&bytes);
        let mut pl = Placed::new(&mut c.rng, &bytes);
        if k > 2 && bytes.len() < 5_000 && c.rng.pct(12) {
            // the buffer held another log before
            let v = another::<Dlt>(&mut c.rng, &bytes);
            pl.replace(&v);
            c.input(&v);
            let pat = [*c.rng.pick(PATTERNS)];
            all::<Dlt, DltStorageEntry>(c, pl.get(), &pat)?;
            pl.replace(&bytes);
            c.input(&bytes);
            all::<Dlt, DltStorageEntry>(c, pl.get(), &pat)?;
            c.ev("buffers used again", 1);
        }
        let b = pl.get();
        match k {
            2 if z => all::<FRecZ, RecZ>(c, b, PATTERNS),
            2 if one => all::<FRecM, RecM>(c, b, PATTERNS),
            0 => all::<FRec8, Rec8>(c, b, PATTERNS),
            1 => all::<FRec4, Rec4>(c, b, PATTERNS),
            _ => all::<Dlt, DltStorageEntry>(c, b, if long { CHEAP } else { PATTERNS }),
        }
    })
}
