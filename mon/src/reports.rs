//! What every ripdlt report has to print, from the definition of the report and the reference model.
use crate::model::*;
use std::collections::BTreeMap;

pub struct M {
    pub off: usize,
    pub size: usize,
    pub secs: u32,
    pub ecu: [u8; 4],
    pub f: Fields,
    /// payload in the buffer
    pub payload: Option<(usize, usize)>,
}

pub fn messages(b: &[u8]) -> Vec<M> {
    seq::<Dlt>(b, 0)
        .into_iter()
        .map(|(o, n)| {
            let f = fields(b[o + 16], &b[o + 20..o + n]);
            let payload = f.payload.map(|p| (o + 20 + p, o + n));
            M { off: o, size: n, secs: le32(b, o + 4), ecu: [b[o + 12], b[o + 13], b[o + 14], b[o + 15]], f, payload }
        })
        .collect()
}

/// maximal runs of related neighbours, of which the relation is reflexive
pub fn runs<T: Copy>(v: &[T], rel: impl Fn(T, T) -> bool) -> Vec<(T, T)> {
    let mut r = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && rel(v[j], v[j + 1]) {
            j += 1;
        }
        r.push((v[i], v[j]));
        i = j + 1;
    }
    r
}

pub type Hist = BTreeMap<u64, usize>;
fn hist(i: impl IntoIterator<Item = u64>) -> Hist {
    let mut h = Hist::new();
    for k in i {
        *h.entry(k).or_insert(0) += 1;
    }
    h
}

pub fn hist_lifecycles(ms: &[M]) -> Hist {
    let v: Vec<(Option<u32>, u32)> = ms.iter().filter_map(|m| m.f.tmsp.map(|t| (m.f.ecu, t))).collect();
    hist(runs(&v, |a, b| a.0 == b.0 && b.1 >= a.1).iter().map(|r| ((r.1 .1 - r.0 .1) / 10000) as u64))
}
pub fn hist_timestamp(ms: &[M]) -> Hist {
    let v: Vec<u32> = ms.iter().map(|m| m.secs).collect();
    hist(runs(&v, |a, b| b >= a).iter().map(|r| (r.1 - r.0) as u64))
}
pub type Split = BTreeMap<[u8; 4], (Hist, usize)>;
pub fn split_lifecycles(ms: &[M]) -> Split {
    let mut by: BTreeMap<[u8; 4], Vec<u32>> = BTreeMap::new();
    for m in ms {
        if let Some(t) = m.f.tmsp {
            by.entry(m.ecu).or_default().push(t);
        }
    }
    by.into_iter().map(|(k, v)| (k, (hist(runs(&v, |a, b| b >= a).iter().map(|r| ((r.1 - r.0) / 10000) as u64)), v.len()))).collect()
}
pub fn split_timestamp(ms: &[M]) -> Split {
    let mut by: BTreeMap<[u8; 4], Vec<u32>> = BTreeMap::new();
    for m in ms {
        by.entry(m.ecu).or_default().push(m.secs);
    }
    by.into_iter()
        .map(|(k, v)| {
            let mut r = runs(&v, |a, b| b >= a);
            r.sort();
            // union of intervals that share a second
            let mut u: Vec<(u32, u32)> = vec![];
            for i in r {
                match u.last_mut() {
                    Some(l) if i.0 <= l.1 => l.1 = l.1.max(i.1),
                    _ => u.push(i),
                }
            }
            (k, (hist(u.iter().map(|i| (i.1 - i.0) as u64)), v.len()))
        })
        .collect()
}

pub fn print_secs(h: &Hist) -> Vec<String> {
    h.iter().map(|(k, v)| format!("{}-{} secs: {}", k, k + 1, v)).collect()
}
pub fn print_split(s: &Split) -> Vec<String> {
    // one line per id; an id may contain line breaks
    let t: String = s.iter().map(|(k, v)| format!("{} #lifecycles: {:?}\n", String::from_utf8_lossy(k), v)).collect();
    t.lines().map(|s| s.to_string()).collect()
}
fn sizes(h: &Hist, total: &str) -> Vec<String> {
    let mut r: Vec<String> = h.iter().map(|(k, v)| format!("{}b: {}, overall: {} kB", k, v, *k as usize * v / 1024)).collect();
    let t: usize = h.iter().map(|(k, v)| *k as usize * v).sum();
    r.push(format!("{}: {} kB", total, t / 1024));
    r
}
pub fn count_text(b: &[u8], ms: &[M]) -> usize {
    ms.iter().filter(|m| m.payload.is_some_and(|(a, e)| find(&b[a..e], b"Hello World", 0).is_some())).count()
}
pub fn count_raw(b: &[u8]) -> usize {
    let mut n = 0;
    let mut p = 0;
    while let Some(i) = find(b, b"Hello World", p) {
        n += 1;
        p = i + 11;
    }
    n
}
/// messages in which the pattern matches behind the marker
pub fn grep_offsets(b: &[u8], ms: &[M], re: &regex::bytes::Regex) -> Vec<usize> {
    ms.iter().filter(|m| re.is_match_at(&b[..m.off + m.size], m.off + 4)).map(|m| m.off).collect()
}
pub const HELLO: &str = "H.* World";
pub fn lifecycles(ms: &[M]) -> usize {
    let v: Vec<u32> = ms.iter().filter_map(|m| m.f.tmsp).collect();
    runs(&v, |a, b| b >= a).iter().filter(|r| r.1 - r.0 >= 18_000_000).count()
}

pub const SEQUENTIAL: &[&str] = &[
    "histogram_lifecycles",
    "split_lifecycles",
    "split_timestamp",
    "histogram_timestamp",
    "histogram_message_type",
    "histogram_payload_size",
    "histogram_message_size",
    "count",
    "histogram_hello_world",
    "count_hello_world",
    "count_hello_world_raw",
    "count_hello_world_grepit",
    "iter",
    "itertools",
];
pub const PARALLEL: &[&str] = &[
    "par_count",
    "par_split_timestamp",
    "par_histogram_timestamp",
    "par_count_hello_world",
    "par_count_hello_world_raw",
    "par_count_hello_world_grepit",
    "par_iter",
];

/// the lines a sequential report has to print
pub fn expect(cmd: &str, b: &[u8], ms: &[M]) -> Vec<String> {
    let head = |h: &str, mut l: Vec<String>| {
        l.insert(0, h.to_string());
        l
    };
    match cmd {
        "histogram_lifecycles" => head("Distribution of lifecycle durations:", print_secs(&hist_lifecycles(ms))),
        "split_lifecycles" => head("Distribution of lifecycle durations:", print_split(&split_lifecycles(ms))),
        "split_timestamp" => head(CONT, print_split(&split_timestamp(ms))),
        "histogram_timestamp" => head(CONT, print_secs(&hist_timestamp(ms))),
        "histogram_message_type" => {
            let mut h: BTreeMap<(bool, Option<(u8, u8)>), usize> = BTreeMap::new();
            for m in ms {
                if let Some(x) = m.f.ext {
                    *h.entry(msin(x.0)).or_insert(0) += 1;
                }
            }
            let l = h
                .iter()
                .map(|((v, t), n)| match t {
                    None => format!("({}, None): {}", v, n),
                    Some(t) => format!("({}, Some({})): {}", v, type_name(*t), n),
                })
                .collect();
            head("(verbose, message type): # dlt messages", l)
        }
        "histogram_payload_size" => {
            let h = hist(ms.iter().map(|m| m.payload.map_or(0, |p| p.1 - p.0) as u64));
            head("Distribution of payload length:", sizes(&h, "Payload in total"))
        }
        "histogram_message_size" => {
            let h = hist(ms.iter().map(|m| m.size as u64));
            head("Distribution of DLT message length:", sizes(&h, "DLT messages in total"))
        }
        "count" => vec![format!("{} messages", ms.len())],
        "count_hello_world" => vec![format!("{} hello world messages", count_text(b, ms))],
        "count_hello_world_raw" => vec![format!("{} raw hello world matches", count_raw(b))],
        "count_hello_world_grepit" => {
            let re = regex::bytes::Regex::new(HELLO).unwrap();
            vec![format!("{} hello world messages", grep_offsets(b, ms, &re).len())]
        }
        "histogram_hello_world" => {
            let re = regex::bytes::Regex::new(HELLO).unwrap();
            let h = hist(grep_offsets(b, ms, &re).iter().map(|o| *o as u64 / 100_000_000));
            head("Distribution of 'Hello World' matches:", h.iter().map(|(k, v)| format!("Offset {}M-{}M: {}", k * 100, (k + 1) * 100, v)).collect())
        }
        "iter" => vec![format!("{} lifecycles >= 1800s", lifecycles(ms))],
        "itertools" => {
            let v: Vec<u32> = ms.iter().filter_map(|m| m.f.tmsp).collect();
            let n = v.windows(2).filter(|w| w[1] >= w[0] && w[1] - w[0] >= 18_000_000).count();
            vec![format!("{} lifecycles >= 1800s", n)]
        }
        _ => panic!("unknown report {}", cmd),
    }
}
pub const CONT: &str = "Durations of periods where DLT storage header timestamps are continuous:";
