//! Random patterns (without assertions such as `^`, whose meaning depends on where a text begins), on words of the logs
use crate::rng::Rng;
use regex::bytes::Regex;

const WORDS: &[&str] = &["Hello", "World", " ", "H", "key=", ";", "=", "[0-9]", "[0-9]+", "<a>", "<b", ">", "abc", "abd", "x", "1", "e", "o", "[a-z]", "[a-z]+", ".", "[^;]", "\\n", "\\.", "D", "LT", "y", "\u{fc}", "[H ]", "d"];

fn literal(rng: &mut Rng, b: &[u8]) -> String {
    let n = rng.range(1, 4).min(b.len());
    let at = rng.below(b.len() - n + 1);
    b[at..at + n]
        .iter()
        .map(|&c| match c {
            b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b' ' => (c as char).to_string(),
            _ => format!("(?-u:\\x{:02x})", c),
        })
        .collect()
}

fn piece(rng: &mut Rng, b: &[u8], depth: usize, groups: bool) -> String {
    match rng.below(if depth == 0 { 4 } else { 10 }) {
        0 if !b.is_empty() => literal(rng, b),
        0..=3 => rng.pick(WORDS).to_string(),
        4 | 5 => {
            let n = rng.range(2, 3);
            let g = if groups && rng.pct(50) { "(" } else { "(?:" };
            let v: Vec<String> = (0..n).map(|_| if rng.pct(6) { String::new() } else { piece(rng, b, depth - 1, groups) }).collect();
            format!("{}{})", g, v.join("|"))
        }
        6 => {
            let q = *rng.pick(&["?", "*", "+", "??", "*?", "+?", "{2}", "{0,3}", "{1,2}?"]);
            let x = piece(rng, b, depth - 1, groups);
            if groups && rng.pct(40) { format!("({}){}", x, q) } else { format!("(?:{}){}", x, q) }
        }
        7 if groups => format!("({})", piece(rng, b, depth - 1, groups)),
        8 => rng.pick(&[".*", ".*?", ".{0,20}", "[^;]*", "(?s-u:.)*?", "(?s-u:.{3})", "()", "(?i:hello)"]).replace("()", if groups { "()" } else { "" }),
        _ => (0..rng.range(2, 3)).map(|_| piece(rng, b, depth - 1, groups)).collect(),
    }
}

/// a pattern that compiles; with groups if so wanted, mostly
pub fn random(rng: &mut Rng, b: &[u8], groups: bool) -> String {
    let b = &b[..b.len().min(20_000)];
    for _ in 0..10 {
        let depth = rng.range(1, 4);
        let mut s = piece(rng, b, depth, groups);
        if groups && !s.replace("(?", "").contains('(') && rng.pct(90) {
            s = match rng.below(4) {
                0 => format!("({})", s),
                1 => format!("{}({})", s, rng.pick(WORDS)),
                2 => format!("(?:{}|({}))", s, rng.pick(WORDS)),
                _ => format!("({}|{})", s, rng.pick(WORDS)),
            };
        }
        if groups && rng.pct(20) {
            // a second group, in place of the first
            s = format!("{}|({})", s, rng.pick(WORDS));
        }
        if rng.pct(25) {
            s = format!("(?s-u){}", s.replace('\u{fc}', "\\xfc"));
        }
        if s.len() < 300 && Regex::new(&s).is_ok() {
            return s;
        }
    }
    "H(.*) World".into()
}
