//! Inputs that are meant to cost more than they should.
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;

fn hdr(rng: &mut Rng, total: usize) -> Vec<u8> {
    let mut h = Dlt::header(rng, total.clamp(Dlt::MIN, Dlt::MAX));
    if rng.pct(50) {
        // no further marker bytes in it
        h[12..16].copy_from_slice(b"ECU1");
    }
    h
}

/// hostile inputs of about n bytes
pub fn hostile(rng: &mut Rng, n: usize) -> (Vec<u8>, &'static str) {
    let mut v: Vec<u8> = vec![];
    let kind = rng.below(19);
    let name = match kind {
        0 => {
            v = rng.bytes(n);
            "random bytes"
        }
        1 => {
            v = vec![*rng.pick(&[0u8, b'D', 0xff, b'H']); n];
            "one byte repeated"
        }
        2 => {
            while v.len() < n {
                v.extend(Dlt::MARKER);
            }
            "markers only"
        }
        3 => {
            let step = rng.range(0, 40);
            while v.len() < n {
                v.extend(Dlt::MARKER);
                v.resize(v.len() + step, b'x');
            }
            "markers in garbage"
        }
        4 => {
            // each declares a bit more than the distance to the next
            let step = rng.range(20, 60);
            let h = hdr(rng, step + 1 + rng.clone().below(30));
            while v.len() < n {
                v.extend(&h);
                v.resize(v.len() + step - 20, b'H');
            }
            "chain of overlapping entries"
        }
        5 => {
            let h = hdr(rng, Dlt::MAX - rng.clone().below(100));
            while v.len() < n {
                v.extend(&h);
            }
            "entries of maximum size, overlapping"
        }
        6 => {
            // one in the other, all ending together
            let total = n.clamp(Dlt::MIN, Dlt::MAX);
            let mut left = total;
            while left >= Dlt::MIN {
                v.extend(hdr(rng, left));
                left -= Dlt::MIN;
            }
            while v.len() < n {
                let k = v.len().min(n - v.len()).max(1);
                v.extend_from_within(..k);
            }
            "nested entries"
        }
        7 => {
            // ends descending, starts ascending: each reaches a bit less far
            let h = n.clamp(2000, 60000);
            let mut left = h;
            while v.len() < n {
                v.extend(hdr(rng, left));
                left = if left < 50 { h } else { left - 21 };
            }
            "entries with approaching ends"
        }
        8 => {
            while v.len() < n {
                v.extend(b"Hello World");
                if rng.pct(10) {
                    v.extend(b"key=1;");
                }
            }
            "matches without any message"
        }
        9 => {
            v.extend(record::<Dlt>(rng, b"Hello World".to_vec()));
            while v.len() < n {
                v.extend(b"Hello World");
            }
            let r = record::<Dlt>(rng, b"Hello World".to_vec());
            v.extend(r);
            "matches between two messages"
        }
        10 => {
            let h = Dlt::bad_header(rng);
            let k = rng.below(30);
            while v.len() < n {
                v.extend(&h);
                v.extend(b"Hello World");
                v.resize(v.len() + k, 0);
            }
            "corrupted entries with matches"
        }
        11 => {
            while v.len() < n {
                let k = rng.below(40);
                let p = clean(rng, k, Dlt::MARKER);
                let r = record::<Dlt>(rng, p);
                v.extend(r);
            }
            "valid messages"
        }
        12 => {
            // a message full of entries that reach beyond it
            while v.len() < n {
                let mut body = vec![];
                let k = rng.range(0, 300);
                while body.len() + 20 < k {
                    body.extend(hdr(rng, 300));
                }
                let r = record::<Dlt>(rng, body);
                v.extend(r);
            }
            "messages full of entries reaching beyond them"
        }
        14 | 15 => {
            // text only, without line ends: a pattern goes on matching across all of them
            let text = *rng.pick(&["Hello", "Hello World", " World Hello", "H", "World", "key=1 Hello "]);
            let total = 16 + 4 + text.len();
            let bad = kind == 15;
            while v.len() < n {
                v.extend(b"DLT\x01abcdefghECU1");
                v.extend([0x20, b'c', 0, if bad && rng.pct(98) { 0 } else { total as u8 - 16 }]);
                v.extend(text.as_bytes());
            }
            if rng.pct(50) {
                v.extend(b"DLT\x01abcdefghECU1\x20c\0\x20Hello abcd WorldZ");
            }
            if bad { "corrupted text entries" } else { "text messages" }
        }
        13 => {
            let w = rng.range(1, 3);
            while v.len() < n {
                v.extend(&Dlt::MARKER[..w]);
                if rng.pct(1) {
                    v.extend(Dlt::MARKER);
                }
            }
            "torn markers"
        }
        _ => {
            let mut c = Cfg::draw(rng);
            c.big = 0;
            while v.len() < n {
                let l = log::<Dlt>(rng, &c);
                v.extend(l.bytes);
                v.push(0);
            }
            v.truncate(n.max(1));
            "mixed log"
        }
    };
    (v, name)
}
