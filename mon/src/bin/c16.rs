//! C16: ripdlt reports state exactly what the log contains
use mon::hints;
use mon::cli::{self, Opt};
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::relog;
use mon::reports::{self, *};
use mon::rng::fnv;
use mon::rt::*;
use std::os::unix::fs::FileExt;

fn compare(c: &mut Case, cmd: &str, r: &cli::Out, want: &[String]) -> Res {
    ensure!(r.ok(), "{}: {}", cmd, r.describe());
    let got = r.lines();
    if got != want {
        let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Err(format!("{}: line {} is {:?} but should be {:?}; {} lines instead of {}", cmd, k, got.get(k), want.get(k), got.len(), want.len()));
    }
    c.ev(&format!("report {}", cmd), 1);
    c.ev("lines compared", want.len());
    c.seen("distinct reports", fnv(want.join("\n").as_bytes()) ^ fnv(cmd.as_bytes()));
    Ok(())
}

/// a further message, with which a total lies next to a multiple of 1024
fn rounded(c: &mut Case, mut b: Vec<u8>) -> Vec<u8> {
    let ms = messages(&b);
    let sizes = c.rng.pct(50);
    let sum: usize = ms.iter().map(|m| if sizes { m.size } else { m.payload.map_or(0, |p| p.1 - p.0) }).sum();
    let own = if sizes { 20 } else { 0 };
    let p = (2048 + c.rng.below(3) - 1 - own - sum % 1024) % 1024;
    let mut m = b"DLT\x01\0\0\0\0\0\0\0\0ECU1\x20\0".to_vec();
    m.extend((4 + p as u16).to_be_bytes());
    m.resize(20 + p, b'.');
    b.extend(m);
    c.ev("totals next to a multiple of 1024", 1);
    b
}

fn all(c: &mut Case, cmds: &[&str]) -> Res {
    let b = match c.n % 4 {
        0 => {
            let cfg = Cfg::draw(&mut c.rng);
            log::<Dlt>(&mut c.rng, &cfg).bytes
        }
        _ => {
            let mut st = relog::style(&mut c.rng);
            if c.n % 4 == 1 {
                st.hostile = false;
            }
            relog::log(&mut c.rng, &st)
        }
    };
    let b = if c.n % 700 == 17 && !b.is_empty() {
        // more messages than 16 bits count, and more bytes than one buffer holds
        let (k, n) = (messages(&b).len().max(1), b.len());
        b.repeat((66_000 / k + 1).min(4_000_000 / n + 1))
    } else {
        b
    };
    let b = match c.rng.hinted() && c.rng.raw(6) == 0 && !b.is_empty() {
        true => {
            // that many bytes, that many messages, or that many times
            let (m, k) = (messages(&b).len().max(1), hints::size(&mut c.rng, 2_000_000).unwrap_or(1));
            let n = *c.rng.pick(&[k / b.len() + 1, k / m + 1, k]);
            b.repeat(n.max(1).min(2_000_000 / b.len() + 1))
        }
        false => b,
    };
    c.max("messages in one log", messages(&b).len());
    let b = if c.rng.pct(20) { rounded(c, b) } else { b };
    let b = if b.is_empty() { vec![b'D'] } else { b };
    c.input(&b);
    let ms = messages(&b);
    let s: Vec<(usize, usize)> = ms.iter().map(|m| (m.off, m.size)).collect();
    let clean = relog::is_clean::<Dlt>(&b, &s);
    c.ev(if clean { "clean logs" } else { "hostile logs" }, 1);
    c.ev("messages", ms.len());
    c.ev("messages too short for their flags", ms.iter().filter(|m| m.payload.is_none()).count());
    c.ev("messages with timestamp", ms.iter().filter(|m| m.f.tmsp.is_some()).count());
    c.ev("messages with extended header", ms.iter().filter(|m| m.f.ext.is_some()).count());
    let file = cli::scratch_file("c16");
    cli::write(&file, &b);
    let f = file.to_str().unwrap();
    for cmd in cmds {
        if (cmd.ends_with("grepit") || *cmd == "histogram_hello_world") && !clean {
            continue;
        }
        if !c.rng.pct(70) {
            continue;
        }
        let m = *c.rng.pick(&["mmap", "read"]);
        c.note(format!("ripdlt {} {}", m, cmd));
        let r = cli::run("ripdlt", &[m, cmd, f], None, &Opt::default());
        compare(c, cmd, &r, &expect(cmd, &b, &ms))?;
        c.seen("report x access", fnv(format!("{} {}", m, cmd).as_bytes()));
        c.judged((!ms.is_empty()).then(|| fnv(&b) ^ fnv(cmd.as_bytes())));
    }
    let _ = std::fs::remove_file(&file);
    if ms.len() > 1 {
        c.sample(|| format!("{} bytes, {} messages, clean {}; histogram_message_type: {:?}", b.len(), ms.len(), clean, expect("histogram_message_type", &b, &ms)));
    }
    Ok(())
}

/// pieces of log far apart in a sparse file: offsets beyond 100 MB
fn sparse(c: &mut Case) -> Res {
    let file = cli::scratch_file("c16s");
    let f = std::fs::File::create(&file).unwrap_or_else(|_| cli::die("sparse file"));
    let mut at = 0u64;
    let mut want: Hist = Hist::new();
    let mut n = 0;
    let re = regex::bytes::Regex::new(HELLO).unwrap();
    // beyond 4 GiB
    let far = c.n % 20_000 == 45;
    for k in 0..c.rng.range(2, 5) {
        let mut st = relog::style(&mut c.rng);
        st.hostile = false;
        st.dirt = 0;
        st.plain = true;
        st.msgs = 30;
        let b = relog::log(&mut c.rng, &st);
        let ms = messages(&b);
        let hits = grep_offsets(&b, &ms, &re);
        if k > 0 {
            at += match c.rng.below(3) {
                _ if far && k == 1 => (1 << 32) - at - c.rng.below(b.len() + 1) as u64,
                // a hit at a boundary, or next to it
                0 if !hits.is_empty() => (200_000_001 - at % 100_000_000 - *c.rng.pick(&hits) as u64 - c.rng.below(3) as u64) % 100_000_000,
                // around a boundary
                0 | 1 => 100_000_000 - at % 100_000_000 - c.rng.below(b.len() + 1) as u64,
                _ => c.rng.below(150_000_000) as u64,
            };
        }
        f.write_all_at(&b, at).unwrap_or_else(|_| cli::die("sparse file"));
        n += ms.len();
        for o in hits {
            *want.entry((o as u64 + at) / 100_000_000).or_insert(0) += 1;
        }
        at += b.len() as u64 + 20;
    }
    f.set_len(at.max(1)).unwrap_or_else(|_| cli::die("sparse file"));
    c.note(format!("sparse file of {} bytes", at));
    let total: usize = want.values().sum();
    let mut lines = vec!["Distribution of 'Hello World' matches:".to_string()];
    lines.extend(want.iter().map(|(k, v)| format!("Offset {}M-{}M: {}", k * 100, (k + 1) * 100, v)));
    let p = file.to_str().unwrap();
    let m = if far { "mmap" } else { *c.rng.pick(&["mmap", "read"]) };
    compare(c, "histogram_hello_world", &cli::run("ripdlt", &[m, "histogram_hello_world", p], None, &Opt::default()), &lines)?;
    compare(c, "count_hello_world_grepit", &cli::run("ripdlt", &["mmap", "count_hello_world_grepit", p], None, &Opt::default()), &[format!("{} hello world messages", total)])?;
    compare(c, "count", &cli::run("ripdlt", &["mmap", "count", p], None, &Opt::default()), &[format!("{} messages", n)])?;
    let _ = std::fs::remove_file(&file);
    c.ev(if far { "sparse files of more than 4 GiB" } else { "sparse files" }, 1);
    c.judged(Some(at));
    Ok(())
}

/// more than 4 GiB in messages of one size: their headers in a sparse file
fn massive(c: &mut Case) -> Res {
    let file = cli::scratch_file("c16m");
    let f = std::fs::File::create(&file).unwrap_or_else(|_| cli::die("sparse file"));
    let n = 65_545 + c.rng.below(100);
    let mut secs = 0;
    for k in 0..n {
        let m = relog::Msg { secs: k as u32 / 7, ecu: *b"ECU1", htyp: 0x31, ..Default::default() };
        secs = m.secs as usize;
        let mut h = m.bytes();
        h[18] = 0xff;
        h[19] = 0xff;
        f.write_all_at(&h, k as u64 * 65_551).unwrap_or_else(|_| cli::die("sparse file"));
    }
    f.set_len(n as u64 * 65_551).unwrap_or_else(|_| cli::die("sparse file"));
    let p = file.to_str().unwrap();
    for (cmd, lines) in [
        ("histogram_payload_size", vec!["Distribution of payload length:".to_string(), format!("65517b: {}, overall: {} kB", n, n * 65_517 / 1024), format!("Payload in total: {} kB", n * 65_517 / 1024)]),
        ("histogram_message_size", vec!["Distribution of DLT message length:".to_string(), format!("65551b: {}, overall: {} kB", n, n * 65_551 / 1024), format!("DLT messages in total: {} kB", n * 65_551 / 1024)]),
        ("count", vec![format!("{} messages", n)]),
        ("histogram_timestamp", vec![CONT.to_string(), format!("{}-{} secs: 1", secs, secs + 1)]),
        ("histogram_message_type", vec!["(verbose, message type): # dlt messages".to_string(), format!("(false, None): {}", n)]),
    ] {
        c.note(format!("ripdlt mmap {} on {} messages of 65551 bytes", cmd, n));
        compare(c, cmd, &cli::run("ripdlt", &["mmap", cmd, p], None, &Opt::default()), &lines)?;
    }
    let _ = std::fs::remove_file(&file);
    c.ev("logs with more than 4 GiB of messages", 1);
    c.judged(Some(n as u64));
    Ok(())
}

fn main() {
    // for other properties: the reports that rely on them
    let only = std::env::var("MON_REPORTS").unwrap_or_default();
    let only: Vec<&str> = only.split_whitespace().collect();
    run("C16", (6_000, 200_000), |c| {
        if !only.is_empty() {
            all(c, &only)
        } else if c.n % 20_000 == 46 {
            massive(c)
        } else if c.n % 400 == 5 || c.n % 20_000 == 45 {
            sparse(c)
        } else {
            all(c, reports::SEQUENTIAL)
        }
    })
}
