//! C15: dd_dlt wraps its whole input into valid messages or reports failure
use mon::hints;
use mon::cli::{self, Opt};
use mon::ensure;
use mon::model::*;
use mon::rng::fnv;
use mon::rt::*;
use std::path::PathBuf;

/// what dd_dlt has to write
fn expect(ecu: &[u8], app: &[u8], size: usize, input: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for (i, b) in input.chunks_exact(size).enumerate() {
        v.extend(b"DLT\x01");
        v.extend(((i / 100) as u32).to_le_bytes());
        v.extend(((i % 100) as u32 * 10_000).to_le_bytes());
        v.extend(ecu);
        v.push(0x31); // version 1, timestamp, extended header
        v.push(i as u8);
        v.extend(((18 + size) as u16).to_be_bytes());
        v.extend((i as u32 * 100).to_be_bytes());
        v.push(0x41); // verbose, log, info
        v.push(0);
        v.extend(app);
        v.extend(app);
        v.extend(b);
    }
    v
}

fn counters(log: &PathBuf) -> [u64; 8] {
    let b = std::fs::read(log).unwrap_or_else(|_| cli::die("fault log"));
    let mut r = [0; 8];
    for (i, x) in r.iter_mut().enumerate() {
        *x = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    r
}

fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

struct Inp {
    ecu: String,
    app: String,
    size: usize,
    input: Vec<u8>,
}
fn draw(c: &mut Case) -> Inp {
    let ids = ["ECU1", "APP1", "ab c", "\u{fc}\u{fc}", "----", "DLT\u{1}", "\u{20ac}x", "0000"];
    let size = match c.rng.below(12) {
        0 => 1,
        1 => c.rng.range(8190, 8195),
        2 => *c.rng.pick(&[65517, 65516, 65500, 40000, 32768, 16384]),
        3 => c.rng.range(1, 65517),
        4 => c.rng.range(1000, 2000),
        5 => c.rng.range(8192 - 35, 8192),
        _ => c.rng.range(1, 120),
    };
    // more blocks than 16 bits count
    let many = c.n % 300 == 31;
    let size = if many { c.rng.range(1, 4) } else { size };
    let blocks = match c.rng.below(8) {
        _ if many => c.rng.range(65_530, 70_000),
        0 => 0,
        1 => 1,
        2 => c.rng.range(255, 260),
        3 => c.rng.range(99, 103),
        4 if c.rng.pct(30) => c.rng.range(10_000, 26_000),
        _ => c.rng.below(40),
    };
    let (mut size, mut blocks) = (size, blocks);
    if c.rng.hinted() && c.rng.raw(3) == 0 {
        if let Some(k) = hints::size(&mut c.rng, 1_000_000) {
            match c.rng.raw(3) {
                0 => blocks = k,
                1 => size = k.clamp(1, 65517),
                _ => blocks = k / size,
            }
        }
    }
    let rest = if c.rng.pct(40) { 0 } else { c.rng.below(size) };
    let n = (blocks * size).min(if c.thorough { 8_000_000 } else { 1_200_000 }) / size * size + rest;
    let input = match c.rng.below(4) {
        0 => {
            let mut v = vec![];
            while v.len() < n {
                v.extend(b"DLT\x01\n\r\nHello World");
            }
            v.truncate(n);
            v
        }
        1 => vec![b'\n'; n],
        _ => c.rng.bytes(n),
    };
    Inp { ecu: c.rng.pick(&ids).to_string(), app: c.rng.pick(&ids).to_string(), size, input }
}

fn faults(c: &mut Case, i: &Inp, f: &[i64; 9]) -> Res {
    let want = expect(i.ecu.as_bytes(), i.app.as_bytes(), i.size, &i.input);
    let log = cli::scratch_file("c15.log");
    cli::write(&log, &[0; 4096]);
    let spec = std::iter::once(c.rng.u32() as i64).chain(f.iter().copied()).map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let o = Opt {
        env: vec![("LD_PRELOAD".into(), cli::shim()), ("FAULT".into(), spec.clone()), ("FAULT_LOG".into(), log.to_str().unwrap().into())],
        dev: c.rng.pct(10),
        ..Opt::default()
    };
    c.note(format!("dd_dlt {:?} {:?} {} on {} bytes, faults {}", i.ecu, i.app, i.size, i.input.len(), spec));
    let r = cli::run("dd_dlt", &[&i.ecu, &i.app, &i.size.to_string()], Some(&i.input), &o);
    let n = counters(&log);
    for (k, x) in ["reads", "short reads", "interrupted reads", "failed reads", "writes", "short writes", "interrupted writes", "failed writes"].iter().zip(n) {
        c.ev(k, x as usize);
    }
    ensure!(r.signal.is_none(), "dd_dlt: {}", r.describe());
    let failed = n[3] > 0 || n[7] > 0;
    if failed {
        ensure!(!r.ok(), "{} reads and {} writes failed, but dd_dlt exits with 0", n[3], n[7]);
        ensure!(want.starts_with(&r.stdout), "after a failure the output ({} bytes) differs from what it should be at {}", r.stdout.len(), first_diff(&r.stdout, &want));
        c.seen("failures at", fnv(spec.as_bytes()));
    } else {
        ensure!(r.ok(), "nothing failed, but dd_dlt: {}", r.describe());
        if r.stdout != want {
            return Err(format!(
                "output of {} bytes instead of {}, first difference at {}; {} short reads, {} short writes",
                r.stdout.len(),
                want.len(),
                first_diff(&r.stdout, &want),
                n[1],
                n[5]
            ));
        }
        // by the reference reader, these are the messages
        let s = strict(&r.stdout, 0, Dlt::valid_at);
        ensure!(s.len() == i.input.len() / i.size, "{} valid messages from {} blocks", s.len(), i.input.len() / i.size);
        c.ev("messages", s.len());
        c.max("messages in one run", s.len());
    }
    c.seen("ways of splitting", fnv(&n.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
    c.judged((i.input.len() >= i.size).then(|| fnv(&i.input) ^ fnv(spec.as_bytes())));
    c.sample(|| format!("dd_dlt {:?} {:?} {} on {} bytes: {} reads ({} short, {} interrupted, {} failed), {} writes ({} short, {} interrupted, {} failed), {} bytes out", i.ecu, i.app, i.size, i.input.len(), n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], r.stdout.len()));
    let _ = std::fs::remove_file(&log);
    Ok(())
}

const R_ERR: &[i32] = &[libc::EIO, libc::EAGAIN, libc::EINVAL, libc::ENOMEM, libc::ECONNRESET];
const W_ERR: &[i32] = &[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EAGAIN, 0, libc::EFBIG];

fn any(c: &mut Case) -> Res {
    let i = draw(c);
    c.input(&i.input);
    let out = i.input.len() / i.size * (34 + i.size);
    let mut f = [0i64, 0, -1, 0, 0, 0, -1, 0, c.rng.below(2) as i64];
    // many short reads of a long input only take time
    let small = i.input.len() < 50_000;
    if c.rng.pct(60) {
        f[0] = *c.rng.pick(&[5, 50, 100]) * small as i64;
        f[1] = *c.rng.pick(&[0, 10, 60]);
    }
    if c.rng.pct(60) {
        f[4] = *c.rng.pick(&[5, 50, 100]) * small as i64;
        f[5] = *c.rng.pick(&[0, 10, 60]);
    }
    match c.rng.below(5) {
        0 => {
            f[2] = c.rng.below(i.input.len() + 1) as i64;
            f[3] = *c.rng.pick(R_ERR) as i64;
        }
        1 => {
            f[6] = c.rng.below(out + 1) as i64;
            f[7] = *c.rng.pick(W_ERR) as i64;
        }
        2 if c.rng.pct(50) => {
            // at the very ends
            f[2] = i.input.len() as i64 - c.rng.below(2) as i64;
            f[3] = libc::EIO as i64;
            f[6] = out as i64 - 1 - c.rng.below(3) as i64;
            f[7] = *c.rng.pick(W_ERR) as i64;
        }
        _ => {}
    }
    if f[6] < 0 {
        f[6] = -1;
    }
    if f[2] < 0 {
        f[2] = -1;
    }
    faults(c, &i, &f)
}

/// an error at every single position of a small run
fn every(c: &mut Case, k: usize) -> Res {
    let size = [1, 7, 30][k % 3];
    let blocks = 3;
    let i = Inp { ecu: "ECU1".into(), app: "APP1".into(), size, input: c.rng.bytes(size * blocks + size / 2) };
    c.input(&i.input);
    let write = k / 3 % 2 == 1;
    let n = if write { blocks * (34 + size) } else { i.input.len() + 1 };
    let (rs, ws) = (c.rng.below(2) as i64 * 60, c.rng.below(2) as i64 * 60);
    for at in 0..n {
        let f = if write { [rs, 0, -1, 0, ws, 0, at as i64, *c.rng.pick(W_ERR) as i64, c.rng.below(2) as i64] } else { [rs, 0, at as i64, *c.rng.pick(R_ERR) as i64, ws, 0, -1, 0, c.rng.below(2) as i64] };
        faults(c, &i, &f)?;
    }
    c.ev(if write { "runs with every write error position" } else { "runs with every read error position" }, 1);
    Ok(())
}

/// parameters that do not fit, and real devices that fail
fn refused(c: &mut Case) -> Res {
    let good = draw(c);
    let input = if good.input.len() < 70_000 { c.rng.bytes(70_000) } else { good.input.clone() };
    c.input(&input);
    let bad_ids = ["", "E", "ECU", "ECU12", "\u{fc}\u{fc}\u{fc}", "\u{fc}abc", "12345678"];
    let bad_sizes = ["65518", "65530", "65535", "65536", "4294967297", "-1", "abc", "", "1.5"];
    for k in 0..6 {
        let size = c.rng.range(1, 300).to_string();
        let (e, a, s): (&str, &str, &str) = match k {
            0 => (*c.rng.pick(&bad_ids), "APP1", &size),
            1 => ("ECU1", *c.rng.pick(&bad_ids), &size),
            2 => (*c.rng.pick(&bad_ids), *c.rng.pick(&bad_ids), &size),
            _ => ("ECU1", "APP1", *c.rng.pick(&bad_sizes)),
        };
        c.note(format!("dd_dlt {:?} {:?} {:?} on {} bytes", e, a, s, input.len()));
        let r = cli::run("dd_dlt", &[e, a, s], Some(&input), &Opt::default());
        ensure!(r.signal.is_none() && !r.ok(), "parameters that do not fit, but dd_dlt: {}", r.describe());
        ensure!(seq::<Dlt>(&r.stdout, 0).is_empty(), "parameters that do not fit, but {} bytes of messages", r.stdout.len());
        c.ev("refused parameters", 1);
        c.judged(Some(fnv(format!("{} {} {}", e, a, s).as_bytes())));
    }
    let n = c.rng.below(3);
    let few = ["ECU1", "APP1", "5"];
    c.note(format!("dd_dlt {:?} on {} bytes", &few[..n], input.len()));
    let r = cli::run("dd_dlt", &few[..n], Some(&input), &Opt { dev: c.rng.pct(20), ..Opt::default() });
    ensure!(r.signal.is_none() && r.code != Some(101), "too few arguments, but dd_dlt: {}", r.describe());
    ensure!(r.stdout.is_empty() || seq::<Dlt>(&r.stdout, 0).is_empty(), "too few arguments, but {} bytes of messages", r.stdout.len());
    ensure!(!r.stderr.is_empty() || !r.stdout.is_empty(), "too few arguments, but dd_dlt does not say anything");
    c.ev("too few arguments", 1);
    let size = good.size.to_string();
    let some = good.input.len() >= good.size;
    let dev = |o: Opt, what: &str, c: &mut Case, out: bool| -> Res {
        c.note(format!("dd_dlt {} on {} bytes, {}", size, good.input.len(), what));
        let r = cli::run("dd_dlt", &[&good.ecu, &good.app, &size], Some(&good.input), &o);
        if some || !out {
            ensure!(!r.ok() && r.signal.is_none(), "{}: dd_dlt: {}", what, r.describe());
            c.ev(what, 1);
        }
        Ok(())
    };
    if std::path::Path::new("/dev/full").exists() {
        dev(Opt { stdout: Some("/dev/full".into()), ..Opt::default() }, "writing to a full device", c, true)?;
    }
    dev(Opt { deaf: true, ..Opt::default() }, "nobody reads the output", c, true)?;
    dev(Opt { stdin: Some(cli::scratch()), ..Opt::default() }, "standard input is a directory", c, false)?;
    Ok(())
}

/// from one regular file to another, without any interference
fn plain(c: &mut Case) -> Res {
    let i = draw(c);
    c.input(&i.input);
    let (f, g) = (cli::scratch_file("c15.in"), cli::scratch_file("c15.out"));
    cli::write(&f, &i.input);
    cli::write(&g, b"");
    c.note(format!("dd_dlt {:?} {:?} {} on a file of {} bytes", i.ecu, i.app, i.size, i.input.len()));
    let r = cli::run("dd_dlt", &[&i.ecu, &i.app, &i.size.to_string()], None, &Opt { stdin: Some(f.clone()), stdout: Some(g.clone()), dev: c.rng.pct(20), ..Opt::default() });
    ensure!(r.ok(), "dd_dlt: {}", r.describe());
    let got = std::fs::read(&g).unwrap_or_else(|_| cli::die("reading the output"));
    let want = expect(i.ecu.as_bytes(), i.app.as_bytes(), i.size, &i.input);
    ensure!(got == want, "output of {} bytes instead of {}, first difference at {}", got.len(), want.len(), first_diff(&got, &want));
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(&g);
    c.ev("from file to file", 1);
    c.judged((i.input.len() >= i.size).then(|| fnv(&i.input) ^ 77));
    Ok(())
}

/// so many messages that the time since start, 32 bits of 0.1 ms, starts again at zero
fn long(c: &mut Case) -> Res {
    use std::io::{Read, Write};
    let dev = c.n % 2 == 0;
    let n: u64 = (1u64 << 32) / 100 + 1 + c.rng.below(5_000) as u64;
    let name = if dev { cli::bin_dev("dd_dlt") } else { cli::bin("dd_dlt") };
    c.note(format!("dd_dlt ECU1 APP1 1 on {} bytes, {}", n, if dev { "unoptimised" } else { "optimised" }));
    let mut ch = std::process::Command::new(name)
        .args(["ECU1", "APP1", "1"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| cli::die(&format!("starting dd_dlt: {}", e)));
    let byte = |i: u64| (i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56) as u8;
    let mut p = ch.stdin.take().unwrap();
    let feeder = std::thread::spawn(move || {
        let mut i = 0;
        while i < n {
            let k = (n - i).min(60_000);
            let v: Vec<u8> = (i..i + k).map(byte).collect();
            if p.write_all(&v).is_err() {
                return;
            }
            i += k;
        }
    });
    let mut out = std::io::BufReader::with_capacity(1 << 20, ch.stdout.take().unwrap());
    let mut want = expect(b"ECU1", b"APP1", 1, b"x");
    let t = std::time::Instant::now();
    let mut got = vec![0; want.len()];
    let mut i = 0u64;
    let mut bad = None;
    while out.read_exact(&mut got).is_ok() {
        want[4..8].copy_from_slice(&((i / 100) as u32).to_le_bytes());
        want[8..12].copy_from_slice(&((i % 100) as u32 * 10_000).to_le_bytes());
        want[17] = i as u8;
        want[20..24].copy_from_slice(&((i * 100) as u32).to_be_bytes());
        want[34] = byte(i);
        if got != want || i >= n {
            bad = Some(format!("message {} is {:?} instead of {:?}", i, got, want));
            break;
        }
        i += 1;
        if i % (1 << 20) == 0 && t.elapsed().as_secs() > 240 {
            // a slow machine: no verdict on the rest
            let _ = ch.kill();
            let _ = ch.wait();
            c.ev("long runs cut short", 1);
            c.ev("messages", i as usize);
            return Ok(());
        }
    }
    drop(out);
    let mut err = vec![];
    let _ = ch.stderr.take().unwrap().read_to_end(&mut err);
    let st = ch.wait().unwrap_or_else(|e| cli::die(&format!("waiting for dd_dlt: {}", e)));
    let _ = feeder.join();
    if let Some(m) = bad {
        return Err(m);
    }
    ensure!(st.success(), "nothing failed, but dd_dlt ends with {:?} behind {} of {} messages: {}", st, i, n, String::from_utf8_lossy(&err).chars().take(200).collect::<String>());
    ensure!(i == n, "{} messages from {} blocks", i, n);
    c.ev("messages", n as usize);
    c.max("messages in one run", n as usize);
    c.judged(Some(n));
    Ok(())
}

fn main() {
    if std::env::var("MON_LONG").is_ok() {
        return run("C15", (2, 6), long);
    }
    run("C15", (4_000, 120_000), |c| match c.n {
        n if n < 24 => every(c, n as usize),
        n if n % 10 == 0 => refused(c),
        n if n % 10 == 1 => plain(c),
        _ => any(c),
    })
}
