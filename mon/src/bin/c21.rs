//! C21: ripdlt succeeds only with the complete report of the complete file
use mon::cli::{self, Opt, Out};
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::relog;
use mon::reports::{PARALLEL, SEQUENTIAL};
use mon::rng::fnv;
use mon::rt::*;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

const NAMES: [&str; 12] = [
    "reads", "short reads", "interrupted reads", "failed reads", "writes", "short writes", "interrupted writes", "failed writes", "files opened", "failed openings", "files mapped", "failed mappings",
];
fn counters(log: &Path) -> [u64; 12] {
    let b = std::fs::read(log).unwrap_or_else(|_| cli::die("fault log"));
    let mut r = [0; 12];
    for (i, x) in r.iter_mut().enumerate() {
        *x = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    r
}

fn file(c: &mut Case) -> Vec<u8> {
    let rng = &mut c.rng;
    match rng.below(6) {
        0 => {
            let cfg = Cfg::draw(rng);
            log::<Dlt>(rng, &cfg).bytes
        }
        1 => {
            // several times what is read at once
            let mut st = relog::style(rng);
            st.msgs = 10;
            let b = relog::log(rng, &st);
            b.repeat(rng.range(1, 400_000) / (b.len() + 1) + 1)
        }
        2 => {
            let mut st = relog::style(rng);
            st.msgs = rng.range(1, 4);
            relog::log(rng, &st)
        }
        _ => {
            let st = relog::style(rng);
            relog::log(rng, &st)
        }
    }
}

fn shown(r: &Out) -> String {
    let s = String::from_utf8_lossy(&r.stdout);
    s.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect()
}

/// several threads print the lines of this one
fn unordered(cmd: &str) -> bool {
    cmd == "par_iter"
}
fn same(cmd: &str, a: &[u8], b: &[u8]) -> bool {
    let lines = |x: &[u8]| {
        let mut l: Vec<Vec<u8>> = x.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
        l.sort();
        l
    };
    a == b || (unordered(cmd) && lines(a) == lines(b))
}

#[derive(Clone, Debug)]
struct Run {
    method: &'static str,
    cmd: &'static str,
    path: String,
    o: Opt,
}
impl Run {
    fn draw(c: &mut Case, path: &Path) -> Run {
        let cmds: Vec<&'static str> = SEQUENTIAL.iter().chain(PARALLEL).copied().collect();
        let cmd = *c.rng.pick(&cmds);
        let mut o = Opt { dev: c.rng.pct(20), ..Opt::default() };
        if cmd.starts_with("par_") {
            o.cpus = Some(c.rng.range(1, cli::cpus()));
        }
        Run { method: *c.rng.pick(&["mmap", "read"]), cmd, path: path.to_str().unwrap().into(), o }
    }
    fn go(&self, o: &Opt) -> Out {
        cli::run("ripdlt", &[self.method, self.cmd, &self.path], None, o)
    }
}

/// what goes wrong: as FAULT in fault.c (without the seed), opening, mapping
#[derive(Default, Clone, Debug)]
struct Fault {
    f: [i64; 9],
    open: i32,
    map: i32,
}
impl Fault {
    fn none() -> Fault {
        Fault { f: [0, 0, -1, 0, 0, 0, -1, 0, 0], open: 0, map: 0 }
    }
}

/// runs with faults; `whole` is what the run without any printed
fn faulty(c: &mut Case, r: &Run, whole: &[u8], x: &Fault) -> Res {
    let log = cli::scratch_file("c21.log");
    cli::write(&log, &[0; 4096]);
    let spec = std::iter::once(c.rng.u32() as i64).chain(x.f).map(|v| v.to_string()).collect::<Vec<_>>().join(",");
    let m = std::fs::metadata(&r.path).unwrap_or_else(|e| cli::die(&format!("{}: {}", r.path, e)));
    let mut o = r.o.clone();
    o.env.extend([
        ("LD_PRELOAD".to_string(), cli::shim()),
        ("FAULT".into(), spec.clone()),
        ("FAULT_FILE".into(), format!("{}:{}", m.dev(), m.ino())),
        ("FAULT_OPEN".into(), x.open.to_string()),
        ("FAULT_MAP".into(), x.map.to_string()),
        ("FAULT_LOG".into(), log.to_str().unwrap().into()),
    ]);
    c.note(format!("ripdlt {} {} on {} bytes, {:?} CPUs, faults {} {:?}", r.method, r.cmd, m.len(), r.o.cpus, spec, x));
    let got = r.go(&o);
    let n = counters(&log);
    let _ = std::fs::remove_file(&log);
    for (k, v) in NAMES.iter().zip(n) {
        c.ev(k, v as usize);
    }
    ensure!(got.signal.is_none(), "{}", got.describe());
    let failures = n[3] + n[7] + n[9] + n[11];
    let what = || NAMES.iter().zip(n).filter(|x| x.1 > 0).map(|x| format!("{} {}", x.1, x.0)).collect::<Vec<_>>().join(", ");
    if got.ok() {
        ensure!(same(r.cmd, &got.stdout, whole), "exit status 0 with {} of {} bytes of the report ({}), it ends with {:?}", got.stdout.len(), whole.len(), what(), shown(&got));
        c.ev(if failures > 0 { "complete in spite of failures" } else { "complete" }, 1);
    } else {
        ensure!(failures > 0, "nothing failed ({}), but {}", what(), got.describe());
        ensure!(unordered(r.cmd) || whole.starts_with(&got.stdout), "after a failure ({}) the output is not a beginning of the report, it ends with {:?}", what(), shown(&got));
        c.ev("failures reported", 1);
    }
    c.seen("report x access x failure", fnv(format!("{} {} {:?}", r.cmd, r.method, n.map(|v| v > 0)).as_bytes()));
    c.seen("ways of splitting", fnv(format!("{:?}", n).as_bytes()));
    c.judged((n[0] + n[4] + n[8] > 0).then(|| fnv(format!("{:?} {}", n, spec).as_bytes()) ^ fnv(whole)));
    c.sample(|| format!("ripdlt {} {} on {} bytes: {}: exit status {:?}, {} of {} bytes of output", r.method, r.cmd, m.len(), what(), got.code, got.stdout.len(), whole.len()));
    Ok(())
}

const R_ERR: &[i32] = &[libc::EIO, libc::EAGAIN, libc::EINVAL, libc::ENOMEM, libc::ECONNRESET, libc::ESTALE, libc::EISDIR];
const W_ERR: &[i32] = &[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EAGAIN, 0, libc::EFBIG, libc::EDQUOT];
const O_ERR: &[i32] = &[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOENT, libc::EIO, libc::ELOOP, libc::EPERM, libc::ENOMEM, libc::EBUSY];
const M_ERR: &[i32] = &[libc::ENOMEM, libc::ENODEV, libc::EACCES, libc::EAGAIN, libc::EINVAL, libc::EPERM];

/// the report without any interference, if there is one (if not, that is C19's matter)
fn reference(c: &mut Case, r: &Run) -> Option<Vec<u8>> {
    c.note(format!("ripdlt {} {}, {:?} CPUs", r.method, r.cmd, r.o.cpus));
    let w = r.go(&r.o);
    c.ev("undisturbed runs", 1);
    w.ok().then_some(w.stdout)
}

fn any(c: &mut Case, path: &PathBuf, b: &[u8]) -> Res {
    let r = Run::draw(c, path);
    let Some(whole) = reference(c, &r) else { return Ok(()) };
    for _ in 0..6 {
        let mut x = Fault::none();
        let f = &mut x.f;
        let small = b.len() < 50_000;
        if c.rng.pct(60) {
            f[0] = *c.rng.pick(&[5, 50, 100]) * small as i64;
            f[1] = *c.rng.pick(&[0, 10, 60]);
        }
        if c.rng.pct(60) {
            f[4] = *c.rng.pick(&[5, 50, 100]);
            f[5] = *c.rng.pick(&[0, 10, 60]);
        }
        f[8] = c.rng.below(2) as i64;
        match c.rng.below(8) {
            0 | 1 => {
                f[2] = match c.rng.below(5) {
                    0 => 0,
                    1 => b.len() as i64,
                    2 => (b.len() / 8192 * 8192) as i64,
                    _ => c.rng.below(b.len() + 1) as i64,
                };
                f[3] = *c.rng.pick(R_ERR) as i64;
            }
            2 | 3 => {
                f[6] = match c.rng.below(4) {
                    0 => 0,
                    1 => whole.len() as i64 - 1,
                    _ => c.rng.below(whole.len() + 1) as i64,
                };
                f[7] = *c.rng.pick(W_ERR) as i64;
            }
            4 => x.open = *c.rng.pick(O_ERR),
            5 => x.map = *c.rng.pick(M_ERR),
            _ => {}
        }
        faulty(c, &r, &whole, &x)?;
    }
    Ok(())
}

/// an error at every position of a small file or of its report
fn every(c: &mut Case, path: &PathBuf) -> Res {
    let mut st = relog::style(&mut c.rng);
    st.msgs = 3;
    let mut b = relog::log(&mut c.rng, &st);
    b.truncate(300);
    if b.is_empty() {
        b.push(7);
    }
    c.input(&b);
    cli::write(path, &b);
    let mut r = Run::draw(c, path);
    let write = c.rng.pct(50);
    if !write {
        r.method = "read";
    }
    let Some(whole) = reference(c, &r) else { return Ok(()) };
    let n = if write { whole.len() } else { b.len() + 1 };
    // at most so many, spread over the positions
    let step = n / 150 + 1;
    let split = c.rng.below(2) as i64 * 60;
    let sticky = c.rng.below(2) as i64;
    for at in (c.rng.below(step)..n).step_by(step) {
        let mut x = Fault::none();
        x.f = if write { [0, 0, -1, 0, split, 0, at as i64, *c.rng.pick(W_ERR) as i64, sticky] } else { [split, 0, at as i64, *c.rng.pick(R_ERR) as i64, 0, 0, -1, 0, sticky] };
        faulty(c, &r, &whole, &x)?;
    }
    c.ev(if write { "runs with every write error position" } else { "runs with every read error position" }, 1);
    Ok(())
}

/// does a line of output tell figures of a log?
fn figure(l: &str) -> bool {
    l.starts_with(|c: char| c.is_ascii_digit()) || l.contains(": ") && l.ends_with(|c: char| c.is_ascii_digit() || c == ')' || c == 'B')
}

fn refused(c: &mut Case, path: &PathBuf, dir: &Path) -> Res {
    let ok = path.to_str().unwrap().to_string();
    let at = |n: &str| dir.join(n).to_str().unwrap().to_string();
    let _ = std::os::unix::fs::symlink("loop", dir.join("loop"));
    let _ = std::os::unix::fs::symlink("nothing", dir.join("dangling"));
    let cmds: Vec<&'static str> = SEQUENTIAL.iter().chain(PARALLEL).copied().collect();
    let methods = ["mmap", "read"];
    for k in 0..9 {
        let cmd = c.rng.pick(&cmds).to_string();
        let m = c.rng.pick(&methods).to_string();
        let other = |c: &mut Case, s: &str| -> String {
            match c.rng.below(7) {
                0 => s.to_uppercase(),
                1 => format!("{} ", s),
                2 => s[..s.len() - 1].to_string(),
                3 => format!("{}x", s),
                4 => String::new(),
                5 => format!("par_{}_", s),
                _ => format!("-{}", s),
            }
        };
        let (what, m, cmd, f) = match k {
            0 | 1 => {
                let x = other(c, &cmd);
                ("unknown report", m, x, ok.clone())
            }
            2 | 3 => {
                let x = if c.rng.pct(20) { cmd.clone() } else { other(c, &m) };
                ("unknown access method", x, cmd, ok.clone())
            }
            4 => ("missing file", m, cmd, at("none")),
            5 => ("folder instead of a file", m, cmd, dir.to_str().unwrap().into()),
            6 => ("dangling link", m, cmd, at("dangling")),
            7 => ("link to itself", m, cmd, at("loop")),
            _ => {
                let n = match c.rng.below(4) {
                    0 => "n".repeat(300),
                    1 => "d/".repeat(3000),
                    2 => format!("{}/x", path.file_name().unwrap().to_str().unwrap()),
                    _ => return Ok(()),
                };
                ("impossible name", m, cmd, at(&n))
            }
        };
        if cmds.contains(&cmd.as_str()) && methods.contains(&m.as_str()) && f == ok {
            continue;
        }
        let o = Opt { dev: c.rng.pct(20), ..Opt::default() };
        c.note(format!("{}: ripdlt {:?} {:?} {:?}", what, m, cmd, f.chars().take(200).collect::<String>()));
        let r = cli::run("ripdlt", &[&m, &cmd, &f], None, &o);
        ensure!(r.signal.is_none() && !r.ok(), "{}, but {}", what, r.describe());
        let l = r.lines();
        ensure!(!l.iter().any(|x| figure(x)), "{}, but it reports {:?}", what, l);
        c.ev(what, 1);
        c.judged(Some(fnv(format!("{} {} {}", what, m, cmd).as_bytes())));
    }
    Ok(())
}

/// too few arguments, or too many
fn arguments(c: &mut Case, path: &Path) -> Res {
    for _ in 0..3 {
        let r = Run::draw(c, path);
        let full = [r.method, r.cmd, &r.path[..]];
        let n = c.rng.below(3);
        let o = Opt { dev: c.rng.pct(20), ..Opt::default() };
        c.note(format!("ripdlt {:?}", &full[..n]));
        let g = cli::run("ripdlt", &full[..n], None, &o);
        let l = g.lines();
        ensure!(g.signal.is_none() && g.code != Some(101), "too few arguments, but {}", g.describe());
        ensure!(!l.iter().any(|x| figure(x)), "too few arguments, but it reports {:?}", l);
        ensure!(!g.stdout.is_empty() || !g.stderr.is_empty(), "too few arguments, but it does not say anything");
        c.ev("too few arguments", 1);
        let Some(whole) = reference(c, &r) else { continue };
        let more = [&full[..], &["more"], &["0"]].concat();
        let more = &more[..c.rng.range(4, 5)];
        c.note(format!("ripdlt {:?}", more));
        let g = cli::run("ripdlt", more, None, &r.o);
        ensure!(g.signal.is_none(), "too many arguments: {}", g.describe());
        let body = |x: &[u8]| x.iter().position(|c| *c == b'\n').map_or(vec![], |k| x[k..].to_vec());
        ensure!(!g.ok() || same(r.cmd, &body(&g.stdout), &body(&whole)), "too many arguments, exit status 0, but the report ends with {:?}", shown(&g));
        c.ev("too many arguments", 1);
        c.judged(Some(fnv(&whole) ^ fnv(format!("{} {:?}", n, more).as_bytes())));
    }
    Ok(())
}

/// real devices: nobody reads, no space, the log comes through a pipe
fn devices(c: &mut Case, path: &PathBuf, b: &[u8]) -> Res {
    for _ in 0..3 {
        let r = Run::draw(c, path);
        let Some(whole) = reference(c, &r) else { continue };
        c.note(format!("ripdlt {} {} on {} bytes, nobody reads or no space", r.method, r.cmd, b.len()));
        let g = r.go(&Opt { deaf: true, ..r.o.clone() });
        ensure!(!g.ok() && g.signal != Some(libc::SIGXCPU), "nobody reads the report, but {}", g.describe());
        c.ev("nobody reads the report", 1);
        if Path::new("/dev/full").exists() {
            let g = r.go(&Opt { stdout: Some("/dev/full".into()), ..r.o.clone() });
            ensure!(!g.ok() && g.signal.is_none(), "no space for the report, but {}", g.describe());
            c.ev("no space for the report", 1);
        }
        c.judged(Some(fnv(&whole) ^ fnv(r.cmd.as_bytes())));
        if !b.is_empty() && Path::new("/dev/stdin").exists() {
            c.note(format!("ripdlt read {} on {} bytes through a pipe, {:?} CPUs", r.cmd, b.len(), r.o.cpus));
            let g = cli::run("ripdlt", &["read", r.cmd, "/dev/stdin"], Some(b), &r.o);
            ensure!(g.ok(), "through a pipe: {}", g.describe());
            let body = |x: &[u8]| x.iter().position(|c| *c == b'\n').map_or(vec![], |k| x[k..].to_vec());
            ensure!(same(r.cmd, &body(&g.stdout), &body(&whole)), "through a pipe the report ends with {:?}", shown(&g));
            c.ev("logs read through a pipe", 1);
        }
    }
    Ok(())
}

fn main() {
    run("C21", (4_000, 120_000), |c| {
        let dir = cli::scratch_file("c21");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join("log.dlt");
        let mut b = file(c);
        if b.is_empty() {
            b.push(c.rng.u8());
        }
        c.input(&b);
        cli::write(&path, &b);
        let r = match c.n % 12 {
            0 => every(c, &path),
            1 => refused(c, &path, &dir),
            2 => refused(c, &path, &dir).and_then(|_| arguments(c, &path)),
            3 => devices(c, &path, &b),
            _ => any(c, &path, &b),
        };
        let _ = std::fs::remove_dir_all(&dir);
        r
    })
}
