//! C14: reading and mapping a file give exactly its bytes, or an error
//!
//! The monitor replaces read(2) and mmap(2) of its own process, so that the library's reads are
//! cut short, interrupted or fail at any byte.
use mon::hints;
use mon::cli;
use mon::ensure;
use mon::gen::*;
use mon::model::*;
use mon::rng::{fnv, Rng};
use mon::rt::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::dltbuffer::DltBuffer;
use std::cell::RefCell;
use std::os::fd::AsRawFd;

#[derive(Default)]
struct Faults {
    armed: bool,
    rng: Option<Rng>,
    /// percent of reads cut short / interrupted
    short: usize,
    eintr: usize,
    /// the read behind this many bytes fails with this error
    err_at: Option<(usize, i32)>,
    mmap_err: Option<i32>,
    given: usize,
    // what happened
    reads: usize,
    shorts: usize,
    eintrs: usize,
    errs: usize,
    mmaps: usize,
}
thread_local! {
    static F: RefCell<Faults> = RefCell::new(Faults::default());
}

fn fail(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

#[no_mangle]
unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    let real = |n: usize| libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    if fd <= 2 {
        return real(n);
    }
    F.with(|f| {
        let Ok(mut f) = f.try_borrow_mut() else { return real(n) };
        if !f.armed || n == 0 {
            return real(n);
        }
        f.reads += 1;
        let (s, e) = (f.short, f.eintr);
        if f.rng.as_mut().is_some_and(|r| r.pct(e)) {
            f.eintrs += 1;
            return fail(libc::EINTR);
        }
        let mut k = n;
        if f.rng.as_mut().is_some_and(|r| r.pct(s)) {
            let r = f.rng.as_mut().unwrap();
            k = if r.pct(50) { 1 } else { r.range(1, n.min(9000)) };
        }
        if let Some((at, e)) = f.err_at {
            if f.given >= at {
                f.errs += 1;
                return fail(e);
            }
            k = k.min(at - f.given);
        }
        if k < n {
            f.shorts += 1;
        }
        let r = real(k);
        if r > 0 {
            f.given += r as usize;
        }
        r
    })
}
unsafe fn do_mmap(a: *mut libc::c_void, n: usize, p: i32, fl: i32, fd: i32, o: i64) -> *mut libc::c_void {
    let e = F.with(|f| match f.try_borrow_mut() {
        Ok(mut f) if f.armed && fd > 2 => {
            f.mmaps += 1;
            if f.mmap_err.is_some() {
                f.errs += 1;
            }
            f.mmap_err
        }
        _ => None,
    });
    if let Some(e) = e {
        fail(e);
        return libc::MAP_FAILED;
    }
    libc::syscall(libc::SYS_mmap, a, n, p, fl, fd, o) as *mut libc::c_void
}
#[no_mangle]
unsafe extern "C" fn mmap(a: *mut libc::c_void, n: usize, p: i32, fl: i32, fd: i32, o: i64) -> *mut libc::c_void {
    do_mmap(a, n, p, fl, fd, o)
}
#[no_mangle]
unsafe extern "C" fn mmap64(a: *mut libc::c_void, n: usize, p: i32, fl: i32, fd: i32, o: i64) -> *mut libc::c_void {
    do_mmap(a, n, p, fl, fd, o)
}

fn with<R>(set: Faults, f: impl FnOnce() -> R) -> (R, Faults) {
    F.with(|x| *x.borrow_mut() = Faults { armed: true, ..set });
    let r = f();
    let s = F.with(|x| std::mem::take(&mut *x.borrow_mut()));
    (r, s)
}

fn exact(what: &str, buf: &DltBuffer, want: &[u8]) -> Res {
    ensure!(buf.len() == want.len(), "{}: length {} instead of {}", what, buf.len(), want.len());
    let s = buf.as_slice();
    ensure!(s.len() == want.len(), "{}: slice of {} instead of {}", what, s.len(), want.len());
    if s != want {
        let k = s.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Err(format!("{}: byte {} is {:#04x} instead of {:#04x}", what, k, s[k], want[k]));
    }
    Ok(())
}

fn count(c: &mut Case, s: &Faults) {
    c.ev("reads", s.reads);
    c.ev("short reads", s.shorts);
    c.ev("interrupted reads", s.eintrs);
    c.ev("failed reads and mappings", s.errs);
    c.ev("mappings", s.mmaps);
}

fn file(c: &mut Case) -> Res {
    let size = match c.rng.below(7) {
        0 => c.rng.below(20),
        1 => 4096 * c.rng.range(1, 5) + c.rng.below(5) - 2,
        2 => 8192 * c.rng.range(1, 20) + c.rng.below(5) - 2,
        3 => (1usize << c.rng.range(5, 20)) + c.rng.below(3) - 1,
        4 => c.rng.below(400_000),
        _ => c.rng.below(30_000),
    };
    let size = if c.rng.hinted() && c.rng.raw(4) == 0 { hints::size(&mut c.rng, 3_000_000).unwrap_or(size) } else { size };
    let b = if c.rng.pct(50) {
        let cfg = Cfg::draw(&mut c.rng);
        log::<Dlt>(&mut c.rng, &cfg).bytes
    } else {
        c.rng.bytes(size)
    };
    c.input(&b);
    let (path, dir) = cli::named_file(&mut c.rng, "c14");
    c.seen("file names", fnv(path.file_name().unwrap().as_encoded_bytes()));
    cli::write(&path, &b);
    let p = path.to_str().unwrap();
    c.seen("file sizes", b.len() as u64);
    // undisturbed, mapped
    match with(Faults::default(), || DltBuffer::mmap_file(p)) {
        (Ok(m), s) => {
            exact("mapped", &m, &b)?;
            ensure!(s.mmaps > 0 || s.reads > 0 || b.is_empty(), "mapped without mapping or reading");
            count(c, &s);
            // the buffer outlives the file's name
            let num = c.rng.range(1, 20);
            let got: Vec<(usize, usize)> = m.partition::<DltStorageEntry>(num).iter().map(|x| (x.as_ptr() as usize - m.as_slice().as_ptr() as usize, x.len())).collect();
            let want: Vec<(usize, usize)> = matchit::partition_from::<DltStorageEntry>(&b, num).iter().map(|x| (x.as_ptr() as usize - b.as_ptr() as usize, x.len())).collect();
            ensure!(got == want, "partitions of the mapped file {:?} instead of {:?}", got, want);
        }
        (Err(e), _) => ensure!(b.is_empty(), "mapping {} bytes: {}", b.len(), e),
    }
    // read, with short and interrupted reads
    for k in 0..3 {
        let f = Faults { rng: Some(Rng::new(c.rng.u64(), 14, k)), short: *c.rng.pick(&[0, 5, 50, 100]), eintr: *c.rng.pick(&[0, 0, 10, 50]), ..Faults::default() };
        let f = if k == 0 { Faults::default() } else { f };
        c.note(format!("read_file, {} bytes, {}% short, {}% interrupted", b.len(), f.short, f.eintr));
        let (r, s) = with(f, || DltBuffer::read_file(p));
        count(c, &s);
        match r {
            Ok(r) => exact(&format!("read with {} short and {} interrupted of {} reads", s.shorts, s.eintrs, s.reads), &r, &b)?,
            Err(e) => return Err(format!("read with {} short and {} interrupted of {} reads: {}", s.shorts, s.eintrs, s.reads, e)),
        }
        c.judged(Some(fnv(&b) ^ (s.reads as u64) << 40 ^ (s.eintrs as u64) << 20));
    }
    // failing
    for k in 0..3 {
        let at = match k {
            0 => 0,
            1 => b.len(),
            _ => c.rng.below(b.len() + 1),
        };
        let e = *c.rng.pick(&[libc::EIO, libc::EISDIR, libc::EAGAIN, libc::ENOMEM, libc::ESTALE]);
        let f = Faults { rng: Some(Rng::new(c.rng.u64(), 14, k)), short: *c.rng.pick(&[0, 50]), eintr: *c.rng.pick(&[0, 20]), err_at: Some((at, e)), ..Faults::default() };
        c.note(format!("read_file, {} bytes, error {} behind {}", b.len(), e, at));
        let (r, s) = with(f, || DltBuffer::read_file(p));
        count(c, &s);
        match r {
            Ok(r) => {
                ensure!(s.errs == 0, "reading failed with error {} behind {} of {} bytes, but a buffer of {} is returned", e, at, b.len(), r.len());
                exact("read", &r, &b)?;
            }
            Err(_) => ensure!(s.errs > 0, "error without a failed read"),
        }
        if s.errs == 0 {
            // no read behind the last byte: then the buffer must be complete
            c.ev("errors not reached", 1);
        }
        c.seen("errors at", (at as u64) << 32 | b.len() as u64);
    }
    if c.rng.pct(20) {
        let (r, s) = with(Faults { mmap_err: Some(libc::ENOMEM), ..Faults::default() }, || DltBuffer::mmap_file(p));
        count(c, &s);
        match r {
            Ok(r) => exact("mapped although mapping failed", &r, &b)?,
            Err(_) => {}
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    c.sample(|| format!("file of {} bytes, mapped, read with short and interrupted reads, read with errors", b.len()));
    Ok(())
}

fn both(p: &str) -> [(&'static str, Result<DltBuffer, std::io::Error>); 2] {
    [("mmap_file", DltBuffer::mmap_file(p)), ("read_file", DltBuffer::read_file(p))]
}

fn special(c: &mut Case) -> Res {
    use std::os::unix::fs::{symlink, FileExt};
    let d = cli::scratch_file("c14d");
    let _ = std::fs::create_dir(&d);
    let sub = |n: &str| d.join(n).to_str().unwrap().to_string();
    match c.n {
        // not openable
        0 => {
            symlink(sub("loop"), sub("loop")).ok();
            symlink(sub("nothing"), sub("dangling")).ok();
            cli::write(&d.join("plain"), b"DLT\x01");
            let long = "x".repeat(5000);
            for p in [sub("missing"), sub("loop"), sub("dangling"), sub("plain/below"), sub(&long), String::new(), "a\0b".to_string()] {
                for (n, r) in both(&p) {
                    ensure!(r.is_err(), "{} of {:?}: a buffer of {} bytes", n, p, r.map(|b| b.len()).unwrap_or(0));
                    c.ev("unopenable", 1);
                }
            }
            // a directory opens but cannot be read
            for (n, r) in both(d.to_str().unwrap()) {
                ensure!(r.is_err(), "{} of a directory: a buffer of {} bytes", n, r.map(|b| b.len()).unwrap_or(0));
                c.ev("directories", 1);
            }
            // empty
            cli::write(&d.join("empty"), b"");
            match DltBuffer::read_file(&sub("empty")) {
                Ok(b) => exact("empty file", &b, b"")?,
                Err(e) => return Err(format!("reading an empty file: {}", e)),
            }
            if let Ok(b) = DltBuffer::mmap_file(&sub("empty")) {
                exact("empty file mapped", &b, b"")?;
            }
            c.judged(Some(1));
        }
        // through a symbolic link, a fifo delivering odd pieces, a file whose size is not known
        1 => {
            let b = c.rng.bytes(100_000);
            cli::write(&d.join("f"), &b);
            symlink(sub("f"), sub("link")).ok();
            for (n, r) in both(&sub("link")) {
                match r {
                    Ok(r) => exact(&format!("{} through a link", n), &r, &b)?,
                    Err(e) => return Err(format!("{} through a link: {}", n, e)),
                }
            }
            for k in 0..10 {
                let fifo = std::ffi::CString::new(sub(&format!("fifo{}", k))).unwrap();
                if unsafe { libc::mkfifo(fifo.as_ptr(), 0o600) } != 0 {
                    cli::die("mkfifo");
                }
                let n = c.rng.below(b.len());
                let (p, data, seed) = (sub(&format!("fifo{}", k)), b[..n].to_vec(), c.rng.u64());
                let t = std::thread::spawn(move || {
                    use std::io::Write;
                    let mut rng = Rng::new(seed, 14, k);
                    let mut f = std::fs::OpenOptions::new().write(true).open(p).unwrap();
                    let mut o = 0;
                    while o < data.len() {
                        let k = rng.range(1, 9000).min(data.len() - o);
                        if f.write_all(&data[o..o + k]).is_err() {
                            return;
                        }
                        o += k;
                        if rng.pct(20) {
                            std::thread::sleep(std::time::Duration::from_micros(rng.below(500) as u64));
                        }
                    }
                });
                let r = DltBuffer::read_file(&sub(&format!("fifo{}", k)));
                match r {
                    Ok(r) => exact("read from a fifo", &r, &b[..n])?,
                    Err(e) => return Err(format!("reading a fifo: {}", e)),
                }
                let _ = t.join();
                c.ev("fifos", 1);
                c.judged(Some(100 + n as u64));
            }
            // no size in its metadata
            let f = std::fs::File::open("/proc/version").unwrap_or_else(|_| cli::die("/proc/version"));
            let mut v = vec![0; 5000];
            let n = unsafe { libc::syscall(libc::SYS_read, f.as_raw_fd(), v.as_mut_ptr(), v.len()) };
            v.truncate(n.max(0) as usize);
            match DltBuffer::read_file("/proc/version") {
                Ok(r) => exact("a file of unknown size", &r, &v)?,
                Err(e) => return Err(format!("reading a file of unknown size: {}", e)),
            }
            if let Ok(r) = DltBuffer::mmap_file("/proc/version") {
                exact("a file of unknown size, mapped", &r, &v)?;
            }
            c.ev("files of unknown size", 1);
        }
        // beyond 2 and 4 GiB
        2 | 3 => {
            let len: u64 = if c.n == 2 { (1 << 31) + 4096 + 5 } else { (1 << 32) + (1 << 20) + 7 };
            let p = d.join("big");
            let f = std::fs::File::create(&p).unwrap_or_else(|_| cli::die("sparse file"));
            f.set_len(len).unwrap_or_else(|_| cli::die("sparse file"));
            let marks: Vec<(u64, u64)> = [0, 4096, (1 << 31) - 4, 1 << 31, len - 8].iter().map(|o| (*o, c.rng.u64())).collect();
            for (o, v) in &marks {
                f.write_all_at(&v.to_le_bytes(), *o).unwrap_or_else(|_| cli::die("sparse file"));
            }
            for n in ["mmap_file", "read_file"] {
                let r = if n == "mmap_file" { DltBuffer::mmap_file(p.to_str().unwrap()) } else { DltBuffer::read_file(p.to_str().unwrap()) };
                let r = match r {
                    Ok(r) => r,
                    Err(e) => return Err(format!("{} of {} bytes: {}", n, len, e)),
                };
                ensure!(r.len() as u64 == len && r.as_slice().len() as u64 == len, "{} of {} bytes gives {}", n, len, r.len());
                let mut img: std::collections::BTreeMap<u64, u8> = Default::default();
                for (o, v) in &marks {
                    for (i, x) in v.to_le_bytes().iter().enumerate() {
                        img.insert(o + i as u64, *x);
                    }
                }
                for (o, v) in &img {
                    ensure!(r.as_slice()[*o as usize] == *v, "{} of {} bytes: wrong byte at {}", n, len, o);
                }
                c.ev("files beyond 2 GiB", 1);
            }
            c.judged(Some(len));
        }
        _ => {}
    }
    let _ = std::fs::remove_dir_all(&d);
    Ok(())
}

fn main() {
    run("C14", (6_000, 200_000), |c| if c.n < 4 { special(c) } else { file(c) })
}
