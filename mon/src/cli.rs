//! Running the command line tools under test.
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn describe(&self) -> String {
        let e = String::from_utf8_lossy(&self.stderr);
        let e: String = e.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {}, stderr: {}", c, e),
            (None, Some(s)) if s == libc::SIGXCPU => "did not end within 60 s of CPU time".to_string(),
            (None, s) => format!("killed by signal {:?}, stderr: {}", s, e),
        }
    }
    /// lines of the output, without the first one (which repeats the arguments)
    pub fn lines(&self) -> Vec<String> {
        String::from_utf8_lossy(&self.stdout).lines().skip(1).map(|s| s.to_string()).collect()
    }
}

/// Something the check itself needs does not work: no verdict.
pub fn die(m: &str) -> ! {
    eprintln!("HARNESS: {}", m);
    std::process::exit(3)
}
pub fn write(p: &std::path::Path, b: &[u8]) {
    if let Err(e) = std::fs::write(p, b) {
        die(&format!("writing {:?}: {}", p, e));
    }
}

pub fn bin(name: &str) -> PathBuf {
    PathBuf::from(std::env::var("MON_BIN").unwrap_or_else(|_| die("MON_BIN not set"))).join(name)
}
pub fn bin_dev(name: &str) -> PathBuf {
    PathBuf::from(std::env::var("MON_BIN_DEV").unwrap_or_else(|_| die("MON_BIN_DEV not set"))).join(name)
}
pub fn shim() -> String {
    std::env::var("MON_SHIM").unwrap_or_else(|_| die("MON_SHIM not set")) + "/fault.so"
}
pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("MON_SCRATCH").unwrap_or_else(|_| die("MON_SCRATCH not set")))
}
pub fn scratch_file(name: &str) -> PathBuf {
    scratch().join(format!("{}.{}", name, std::process::id()))
}

/// a file of its own with a name that may need care, and the folder to remove afterwards
pub fn named_file(rng: &mut crate::rng::Rng, tag: &str) -> (PathBuf, PathBuf) {
    use std::os::unix::fs::symlink;
    let dir = scratch_file(tag);
    let _ = std::fs::create_dir_all(&dir);
    let name = match rng.below(24) {
        0..=5 => "log".to_string(),
        6..=8 => "log.dlt".to_string(),
        9 => "a b c.dlt".to_string(),
        10 => "\u{fc}\u{20ac}.dlt".to_string(),
        11 => format!("log.{}", "\u{e9}".repeat(rng.range(1, 110))),
        12 => "\u{65e5}\u{672c}\u{8a9e}.\u{1f600}".to_string(),
        13 => "-log".to_string(),
        14 => "--help".to_string(),
        15 => "x=y%s{}".to_string(),
        16 => "a\nb\t\u{7f}".to_string(),
        17 => ".log".to_string(),
        18 => rng.pick(&["read", "mmap", "count", "log.gz", "log.DLT", "log.", "...", "1", "*", "'\"\\"]).to_string(),
        19 => "n".repeat(rng.range(200, 255)),
        20 => format!("{}.dlt.{}", "x".repeat(rng.below(200)), rng.below(1000)),
        21 => " ".to_string(),
        _ => format!("c{}", rng.below(100)),
    };
    let path = match rng.below(8) {
        0 => {
            // far down
            let mut d = dir.clone();
            for _ in 0..rng.range(1, 12) {
                d.push("d".repeat(rng.range(1, 200)));
            }
            let _ = std::fs::create_dir_all(&d);
            d.join(name)
        }
        1 => PathBuf::from(format!("{}//./{}", dir.display(), name)),
        2 => {
            let _ = std::fs::remove_file(dir.join("real"));
            let p = dir.join(if name == "real" { "r".into() } else { name });
            let _ = std::fs::remove_file(&p);
            // writing goes through the link
            symlink("real", &p).unwrap_or_else(|e| die(&format!("link: {}", e)));
            p
        }
        3 => {
            let _ = std::fs::remove_file(dir.join("up"));
            symlink(".", dir.join("up")).unwrap_or_else(|e| die(&format!("link: {}", e)));
            dir.join("up").join("..").join(dir.file_name().unwrap()).join(name)
        }
        _ => dir.join(name),
    };
    (path, dir)
}

#[derive(Default, Clone, Debug)]
pub struct Opt {
    /// restrict to this many CPUs
    pub cpus: Option<usize>,
    pub env: Vec<(String, String)>,
    /// instead of a pipe
    pub stdin: Option<PathBuf>,
    pub stdout: Option<PathBuf>,
    /// nobody reads the output
    pub deaf: bool,
    /// run the unoptimised build
    pub dev: bool,
    /// folder to run in
    pub cwd: Option<PathBuf>,
    /// run the build with ThreadSanitizer
    pub tsan: bool,
    /// bytes of private memory it may write to
    pub data: Option<u64>,
}

pub fn run(name: &str, args: &[&str], stdin: Option<&[u8]>, o: &Opt) -> Out {
    let args: Vec<&std::ffi::OsStr> = args.iter().map(|a| std::ffi::OsStr::new(a)).collect();
    let mut c = Command::new(match (o.tsan, o.dev) {
        (true, _) => PathBuf::from(std::env::var("MON_BIN_TSAN").unwrap_or_else(|_| die("MON_BIN_TSAN not set"))).join(name),
        (_, true) => bin_dev(name),
        _ => bin(name),
    });
    let tsan = o.tsan;
    if tsan {
        c.env("TSAN_OPTIONS", format!("halt_on_error=0:exitcode=66:atexit_sleep_ms=20:external_symbolizer_path={}", std::env::var("MON_SYMBOLIZER").unwrap_or_default()));
    }
    if let Some(d) = &o.cwd {
        c.current_dir(d);
    }
    // resolving symbols takes longer than everything else
    c.env("RUST_BACKTRACE", "0");
    c.args(args).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    if let Some(p) = &o.stdin {
        c.stdin(std::fs::File::open(p).unwrap_or_else(|e| die(&format!("{:?}: {}", p, e))));
    }
    if let Some(p) = &o.stdout {
        c.stdout(std::fs::OpenOptions::new().write(true).open(p).unwrap_or_else(|e| die(&format!("{:?}: {}", p, e))));
    }
    if o.deaf {
        use std::os::fd::{FromRawFd, OwnedFd};
        let mut fd = [0; 2];
        if unsafe { libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            die("pipe");
        }
        // the reading end is gone before the tool starts
        unsafe { libc::close(fd[0]) };
        c.stdout(Stdio::from(unsafe { OwnedFd::from_raw_fd(fd[1]) }));
    }
    for (k, v) in &o.env {
        c.env(k, v);
    }
    let (cpus, data) = (o.cpus, o.data);
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: 60, rlim_max: 65 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            if !tsan {
                let l = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
            }
            if let Some(n) = data {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_DATA, &l);
            }
            if let Some(n) = cpus {
                let mut have: libc::cpu_set_t = std::mem::zeroed();
                libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have);
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let mut k = 0;
                for i in 0..1024 {
                    if k < n && libc::CPU_ISSET(i, &have) {
                        libc::CPU_SET(i, &mut set);
                        k += 1;
                    }
                }
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().unwrap_or_else(|e| die(&format!("starting {}: {}", name, e)));
    let feeder = stdin.filter(|_| ch.stdin.is_some()).map(|d| {
        let mut p = ch.stdin.take().unwrap();
        let d = d.to_vec();
        std::thread::spawn(move || {
            let _ = p.write_all(&d);
        })
    });
    let r = ch.wait_with_output().unwrap_or_else(|e| die(&format!("waiting for {}: {}", name, e)));
    if let Some(f) = feeder {
        let _ = f.join();
    }
    Out { code: r.status.code(), signal: r.status.signal(), stdout: r.stdout, stderr: r.stderr }
}

/// CPUs available to this process
pub fn cpus() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1)
}
