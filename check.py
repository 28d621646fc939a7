#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py <ID> [quick|thorough]     exit 0: held, 1: VIOLATION, 2: no answer
  check.py --setup                   builds what the checks use
  check.py --replay <file>           runs the recorded case again
"""
import array, fcntl, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
MON = os.path.join(VERIF, "mon")
sys.path.insert(0, VERIF)
from plans import PLANS, RULES  # noqa: E402
import literals  # noqa: E402

TRIPLE = "x86_64-unknown-linux-gnu"
CPUS = len(os.sched_getaffinity(0))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}

NEEDS = {"MON_BIN": "cli", "MON_BIN_DEV": "clidev", "MON_BIN_TSAN": "clitsan", "MON_SHIM": "shim"}


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---- building

def tree_hash():
    """contents of the sources the builds use"""
    h = hashlib.sha256()
    for root in (REPO, MON):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "test_gen"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".c")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def env_for(build):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "LD_PRELOAD", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    if build == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address"
    if build == "clitsan":
        e["CARGO_PROFILE_RELEASE_DEBUG"] = "1"
    if build == "fuzz":
        e["RUSTC_WRAPPER"] = os.path.join(VERIF, "fuzzrustc.py")
        e.pop("RUSTC_WORKSPACE_WRAPPER", None)
    if build in ("tsan", "clitsan"):
        e["RUSTFLAGS"] = "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"
    return e


def cargo(args, build, cwd=MON, timeout=800):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env_for(build), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def make(build, bins):
    """builds the monitors (or the command line tools); returns the folder of the executables"""
    td = os.path.join(BUILD, build)
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(BUILD, build + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # contents decide, not time stamps
        stamp = os.path.join(td, "tree")
        th = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old and old != th:
            for d, ds, fs in os.walk(td):
                for x in list(ds):
                    if d.endswith(".fingerprint") and x.split("-")[0] in ("mon", "matchit", "rapiddlt", "ripdlt", "dd_dlt"):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
        open(stamp, "w").write("")
        b = [x for n in bins for x in ("--bin", n)]
        if build in ("cli", "clidev"):
            a = ["build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "ripdlt", "-p", "dd_dlt", "--target-dir", td]
            a += ["--release"] if build == "cli" else []
            out = os.path.join(td, "release" if build == "cli" else "debug")
        elif build == "clitsan":
            a = ["+nightly", "build", "--offline", "--release", "-Zbuild-std", "--target", TRIPLE, "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "ripdlt", "--target-dir", td]
            out = os.path.join(td, TRIPLE, "release")
        elif build == "shim":
            out = td
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(td, "fault.so"), os.path.join(MON, "fault.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise NoAnswer("building the fault shim:\n" + r.stdout.decode(errors="replace"))
            a = None
        elif build == "release":
            a = ["build", "--offline", "--release", "--target-dir", td] + b
            out = os.path.join(td, "release")
        elif build == "checked":
            a = ["build", "--offline", "--profile", "checked", "--target-dir", td] + b
            out = os.path.join(td, "checked")
        elif build == "dev":
            a = ["build", "--offline", "--target-dir", td] + b
            out = os.path.join(td, "debug")
        elif build == "asan":
            a = ["+nightly", "build", "--offline", "--profile", "checked", "--target", TRIPLE, "--target-dir", td] + b
            out = os.path.join(td, TRIPLE, "checked")
        elif build == "tsan":
            a = ["+nightly", "build", "--offline", "--release", "-Zbuild-std", "--target", TRIPLE, "--target-dir", td] + b
            out = os.path.join(td, TRIPLE, "release")
        elif build == "fuzz":
            a = ["+nightly", "build", "--offline", "--release", "--features", "fuzz", "--target", TRIPLE, "--target-dir", td] + b
            out = os.path.join(td, TRIPLE, "release")
        elif build == "miri":
            # builds the interpreter's std and the dependencies, runs nothing
            a = ["+nightly", "miri", "run", "--offline", "--features", "miri-small", "--target-dir", td] + b + ["--", "--cases", "0"]
            out = td
        else:
            raise NoAnswer("unknown build " + build)
        if a:
            rc, o = cargo(a, build)
            if rc:
                raise NoAnswer("build %s failed:\n%s" % (build, o[-4000:]))
        open(stamp, "w").write(th)
    return out


# ---- running

class Worker:
    def __init__(self, run, shard, shards, extra=(), case=None, given=None):
        self.run, self.shard = run, shard
        self.name = "%s.%s.%d%s" % (run.job["bin"], run.job["build"], shard, "" if case is None else ".case%d" % case)
        self.journal = os.path.join(run.tmp, self.name + ".journal")
        self.out = os.path.join(run.tmp, self.name + ".json")
        self.errf = os.path.join(run.tmp, self.name + ".err")
        for f in (self.out, self.out + ".sets"):
            if os.path.exists(f):
                os.unlink(f)
        with open(self.journal, "wb") as f:
            f.write(b"\0" * 4096)
        job = run.job
        a = ["--seed", str(run.seed), "--tier", run.tier, "--shard", str(shard), "--shards", str(shards)]
        if given is not None:
            f = os.path.join(run.tmp, "given")
            with open(f, "wb") as fh:
                fh.write(given)
            a += ["--input", f]
        elif case is not None:
            a += ["--case", str(case)]
        else:
            if "cases" in job:
                a += ["--cases", str(job["cases"][run.tier == "thorough"])]
            a += ["--secs", str(job["secs"][run.tier == "thorough"])]
        a += list(extra)
        env = env_for("run")
        sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
        env.update({"MON_SYMBOLIZER": sym, "MON_SCRATCH": run.scratch, "RUST_BACKTRACE": "0", "TMPDIR": run.scratch})
        if run.hints:
            env["MON_HINTS"] = run.hints
        for k, v in job.get("env", {}).items():
            env[k] = v
        for k, b in run.folders.items():
            env[k] = b
        if job["build"] == "miri":
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-seed=%d %s" % (run.seed * 1000 + shard, job.get("miriflags", ""))
            cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--features", "miri-small", "--target-dir", os.path.join(BUILD, "miri"), "--bin", job["bin"], "--"] + a + ["--out", self.out]
        else:
            cmd = [os.path.join(run.folder, job["bin"])] + a + ["--out", self.out, "--journal", self.journal]
            if job["build"] == "asan":
                env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0"
                env["ASAN_SYMBOLIZER_PATH"] = sym
            if job["build"] == "tsan":
                env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
        limit = job.get("mem", 4) << 30
        san = job["build"] in ("asan", "tsan", "miri")

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not san and limit:
                resource.setrlimit(resource.RLIMIT_AS, (limit, limit))

        self.cwd = MON
        self.p = subprocess.Popen(cmd, cwd=self.cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.errf, "wb"), preexec_fn=pre)
        self.t0 = self.t_prog = time.time()
        self.cpu_prog = 0.0
        self.last = None

    def progress(self):
        with open(self.journal, "rb") as f:
            return struct.unpack("<QQ", f.read(16))

    def given(self):
        """the input of the case in progress of a coverage-guided run"""
        if self.run.job["build"] != "fuzz":
            return None
        with open(self.journal, "rb") as f:
            d = f.read()
        return d[24:24 + struct.unpack_from("<Q", d, 16)[0]]

    def cpu(self):
        try:
            s = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
        except OSError:
            return self.cpu_prog

    def stalled(self):
        """no case finished for too much CPU time, or for too long altogether"""
        job = self.run.job
        pr = self.progress()
        if pr != self.last:
            self.last, self.t_prog, self.cpu_prog = pr, time.time(), self.cpu()
            return None
        if self.cpu() - self.cpu_prog > job.get("stall_cpu", 40):
            return "no result after %.0f s of CPU time" % (self.cpu() - self.cpu_prog)
        if time.time() - self.t_prog > job.get("stall_wall", 150):
            return "no result after %.0f s" % (time.time() - self.t_prog)
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def err(self, n=2500):
        try:
            with open(self.errf, "rb") as f:
                t = f.read().decode(errors="replace")
        except OSError:
            return ""
        return t if len(t) < 2 * n else t[:n] + "\n...\n" + t[-n:]


class Run:
    """one job: a monitor in one build on all CPUs"""

    def __init__(self, pid, job, tier, seed, tmp, scratch):
        self.pid, self.job, self.tier, self.seed, self.tmp, self.scratch = pid, job, tier, seed, tmp, scratch
        self.viol = None
        self.results = []
        self.notes = []
        self.hints = ""
        h = literals.novel(REPO)
        if h:
            self.hints = os.path.join(tmp, "hints")
            with open(self.hints, "w") as f:
                f.write("\n".join(h) + "\n")
            self.notes.append("steered towards %d new literals" % len(h))

    def once(self, case, why, given=None):
        """runs a single case; returns a violation, or None if it passes"""
        v = self.once_(case, why, given)
        if v and given is not None:
            v["fuzz"] = given.hex()
        return v

    def once_(self, case, why, given):
        lim = self.job.get("stall_cpu", 40) * 1.5
        w = Worker(self, 0, 1, case=case, given=given)
        t0 = time.time()
        while w.p.poll() is None:
            if w.cpu() > lim or time.time() - t0 > self.job.get("stall_wall", 150):
                w.kill()
                return {"case": case, "message": "does not end: " + why, "note": w.err(400), "input": ""}
            time.sleep(0.1)
        return self.verdict(w, case)

    def verdict(self, w, case):
        """violation of an ended worker, or None"""
        rc = w.p.returncode
        if rc == 0:
            return None
        if os.path.exists(w.out):
            try:
                r = json.load(open(w.out))
            except ValueError:
                r = {}
            if rc == 10 and r.get("violation"):
                v = dict(r["violation"])
                v["stderr"] = w.err()
                return v
        e = w.err()
        if self.job["build"] == "asan" or self.job["build"] == "tsan":
            e = w.err(10_000)
        if rc == 3 or "HARNESS:" in e:
            raise NoAnswer("the check itself failed: " + e)
        if rc < 0 and -rc in CRASH:
            s = signal.Signals(-rc).name
            if "has overflowed its stack" in e:
                s = "stack overflow"
            return {"case": case, "message": "crashed: %s" % s, "note": "", "input": "", "stderr": e, "crash": True}
        if self.job["build"] == "tsan" and rc == 66:
            return {"case": case, "message": "ThreadSanitizer reports a race", "note": "", "input": "", "stderr": e, "crash": True}
        if self.job["build"] == "asan" and "AddressSanitizer" in e:
            return {"case": case, "message": "AddressSanitizer reports a memory error", "note": "", "input": "", "stderr": e, "crash": True}
        if self.job["build"] == "miri":
            # behind the compiler's warnings
            e = w.err(1 << 20)
            at = max(e.find("error: Undefined Behavior"), e.find("error: memory leaked"), e.find("error: abnormal termination"))
            e = e[max(0, at):][:5000]
            if "Undefined Behavior" in e or "error: unsupported" not in e and ("Data race" in e or "memory leaked" in e):
                return {"case": case, "message": "Miri reports undefined behaviour", "note": "", "input": "", "stderr": e, "crash": True}
        raise NoAnswer("%s ended with %s:\n%s" % (w.name, rc, e))

    def go(self):
        job = self.job
        self.folders = {k: make(NEEDS[k], []) for k in job.get("needs", [])}
        self.folder = make(job["build"], [job["bin"]])
        shards = job.get("shards", CPUS)
        t0 = time.time()
        ws = [Worker(self, i, shards) for i in range(shards)]
        try:
            while ws and not self.viol:
                time.sleep(0.05)
                for w in list(ws):
                    if w.p.poll() is None:
                        why = w.stalled()
                        if not why:
                            continue
                        case = w.progress()[0]
                        w.kill()
                        ws.remove(w)
                        log("%s: case %d: %s; running it again by itself" % (w.name, case, why))
                        if job["build"] == "miri":
                            raise NoAnswer("%s: %s" % (w.name, why))
                        v = self.once(case, why, w.given())
                        if v:
                            self.viol = v
                        else:
                            self.notes.append("case %d stalled once (%s), not again" % (case, why))
                        continue
                    ws.remove(w)
                    v = self.verdict(w, w.progress()[0])
                    if v is None:
                        self.results.append(self.load(w))
                        if job["build"] == "fuzz":
                            self.reached(w)
                        continue
                    if v.get("crash") and job["build"] != "miri":
                        log("%s: case %d: %s; running it again by itself" % (w.name, v["case"], v["message"]))
                        again = self.once(v["case"], v["message"], w.given())
                        if again:
                            v = dict(again, stderr=again.get("stderr", "") or v["stderr"])
                        elif "memory allocation" in v["stderr"]:
                            raise NoAnswer("out of memory, not reproducible: " + v["stderr"])
                        else:
                            v["note"] += " (not reproduced when run by itself)"
                    elif os.path.exists(w.out):
                        self.results.append(self.load(w))
                    self.viol = v
        finally:
            for w in ws:
                w.kill()
        self.wall = time.time() - t0

    def reached(self, w):
        """what libFuzzer says it covered"""
        with open(w.errf, "rb") as f:
            t = [x for x in f.read().decode(errors="replace").split("\n") if " cov: " in x]
        if t:
            x = t[-1].split()
            self.notes.append("%s edges, %s features, %s inputs kept" % (x[x.index("cov:") + 1], x[x.index("ft:") + 1], x[x.index("corp:") + 1].split("/")[0]))

    def load(self, w):
        r = json.load(open(w.out))
        sets = {}
        if os.path.exists(w.out + ".sets"):
            d = open(w.out + ".sets", "rb").read()
            p = 0
            while p < len(d):
                n, = struct.unpack_from("<I", d, p)
                name = d[p + 4:p + 4 + n].decode()
                c, = struct.unpack_from("<Q", d, p + 4 + n)
                p += 12 + n
                a = array.array("Q")
                a.frombytes(d[p:p + 8 * c])
                p += 8 * c
                sets[name] = a
        r["sets"] = sets
        return r


def check(pid, tier, seed):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    tmp = tempfile.mkdtemp(prefix="mon.%s." % pid)
    scratch = os.path.join(tmp, "scratch")
    os.mkdir(scratch)
    viol, jobs = None, []
    try:
        for job in PLANS[pid]:
            if job.get("tier") and job["tier"] != tier:
                continue
            r = Run(pid, job, tier, seed, tmp, scratch)
            r.go()
            jobs.append(r)
            if r.viol:
                viol = r.viol
                break
            if not sum(x["evaluations"] for x in r.results):
                raise NoAnswer("%s (%s) judged nothing" % (job["bin"], job["build"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev, seen, distinct, samples = {}, {}, set(), []
    evals = cases = 0
    table = []
    for r in jobs:
        jc = 0
        for x in r.results:
            evals += x["evaluations"]
            jc += x["cases"]
            for s in x["samples"]:
                if len(samples) < 4 and s not in samples:
                    samples.append(s)
            for k, v in x["ev"].items():
                ev[k] = max(ev.get(k, 0), v) if k.startswith("max:") else ev.get(k, 0) + v
            for k, a in x["sets"].items():
                if k == "":
                    distinct.update(a)
                else:
                    seen.setdefault(k, set()).update(a)
        cases += jc
        table.append({"monitor": r.job["bin"], "build": r.job["build"], "cases": jc, "workers": len(r.results), "stopped_by_time": any(x["capped"] for x in r.results), "wall_s": round(r.wall, 1), "notes": r.notes})
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(distinct),
        "rule": RULES[pid],
        "samples": samples or ["(none)"],
        "events_observed": dict(sorted(ev.items())),
        "distinct_observed": {k: len(v) for k, v in sorted(seen.items())},
        "jobs": table,
        "exhaustive": False,
    }
    out = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0,
           "assumptions": ["the reference model in mon/src/model.rs and reports.rs, written from the property texts", "cases not generated were not seen"]}
    with open(ev_path, "w") as f:
        json.dump(out, f, indent=1)
    if viol:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%s.json" % (pid, seed, viol["case"]))
        with open(p, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "monitor": jobs[-1].job["bin"], "build": jobs[-1].job["build"], **viol}, f, indent=1)
        log(viol["message"][:2000])
        if viol.get("note"):
            log("  " + viol["note"][:500])
        print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
        return 1
    print("%s held: %d executions judged, %d distinct, %.1f s" % (pid, evals, len(distinct), time.time() - t0))
    return 0


def replay(path):
    v = json.load(open(path))
    job = next(j for j in PLANS[v["property"]] if j["bin"] == v["monitor"] and j["build"] == v["build"])
    tmp = tempfile.mkdtemp(prefix="mon.replay.")
    try:
        scratch = os.path.join(tmp, "scratch")
        os.mkdir(scratch)
        r = Run(v["property"], job, v["tier"], v["seed"], tmp, scratch)
        r.folders = {k: make(NEEDS[k], []) for k in job.get("needs", [])}
        r.folder = make(job["build"], [job["bin"]])
        x = r.once(v["case"], "replay", bytes.fromhex(v["fuzz"]) if "fuzz" in v else None)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if x:
        log(x["message"], x.get("note", ""))
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    print("case %s of %s passes" % (v["case"], v["property"]))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            bins = {}
            for jobs in PLANS.values():
                for j in jobs:
                    bins.setdefault(j["build"], set()).add(j["bin"])
            for b in NEEDS.values():
                make(b, [])
            for b in sorted(bins):
                log("building", b)
                make(b, sorted(bins[b])[:1] if b == "miri" else sorted(bins[b]))
            return 0
        if a and a[0] == "--replay":
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return check(a[0], tier, seed)
    except NoAnswer as e:
        log("NO ANSWER:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("NO ANSWER:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
