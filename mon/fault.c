/* Preloaded into the command line tools: cuts short, interrupts or fails reads of fd 0 (or of the file
 * FAULT_FILE names as device:inode, which then also fails to open or to map if FAULT_OPEN, FAULT_MAP
 * hold an errno) and writes to fd 1, as FAULT says, and counts what it did in the file FAULT_LOG.
 * FAULT = seed,read short %,read interrupt %,read error behind,errno,
 *              write short %,write interrupt %,write error behind,errno,sticky
 * an error position of -1: no error. errno 0 for writes: write returns 0. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int ready;
static uint64_t rs;
static long rp_short, rp_intr, r_at, r_err, wp_short, wp_intr, w_at, w_err, sticky;
static long r_given, w_given;
static int r_done, w_done;
static int file;
static unsigned long f_dev, f_ino;
static long f_open, f_map;
/* reads, short, interrupted, failed, writes, short, interrupted, failed, opened, failed, mapped, failed */
static uint64_t *cnt, dummy[12];

static uint64_t rnd(void) {
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs * 0x2545F4914F6CDD1Dull >> 11;
}
static int pct(long p) { return (long)(rnd() % 100) < p; }

static void init(void) {
    if (ready) return;
    ready = 1;
    cnt = dummy;
    r_at = w_at = -1;
    const char *s = getenv("FAULT");
    unsigned long seed = 1;
    if (s) sscanf(s, "%lu,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld", &seed, &rp_short, &rp_intr, &r_at, &r_err, &wp_short, &wp_intr, &w_at, &w_err, &sticky);
    rs = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    if (!rs) rs = 1;
    if ((s = getenv("FAULT_FILE"))) file = sscanf(s, "%lu:%lu", &f_dev, &f_ino) == 2;
    if ((s = getenv("FAULT_OPEN"))) f_open = atol(s);
    if ((s = getenv("FAULT_MAP"))) f_map = atol(s);
    const char *l = getenv("FAULT_LOG");
    if (l) {
        int fd = syscall(SYS_openat, AT_FDCWD, l, O_RDWR);
        if (fd >= 0) {
            void *m = (void *)syscall(SYS_mmap, 0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) cnt = m;
            syscall(SYS_close, fd);
        }
    }
}

static ssize_t fail(int e) {
    errno = e;
    return -1;
}

static int is_file(const struct stat *s) { return s->st_dev == f_dev && s->st_ino == f_ino; }
/* is fd the one that reads are watched on? */
static int source(int fd) {
    struct stat s;
    if (!file) return fd == 0;
    return fd > 2 && fstat(fd, &s) == 0 && is_file(&s);
}

static int do_open(int at, const char *p, int fl, int mode) {
    struct stat s;
    init();
    if (file && fstatat(at, p, &s, 0) == 0 && is_file(&s)) {
        cnt[8]++;
        if (f_open) {
            cnt[9]++;
            return (int)fail((int)f_open);
        }
    }
    return syscall(SYS_openat, at, p, fl, mode);
}
#define OPEN(name) int name(const char *p, int fl, ...) { va_list v; va_start(v, fl); int m = (fl & (O_CREAT | __O_TMPFILE)) ? va_arg(v, int) : 0; va_end(v); return do_open(AT_FDCWD, p, fl, m); }
#define OPENAT(name) int name(int at, const char *p, int fl, ...) { va_list v; va_start(v, fl); int m = (fl & (O_CREAT | __O_TMPFILE)) ? va_arg(v, int) : 0; va_end(v); return do_open(at, p, fl, m); }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)

static void *do_map(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (fd > 2) {
        init();
        if (file && source(fd)) {
            cnt[10]++;
            if (f_map) {
                cnt[11]++;
                errno = (int)f_map;
                return MAP_FAILED;
            }
        }
    }
    return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return do_map(a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return do_map(a, n, pr, fl, fd, o); }

ssize_t read(int fd, void *b, size_t n) {
    init();
    if (n == 0 || !source(fd)) return syscall(SYS_read, fd, b, n);
    cnt[0]++;
    if (pct(rp_intr)) {
        cnt[2]++;
        return fail(EINTR);
    }
    size_t k = n;
    if (pct(rp_short)) k = pct(50) ? 1 : 1 + rnd() % n;
    if (r_at >= 0 && (!r_done || sticky)) {
        if (r_given >= r_at) {
            r_done = 1;
            cnt[3]++;
            return fail((int)r_err);
        }
        if (k > (size_t)(r_at - r_given)) k = r_at - r_given;
    }
    if (k < n) cnt[1]++;
    ssize_t r = syscall(SYS_read, fd, b, k);
    if (r > 0) r_given += r;
    return r;
}

/* how many of n bytes to write; 0: go on with the return value in *res */
static size_t plan(size_t n, ssize_t *res) {
    init();
    cnt[4]++;
    if (pct(wp_intr)) {
        cnt[6]++;
        *res = fail(EINTR);
        return 0;
    }
    size_t k = n;
    if (pct(wp_short)) k = pct(50) ? 1 : 1 + rnd() % n;
    if (w_at >= 0 && (!w_done || sticky)) {
        if (w_given >= w_at) {
            w_done = 1;
            cnt[7]++;
            *res = w_err ? fail((int)w_err) : 0;
            return 0;
        }
        if (k > (size_t)(w_at - w_given)) k = w_at - w_given;
    }
    if (k < n) cnt[5]++;
    return k;
}

ssize_t write(int fd, const void *b, size_t n) {
    if (fd != 1 || n == 0) return syscall(SYS_write, fd, b, n);
    ssize_t r;
    size_t k = plan(n, &r);
    if (!k) return r;
    r = syscall(SYS_write, fd, b, k);
    if (r > 0) w_given += r;
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd != 1) return syscall(SYS_writev, fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    if (!n) return syscall(SYS_writev, fd, v, c);
    ssize_t r;
    size_t k = plan(n, &r);
    if (!k) return r;
    if (k < n) {
        char *t = malloc(k);
        size_t o = 0;
        for (int i = 0; i < c && o < k; i++) {
            size_t m = v[i].iov_len < k - o ? v[i].iov_len : k - o;
            memcpy(t + o, v[i].iov_base, m);
            o += m;
        }
        r = syscall(SYS_write, fd, t, k);
        free(t);
    } else
        r = syscall(SYS_writev, fd, v, c);
    if (r > 0) w_given += r;
    return r;
}
