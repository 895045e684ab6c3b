// LD_PRELOAD monitor of the file operations of one process. It records every operation on files
// below the watched directory (VT_ROOT) with path, offset, data and result in a binary log
// (VT_LOG), and can inject faults, short transfers, delays, a kill at a chosen operation, and refuse changes
// outside an allowed directory (VT_JAIL).
//
//  VT_ROOT=dir            operations on paths below it are "inside"; others are only looked at for the jail
//  VT_LOG=file            binary event log (appended)
//  VT_NODATA=1            do not log the content of reads (writes are always logged with content up to VT_DATAMAX)
//  VT_FAULT=call:k:errno[:sticky]   the k-th (from 0) inside operation of this kind fails; call may be "any"
//                                   or "mut" (any modifying one)
//  VT_FPATH=substr        faults only count operations whose path contains this
//  VT_FULL=substr:len     files whose path contains this cannot grow beyond this length (as on a full disk: what
//                         still fits is written, then ENOSPC)
//  VT_SHORT=seed:max      reads and writes inside transfer a random number of bytes, at most max
//  VT_KILL=k[:half]       the process is killed before the k-th modifying inside operation; with half, a
//                         write first stores half of its data
//  VT_DELAY=seed:maxus    random delays before inside operations
//  VT_JAIL=dir[:dir..]    modifying operations elsewhere are refused (EACCES) and logged
//  VT_DISCARD=1           writes inside only move the position; logged without data, mode tells whether all was zero
//  VT_EINTR=seed:n        about one in n reads/writes inside fails once with EINTR
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN = 1, K_READ, K_WRITE, K_LSEEK, K_TRUNC, K_UNLINK, K_MKDIR, K_RMDIR, K_RENAME, K_STAT, K_FSYNC, K_CLOSE,
       K_OPENDIR, K_READDIR, K_LINK, K_CHMOD, K_COPY, K_KILL, K_NKINDS };
static const char *names[] = { "", "open", "read", "write", "lseek", "trunc", "unlink", "mkdir", "rmdir", "rename", "stat",
                               "fsync", "close", "opendir", "readdir", "link", "chmod", "copy", "kill" };

enum { F_INSIDE = 1, F_MUT = 2, F_INJECTED = 4, F_JAILED = 8, F_CREATED = 16 };

struct rec {
    uint32_t magic, len;
    uint32_t kind, flags;
    uint64_t seq, tid;
    int64_t a, b, ret;
    int32_t err, fd;
    uint32_t plen, p2len, dlen, mode;
};

static char root[PATH_MAX];
static size_t rootlen;
static int logfd = -1;
static int nodata, discard;
static size_t datamax = SIZE_MAX;
static int f_kind = 0, f_errno, f_sticky; // f_kind: -1 any, -2 mut
static long f_at = -1;
static char f_path[256];
static atomic_long f_count;
static char q_path[256];
static int64_t q_len = -1;
static _Atomic uint64_t s_state;
static long s_max;
static long k_at = -1;
static int k_half;
static atomic_long k_count;
static _Atomic uint64_t d_state;
static long d_max;
static char *jails[16];
static int njails;
static _Atomic uint64_t e_state;
static long e_n;
static atomic_ullong seq;
static int ready;
static __thread int busy;

#define NFD 65536
static char *_Atomic fdpath[NFD];

#define REAL(name) ((__typeof__(&name))real(#name))
static void *real(const char *n) {
    void *p = dlsym(RTLD_NEXT, n);
    if (!p) {
        static const char m[] = "vtrace: symbol missing\n";
        syscall(SYS_write, 2, m, sizeof m - 1);
        _exit(99);
    }
    return p;
}

static uint64_t rnd(_Atomic uint64_t *s) {
    uint64_t z = atomic_fetch_add(s, 0x9E3779B97F4A7C15ull) + 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

__attribute__((constructor)) static void init(void) {
    const char *s;
    if ((s = getenv("VT_ROOT"))) {
        if (!realpath(s, root)) snprintf(root, sizeof root, "%s", s);
        rootlen = strlen(root);
    }
    if ((s = getenv("VT_LOG"))) {
        int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
        if (fd >= 0) {
            logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
            syscall(SYS_close, fd);
        }
    }
    if (getenv("VT_NODATA")) nodata = 1;
    if (getenv("VT_DISCARD")) discard = 1;
    if ((s = getenv("VT_DATAMAX"))) datamax = strtoul(s, 0, 10);
    if ((s = getenv("VT_FAULT"))) {
        char b[128];
        snprintf(b, sizeof b, "%s", s);
        char *sv, *n = strtok_r(b, ":", &sv), *k = strtok_r(0, ":", &sv), *e = strtok_r(0, ":", &sv), *st = strtok_r(0, ":", &sv);
        if (n && k && e) {
            if (!strcmp(n, "any")) f_kind = -1;
            else if (!strcmp(n, "mut")) f_kind = -2;
            else for (int i = 1; i < K_NKINDS; i++) if (!strcmp(n, names[i])) f_kind = i;
            f_at = atol(k);
            f_errno = atoi(e);
            f_sticky = st != 0;
        }
    }
    if ((s = getenv("VT_FPATH"))) snprintf(f_path, sizeof f_path, "%s", s);
    if ((s = getenv("VT_FULL"))) {
        snprintf(q_path, sizeof q_path, "%s", s);
        char *c = strrchr(q_path, ':');
        if (c) { *c = 0; q_len = atoll(c + 1); }
    }
    if ((s = getenv("VT_SHORT"))) { s_state = strtoull(s, 0, 10); s = strchr(s, ':'); s_max = s ? atol(s + 1) : 0; }
    if ((s = getenv("VT_DELAY"))) { d_state = strtoull(s, 0, 10); s = strchr(s, ':'); d_max = s ? atol(s + 1) : 0; }
    if ((s = getenv("VT_EINTR"))) { e_state = strtoull(s, 0, 10); s = strchr(s, ':'); e_n = s ? atol(s + 1) : 0; }
    if ((s = getenv("VT_KILL"))) { k_at = atol(s); k_half = strstr(s, ":half") != 0; }
    if ((s = getenv("VT_JAIL"))) {
        char *b = strdup(s), *sv, *t;
        for (t = strtok_r(b, ":", &sv); t && njails < 16; t = strtok_r(0, ":", &sv)) {
            char r[PATH_MAX];
            jails[njails++] = strdup(realpath(t, r) ? r : t);
        }
    }
    ready = 1;
}

static int under(const char *p, const char *dir) {
    size_t n = strlen(dir);
    return n && !strncmp(p, dir, n) && (p[n] == 0 || p[n] == '/');
}
static int inside(const char *p) { return rootlen && under(p, root); }
static int jail_ok(const char *p) {
    if (!njails) return 1;
    for (int i = 0; i < njails; i++) if (under(p, jails[i])) return 1;
    return !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6);
}

// the absolute path an operation on (dirfd, path) is about; `follow`: the last component is followed
static void resolve(int dirfd, const char *path, int follow, char *out) {
    char full[2 * PATH_MAX];
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else if (dirfd == AT_FDCWD) {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) cwd[0] = 0;
        snprintf(full, sizeof full, "%s/%s", cwd, path);
    } else {
        char *d = (dirfd >= 0 && dirfd < NFD) ? fdpath[dirfd] : 0;
        snprintf(full, sizeof full, "%s/%s", d ? d : "?", path);
    }
    size_t n = strlen(full);
    while (n > 1 && full[n - 1] == '/') full[--n] = 0;
    if (follow && realpath(full, out)) return;
    char *sl = strrchr(full, '/');
    char last[PATH_MAX];
    snprintf(last, sizeof last, "%s", sl ? sl + 1 : full);
    if (!strcmp(last, "..") || !strcmp(last, ".")) {
        if (realpath(full, out)) return;
    }
    if (sl && sl != full) *sl = 0; else strcpy(full, "/");
    if (!realpath(full, out)) snprintf(out, PATH_MAX, "%s", full);
    size_t m = strlen(out);
    if (m + strlen(last) + 2 < PATH_MAX) {
        if (m > 1) out[m++] = '/';
        strcpy(out + m, last);
    }
}

static void put(int kind, int flags, int fd, const char *path, const char *path2, int64_t a, int64_t b, int64_t ret, int err,
                uint32_t mode, const void *data, size_t dlen) {
    if (logfd < 0) return;
    struct rec r;
    memset(&r, 0, sizeof r);
    if (!data) dlen = 0;
    if (dlen > datamax) dlen = datamax;
    r.magic = 0x56545243;
    r.kind = kind;
    r.flags = flags;
    r.seq = atomic_fetch_add(&seq, 1);
    r.tid = syscall(SYS_gettid);
    r.a = a;
    r.b = b;
    r.ret = ret;
    r.err = err;
    r.fd = fd;
    r.mode = mode;
    r.plen = path ? strlen(path) : 0;
    r.p2len = path2 ? strlen(path2) : 0;
    r.dlen = dlen;
    r.len = sizeof r + r.plen + r.p2len + r.dlen;
    struct iovec v[4] = { { &r, sizeof r }, { (void *)path, r.plen }, { (void *)path2, r.p2len }, { (void *)data, dlen } };
    syscall(SYS_writev, logfd, v, 4);
}

// what happens to an inside operation before it is performed: 0 go on, else the errno to fail with
static int before(int kind, int mut, const char *path) {
    if (d_max > 0) {
        uint64_t r = rnd(&d_state);
        if (r % 3 == 0) {
            struct timespec ts = { 0, (long)((r >> 8) % (uint64_t)d_max) * 1000 };
            syscall(SYS_nanosleep, &ts, 0);
        }
    }
    if (f_kind && (!f_path[0] || strstr(path, f_path)) && (f_kind == -1 || f_kind == kind || (f_kind == -2 && mut))) {
        long n = atomic_fetch_add(&f_count, 1);
        if (n == f_at || (f_sticky && n > f_at)) return f_errno;
    }
    if ((kind == K_READ || kind == K_WRITE) && e_n > 0 && rnd(&e_state) % e_n == 0) return EINTR;
    return 0;
}
static int killnow(int mut) { return mut && k_at >= 0 && atomic_fetch_add(&k_count, 1) == k_at; }
static void die(const char *path) {
    put(K_KILL, F_INSIDE, -1, path, 0, 0, 0, 0, 0, 0, 0, 0);
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) pause();
}

static void setfd(int fd, const char *p) {
    if (fd < 0 || fd >= NFD) return;
    char *o = atomic_exchange(&fdpath[fd], p ? strdup(p) : 0);
    (void)o; // may still be in use by another thread
}
static const char *fdp(int fd) { return fd >= 0 && fd < NFD ? fdpath[fd] : 0; }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!ready || busy) return syscall(SYS_openat, dirfd, path, flags, mode);
    busy = 1;
    char p[PATH_MAX];
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    resolve(dirfd, path, !(flags & O_NOFOLLOW), p);
    int in = inside(p), mut = (flags & (O_CREAT | O_TRUNC)) != 0, ret, e = 0, fl = (in ? F_INSIDE : 0) | (wr ? F_MUT : 0);
    struct stat st;
    int existed = syscall(SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW) == 0;
    long oldlen = existed && S_ISREG(st.st_mode) ? st.st_size : -1;
    if (wr && !jail_ok(p)) {
        put(K_OPEN, fl | F_JAILED, -1, p, 0, flags, oldlen, -1, EACCES, mode, 0, 0);
        busy = 0;
        errno = EACCES;
        return -1;
    }
    if (in) {
        if ((e = before(K_OPEN, mut, p))) {
            put(K_OPEN, fl | F_INJECTED, -1, p, 0, flags, oldlen, -1, e, mode, 0, 0);
            busy = 0;
            errno = e;
            return -1;
        }
        if (killnow(mut)) die(p);
    }
    ret = syscall(SYS_openat, dirfd, path, flags, mode);
    e = ret < 0 ? errno : 0;
    if (ret >= 0 && (flags & O_CREAT)) resolve(dirfd, path, !(flags & O_NOFOLLOW), p);
    if (ret >= 0) setfd(ret, p);
    if (ret >= 0 && !existed && (flags & O_CREAT)) fl |= F_CREATED;
    if (in || (wr && ret >= 0 && strncmp(p, "/dev/", 5))) {
        uint32_t m = mode;
        if (ret >= 0 && syscall(SYS_fstat, ret, &st) == 0) m = st.st_mode;
        put(K_OPEN, fl, ret, p, 0, flags, oldlen, ret, e, m, 0, 0);
    }
    busy = 0;
    errno = e;
    return ret;
}

#define OPENMODE(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { OPENMODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPENMODE(flags) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { OPENMODE(flags) return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { OPENMODE(flags) return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static const char *watched(int fd) {
    if (!ready || busy) return 0;
    const char *p = fdp(fd);
    return p && inside(p) ? p : 0;
}

ssize_t read(int fd, void *buf, size_t n) {
    const char *p = watched(fd);
    if (!p) return syscall(SYS_read, fd, buf, n);
    busy = 1;
    int64_t off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    int e = before(K_READ, 0, p);
    if (e) {
        put(K_READ, F_INSIDE | F_INJECTED, fd, p, 0, off, n, -1, e, 0, 0, 0);
        busy = 0;
        errno = e;
        return -1;
    }
    if (s_max > 0 && n > 1) {
        size_t m = 1 + rnd(&s_state) % s_max;
        if (m < n) n = m;
    }
    ssize_t r = syscall(SYS_read, fd, buf, n);
    e = r < 0 ? errno : 0;
    put(K_READ, F_INSIDE, fd, p, 0, off, n, r, e, 0, nodata ? 0 : buf, r > 0 ? r : 0);
    busy = 0;
    errno = e;
    return r;
}

static ssize_t do_write(int fd, const char *p, const void *buf, size_t n, int64_t at) {
    busy = 1;
    int64_t off = at >= 0 ? at : syscall(SYS_lseek, fd, 0, SEEK_CUR);
    int e = before(K_WRITE, 1, p);
    if (!e && q_len >= 0 && n && off + (int64_t)n > q_len && strstr(p, q_path)) {
        struct stat st;
        int64_t end = syscall(SYS_fstat, fd, &st) == 0 && st.st_size > q_len ? st.st_size : q_len;
        if (off >= end) e = ENOSPC;
        else if (off + (int64_t)n > end) n = end - off;
    }
    if (e) {
        put(K_WRITE, F_INSIDE | F_MUT | F_INJECTED, fd, p, 0, off, n, -1, e, 0, 0, 0);
        busy = 0;
        errno = e;
        return -1;
    }
    int k = killnow(1);
    if (k && k_half && n > 1) {
        size_t h = n / 2;
        ssize_t r = at >= 0 ? syscall(SYS_pwrite64, fd, buf, h, at) : syscall(SYS_write, fd, buf, h);
        put(K_WRITE, F_INSIDE | F_MUT, fd, p, 0, off, h, r, 0, 0, buf, r > 0 ? r : 0);
    }
    if (k) die(p);
    if (s_max > 0 && n > 1) {
        size_t m = 1 + rnd(&s_state) % s_max;
        if (m < n) n = m;
    }
    if (discard) {
        const unsigned char *b = buf;
        if (n > 0x7ffff000) n = 0x7ffff000;
        int zero = !n || (!b[0] && !memcmp(b, b + 1, n - 1));
        if (at < 0) syscall(SYS_lseek, fd, n, SEEK_CUR);
        put(K_WRITE, F_INSIDE | F_MUT, fd, p, 0, off, n, n, 0, zero, 0, 0);
        busy = 0;
        return n;
    }
    ssize_t r = at >= 0 ? syscall(SYS_pwrite64, fd, buf, n, at) : syscall(SYS_write, fd, buf, n);
    e = r < 0 ? errno : 0;
    put(K_WRITE, F_INSIDE | F_MUT, fd, p, 0, off, n, r, e, 0, buf, r > 0 ? r : 0);
    busy = 0;
    errno = e;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
    const char *p = watched(fd);
    if (!p) return syscall(SYS_write, fd, buf, n);
    return do_write(fd, p, buf, n, -1);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t at) {
    const char *p = watched(fd);
    if (!p) return syscall(SYS_pwrite64, fd, buf, n, at);
    return do_write(fd, p, buf, n, at);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t at) { return pwrite64(fd, buf, n, at); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    const char *p = watched(fd);
    if (!p) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, p, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t at) {
    const char *p = watched(fd);
    if (!p) return syscall(SYS_pread64, fd, buf, n, at);
    busy = 1;
    int e = before(K_READ, 0, p);
    ssize_t r = -1;
    if (!e) {
        r = syscall(SYS_pread64, fd, buf, n, at);
        e = r < 0 ? errno : 0;
    }
    put(K_READ, F_INSIDE, fd, p, 0, at, n, r, e, 0, nodata ? 0 : buf, r > 0 ? r : 0);
    busy = 0;
    errno = e;
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    const char *p = watched(fd);
    if (!p) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

// operations on a descriptor without data
#define FDOP(KIND, MUT, A, B, CALL) \
    const char *p = watched(fd); \
    if (!p) return CALL; \
    busy = 1; \
    int e = before(KIND, MUT, p); \
    if (e) { \
        put(KIND, F_INSIDE | F_INJECTED | ((MUT) ? F_MUT : 0), fd, p, 0, A, B, -1, e, 0, 0, 0); \
        busy = 0; \
        errno = e; \
        return -1; \
    } \
    if (killnow(MUT)) die(p); \
    long r = CALL; \
    e = r < 0 ? errno : 0; \
    put(KIND, F_INSIDE | ((MUT) ? F_MUT : 0), fd, p, 0, A, B, r, e, 0, 0, 0); \
    busy = 0; \
    errno = e; \
    return r;

off64_t lseek64(int fd, off64_t off, int wh) { FDOP(K_LSEEK, 0, off, wh, syscall(SYS_lseek, fd, off, wh)) }
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
int ftruncate64(int fd, off64_t n) { FDOP(K_TRUNC, 1, n, 0, syscall(SYS_ftruncate, fd, n)) }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) { FDOP(K_FSYNC, 0, 0, 0, syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { FDOP(K_FSYNC, 0, 1, 0, syscall(SYS_fdatasync, fd)) }
int fchmod(int fd, mode_t m) { FDOP(K_CHMOD, 1, m, 0, syscall(SYS_fchmod, fd, m)) }
int fallocate64(int fd, int m, off64_t o, off64_t l) { FDOP(K_TRUNC, 1, o, l, syscall(SYS_fallocate, fd, m, o, l)) }
int fallocate(int fd, int m, off_t o, off_t l) { return fallocate64(fd, m, o, l); }
int close(int fd) {
    if (!ready || busy) return syscall(SYS_close, fd);
    const char *p = watched(fd);
    if (p) {
        busy = 1;
        put(K_CLOSE, F_INSIDE, fd, p, 0, 0, 0, 0, 0, 0, 0, 0);
        busy = 0;
    }
    setfd(fd, 0);
    return syscall(SYS_close, fd);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    const char *p = watched(out);
    const char *q = watched(in);
    if (!p && !q) return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
    errno = ENOSYS; // the caller falls back to reading and writing, which is recorded
    return -1;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    const char *p = watched(out);
    const char *q = watched(in);
    if (!p && !q) return syscall(SYS_sendfile, out, in, o, n);
    errno = EINVAL;
    return -1;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }
ssize_t splice(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    const char *p = watched(out);
    const char *q = watched(in);
    if (!p && !q) return syscall(SYS_splice, in, oi, out, oo, n, fl);
    errno = EINVAL;
    return -1;
}

static int p2_ok(const char *q) { return !q || jail_ok(q); }

// operations on paths that modify
#define PATHOP(KIND, DIRFD, PATH, FOLLOW, P2, A, CALL) \
    if (!ready || busy) return CALL; \
    busy = 1; \
    char p[PATH_MAX]; \
    resolve(DIRFD, PATH, FOLLOW, p); \
    int in = inside(p), e; \
    struct stat st; \
    long oldlen = syscall(SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISREG(st.st_mode) ? st.st_size : -1; \
    int fl = (in ? F_INSIDE : 0) | F_MUT; \
    if (!jail_ok(p) || !p2_ok(P2)) { \
        put(KIND, fl | F_JAILED, -1, p, P2, A, oldlen, -1, EACCES, 0, 0, 0); \
        busy = 0; \
        errno = EACCES; \
        return -1; \
    } \
    if (in) { \
        if ((e = before(KIND, 1, p))) { \
            put(KIND, fl | F_INJECTED, -1, p, P2, A, oldlen, -1, e, 0, 0, 0); \
            busy = 0; \
            errno = e; \
            return -1; \
        } \
        if (killnow(1)) die(p); \
    } \
    long r = CALL; \
    e = r < 0 ? errno : 0; \
    /* another thread may have created the directories above in the meantime */ \
    if (r >= 0 && (KIND == K_MKDIR || KIND == K_LINK)) resolve(DIRFD, PATH, FOLLOW, p); \
    put(KIND, fl, -1, p, P2, A, oldlen, r, e, 0, 0, 0); \
    busy = 0; \
    errno = e; \
    return r;

int unlink(const char *path) { PATHOP(K_UNLINK, AT_FDCWD, path, 0, (char *)0, 0, syscall(SYS_unlink, path)) }
int unlinkat(int d, const char *path, int f) {
    if (f & AT_REMOVEDIR) { PATHOP(K_RMDIR, d, path, 0, (char *)0, 0, syscall(SYS_unlinkat, d, path, f)) }
    PATHOP(K_UNLINK, d, path, 0, (char *)0, 0, syscall(SYS_unlinkat, d, path, f))
}
int rmdir(const char *path) { PATHOP(K_RMDIR, AT_FDCWD, path, 0, (char *)0, 0, syscall(SYS_rmdir, path)) }
int mkdir(const char *path, mode_t m) { PATHOP(K_MKDIR, AT_FDCWD, path, 0, (char *)0, m, syscall(SYS_mkdir, path, m)) }
int mkdirat(int d, const char *path, mode_t m) { PATHOP(K_MKDIR, d, path, 0, (char *)0, m, syscall(SYS_mkdirat, d, path, m)) }
int truncate64(const char *path, off64_t n) { PATHOP(K_TRUNC, AT_FDCWD, path, 1, (char *)0, n, syscall(SYS_truncate, path, n)) }
int truncate(const char *path, off_t n) { return truncate64(path, n); }
int chmod(const char *path, mode_t m) { PATHOP(K_CHMOD, AT_FDCWD, path, 1, (char *)0, m, syscall(SYS_chmod, path, m)) }
static void res2(int d, const char *b, char *out) {
    if (ready && !busy) { busy = 1; resolve(d, b, 0, out); busy = 0; } else out[0] = 0;
}
int rename(const char *a, const char *b) {
    char q[PATH_MAX];
    res2(AT_FDCWD, b, q);
    PATHOP(K_RENAME, AT_FDCWD, a, 0, (char *)q, 0, syscall(SYS_rename, a, b))
}
int renameat(int d, const char *a, int d2, const char *b) {
    char q[PATH_MAX];
    res2(d2, b, q);
    PATHOP(K_RENAME, d, a, 0, (char *)q, 0, syscall(SYS_renameat2, d, a, d2, b, 0))
}
int renameat2(int d, const char *a, int d2, const char *b, unsigned f) {
    char q[PATH_MAX];
    res2(d2, b, q);
    PATHOP(K_RENAME, d, a, 0, (char *)q, 0, syscall(SYS_renameat2, d, a, d2, b, f))
}
int link(const char *a, const char *b) {
    char q[PATH_MAX];
    res2(AT_FDCWD, b, q);
    PATHOP(K_LINK, AT_FDCWD, a, 0, (char *)q, 0, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0))
}
int linkat(int d, const char *a, int d2, const char *b, int f) {
    char q[PATH_MAX];
    res2(d2, b, q);
    PATHOP(K_LINK, d, a, 0, (char *)q, 0, syscall(SYS_linkat, d, a, d2, b, f))
}
int symlink(const char *a, const char *b) { PATHOP(K_LINK, AT_FDCWD, b, 0, (char *)0, 0, syscall(SYS_symlinkat, a, AT_FDCWD, b)) }
int symlinkat(const char *a, int d, const char *b) { PATHOP(K_LINK, d, b, 0, (char *)0, 0, syscall(SYS_symlinkat, a, d, b)) }

// metadata (only for faults and the count)
int statx(int d, const char *restrict path, int fl, unsigned mask, struct statx *restrict st) {
    if (!ready || busy) return syscall(SYS_statx, d, path, fl, mask, st);
    busy = 1;
    char p[PATH_MAX];
    p[0] = 0;
    const char *volatile given = path; // may be null, whatever the prototype says
    if (given && path[0]) resolve(d, path, !(fl & AT_SYMLINK_NOFOLLOW), p);
    else if (fdp(d)) snprintf(p, sizeof p, "%s", fdp(d));
    int in = inside(p), e = 0;
    long r = -1;
    if (in) e = before(K_STAT, 0, p);
    int inj = e != 0;
    if (!e) {
        r = syscall(SYS_statx, d, path, fl, mask, st);
        e = r < 0 ? errno : 0;
    }
    if (in) put(K_STAT, F_INSIDE | (inj ? F_INJECTED : 0), d, p, 0, fl, 0, r, e, 0, 0, 0);
    busy = 0;
    errno = e;
    return r;
}
DIR *opendir(const char *path) {
    DIR *(*f)(const char *) = REAL(opendir);
    if (!ready || busy) return f(path);
    busy = 1;
    char p[PATH_MAX];
    resolve(AT_FDCWD, path, 1, p);
    int in = inside(p), e = 0, inj;
    DIR *d = 0;
    if (in) e = before(K_OPENDIR, 0, p);
    inj = e != 0;
    if (!e) {
        d = f(path);
        e = d ? 0 : errno;
    }
    if (in) put(K_OPENDIR, F_INSIDE | (inj ? F_INJECTED : 0), -1, p, 0, 0, 0, d ? 0 : -1, e, 0, 0, 0);
    if (d && in) setfd(dirfd(d), p);
    busy = 0;
    errno = e;
    return d;
}
int closedir(DIR *d) {
    int (*f)(DIR *) = REAL(closedir);
    if (d) setfd(dirfd(d), 0);
    return f(d);
}
struct dirent64 *readdir64(DIR *d) {
    struct dirent64 *(*f)(DIR *) = REAL(readdir64);
    const char *p = d ? watched(dirfd(d)) : 0;
    if (!p) return f(d);
    busy = 1;
    int e = before(K_READDIR, 0, p);
    struct dirent64 *r = 0;
    if (e) {
        put(K_READDIR, F_INSIDE | F_INJECTED, dirfd(d), p, 0, 0, 0, -1, e, 0, 0, 0);
        busy = 0;
        errno = e;
        return 0;
    }
    int old = errno;
    r = f(d);
    if (r) errno = old;
    busy = 0;
    return r;
}
