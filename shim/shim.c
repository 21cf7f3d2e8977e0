// LD_PRELOAD observer and fault injector for the snapcd program and the SQLite library it uses.
//
//   VS_DB, VS_CACHE, VS_DEST, VS_DATA   directories whose files are of interest (in this order)
//   VS_FAIL=class.op:n:errno[:flags],.. the nth such call fails (flags: s = and all later ones,
//                                       t = a write is half done first)
//   VS_KILL=n[:h]                       kill -9 at the nth call that changes the database (h: half
//                                       of a write is done first)
//   VS_LOG=file                         everything done to the database, for crash states
//   VS_COUNTS=file                      number of calls by class and op, on exit
//   VS_SHORT=seed                       reads of data return less, are interrupted
//   VS_SHUFFLE=seed                     directories of data are listed in another order
//   VS_DELAY=seed:max_us                random delays around database calls
//   VS_META=dev:ino:mtime:ctime[:size]  (times: seconds[.nanoseconds]) what every regular file of data says of itself (- as it is)
//   VS_NOPW=1                           no user is known, so none has a home
//   VS_NOSLEEP=1                        whoever waits, waits no time
//   VS_PATHS=file                       "what path\0" for everything that is created, opened for writing, changed or removed
//   VS_EDIT=n:offset:path               just before the nth read of data, somebody else changes the byte at offset of path
//   VS_PLANT=n[:target]                 just before the nth call that creates a file of dest, somebody else creates it (or a
//                                       link to target); VS_PATHS shows it as "planted"
//   VS_TRACE=file                       "pid class.op" for locks and writes of the database
//
// Fault counting starts at the first call; nothing is injected into files of no class.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/xattr.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include <pwd.h>

enum { C_NONE, C_DB, C_CACHE, C_DEST, C_DATA, C_OUT, NC };
enum { OP_OPEN, OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_UNLINK, OP_LOCK, OP_STAT, OP_READDIR, OP_MKDIR, NO };
static const char *CN[] = {"none", "db", "cache", "dest", "data", "out"};
static const char *ON[] = {"open", "read", "write", "trunc", "sync", "unlink", "lock", "stat", "readdir", "mkdir"};

#define MAXFD 4096
static unsigned char fdclass[MAXFD];
static unsigned char fdisdir[MAXFD];
static uint32_t fdfile[MAXFD];
static char *prefix[NC];
static size_t prefixlen[NC];
static unsigned long counts[NC][NO];
static int logfd = -1, tracefd = -1, pathsfd = -1;
static unsigned long editat, editoff, datareads;
static const char *editpath;
static unsigned long plantat, creations;
static char *planttarget;
static char *countsfile;
static int nosleep;
static const char *meta = "";
static unsigned long killat, killhalf, mutations;
static uint64_t shortseed, delayseed, shuffleseed;
static unsigned delaymax;
static uint32_t nextfile = 1;
static int ready;

struct fail { int c, o; unsigned long n; int err, sticky, torn; };
static struct fail fails[16];
static int nfails;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, open64, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(int, close, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pread, int, void *, size_t, off_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(int, ftruncate, int, off_t);
REAL(int, ftruncate64, int, off64_t);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, unlink, const char *);
REAL(int, mkdir, const char *, mode_t);
REAL(DIR *, opendir, const char *);
REAL(struct dirent64 *, readdir64, DIR *);
REAL(int, statx, int, const char *, int, unsigned, struct statx *);
REAL(int, fcntl, int, int, ...);
REAL(int, fcntl64, int, int, ...);

static void init(void);
#define GET(name) do { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); if (!ready) init(); } while (0)

static uint64_t rnd(uint64_t *s) {
    *s += 0x9E3779B97F4A7C15ull;
    uint64_t z = *s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static int rawopen(const char *p, int fl) { return (int)syscall(SYS_openat, AT_FDCWD, p, fl | O_CLOEXEC, 0644); }
static void rawwrite(int fd, const void *b, size_t n) {
    const char *p = b;
    while (n) {
        ssize_t r = syscall(SYS_write, fd, p, n);
        if (r <= 0) { if (r < 0 && errno == EINTR) continue; return; }
        p += r; n -= r;
    }
}
static int highfd(int fd) {
    int h = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
    if (h < 0) return fd;
    syscall(SYS_close, fd);
    return h;
}

static void init(void) {
    ready = 1;
    int e = errno;
    const char *names[NC] = {0, "VS_DB", "VS_CACHE", "VS_DEST", "VS_DATA", 0};
    for (int c = 1; c <= C_DATA; c++) {
        char *v = getenv(names[c]);
        if (v && *v) { prefix[c] = v; prefixlen[c] = strlen(v); }
    }
    fdclass[1] = C_OUT;
    char *v;
    if ((v = getenv("VS_FAIL"))) {
        char *d = strdup(v), *sp = 0;
        for (char *t = strtok_r(d, ",", &sp); t && nfails < 16; t = strtok_r(0, ",", &sp)) {
            char cn[32], on[32], fl[8] = "";
            unsigned long n; int er;
            if (sscanf(t, "%31[^.].%31[^:]:%lu:%d:%7s", cn, on, &n, &er, fl) < 4) continue;
            struct fail *f = &fails[nfails];
            f->c = f->o = -1;
            for (int i = 0; i < NC; i++) if (!strcmp(cn, CN[i])) f->c = i;
            for (int i = 0; i < NO; i++) if (!strcmp(on, ON[i])) f->o = i;
            f->n = n; f->err = er; f->sticky = !!strchr(fl, 's'); f->torn = !!strchr(fl, 't');
            nfails++;
        }
        free(d);
    }
    if ((v = getenv("VS_KILL"))) { killat = strtoul(v, 0, 10); killhalf = !!strchr(v, 'h'); }
    if ((v = getenv("VS_SHORT"))) shortseed = strtoull(v, 0, 10) * 2 + 1;
    if ((v = getenv("VS_SHUFFLE"))) shuffleseed = strtoull(v, 0, 10) * 2 + 1;
    if ((v = getenv("VS_DELAY"))) {
        delayseed = strtoull(v, 0, 10) * 2 + 1;
        char *c = strchr(v, ':');
        delaymax = c ? (unsigned)strtoul(c + 1, 0, 10) : 1000;
        delayseed ^= (uint64_t)getpid() << 32;
    }
    nosleep = !!getenv("VS_NOSLEEP");
    countsfile = getenv("VS_COUNTS");
    if ((v = getenv("VS_META"))) meta = v;
    if ((v = getenv("VS_LOG"))) { logfd = rawopen(v, O_WRONLY | O_CREAT | O_APPEND); if (logfd >= 0) logfd = highfd(logfd); }
    if ((v = getenv("VS_TRACE"))) { tracefd = rawopen(v, O_WRONLY | O_CREAT | O_APPEND); if (tracefd >= 0) tracefd = highfd(tracefd); }
    if ((v = getenv("VS_PATHS"))) { pathsfd = rawopen(v, O_WRONLY | O_CREAT | O_APPEND); if (pathsfd >= 0) pathsfd = highfd(pathsfd); }
    if ((v = getenv("VS_EDIT"))) {
        char *q;
        editat = strtoul(v, &q, 10);
        if (*q == ':') editoff = strtoul(q + 1, &q, 10);
        if (*q == ':') editpath = q + 1; else editat = 0;
    }
    if ((v = getenv("VS_PLANT"))) { plantat = strtoul(v, 0, 10); planttarget = strchr(v, ':'); if (planttarget) planttarget++; }
    errno = e;
}

__attribute__((constructor)) static void ctor(void) { if (!ready) init(); }

static void writecounts(void) {
    if (!countsfile) return;
    int fd = rawopen(countsfile, O_WRONLY | O_CREAT | O_TRUNC);
    if (fd < 0) return;
    char b[64];
    for (int c = 1; c < NC; c++)
        for (int o = 0; o < NO; o++)
            if (counts[c][o]) {
                int n = snprintf(b, sizeof b, "%s.%s %lu\n", CN[c], ON[o], counts[c][o]);
                rawwrite(fd, b, n);
            }
    int n = snprintf(b, sizeof b, "mutations %lu\n", mutations);
    rawwrite(fd, b, n);
    syscall(SYS_close, fd);
}
__attribute__((destructor)) static void dtor(void) { writecounts(); }

// Absolute path, with "." and empty components removed (".." is left: no test uses it to enter a class).
static const char *absolute(int dirfd, const char *p, char *buf) {
    char tmp[PATH_MAX * 2];
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(l, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, p);
    }
    char *o = buf;
    for (char *s = tmp; *s;) {
        while (*s == '/') s++;
        if (!*s) break;
        char *e = s; while (*e && *e != '/') e++;
        if (!(e - s == 1 && s[0] == '.')) {
            *o++ = '/'; memcpy(o, s, e - s); o += e - s;
        }
        s = e;
    }
    if (o == buf) *o++ = '/';
    *o = 0;
    return buf;
}

static int classify(int dirfd, const char *p, char *abs) {
    if (!p || !*p) return C_NONE;
    int e = errno;
    const char *a = absolute(dirfd, p, abs);
    errno = e;
    if (!a) return C_NONE;
    for (int c = C_DB; c <= C_DATA; c++)
        if (prefix[c] && !strncmp(a, prefix[c], prefixlen[c]) && (a[prefixlen[c]] == '/' || a[prefixlen[c]] == 0))
            return c;
    return C_NONE;
}

static void delay(int c) {
    if (!delaymax || c != C_DB) return;
    uint64_t r = rnd(&delayseed);
    if (r % 3 == 0) { int e = errno; struct timespec t = {0, (long)((r >> 8) % delaymax) * 1000}; syscall(SYS_nanosleep, &t, 0); errno = e; }
}

// 0: go on. -1: fail with errno set. 1: tear the write, then fail.
static int event(int c, int o) {
    if (c == C_NONE) return 0;
    unsigned long n = ++counts[c][o];
    delay(c);
    for (int i = 0; i < nfails; i++) {
        struct fail *f = &fails[i];
        if (f->c == c && f->o == o && (n == f->n || (f->sticky && n > f->n))) {
            errno = f->err;
            return f->torn && o == OP_WRITE ? 1 : -1;
        }
    }
    return 0;
}

// A change of the database. 1: half of it, then die.
static int mutation(int c) {
    if (c != C_DB) return 0;
    mutations++;
    if (killat && mutations == killat) {
        if (killhalf) return 1;
        writecounts();
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
    return 0;
}
static void die(void) { writecounts(); kill(getpid(), SIGKILL); for (;;) pause(); }

static void rec(unsigned char type, uint32_t file, uint64_t off, const void *d, uint64_t len) {
    if (logfd < 0) return;
    int e = errno;
    unsigned char h[21];
    h[0] = type;
    memcpy(h + 1, &file, 4); memcpy(h + 5, &off, 8); memcpy(h + 13, &len, 8);
    rawwrite(logfd, h, sizeof h);
    if (d && len) rawwrite(logfd, d, len);
    errno = e;
}
static void trace(int c, const char *what) {
    if (tracefd < 0 || c != C_DB) return;
    int e = errno;
    char b[64];
    int n = snprintf(b, sizeof b, "%d %s\n", getpid(), what);
    rawwrite(tracefd, b, n);
    errno = e;
}

// The path as it is after links in the directories on the way to it.
static void touched(const char *what, int dirfd, const char *p) {
    if (pathsfd < 0 || !p || !*p) return;
    int e = errno;
    char abs[PATH_MAX * 2], dir[PATH_MAX * 2], real[PATH_MAX], line[PATH_MAX * 3];
    const char *a = absolute(dirfd, p, abs);
    if (a) {
        snprintf(dir, sizeof dir, "%s", a);
        char *slash = strrchr(dir, '/');
        const char *name = a + (slash - dir);
        *slash = 0;
        if (!realpath(*dir ? dir : "/", real)) snprintf(real, sizeof real, "%.4000s", dir);
        int n = snprintf(line, sizeof line, "%s %s%s", what, strcmp(real, "/") ? real : "", name);
        if (n > 0 && n < (int)sizeof line) rawwrite(pathsfd, line, n + 1);
    }
    errno = e;
}
static void touchedfd(const char *what, int fd) {
    if (pathsfd < 0 || fd < 0) return;
    int e = errno;
    char l[64], t[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, t, sizeof t - 1);
    if (n > 0 && t[0] == '/') { t[n] = 0; touched(what, AT_FDCWD, t); }
    errno = e;
}
// Somebody else is faster.
static void creation(int c, int dirfd, const char *p) {
    if (c != C_DEST || !plantat || ++creations != plantat) return;
    int e = errno;
    if (planttarget) {
        if (!syscall(SYS_symlinkat, planttarget, dirfd, p)) touched("planted", dirfd, p);
    } else {
        int fd = (int)syscall(SYS_openat, dirfd, p, O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0644);
        if (fd >= 0) { rawwrite(fd, "planted", 7); syscall(SYS_close, fd); touched("planted", dirfd, p); }
    }
    errno = e;
}

static int opened(int fd, int c, const char *abs, int created) {
    if (fd >= 0 && fd < MAXFD) {
        fdclass[fd] = c;
        fdisdir[fd] = 0;
        if (c == C_DB) {
            fdfile[fd] = nextfile++;
            struct stat st;
            if (!fstat(fd, &st) && S_ISDIR(st.st_mode)) fdisdir[fd] = 1;
            rec(fdisdir[fd] ? 8 : created ? 2 : 1, fdfile[fd], 0, abs, strlen(abs));
        }
    }
    return fd;
}

#define OPENBODY(dirfd, callreal) \
    char abs[PATH_MAX * 2] = ""; \
    mode_t mode = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, mode_t); va_end(ap); } \
    int c = classify(dirfd, p, abs); \
    int created = 0; \
    if (c) { \
        if (event(c, OP_OPEN)) return -1; \
        if (c == C_DB && (fl & O_CREAT)) { int e = errno; created = faccessat(dirfd, p, F_OK, 0) != 0; errno = e; \
            if (created && mutation(c)) die(); } \
    } \
    if (fl & O_CREAT) creation(c, dirfd, p); \
    int fd = callreal; \
    if (fd >= 0 && (fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))) touchedfd("open", fd); \
    return opened(fd, c, abs, created);

int open(const char *p, int fl, ...) { GET(open); OPENBODY(AT_FDCWD, real_open(p, fl, mode)) }
int open64(const char *p, int fl, ...) { GET(open64); OPENBODY(AT_FDCWD, real_open64(p, fl, mode)) }
int openat(int d, const char *p, int fl, ...) { GET(openat); OPENBODY(d, real_openat(d, p, fl, mode)) }
int openat64(int d, const char *p, int fl, ...) { GET(openat64); OPENBODY(d, real_openat64(d, p, fl, mode)) }

static int cls(int fd) { return fd >= 0 && fd < MAXFD ? fdclass[fd] : C_NONE; }

int close(int fd) {
    GET(close);
    if (fd >= 0 && fd < MAXFD && fd != 1) fdclass[fd] = C_NONE;
    return real_close(fd);
}

// Somebody else changes a file that is being read.
static void edit(void) {
    if (!editat || ++datareads != editat) return;
    int e = errno;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, editpath, O_RDWR | O_CLOEXEC);
    if (fd >= 0) {
        char x = 'x';
        if (syscall(SYS_pread64, fd, &x, 1, (off64_t)editoff) == 1) x ^= 0x20;
        syscall(SYS_pwrite64, fd, &x, 1, (off64_t)editoff);
        syscall(SYS_close, fd);
    }
    errno = e;
}

#define READBODY(callreal) \
    int c = cls(fd); \
    if (c == C_DATA) edit(); \
    if (c) { \
        if (event(c, OP_READ)) return -1; \
        if (shortseed && c == C_DATA && n > 1) { \
            uint64_t r = rnd(&shortseed); \
            if (r % 7 == 0) { errno = EINTR; return -1; } \
            if (r % 2) n = 1 + (r >> 8) % n; \
        } \
    } \
    return callreal;
ssize_t read(int fd, void *b, size_t n) { GET(read); READBODY(real_read(fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { GET(pread); READBODY(real_pread(fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { GET(pread64); READBODY(real_pread64(fd, b, n, o)) }

#define WRITEBODY(callreal, callhalf, off) \
    int c = cls(fd); \
    if (!c) return callreal; \
    int ev = event(c, OP_WRITE); \
    if (ev) { \
        int e = errno; \
        if (ev == 1 && n > 1) { size_t h = n / 2; ssize_t r = callhalf; if (r > 0 && c == C_DB) rec(3, fdfile[fd], off, b, r); } \
        errno = e; \
        return -1; \
    } \
    if (mutation(c)) { size_t h = n / 2; ssize_t r = callhalf; (void)r; die(); } \
    trace(c, "write"); \
    if (shortseed && c == C_DEST && n > 1) { uint64_t r = rnd(&shortseed); if (r % 7 == 0) { errno = EINTR; return -1; } if (r % 2) n = 1 + (r >> 8) % n; } \
    ssize_t res = callreal; \
    if (res > 0 && c == C_DB) rec(3, fdfile[fd], off, b, res); \
    return res;
static uint64_t curoff(int fd) { int e = errno; off64_t o = lseek64(fd, 0, SEEK_CUR); errno = e; return o < 0 ? 0 : (uint64_t)o; }
ssize_t write(int fd, const void *b, size_t n) {
    GET(write);
    uint64_t off = cls(fd) == C_DB ? curoff(fd) : 0;
    WRITEBODY(real_write(fd, b, n), real_write(fd, b, h), off)
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { GET(pwrite); WRITEBODY(real_pwrite(fd, b, n, o), real_pwrite(fd, b, h, o), (uint64_t)o) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { GET(pwrite64); WRITEBODY(real_pwrite64(fd, b, n, o), real_pwrite64(fd, b, h, o), (uint64_t)o) }

#define TRUNCBODY(callreal) \
    int c = cls(fd); \
    if (c) { if (event(c, OP_TRUNC)) return -1; if (mutation(c)) die(); trace(c, "trunc"); } \
    int r = callreal; \
    if (!r && c == C_DB) rec(4, fdfile[fd], (uint64_t)len, 0, 0); \
    return r;
int ftruncate(int fd, off_t len) { GET(ftruncate); TRUNCBODY(real_ftruncate(fd, len)) }
int ftruncate64(int fd, off64_t len) { GET(ftruncate64); TRUNCBODY(real_ftruncate64(fd, len)) }

#define SYNCBODY(callreal) \
    int c = cls(fd); \
    if (c) { if (event(c, OP_SYNC)) return -1; if (mutation(c)) die(); } \
    int r = callreal; \
    if (!r && c == C_DB) rec(fdisdir[fd] ? 7 : 5, fdfile[fd], 0, 0, 0); \
    return r;
int fsync(int fd) { GET(fsync); SYNCBODY(real_fsync(fd)) }
int fdatasync(int fd) { GET(fdatasync); SYNCBODY(real_fdatasync(fd)) }

int unlink(const char *p) {
    GET(unlink);
    char abs[PATH_MAX * 2] = "";
    int c = classify(AT_FDCWD, p, abs);
    if (c) { if (event(c, OP_UNLINK)) return -1; if (mutation(c)) die(); }
    int r = real_unlink(p);
    if (!r) touched("unlink", AT_FDCWD, p);
    if (!r && c == C_DB) rec(6, 0, 0, abs, strlen(abs));
    return r;
}

int mkdir(const char *p, mode_t m) {
    GET(mkdir);
    char abs[PATH_MAX * 2] = "";
    int c = classify(AT_FDCWD, p, abs);
    if (c && event(c, OP_MKDIR)) return -1;
    creation(c, AT_FDCWD, p);
    int r = real_mkdir(p, m);
    if (!r) touched("mkdir", AT_FDCWD, p);
    return r;
}

// Calls that the program does not make now: they are only watched.
static int into(int d, const char *p) { char abs[PATH_MAX * 2] = ""; creation(classify(d, p, abs), d, p); return 0; }
#define WATCH(name, params, args, before, after) \
    int name params { static int (*real_##name) params; GET(name); before; int r = real_##name args; if (!r) { after; } return r; }
WATCH(unlinkat, (int d, const char *p, int f), (d, p, f), , touched("unlink", d, p))
WATCH(rmdir, (const char *p), (p), , touched("rmdir", AT_FDCWD, p))
WATCH(mkdirat, (int d, const char *p, mode_t m), (d, p, m), into(d, p), touched("mkdir", d, p))
WATCH(rename, (const char *a, const char *b), (a, b), into(AT_FDCWD, b), (touched("rename", AT_FDCWD, a), touched("rename", AT_FDCWD, b)))
WATCH(renameat, (int c, const char *a, int d, const char *b), (c, a, d, b), into(d, b), (touched("rename", c, a), touched("rename", d, b)))
WATCH(renameat2, (int c, const char *a, int d, const char *b, unsigned f), (c, a, d, b, f), into(d, b), (touched("rename", c, a), touched("rename", d, b)))
WATCH(link, (const char *a, const char *b), (a, b), into(AT_FDCWD, b), touched("link", AT_FDCWD, b))
WATCH(linkat, (int c, const char *a, int d, const char *b, int f), (c, a, d, b, f), into(d, b), touched("link", d, b))
WATCH(symlink, (const char *a, const char *b), (a, b), into(AT_FDCWD, b), touched("link", AT_FDCWD, b))
WATCH(symlinkat, (const char *a, int d, const char *b), (a, d, b), into(d, b), touched("link", d, b))
WATCH(truncate, (const char *p, off_t n), (p, n), , touched("truncate", AT_FDCWD, p))
WATCH(truncate64, (const char *p, off64_t n), (p, n), , touched("truncate", AT_FDCWD, p))
WATCH(chmod, (const char *p, mode_t m), (p, m), , touched("chmod", AT_FDCWD, p))
WATCH(fchmodat, (int d, const char *p, mode_t m, int f), (d, p, m, f), , touched("chmod", d, p))
WATCH(fchmod, (int fd, mode_t m), (fd, m), , touchedfd("chmod", fd))
WATCH(chown, (const char *p, uid_t u, gid_t g), (p, u, g), , touched("chown", AT_FDCWD, p))
WATCH(lchown, (const char *p, uid_t u, gid_t g), (p, u, g), , touched("chown", AT_FDCWD, p))
WATCH(fchown, (int fd, uid_t u, gid_t g), (fd, u, g), , touchedfd("chown", fd))
WATCH(utimensat, (int d, const char *p, const struct timespec *t, int f), (d, p, t, f), , (p ? touched("utimes", d, p) : touchedfd("utimes", d)))
WATCH(futimens, (int fd, const struct timespec *t), (fd, t), , touchedfd("utimes", fd))
WATCH(utimes, (const char *p, const struct timeval *t), (p, t), , touched("utimes", AT_FDCWD, p))
WATCH(setxattr, (const char *p, const char *k, const void *v, size_t n, int f), (p, k, v, n, f), , touched("xattr", AT_FDCWD, p))
WATCH(lsetxattr, (const char *p, const char *k, const void *v, size_t n, int f), (p, k, v, n, f), , touched("xattr", AT_FDCWD, p))
WATCH(fsetxattr, (int fd, const char *k, const void *v, size_t n, int f), (fd, k, v, n, f), , touchedfd("xattr", fd))
WATCH(mknod, (const char *p, mode_t m, dev_t d), (p, m, d), into(AT_FDCWD, p), touched("mknod", AT_FDCWD, p))

DIR *opendir(const char *p) {
    GET(opendir);
    char abs[PATH_MAX * 2] = "";
    int c = classify(AT_FDCWD, p, abs);
    if (c && event(c, OP_OPEN)) return 0;
    DIR *d = real_opendir(p);
    if (d) { int fd = dirfd(d); if (fd >= 0 && fd < MAXFD) { fdclass[fd] = c; fdisdir[fd] = 1; } }
    return d;
}
static struct listing { DIR *d; struct dirent64 **e; size_t n, at; struct listing *next; } *listings;
struct dirent64 *readdir64(DIR *d) {
    GET(readdir64);
    int c = cls(dirfd(d));
    if (c && event(c, OP_READDIR)) return 0;
    if (shuffleseed && c == C_DATA) {
        struct listing *l = listings;
        while (l && l->d != d) l = l->next;
        if (!l) {
            l = calloc(1, sizeof *l);
            l->d = d; l->next = listings; listings = l;
            struct dirent64 *e;
            while ((e = real_readdir64(d))) {
                if (l->n % 64 == 0) l->e = realloc(l->e, (l->n + 64) * sizeof *l->e);
                l->e[l->n] = malloc(sizeof *e);
                memcpy(l->e[l->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
            }
            for (size_t i = l->n; i > 1; i--) {
                size_t j = rnd(&shuffleseed) % i;
                struct dirent64 *t = l->e[i - 1]; l->e[i - 1] = l->e[j]; l->e[j] = t;
            }
        }
        if (l->at < l->n) return l->e[l->at++];
        errno = 0;
        return 0;
    }
    return real_readdir64(d);
}
int closedir(DIR *d) {
    static int (*real_closedir)(DIR *);
    GET(closedir);
    for (struct listing **p = &listings; *p; p = &(*p)->next)
        if ((*p)->d == d) {
            struct listing *l = *p;
            *p = l->next;
            for (size_t i = 0; i < l->n; i++) free(l->e[i]);
            free(l->e); free(l);
            break;
        }
    return real_closedir(d);
}
int statx(int d, const char *p, int fl, unsigned m, struct statx *b) {
    GET(statx);
    char abs[PATH_MAX * 2] = "";
    int c;
    const char *volatile q = p; // null when the caller only asks whether there is a statx
    if (q && *q) c = classify(d, p, abs);
    else c = cls(d);
    if (c && event(c, OP_STAT)) return -1;
    int r = real_statx(d, p, fl, m, b);
    if (!r && c == C_DATA && meta[0] && S_ISREG(b->stx_mode)) {
        char t[5][24] = {"", "", "", "", "-"};
        if (sscanf(meta, "%23[^:]:%23[^:]:%23[^:]:%23[^:]:%23s", t[0], t[1], t[2], t[3], t[4]) >= 4) {
            if (t[0][0] != '-') { b->stx_dev_major = 8 + (strtoull(t[0], 0, 10) >> 20); b->stx_dev_minor = strtoull(t[0], 0, 10) & 0xfffff; }
            if (t[1][0] != '-') b->stx_ino = strtoull(t[1], 0, 10);
            // A time is seconds, or seconds.nanoseconds
            for (int k = 2; k < 4; k++) if (t[k][0] != '-') {
                struct statx_timestamp *w = k == 2 ? &b->stx_mtime : &b->stx_ctime;
                char *dot = strchr(t[k], '.');
                w->tv_sec = atoll(t[k]); w->tv_nsec = dot ? atoi(dot + 1) : 0;
            }
            if (t[4][0] != '-') b->stx_size = strtoull(t[4], 0, 10);
        }
    }
    return r;
}

int getpwuid_r(uid_t u, struct passwd *pw, char *b, size_t n, struct passwd **r) {
    static int (*real_getpwuid_r)(uid_t, struct passwd *, char *, size_t, struct passwd **);
    GET(getpwuid_r);
    if (getenv("VS_NOPW")) { *r = NULL; return 0; }
    return real_getpwuid_r(u, pw, b, n, r);
}

#define FCNTLBODY(fn) \
    va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); \
    int c = cls(fd); \
    if (c && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK)) { \
        struct flock *f = a; \
        if (f->l_type != F_UNLCK) { if (event(c, OP_LOCK)) return -1; } else delay(c); \
        int r = fn(fd, cmd, a); \
        if (tracefd >= 0) trace(c, r ? "lock-busy" : f->l_type == F_UNLCK ? "unlock" : f->l_type == F_RDLCK ? "lock-shared" : "lock"); \
        return r; \
    } \
    int r = fn(fd, cmd, a); \
    if (r >= 0 && r < MAXFD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) { fdclass[r] = c; if (fd < MAXFD) { fdfile[r] = fdfile[fd]; fdisdir[r] = fdisdir[fd]; } } \
    return r;
int fcntl(int fd, int cmd, ...) { GET(fcntl); FCNTLBODY(real_fcntl) }
int fcntl64(int fd, int cmd, ...) { GET(fcntl64); FCNTLBODY(real_fcntl64) }

int usleep(useconds_t us) {
    struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000};
    if (!ready) init();
    if (nosleep) return 0;
    return (int)syscall(SYS_nanosleep, &t, 0);
}

unsigned sleep(unsigned s) {
    struct timespec t = {s, 0};
    if (!ready) init();
    if (!nosleep) syscall(SYS_nanosleep, &t, 0);
    return 0;
}

int nanosleep(const struct timespec *t, struct timespec *rest) {
    if (!ready) init();
    if (nosleep) return 0;
    return (int)syscall(SYS_nanosleep, t, rest);
}

int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rest) {
    if (!ready) init();
    if (nosleep) return 0;
    return syscall(SYS_clock_nanosleep, c, flags, t, rest) < 0 ? errno : 0;
}
