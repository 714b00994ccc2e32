// The disk of the simulation, between the program and its files: every
// operation below SIM_ROOT is numbered, may fail, be cut short or be the last
// one before a crash, as SIM_FAULTS says; the order of directory entries and
// the randomness come from SIM_SEED.
//
// SIM_FAULTS: op,glob,nth,kind;...   op: open create read write stat readdir
// mkdir unlink rename sync space *;  nth: n (that one), n+ (from there on).
// kind: an errno name, SHORT, FULL, CRASH (before), TORN (half done, crash),
// DONE (crash after).
//
// SIM_NOW: the time of day, in seconds. SIM_NET: a directory that stands for
// the network: host/<name> has the addresses of a host, addr/<address>/<n> (or
// addr/<address>/last) what it sends in the n-th connection; without that it
// refuses the connection.
//
// SIM_TMP: the directory that stands for /tmp; SIM_KEEP (a:b) what remains there.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXF 32
static char root[PATH_MAX];
static size_t rootlen;
static uint64_t seed = 1, rnd;
static char *fdpath[MAXFD];
static int logfd = -1;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long ops[16];
static const char *opname[] = {"open", "create", "read", "write", "stat", "readdir", "mkdir", "unlink", "rename", "sync", 0};
enum { OPEN, CREATE, READ, WRITE, STAT, READDIR, MKDIR, UNLINK, RENAME, SYNC };
static struct fault {
    char op[16], glob[512], kind[16];
    long nth, seen;
    int on, hits;
} fault[MAXF];
static int nfault;
static long switches;
static const char *net, *tmpdir;
static int jobs;
static long long now_;

// system calls, past the interposed syscall() below
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
#define RAW_(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
#define raw(...) RAW_(__VA_ARGS__, 0, 0, 0, 0, 0, 0)

static void say(const char *fmt, ...) {
    char b[1024];
    va_list ap;
    if (logfd < 0) return;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    raw(SYS_write, logfd, b, n);
}
static uint64_t next(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
__attribute__((constructor)) static void init(void) {
    const char *r = getenv("SIM_ROOT"), *f = getenv("SIM_FAULTS"), *s = getenv("SIM_SEED"), *l = getenv("SIM_LOG");
    if (r) {
        snprintf(root, sizeof root, "%s", r);
        rootlen = strlen(root);
    }
    if (s) seed = strtoull(s, 0, 10);
    rnd = seed;
    net = getenv("SIM_NET");
    tmpdir = getenv("SIM_TMP");
    jobs = !!getenv("SIM_JOB");
    if (getenv("SIM_NOW")) now_ = atoll(getenv("SIM_NOW"));
    if (l) logfd = raw(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (!f) return;
    char *copy = strdup(f), *sp, *sp2;
    for (char *t = strtok_r(copy, ";", &sp); t && nfault < MAXF; t = strtok_r(0, ";", &sp)) {
        struct fault *x = &fault[nfault++];
        char *op = strtok_r(t, ",", &sp2), *g = strtok_r(0, ",", &sp2), *n = strtok_r(0, ",", &sp2), *k = strtok_r(0, ",", &sp2);
        if (!k) { nfault--; continue; }
        snprintf(x->op, sizeof x->op, "%s", op);
        snprintf(x->glob, sizeof x->glob, "%s", g);
        snprintf(x->kind, sizeof x->kind, "%s", k);
        x->nth = atol(n);
        x->on = n[strlen(n) - 1] == '+';
    }
    free(copy);
}
__attribute__((destructor)) static void fini(void) {
    for (int i = 0; opname[i]; i++) say("ops %s %ld\n", opname[i], ops[i]);
    say("switches %ld\n", switches);
}
// The schedule of parallel work: of the threads of one parallel iteration
// exactly one runs; at each operation on a file and each wait for a lock, the
// seed decides which one continues.
static pthread_mutex_t bm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t bc = PTHREAD_COND_INITIALIZER;
#define MAXT 16
static int want, arrived, turn = -1, alive[MAXT];
static uint64_t bseed;
static __thread int me = -1;
static void pick(void) {
    int live[MAXT], n = 0;
    for (int i = 0; i < want; i++)
        if (alive[i]) live[n++] = i;
    turn = n ? live[next(&bseed) % n] : -1;
    pthread_cond_broadcast(&bc);
}
void crlsim_begin(int n) {
    pthread_mutex_lock(&bm);
    bseed = seed ^ (0x5851f42d4c957f2dull * ++switches);
    want = n;
    arrived = 0;
    turn = -1;
    for (int i = 0; i < n; i++) alive[i] = 1;
    pthread_mutex_unlock(&bm);
}
static void my_turn(void) {
    while (turn != me) pthread_cond_wait(&bc, &bm);
}
void crlsim_start(int i) {
    pthread_mutex_lock(&bm);
    me = i;
    if (++arrived == want) pick();
    my_turn();
    pthread_mutex_unlock(&bm);
}
void crlsim_end(void) {
    pthread_mutex_lock(&bm);
    alive[me] = 0;
    me = -1;
    pick();
    pthread_mutex_unlock(&bm);
}
int crlsim_inside(void) { return me >= 0; }
static void yield(int force) {
    if (me < 0) return;
    int e = errno;
    pthread_mutex_lock(&bm);
    if (force || next(&bseed) % 4 == 0) {
        switches++;
        pick();
        my_turn();
    }
    pthread_mutex_unlock(&bm);
    errno = e;
}
long syscall(long n, ...) {
    long a[6];
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && me >= 0) {
        int op = a[1] & 0x7f;
        if (op == 0 || op == 9) { // wait
            if (*(volatile uint32_t *)a[0] != (uint32_t)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            yield(1);
            return 0;
        }
    }
    return raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static const char *mapped(const char *p) {
    static __thread char buf[PATH_MAX];
    if (!tmpdir || !p || strncmp(p, "/tmp", 4) || (p[4] != '/' && p[4])) return p;
    for (const char *k = getenv("SIM_KEEP"); k && *k;) {
        const char *e = strchrnul(k, ':');
        if (e > k && !strncmp(p, k, e - k) && (p[e - k] == '/' || !p[e - k])) return p;
        k = *e ? e + 1 : e;
    }
    snprintf(buf, sizeof buf, "%s%s", tmpdir, p + 4);
    return buf;
}
// the path below the root, or 0
static const char *rel(const char *p) {
    static __thread char buf[PATH_MAX];
    if (!rootlen || !p) return 0;
    if (p[0] != '/') {
        char cwd[PATH_MAX / 2];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        while (p[0] == '.' && p[1] == '/') p += 2;
        if (!strcmp(p, ".")) snprintf(buf, sizeof buf, "%s", cwd);
        else snprintf(buf, sizeof buf, "%s/%.2000s", cwd, p);
        p = buf;
    }
    if (strncmp(p, root, rootlen) || (p[rootlen] != '/' && p[rootlen])) return 0;
    p += rootlen;
    while (*p == '/') p++;
    // what the simulation keeps for its own
    if (jobs && (!strncmp(p, "job/", 4) || !strncmp(p, "store/", 6) || !strncmp(p, "net/", 4))) return 0;
    return p;
}
static const char *relat(int dfd, const char *p) {
    static __thread char buf[PATH_MAX];
    if (!p) return 0;
    if (p[0] == '/' || dfd == AT_FDCWD) return rel(p);
    if (dfd < 0 || dfd >= MAXFD || !fdpath[dfd]) return 0;
    if (!*p) return fdpath[dfd];
    snprintf(buf, sizeof buf, "%s%s%s", fdpath[dfd], *fdpath[dfd] ? "/" : "", p);
    return buf;
}
static const char *fdrel(int fd) {
    return fd >= 0 && fd < MAXFD ? fdpath[fd] : 0;
}
static void remember(int fd, const char *p) {
    if (fd < 0 || fd >= MAXFD) return;
    pthread_mutex_lock(&mu);
    free(fdpath[fd]);
    fdpath[fd] = p ? strdup(p) : 0;
    pthread_mutex_unlock(&mu);
}
static void die(const char *what, const char *p) {
    say("crash %s %s\n", what, p);
    raw(SYS_exit_group, 137);
}
static int number(const char *k) {
    static const struct { const char *n; int e; } t[] = {{"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EACCES", EACCES}, {"EMFILE", EMFILE}, {"EINTR", EINTR}, {"ENOMEM", ENOMEM}, {"EROFS", EROFS}, {"EDQUOT", EDQUOT}, {"ENOENT", ENOENT}, {"EBUSY", EBUSY}};
    for (unsigned i = 0; i < sizeof t / sizeof *t; i++)
        if (!strcmp(k, t[i].n)) return t[i].e;
    return EIO;
}
// what happens to this operation: the fault's kind, or 0
static const char *hit(int op, const char *p, int space) {
    const char *k = 0;
    if (!p) return 0;
    yield(0);
    pthread_mutex_lock(&mu);
    ops[op]++;
    for (int i = 0; i < nfault; i++) {
        struct fault *x = &fault[i];
        if (strcmp(x->op, "*") && strcmp(x->op, opname[op]) && !(space && !strcmp(x->op, "space"))) continue;
        if (fnmatch(x->glob, p, 0)) continue;
        x->seen++;
        if (k || !(x->seen == x->nth || (x->on && x->seen > x->nth))) continue;
        k = x->kind;
        x->hits++;
        if (!strcmp(k, "FULL") && (x->hits > 1 || op != WRITE)) k = "ENOSPC";
        if (!strcmp(k, "SHORT") && op != READ && op != WRITE) k = 0;
        if (k && !strcmp(k, "TORN") && op != WRITE) k = "CRASH";
        if (k) say("fault %s %s %s\n", k, opname[op], p);
    }
    pthread_mutex_unlock(&mu);
    if (k && !strcmp(k, "CRASH")) die(opname[op], p);
    return k;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define GUARD(op, p, space) \
    const char *pp_ = (p), *k_ = hit(op, pp_, space); \
    int after_ = k_ && !strcmp(k_, "DONE"); \
    if (k_ && !after_ && strcmp(k_, "SHORT")) { errno = number(k_); return -1; }
#define DONE(op) do { if (after_) die(opname[op], pp_); } while (0)

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
    path = mapped(path);
    const char *p = relat(dfd, path);
    char keep[PATH_MAX];
    if (p) {
        snprintf(keep, sizeof keep, "%s", p);
        p = keep;
    }
    struct stat st;
    int creating = (flags & O_CREAT) != 0, fresh = creating && raw(SYS_newfstatat, dfd, path, &st, 0) != 0;
    GUARD(creating ? CREATE : OPEN, p, fresh);
    int fd = raw(SYS_openat, dfd, path, flags, mode);
    if (fd >= 0) {
        int e = errno;
        remember(fd, p);
        errno = e;
    }
    DONE(CREATE);
    return fd;
}
#define OPENMODE mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static char isnet[MAXFD];
int close(int fd) {
    remember(fd, 0);
    if (fd >= 0 && fd < MAXFD) isnet[fd] = 0;
    return raw(SYS_close, fd);
}
static ssize_t some(int op, const char *k, int after, const char *p, size_t n, size_t *len) {
    *len = n;
    if (k && !strcmp(k, "SHORT") && n > 1) *len = 1 + seed % (n - 1);
    return 0;
}
ssize_t read(int fd, void *b, size_t n) {
    GUARD(READ, fdrel(fd), 0);
    size_t len;
    some(READ, k_, after_, pp_, n, &len);
    ssize_t r = raw(SYS_read, fd, b, len);
    DONE(READ);
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    GUARD(READ, fdrel(fd), 0);
    size_t len;
    some(READ, k_, after_, pp_, n, &len);
    ssize_t r = raw(SYS_pread64, fd, b, len, o);
    DONE(READ);
    return r;
}
static ssize_t do_write(int fd, const void *b, size_t n, off64_t off) {
    const char *p = fdrel(fd), *k = hit(WRITE, p, 1);
    size_t len = n;
    int part = k && (!strcmp(k, "FULL") || !strcmp(k, "TORN") || !strcmp(k, "SHORT"));
    if (k && !part && strcmp(k, "DONE")) {
        errno = number(k);
        return -1;
    }
    if (part && n > 1) len = 1 + seed % (n - 1);
    if (part && n <= 1 && !strcmp(k, "FULL")) {
        errno = ENOSPC;
        return -1;
    }
    ssize_t r = off < 0 ? raw(SYS_write, fd, b, len) : raw(SYS_pwrite64, fd, b, len, off);
    if (k && (!strcmp(k, "TORN") || !strcmp(k, "DONE"))) die("write", p);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!fdrel(fd)) return raw(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { errno = ENOSYS; return -1; }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { errno = ENOSYS; return -1; }
int fsync(int fd) { GUARD(SYNC, fdrel(fd), 0); int r = raw(SYS_fsync, fd); DONE(SYNC); return r; }
int fdatasync(int fd) { GUARD(SYNC, fdrel(fd), 0); int r = raw(SYS_fdatasync, fd); DONE(SYNC); return r; }
int statx(int d, const char *restrict path, int flags, unsigned mask, struct statx *restrict b) {
    // (the library asks about no path at all, to see whether statx is there)
    const char *volatile q = path;
    const char *p = q && *q ? relat(d, q) : 0;
    GUARD(STAT, p, 0);
    int r = raw(SYS_statx, d, mapped(path), flags, mask, b);
    DONE(STAT);
    return r;
}
#define STATS(name, T, dfd, flag) \
    GUARD(STAT, rel(p), 0); \
    int r = raw(SYS_newfstatat, dfd, mapped(p), b, flag); \
    DONE(STAT); \
    return r;
int stat(const char *restrict p, struct stat *restrict b) { STATS(stat, stat, AT_FDCWD, 0) }
int stat64(const char *restrict p, struct stat64 *restrict b) { STATS(stat64, stat64, AT_FDCWD, 0) }
int lstat(const char *restrict p, struct stat *restrict b) { STATS(lstat, stat, AT_FDCWD, AT_SYMLINK_NOFOLLOW) }
int lstat64(const char *restrict p, struct stat64 *restrict b) { STATS(lstat64, stat64, AT_FDCWD, AT_SYMLINK_NOFOLLOW) }
int access(const char *p, int m) {
    GUARD(STAT, rel(p), 0);
    int r = raw(SYS_faccessat, AT_FDCWD, mapped(p), m);
    DONE(STAT);
    return r;
}
int mkdir(const char *p, mode_t m) {
    GUARD(MKDIR, rel(p), 1);
    int r = raw(SYS_mkdirat, AT_FDCWD, mapped(p), m);
    DONE(MKDIR);
    return r;
}
int unlinkat(int d, const char *p, int f) {
    GUARD(UNLINK, relat(d, p), 0);
    int r = raw(SYS_unlinkat, d, p, f);
    DONE(UNLINK);
    return r;
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int rename(const char *a, const char *b) {
    GUARD(RENAME, rel(b), 0);
    int r = raw(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    DONE(RENAME);
    return r;
}

// directories
static struct dir {
    DIR *d;
    char path[512];
    struct dirent64 *e;
    int n, i, loaded;
} dirs[256];
static struct dir *find(DIR *d) {
    for (int i = 0; i < 256; i++)
        if (dirs[i].d == d) return &dirs[i];
    return 0;
}
static void enter(DIR *d, const char *p) {
    pthread_mutex_lock(&mu);
    struct dir *x = find(0);
    if (x && d && p) {
        memset(x, 0, sizeof *x);
        x->d = d;
        snprintf(x->path, sizeof x->path, "%s", p);
    }
    pthread_mutex_unlock(&mu);
}
DIR *opendir(const char *p) {
    REAL(fdopendir);
    int fd = do_open(AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC | O_NONBLOCK, 0);
    if (fd < 0) return 0;
    DIR *d = real(fd);
    enter(d, fdrel(fd));
    return d;
}
DIR *fdopendir(int fd) {
    REAL(fdopendir);
    DIR *d = real(fd);
    enter(d, fdrel(fd));
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    pthread_mutex_lock(&mu);
    struct dir *x = find(d);
    pthread_mutex_unlock(&mu);
    if (!x) return real(d);
    if (!x->loaded) {
        struct dirent64 *e;
        int cap = 0;
        while ((e = real(d))) {
            if (x->n == cap) x->e = realloc(x->e, (cap = cap * 2 + 16) * sizeof *e);
            memcpy(&x->e[x->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
            x->n++;
        }
        // by name first, then shuffled: the order is the seed's
        for (int i = 1; i < x->n; i++)
            for (int j = i; j > 0 && strcmp(x->e[j - 1].d_name, x->e[j].d_name) > 0; j--) {
                struct dirent64 t = x->e[j];
                x->e[j] = x->e[j - 1];
                x->e[j - 1] = t;
            }
        uint64_t s = seed;
        for (const char *c = x->path; *c; c++) s = (s ^ (unsigned char)*c) * 0x100000001b3ull;
        for (int i = x->n - 1; i > 0; i--) {
            int j = next(&s) % (i + 1);
            struct dirent64 t = x->e[j];
            x->e[j] = x->e[i];
            x->e[i] = t;
        }
        x->loaded = 1;
    }
    const char *k = hit(READDIR, x->path, 0);
    if (k && !strcmp(k, "DONE")) die("readdir", x->path);
    if (k) {
        errno = number(k);
        return 0;
    }
    if (x->i == x->n) return 0;
    return &x->e[x->i++];
}
int closedir(DIR *d) {
    REAL(closedir);
    pthread_mutex_lock(&mu);
    struct dir *x = find(d);
    if (x) {
        free(x->e);
        memset(x, 0, sizeof *x);
    }
    pthread_mutex_unlock(&mu);
    int fd = dirfd(d);
    remember(fd, 0);
    return real(d);
}

// randomness
ssize_t getrandom(void *b, size_t n, unsigned f) {
    pthread_mutex_lock(&mu);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = next(&rnd);
    pthread_mutex_unlock(&mu);
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0), 0; }

// the clock: it stands still during a run
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!now_ || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return raw(SYS_clock_gettime, c, t);
    t->tv_sec = now_;
    t->tv_nsec = 0;
    return 0;
}

// the network
static struct { char ip[64]; int n; } seen[64];
int getaddrinfo(const char *host, const char *serv, const struct addrinfo *hints, struct addrinfo **res) {
    REAL(getaddrinfo);
    if (!net) return real(host, serv, hints, res);
    char p[PATH_MAX], b[1024];
    snprintf(p, sizeof p, "%s/host/%.200s", net, host ? host : "");
    int fd = raw(SYS_openat, AT_FDCWD, p, O_RDONLY);
    long n = fd < 0 || strchr(host, '/') ? -1 : raw(SYS_read, fd, b, sizeof b - 1);
    if (fd >= 0) raw(SYS_close, fd);
    say("lookup %s %ld\n", host, n);
    if (n < 0) return EAI_NONAME;
    b[n] = 0;
    struct addrinfo *first = 0, **at = &first;
    char *sp;
    for (char *w = strtok_r(b, " \n", &sp); w; w = strtok_r(0, " \n", &sp)) {
        struct addrinfo *a = calloc(1, sizeof *a + sizeof(struct sockaddr_in));
        struct sockaddr_in *s = (void *)(a + 1);
        s->sin_family = AF_INET;
        s->sin_port = htons(serv ? atoi(serv) : 0);
        inet_pton(AF_INET, w, &s->sin_addr);
        a->ai_family = AF_INET;
        a->ai_socktype = SOCK_STREAM;
        a->ai_addr = (void *)s;
        a->ai_addrlen = sizeof *s;
        *at = a;
        at = &a->ai_next;
    }
    *res = first;
    return first ? 0 : EAI_NONAME;
}
void freeaddrinfo(struct addrinfo *a) {
    REAL(freeaddrinfo);
    if (!net) {
        real(a);
        return;
    }
    while (a) {
        struct addrinfo *n = a->ai_next;
        free(a);
        a = n;
    }
}
int connect(int fd, const struct sockaddr *sa, socklen_t l) {
    if (!net || sa->sa_family != AF_INET) return raw(SYS_connect, fd, sa, l);
    const struct sockaddr_in *s = (const void *)sa;
    char ip[64], p[PATH_MAX];
    inet_ntop(AF_INET, &s->sin_addr, ip, sizeof ip);
    snprintf(ip + strlen(ip), 16, ":%d", ntohs(s->sin_port));
    int i = 0;
    while (i < 63 && *seen[i].ip && strcmp(seen[i].ip, ip)) i++;
    strcpy(seen[i].ip, ip);
    snprintf(p, sizeof p, "%s/addr/%s/%d", net, ip, ++seen[i].n);
    int f = raw(SYS_openat, AT_FDCWD, p, O_RDONLY);
    if (f < 0) {
        snprintf(p, sizeof p, "%s/addr/%s/last", net, ip);
        f = raw(SYS_openat, AT_FDCWD, p, O_RDONLY);
    }
    say("connect %s %d %s\n", ip, seen[i].n, f < 0 ? "refused" : "ok");
    if (f < 0) {
        errno = ECONNREFUSED;
        return -1;
    }
    raw(SYS_dup3, f, fd, O_CLOEXEC);
    raw(SYS_close, f);
    if (fd < MAXFD) isnet[fd] = 1;
    return 0;
}
ssize_t recv(int fd, void *b, size_t n, int flags) {
    if (fd >= 0 && fd < MAXFD && isnet[fd]) return raw(SYS_read, fd, b, n);
    return raw(SYS_recvfrom, fd, b, n, flags, 0, 0);
}
ssize_t send(int fd, const void *b, size_t n, int flags) {
    if (fd >= 0 && fd < MAXFD && isnet[fd]) return n;
    return raw(SYS_sendto, fd, b, n, flags, 0, 0);
}
int shutdown(int fd, int how) {
    if (fd >= 0 && fd < MAXFD && isnet[fd]) return 0;
    return raw(SYS_shutdown, fd, how);
}
