/* LD_PRELOAD seam for the evl tool: file operations on paths below SHIM_DIR
 * are counted per (file name, operation) and faulted as the plan SHIM_PLAN
 * says, one rule per line:
 *     <file name> <open|read|write> <first> <last> <action> <argument>
 * A file name of * stands for every file. Actions: short (at most N bytes),
 * eintr, fail (errno N, for good from then on), once (errno N; would work if
 * tried again), crash (SIGKILL after
 * transferring N bytes), corrupt (byte N, modulo their number, of the bytes
 * read becomes an x).
 * Every operation and every fired rule is appended to SHIM_LOG. Random bytes
 * come from SHIM_SEED. SHIM_SPOILT names an input with a bad line.
 *
 * With SHIM_JOBS=n > 1 the n threads that process SHIM_FILES files take
 * turns: each stops before every file operation until all that have not
 * closed their output (or could take another file) are stopped there, and
 * one of them, drawn from SHIM_SEED, goes on
 * alone until its next operation. (Code of another structure, for which
 * this would wait forever, runs freely after a second.) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OPEN, READ, WRITE, NOPS };
enum { SHORT, EINTR_, FAIL, CRASH, CORRUPT, ONCE, NACTS };
static const char *OPS[] = {"open", "read", "write"};
static const char *ACTS[] = {"short", "eintr", "fail", "crash", "corrupt", "once"};

struct rule { char name[300]; int op; long first, last; int act; long arg; };
struct file { char name[300]; long count[NOPS]; int bad[NOPS]; };

static struct rule rules[512];
static int nrules;
static struct file files[256];
static int nfiles;
static int fdfile[4096]; /* index + 1 */
static int fdout[4096];
static char dir[1024];
static int logfd = -1;
static uint64_t seed;
static __thread uint64_t calls;
enum { MAXJOBS = 16 };
static int jobs = 1, nfile, njobs, finished, holder = -1;
static struct { int waiting, done; const char *name; } job[MAXJOBS];
static __thread int me = -1;
static uint64_t turns;
/* An input with a line that is no number: its job ends with reading it. */
static char spoilt[300];
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static int (*real_open)(const char *, int, ...);
static int (*real_openat)(int, const char *, int, ...);
static ssize_t (*real_read)(int, void *, size_t);
static ssize_t (*real_write)(int, const void *, size_t);
static int (*real_close)(int);
static long (*real_syscall)(long, ...);

__attribute__((constructor)) static void init(void) {
    real_open = dlsym(RTLD_NEXT, "open64");
    real_openat = dlsym(RTLD_NEXT, "openat64");
    real_read = dlsym(RTLD_NEXT, "read");
    real_write = dlsym(RTLD_NEXT, "write");
    real_close = dlsym(RTLD_NEXT, "close");
    real_syscall = dlsym(RTLD_NEXT, "syscall");
    const char *j = getenv("SHIM_JOBS"), *sp = getenv("SHIM_SPOILT");
    if (sp) snprintf(spoilt, sizeof spoilt, "%s", sp);
    const char *nf = getenv("SHIM_FILES");
    jobs = j ? atoi(j) : 1;
    nfile = nf ? atoi(nf) : jobs;
    if (jobs > MAXJOBS) jobs = MAXJOBS;
    const char *d = getenv("SHIM_DIR"), *p = getenv("SHIM_PLAN"), *l = getenv("SHIM_LOG"), *s = getenv("SHIM_SEED");
    if (s) seed = strtoull(s, 0, 10);
    if (!d || !p || !l) return;
    snprintf(dir, sizeof dir, "%s/", d);
    logfd = real_open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    FILE *f = fopen(p, "r");
    if (!f) return;
    char op[16], act[16];
    struct rule r;
    while (nrules < 512 && fscanf(f, "%299s %15s %ld %ld %15s %ld", r.name, op, &r.first, &r.last, act, &r.arg) == 6) {
        r.op = r.act = -1;
        /* A space in a name, in the plan and the log. */
        for (char *c = r.name; *c; c++) if (*c == 1) *c = ' ';
        for (int i = 0; i < NOPS; i++) if (!strcmp(op, OPS[i])) r.op = i;
        for (int i = 0; i < NACTS; i++) if (!strcmp(act, ACTS[i])) r.act = i;
        if (r.op >= 0 && r.act >= 0) rules[nrules++] = r;
    }
    fclose(f);
}

static struct file *lookup(const char *path) {
    if (!dir[0]) return 0;
    /* The current directory is dir. */
    const char *q = strncmp(path, "./", 2) ? path : path + 2;
    if (strncmp(path, dir, strlen(dir)) && strncmp(q, "in/", 3) && strncmp(q, "out/", 4)) return 0;
    const char *b = strrchr(path, '/') + 1;
    for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].name, b)) return &files[i];
    if (nfiles == 256) return 0;
    snprintf(files[nfiles].name, sizeof files[0].name, "%s", b);
    return &files[nfiles++];
}

static uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15u;
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9u;
    z = (z ^ z >> 27) * 0x94D049BB133111EBu;
    return z ^ z >> 31;
}

static void choose(void) {
    int n = 0, order[MAXJOBS];
    if (holder >= 0) return;
    for (int i = 0; i < njobs; i++) if (job[i].waiting) order[n++] = i;
    int left = nfile - finished;
    if (!n || n < (left < jobs ? left : jobs)) return;
    /* Which thread has which file is the pool's choice; the name is not. */
    for (int i = 1; i < n; i++)
        for (int k = i; k && strcmp(job[order[k]].name, job[order[k - 1]].name) < 0; k--) {
            int t = order[k]; order[k] = order[k - 1]; order[k - 1] = t;
        }
    holder = order[mix(mix(seed ^ 0x7475726e) + turns++) % n];
    pthread_cond_broadcast(&cv);
}

/* Called with mu held. */
static void turn(struct file *f) {
    if (jobs < 2) return;
    if (me < 0) {
        if (njobs == jobs) return;
        me = njobs++;
    }
    /* With more files than threads a thread that is done takes another. */
    if (job[me].done && nfile > jobs) job[me].done = 0;
    if (job[me].done) return;
    if (holder == me) holder = -1;
    job[me].waiting = 1;
    job[me].name = f->name;
    choose();
    while (holder != me) {
        struct timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        t.tv_sec++;
        if (pthread_cond_timedwait(&cv, &mu, &t) == ETIMEDOUT || jobs < 2) {
            if (jobs > 1 && logfd >= 0) real_write(logfd, "free\n", 5);
            jobs = 1;
            pthread_cond_broadcast(&cv);
            break;
        }
    }
    job[me].waiting = 0;
}

static void leave(void) {
    if (jobs < 2 || me < 0 || job[me].done) return;
    job[me].done = 1;
    finished++;
    if (holder == me) holder = -1;
    choose();
}

static void note(struct file *f, int op, long at, int act, long arg) {
    char b[400];
    /* A job that failed unwinds beside the others; nothing depends on it. */
    if (me >= 0 && job[me].done) return;
    int n = snprintf(b, sizeof b, "%s %s %ld %s %ld\n", f->name, OPS[op], at, act < 0 ? "ok" : ACTS[act], arg);
    for (size_t i = 0; i < strlen(f->name) && i < sizeof b; i++) if (b[i] == ' ') b[i] = 1;
    if (logfd >= 0) real_write(logfd, b, n);
}

/* The first rule that applies to this operation, or NULL. A failed file
 * stays failed. */
static struct rule *judge(struct file *f, int op, int *err) {
    turn(f);
    long at = f->count[op]++;
    note(f, op, at, -1, 0);
    if (f->bad[op]) { *err = f->bad[op]; return 0; }
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (r->op == op && at >= r->first && at <= r->last
            && (!strcmp(r->name, "*") || !strcmp(r->name, f->name))) {
            if (r->act == FAIL) f->bad[op] = r->arg;
            if (r->act == FAIL || r->act == ONCE) *err = r->arg;
            if (r->act != SHORT && r->act != CORRUPT) note(f, op, at, r->act, r->arg);
            if (r->act == FAIL || r->act == ONCE) leave();
            return r;
        }
    }
    return 0;
}

static int opened(struct file *f, const char *path, int dirfd, int flags, mode_t mode) {
    if (f) {
        int err = 0;
        pthread_mutex_lock(&mu);
        struct rule *r = judge(f, OPEN, &err);
        pthread_mutex_unlock(&mu);
        if (err) { errno = err; return -1; }
        if (r && r->act == EINTR_) { errno = EINTR; return -1; }
        if (r && r->act == CRASH) raise(SIGKILL);
    }
    int fd = real_openat(dirfd, path, flags, mode);
    if (f && fd >= 0 && fd < 4096) { fdfile[fd] = f - files + 1; fdout[fd] = (flags & O_ACCMODE) != O_RDONLY; }
    return fd;
}

static int open_any(int dirfd, const char *path, int flags, mode_t mode) {
    pthread_mutex_lock(&mu);
    struct file *f = lookup(path);
    pthread_mutex_unlock(&mu);
    return opened(f, path, dirfd, flags, mode);
}

#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }

int open(const char *path, int flags, ...) { MODE(flags) return open_any(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return open_any(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) return open_any(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) return open_any(d, path, flags, mode); }

int close(int fd) {
    int out = 0;
    if (fd >= 0 && fd < 4096) {
        out = fdfile[fd] && (fdout[fd] || !strcmp(files[fdfile[fd] - 1].name, spoilt));
        fdfile[fd] = 0;
    }
    int r = real_close(fd);
    if (out) {
        pthread_mutex_lock(&mu);
        leave();
        pthread_mutex_unlock(&mu);
    }
    return r;
}

/* Returns 1 if the call is to go on with *n bytes, 0 if it failed. */
static int before(int fd, int op, size_t *n, struct rule **crash) {
    *crash = 0;
    if (fd < 0 || fd >= 4096 || !fdfile[fd] || !*n) return 1;
    struct file *f = &files[fdfile[fd] - 1];
    int err = 0;
    pthread_mutex_lock(&mu);
    struct rule *r = judge(f, op, &err);
    if (!err && r && r->act == SHORT && (size_t)r->arg < *n) {
        note(f, op, f->count[op] - 1, SHORT, r->arg);
        *n = r->arg > 0 ? r->arg : 1;
    }
    pthread_mutex_unlock(&mu);
    if (err) { errno = err; return 0; }
    if (r && r->act == EINTR_) { errno = EINTR; return 0; }
    if (r && r->act == CORRUPT && op == READ) *crash = r;
    if (r && r->act == CRASH) {
        *crash = r;
        if ((size_t)r->arg < *n) *n = r->arg;
    }
    return 1;
}

ssize_t read(int fd, void *b, size_t n) {
    struct rule *c;
    if (!before(fd, READ, &n, &c)) return -1;
    if (c && c->act == CRASH) raise(SIGKILL);
    ssize_t got = real_read(fd, b, n);
    if (c && got > 0) {
        ((char *)b)[c->arg % got] = 'x';
        pthread_mutex_lock(&mu);
        struct file *f = &files[fdfile[fd] - 1];
        note(f, READ, f->count[READ] - 1, CORRUPT, c->arg % got);
        leave();
        pthread_mutex_unlock(&mu);
    }
    return got;
}

ssize_t write(int fd, const void *b, size_t n) {
    struct rule *c;
    if (!before(fd, WRITE, &n, &c)) return -1;
    if (c) {
        if (n) real_write(fd, b, n);
        raise(SIGKILL);
    }
    return real_write(fd, b, n);
}

/* Vectored calls may always transfer less: only their first buffer. */
ssize_t readv(int fd, const struct iovec *v, int k) {
    for (int i = 0; i < k; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    for (int i = 0; i < k; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t getrandom(void *b, size_t n, unsigned flags) {
    (void)flags;
    if (!n) return 0; /* a probe that whichever thread comes first makes */
    uint64_t c = calls++; /* per thread: independent of their order */
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = mix(mix(seed) + c * 4096 + i);
    return n;
}

long syscall(long nr, ...) {
    va_list a;
    va_start(a, nr);
    long x[6];
    for (int i = 0; i < 6; i++) x[i] = va_arg(a, long);
    va_end(a);
    if (nr == SYS_getrandom) return getrandom((void *)x[0], x[1], x[2]);
    return real_syscall(nr, x[0], x[1], x[2], x[3], x[4], x[5]);
}
