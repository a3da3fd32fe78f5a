/*
 * LD_PRELOAD system-call monitor for the bmap-tools checks.
 *
 * It sits at the libc boundary of the (unmodified) Python interpreter running
 * bmap-tools, logs the calls made on tracked files, injects faults and delays,
 * and makes scratch files look like block devices, sysfs attributes or files
 * of an unusual file system.  It is inactive until configured, and only acts
 * in the process that configured it (a vfork()ed or exec()ed helper such as a
 * decompressor is passed through).
 *
 * Configuration file, one directive per line:
 *   log PATH                        append events to PATH
 *   track ROLE PATH                 track the file PATH (compared by inode)
 *   trackdir ROLE DIR               track other files opened under DIR
 *   trackfd ROLE FD                 track an inherited descriptor
 *   redirect PREFIX NEWPREFIX       path redirection for open/stat
 *   bdev ROLE MAJ MIN [busy]        file looks like a block device
 *   sysfs ROLE list OPT...          scheduler-like attribute
 *   sysfs ROLE int                  integer attribute 0..100
 *   fault ROLE OP NTH COUNT err E | short N | sig S | exit C | delay US
 *   fault ROLE OP NTH COUNT clock S the wall clock is set S seconds ahead (or back)
 *   fault ROLE OP NTH COUNT slow S  the OP seems to take S seconds longer
 *   jitter ROLE OP MAXUS SEED       pseudo-random delay before each OP
 *   blksize ROLE N                  st_blksize reported
 *   figetbsz ROLE N                 FIGETBSZ result (-errno: failure)
 *   fiemap ROLE err E | emul FILE | clip FILE
 *   holes ROLE einval | stub | emul FILE
 *   memfail MINSIZE NTH COUNT       malloc(>=MINSIZE) fails
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/fiemap.h>
#include <linux/fs.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 8192
#define MAXRULE 64

struct role {
    char name[32];
    char path[PATH_MAX]; /* "" if none */
    int isdir;
    int bdev, busy;
    unsigned maj, min;
    int sysfs; /* 1 list 2 int */
    char opts[8][32];
    int nopts;
    long blksize;
    long figetbsz;
    int figetbsz_set;
    int fiemap_mode; /* 0 real 1 err 2 whole 3 clip */
    int fiemap_err;
    int holes_mode; /* 0 real 1 einval 2 stub 3 emul */
    struct { uint64_t off, len, flags; } *ext;
    int next;
    struct { uint64_t off, len, flags; } *hext;
    int nhext;
};

struct fault {
    int role; /* -1 any */
    char op[12];
    long nth, count, seen;
    int action; /* 1 err 2 short 3 sig 4 exit 5 delay 6 jitter */
    long arg;
    uint64_t rng;
};

static volatile int active;
static pid_t owner;
static int logfd = -1;
static struct role roles[MAXRULE];
static int nroles;
static struct fault faults[MAXRULE];
static int nfaults;
static struct { char a[PATH_MAX], b[PATH_MAX]; } redir[8];
static int nredir;
static int8_t fdrole[MAXFD];
static long seqno;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static size_t mem_min;
static long mem_nth, mem_count, mem_seen;

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);

static int on(void) { return active && (pid_t)syscall(SYS_getpid) == owner; }

#define REAL(ret, name, ...)                                                   \
    static ret (*real_##name)(__VA_ARGS__);                                    \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int rawstat(const char *p, struct stat *st)
{
    return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0) == 0 ? 0 : -1;
}
static int rawfstat(int fd, struct stat *st)
{
    return syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH) == 0 ? 0 : -1;
}

static void logev(const char *op, int role, int fd, long off, long len,
                  long ret, int err, const char *extra)
{
    char b[512];
    struct timespec ts;
    int n;
    if (logfd < 0) return;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    pthread_mutex_lock(&mu);
    n = snprintf(b, sizeof b, "%ld\t%ld\t%ld\t%s\t%s\t%d\t%ld\t%ld\t%ld\t%d\t%s\n",
                 ++seqno, (long)(ts.tv_sec * 1000000000L + ts.tv_nsec),
                 (long)syscall(SYS_gettid), op, role >= 0 ? roles[role].name : "-",
                 fd, off, len, ret, err, extra ? extra : "");
    if (n > (int)sizeof b - 1) { n = sizeof b - 1; b[n - 1] = '\n'; }
    syscall(SYS_write, logfd, b, n);
    pthread_mutex_unlock(&mu);
}

static int role_of_fd(int fd)
{
    if (fd < 0 || fd >= MAXFD) return -1;
    return fdrole[fd] - 1;
}

static int role_of_stat(const struct stat *st)
{
    struct stat r;
    for (int i = 0; i < nroles; i++)
        if (roles[i].path[0] && !roles[i].isdir && rawstat(roles[i].path, &r) == 0 &&
            r.st_ino == st->st_ino && r.st_dev == st->st_dev)
            return i;
    return -1;
}

static int role_of_path(const char *p)
{
    struct stat st;
    if (!p || rawstat(p, &st)) return -1;
    return role_of_stat(&st);
}

static long clock_off, mono_off;

int clock_gettime(clockid_t id, struct timespec *ts)
{
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int ret = real ? real(id, ts) : (int)syscall(SYS_clock_gettime, id, ts);
    if (!ret && ts && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE))
        ts->tv_sec += __atomic_load_n(&clock_off, __ATOMIC_SEQ_CST);
    else if (!ret && ts && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC_COARSE))
        ts->tv_sec += __atomic_load_n(&mono_off, __ATOMIC_SEQ_CST);
    return ret;
}

/* Returns 0: proceed; 1: fail with errno set; sets *lim for short transfers. */
static int apply_faults(int role, const char *op, const char *op2, size_t *lim)
{
    int e = 0, fail = 0;
    long delay = 0, sig = 0;
    for (int i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        if (f->role >= 0 && f->role != role) continue;
        if (f->role < 0 && role < 0) continue;
        if (strcmp(f->op, op) && (!op2 || strcmp(f->op, op2))) continue;
        if (f->action == 6) {
            pthread_mutex_lock(&mu);
            f->rng = f->rng * 6364136223846793005ULL + 1442695040888963407ULL;
            uint64_t r = f->rng >> 33;
            pthread_mutex_unlock(&mu);
            /* bursts: half of the calls are not delayed at all */
            if (r & 1) delay += (long)((r >> 1) % (uint64_t)(f->arg + 1));
            continue;
        }
        long k = __atomic_add_fetch(&f->seen, 1, __ATOMIC_SEQ_CST);
        if (k < f->nth || k >= f->nth + f->count) continue;
        switch (f->action) {
        case 1: fail = 1; e = (int)f->arg; break;
        case 2: if (lim && (size_t)f->arg < *lim) *lim = (size_t)f->arg; break;
        case 3: sig = f->arg; break;
        case 4: logev("exit", role, -1, 0, 0, f->arg, 0, op); syscall(SYS_exit_group, (int)f->arg); break;
        case 5: delay += f->arg; break;
        case 8: __atomic_add_fetch(&mono_off, f->arg, __ATOMIC_SEQ_CST); /* fall through */
        case 7: __atomic_add_fetch(&clock_off, f->arg, __ATOMIC_SEQ_CST); break;
        }
        if (f->action != 5) {
            char x[64];
            snprintf(x, sizeof x, "%s#%ld", op, k);
            logev("fault", role, -1, f->action, f->arg, k, e, x);
        }
    }
    if (delay > 0) {
        struct timespec t = { delay / 1000000, (delay % 1000000) * 1000 };
        nanosleep(&t, NULL);
    }
    if (sig) syscall(SYS_tgkill, owner, owner, sig);
    if (fail) { errno = e; return 1; }
    return 0;
}

/* ------------------------------------------------------------------ */
static int find_role(const char *name)
{
    for (int i = 0; i < nroles; i++)
        if (!strcmp(roles[i].name, name)) return i;
    if (nroles >= MAXRULE) return 0;
    memset(&roles[nroles], 0, sizeof roles[0]);
    snprintf(roles[nroles].name, sizeof roles[0].name, "%s", name);
    return nroles++;
}

static void load_ext(const char *path, void **out, int *n)
{
    FILE *f = fopen(path, "r");
    unsigned long long a, b, c;
    int cap = 0;
    struct { uint64_t off, len, flags; } *v = NULL;
    *n = 0;
    if (!f) return;
    while (fscanf(f, "%llu %llu %llu", &a, &b, &c) == 3) {
        if (*n >= cap) { cap = cap ? cap * 2 : 64; v = realloc(v, cap * sizeof *v); }
        v[*n].off = a; v[*n].len = b; v[*n].flags = c;
        (*n)++;
    }
    fclose(f);
    *out = v;
}

__attribute__((visibility("default"))) long vmon_configure(const char *conf)
{
    char line[2 * PATH_MAX], logpath[PATH_MAX] = "";
    active = 0;
    nroles = nfaults = nredir = 0;
    seqno = 0;
    mem_min = 0;
    memset(fdrole, 0, sizeof fdrole);
    if (logfd >= 0) { syscall(SYS_close, logfd); logfd = -1; }
    if (!conf || !conf[0]) return 0;
    FILE *f = fopen(conf, "r");
    if (!f) return -1;
    while (fgets(line, sizeof line, f)) {
        char *save, *w[16];
        int n = 0;
        for (char *t = strtok_r(line, "\t\n", &save); t && n < 16; t = strtok_r(NULL, "\t\n", &save)) w[n++] = t;
        if (!n || w[0][0] == '#') continue;
        if (!strcmp(w[0], "log") && n > 1) snprintf(logpath, sizeof logpath, "%s", w[1]);
        else if ((!strcmp(w[0], "track") || !strcmp(w[0], "trackdir")) && n > 2) {
            int r = find_role(w[1]);
            snprintf(roles[r].path, sizeof roles[r].path, "%s", w[2]);
            roles[r].isdir = !strcmp(w[0], "trackdir");
        } else if (!strcmp(w[0], "trackfd") && n > 2) {
            int fd = atoi(w[2]);
            if (fd >= 0 && fd < MAXFD) fdrole[fd] = find_role(w[1]) + 1;
        } else if (!strcmp(w[0], "redirect") && n > 2 && nredir < 8) {
            snprintf(redir[nredir].a, PATH_MAX, "%s", w[1]);
            snprintf(redir[nredir].b, PATH_MAX, "%s", w[2]);
            nredir++;
        } else if (!strcmp(w[0], "bdev") && n > 3) {
            int r = find_role(w[1]);
            roles[r].bdev = 1;
            roles[r].maj = atoi(w[2]);
            roles[r].min = atoi(w[3]);
            roles[r].busy = n > 4 && !strcmp(w[4], "busy");
        } else if (!strcmp(w[0], "sysfs") && n > 2) {
            int r = find_role(w[1]);
            roles[r].sysfs = !strcmp(w[2], "int") ? 2 : 1;
            for (int i = 3; i < n && roles[r].nopts < 8; i++)
                snprintf(roles[r].opts[roles[r].nopts++], 32, "%s", w[i]);
        } else if (!strcmp(w[0], "fault") && n > 6 && nfaults < MAXRULE) {
            struct fault *x = &faults[nfaults++];
            memset(x, 0, sizeof *x);
            x->role = !strcmp(w[1], "*") ? -1 : find_role(w[1]);
            snprintf(x->op, sizeof x->op, "%s", w[2]);
            x->nth = atol(w[3]);
            x->count = atol(w[4]);
            x->action = !strcmp(w[5], "err") ? 1 : !strcmp(w[5], "short") ? 2
                : !strcmp(w[5], "sig") ? 3 : !strcmp(w[5], "exit") ? 4 : !strcmp(w[5], "clock") ? 7
                : !strcmp(w[5], "slow") ? 8 : 5;
            x->arg = atol(w[6]);
        } else if (!strcmp(w[0], "jitter") && n > 4 && nfaults < MAXRULE) {
            struct fault *x = &faults[nfaults++];
            memset(x, 0, sizeof *x);
            x->role = !strcmp(w[1], "*") ? -1 : find_role(w[1]);
            snprintf(x->op, sizeof x->op, "%s", w[2]);
            x->action = 6;
            x->arg = atol(w[3]);
            x->rng = strtoull(w[4], NULL, 10) * 2654435761ULL + 88172645463325252ULL;
        } else if (!strcmp(w[0], "blksize") && n > 2) roles[find_role(w[1])].blksize = atol(w[2]);
        else if (!strcmp(w[0], "figetbsz") && n > 2) {
            int r = find_role(w[1]);
            roles[r].figetbsz_set = 1;
            roles[r].figetbsz = atol(w[2]);
        } else if (!strcmp(w[0], "fiemap") && n > 3) {
            int r = find_role(w[1]);
            if (!strcmp(w[2], "err")) { roles[r].fiemap_mode = 1; roles[r].fiemap_err = atoi(w[3]); }
            else {
                roles[r].fiemap_mode = !strcmp(w[2], "clip") ? 3 : 2;
                load_ext(w[3], (void **)&roles[r].ext, &roles[r].next);
            }
        } else if (!strcmp(w[0], "holes") && n > 2) {
            int r = find_role(w[1]);
            if (!strcmp(w[2], "einval")) roles[r].holes_mode = 1;
            else if (!strcmp(w[2], "stub")) roles[r].holes_mode = 2;
            else if (n > 3) {
                roles[r].holes_mode = 3;
                load_ext(w[3], (void **)&roles[r].hext, &roles[r].nhext);
            }
        } else if (!strcmp(w[0], "memfail") && n > 3) {
            mem_min = (size_t)atol(w[1]);
            mem_nth = atol(w[2]);
            mem_count = atol(w[3]);
            mem_seen = 0;
        }
    }
    fclose(f);
    if (logpath[0]) {
        int fd = syscall(SYS_openat, AT_FDCWD, logpath, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (fd >= 0) {
            logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
            if (logfd < 0) logfd = fd; else syscall(SYS_close, fd);
        }
    }
    owner = (pid_t)syscall(SYS_getpid);
    active = 1;
    logev("start", -1, -1, 0, 0, owner, 0, "");
    return 0;
}

__attribute__((visibility("default"))) void vmon_mark(const char *s)
{
    if (on()) logev("mark", -1, -1, 0, 0, 0, 0, s);
}

__attribute__((constructor)) static void init(void)
{
    const char *c = getenv("VMON_CONF");
    if (c && !strncmp(program_invocation_short_name, "python", 6)) vmon_configure(c);
}
__attribute__((destructor)) static void fini(void)
{
    if (on()) logev("end", -1, -1, 0, 0, 0, 0, "");
}

/* ------------------------------------------------------------------ */
static const char *redirected(const char *p, char *buf)
{
    if (!p) return p;
    for (int i = 0; i < nredir; i++) {
        size_t l = strlen(redir[i].a);
        if (!strncmp(p, redir[i].a, l)) {
            snprintf(buf, PATH_MAX, "%s%s", redir[i].b, p + l);
            return buf;
        }
    }
    return p;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    REAL(int, openat64, int, const char *, int, ...);
    if (!on()) return real_openat64(dirfd, path, flags, mode);
    char buf[PATH_MAX], link[64], tgt[PATH_MAX], ex[64];
    const char *p = redirected(path, buf);
    int acc = flags & O_ACCMODE, wr = acc != O_RDONLY;
    int role = dirfd == AT_FDCWD || (p && p[0] == '/') ? role_of_path(p) : -1;
    int f2 = flags;
    if (role >= 0) {
        if (apply_faults(role, "open", wr ? "openw" : "openr", NULL)) {
            int e = errno;
            snprintf(ex, sizeof ex, "0x%x", flags);
            logev("open", role, -1, 0, 0, -1, e, ex);
            errno = e;
            return -1;
        }
        if (roles[role].bdev) {
            f2 &= ~(O_TRUNC | O_CREAT);
            if ((flags & O_EXCL) && !(flags & O_CREAT) && roles[role].busy) {
                snprintf(ex, sizeof ex, "0x%x", flags);
                logev("open", role, -1, 0, 0, -1, EBUSY, ex);
                errno = EBUSY;
                return -1;
            }
            f2 &= ~O_EXCL;
        }
        if (roles[role].sysfs) f2 &= ~O_TRUNC;
    }
    int fd = real_openat64(dirfd, p, f2, mode);
    int e = errno;
    if (fd >= 0 && fd < MAXFD) {
        struct stat st;
        if (role < 0 && rawfstat(fd, &st) == 0) role = role_of_stat(&st);
        if (role < 0) {
            for (int i = 0; i < nroles; i++) {
                if (!roles[i].isdir) continue;
                snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
                ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, tgt, sizeof tgt - 1);
                if (n > 0) {
                    tgt[n] = 0;
                    size_t l = strlen(roles[i].path);
                    if (!strncmp(tgt, roles[i].path, l) && tgt[l] == '/') { role = i; break; }
                }
            }
        }
        fdrole[fd] = role + 1;
    }
    if (role >= 0) {
        snprintf(ex, sizeof ex, "0x%x", flags);
        logev("open", role, fd, 0, 0, fd, fd < 0 ? e : 0, ex);
    }
    errno = e;
    return fd;
}

#define OPENMODE(flags, mode)                                                  \
    mode_t mode = 0;                                                           \
    if (flags & (O_CREAT | O_TMPFILE)) {                                       \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); \
    }
int open(const char *p, int flags, ...) { OPENMODE(flags, m) return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENMODE(flags, m) return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { OPENMODE(flags, m) return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENMODE(flags, m) return do_open(d, p, flags, m); }

int close(int fd)
{
    REAL(int, close, int);
    if (!on()) return real_close(fd);
    int role = role_of_fd(fd);
    if (role < 0) return real_close(fd);
    int bad = apply_faults(role, "close", NULL, NULL), e = errno;
    if (fd >= 0 && fd < MAXFD) fdrole[fd] = 0;
    int r = real_close(fd);
    if (bad) { r = -1; errno = e; }
    e = errno;
    logev("close", role, fd, 0, 0, r, r < 0 ? e : 0, "");
    errno = e;
    return r;
}

static void duped(int from, int to)
{
    if (from >= 0 && from < MAXFD && to >= 0 && to < MAXFD) fdrole[to] = fdrole[from];
}
int dup(int fd) { REAL(int, dup, int); int r = real_dup(fd); if (on() && r >= 0) duped(fd, r); return r; }
int dup2(int fd, int to) { REAL(int, dup2, int, int); int r = real_dup2(fd, to); if (on() && r >= 0) duped(fd, r); return r; }
int dup3(int fd, int to, int fl) { REAL(int, dup3, int, int, int); int r = real_dup3(fd, to, fl); if (on() && r >= 0) duped(fd, r); return r; }
static int do_fcntl(int fd, int cmd, void *arg)
{
    REAL(int, fcntl64, int, int, ...);
    int r = real_fcntl64(fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && on()) duped(fd, r);
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ------------------------------------------------------------------ */
static long curpos(int fd) { return syscall(SYS_lseek, fd, 0L, SEEK_CUR); }

/* write-side: compute how much may be written to an emulated block device */
static ssize_t bdev_room(int role, int fd, long off, size_t *n)
{
    struct stat st;
    if (rawfstat(fd, &st)) return 0;
    if (off >= st.st_size) { errno = ENOSPC; return -1; }
    if (off + (long)*n > st.st_size) *n = st.st_size - off;
    return 0;
}

static ssize_t sysfs_write(int role, int fd, const char *b, size_t n)
{
    char v[64], out[300] = "";
    size_t l = n < 63 ? n : 63;
    memcpy(v, b, l);
    v[l] = 0;
    while (l && (v[l - 1] == '\n' || v[l - 1] == ' ')) v[--l] = 0;
    if (roles[role].sysfs == 2) {
        char *end;
        long x = strtol(v, &end, 10);
        if (!l || *end || x < 0 || x > 100) { errno = EINVAL; return -1; }
        snprintf(out, sizeof out, "%ld\n", x);
    } else {
        int ok = 0;
        for (int i = 0; i < roles[role].nopts; i++) {
            char t[40];
            int m = !strcmp(roles[role].opts[i], v);
            ok |= m;
            snprintf(t, sizeof t, m ? "%s[%s]" : "%s%s", i ? " " : "", roles[role].opts[i]);
            strcat(out, t);
        }
        if (!ok) { errno = EINVAL; return -1; }
        strcat(out, "\n");
    }
    syscall(SYS_ftruncate, fd, 0L);
    syscall(SYS_pwrite64, fd, out, strlen(out), 0L);
    return n;
}

static ssize_t do_write(int fd, const void *b, size_t n, int positional, off_t off)
{
    int role = role_of_fd(fd);
    size_t lim = n;
    long pos = positional ? off : curpos(fd);
    ssize_t r;
    char ex[140] = "";
    if (apply_faults(role, "write", NULL, &lim)) r = -1;
    else if (roles[role].sysfs) r = sysfs_write(role, fd, b, lim);
    else if (roles[role].bdev && bdev_room(role, fd, pos, &lim) < 0) r = -1;
    else r = positional ? syscall(SYS_pwrite64, fd, b, lim, off) : syscall(SYS_write, fd, b, lim);
    int e = errno;
    if (roles[role].sysfs) {
        size_t l = n < 60 ? n : 60;
        for (size_t i = 0; i < l; i++) snprintf(ex + 2 * i, 3, "%02x", ((const unsigned char *)b)[i]);
    }
    logev("write", role, fd, pos, n, r, r < 0 ? e : 0, ex);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_write, fd, b, n);
    return do_write(fd, b, n, 0, 0);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_pwrite64, fd, b, n, off);
    return do_write(fd, b, n, 1, off);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return pwrite(fd, b, n, off); }
static ssize_t vec(int fd, const struct iovec *v, int c, int positional, off_t off)
{
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, positional, off + t);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_writev, fd, v, c);
    return vec(fd, v, c, 0, 0);
}
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t off)
{
    REAL(ssize_t, pwritev, int, const struct iovec *, int, off_t);
    if (!on() || role_of_fd(fd) < 0) return real_pwritev(fd, v, c, off);
    return vec(fd, v, c, 1, off);
}
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t off) { return pwritev(fd, v, c, off); }

static ssize_t do_read(int fd, void *b, size_t n, int positional, off_t off)
{
    int role = role_of_fd(fd);
    size_t lim = n;
    long pos = positional ? off : curpos(fd);
    ssize_t r;
    if (apply_faults(role, "read", NULL, &lim)) r = -1;
    else r = positional ? syscall(SYS_pread64, fd, b, lim, off) : syscall(SYS_read, fd, b, lim);
    int e = errno;
    logev("read", role, fd, pos, n, r, r < 0 ? e : 0, "");
    errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_read, fd, b, n);
    return do_read(fd, b, n, 0, 0);
}
ssize_t pread(int fd, void *b, size_t n, off_t off)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_pread64, fd, b, n, off);
    return do_read(fd, b, n, 1, off);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return pread(fd, b, n, off); }

/* in-kernel copies: logged as a read of the source and a write of the target */
static ssize_t kcopy(int out, off_t *ooff, int in, off_t *ioff, size_t n, ssize_t (*fn)(int, off_t *, int, off_t *, size_t))
{
    int ro = role_of_fd(out), ri = role_of_fd(in);
    long po = ooff ? *ooff : curpos(out), pi = ioff ? *ioff : curpos(in);
    size_t lim = n;
    ssize_t r;
    if (ro >= 0 && apply_faults(ro, "write", NULL, &lim)) r = -1;
    else if (ri >= 0 && apply_faults(ri, "read", NULL, &lim)) r = -1;
    else if (ro >= 0 && roles[ro].bdev && bdev_room(ro, out, po, &lim) < 0) r = -1;
    else r = fn(out, ooff, in, ioff, lim);
    int e = errno;
    if (ri >= 0) logev("read", ri, in, pi, n, r, r < 0 ? e : 0, "kcopy");
    if (ro >= 0) logev("write", ro, out, po, n, r, r < 0 ? e : 0, "kcopy");
    errno = e;
    return r;
}
static ssize_t k_sendfile(int out, off_t *ooff, int in, off_t *ioff, size_t n) { (void)ooff; return syscall(SYS_sendfile, out, in, ioff, n); }
static ssize_t k_cfr(int out, off_t *ooff, int in, off_t *ioff, size_t n) { return syscall(SYS_copy_file_range, in, ioff, out, ooff, n, 0); }
static ssize_t k_splice(int out, off_t *ooff, int in, off_t *ioff, size_t n) { return syscall(SYS_splice, in, ioff, out, ooff, n, 0); }
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    if (!on() || (role_of_fd(out) < 0 && role_of_fd(in) < 0)) return syscall(SYS_sendfile, out, in, off, n);
    return kcopy(out, NULL, in, off, n, k_sendfile);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *ioff, int out, off64_t *ooff, size_t n, unsigned fl)
{
    if (!on() || (role_of_fd(out) < 0 && role_of_fd(in) < 0)) return syscall(SYS_copy_file_range, in, ioff, out, ooff, n, fl);
    return kcopy(out, ooff, in, ioff, n, k_cfr);
}
ssize_t splice(int in, off64_t *ioff, int out, off64_t *ooff, size_t n, unsigned fl)
{
    if (!on() || (role_of_fd(out) < 0 && role_of_fd(in) < 0)) return syscall(SYS_splice, in, ioff, out, ooff, n, fl);
    return kcopy(out, ooff, in, ioff, n, k_splice);
}

/* ------------------------------------------------------------------ */
static int simple1(int fd, const char *op, long len, long nr)
{
    int role = role_of_fd(fd), r;
    if (apply_faults(role, op, NULL, NULL)) r = -1;
    else if (!strcmp(op, "trunc") && roles[role].bdev) { errno = EINVAL; r = -1; }
    else r = nr == SYS_ftruncate ? syscall(nr, fd, len) : syscall(nr, fd);
    int e = errno;
    logev(op, role, fd, 0, len, r, r < 0 ? e : 0, "");
    errno = e;
    return r;
}
int ftruncate(int fd, off_t len)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_ftruncate, fd, len);
    return simple1(fd, "trunc", len, SYS_ftruncate);
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
int truncate(const char *p, off_t len)
{
    int role = on() ? role_of_path(p) : -1;
    if (role < 0) return syscall(SYS_truncate, p, len);
    int r;
    if (apply_faults(role, "trunc", NULL, NULL)) r = -1;
    else if (roles[role].bdev) { errno = EINVAL; r = -1; }
    else r = syscall(SYS_truncate, p, len);
    int e = errno;
    logev("trunc", role, -1, 0, len, r, r < 0 ? e : 0, "path");
    errno = e;
    return r;
}
int truncate64(const char *p, off64_t len) { return truncate(p, len); }
int fsync(int fd)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_fsync, fd);
    return simple1(fd, "fsync", 0, SYS_fsync);
}
int fdatasync(int fd)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_fdatasync, fd);
    return simple1(fd, "fsync", 1, SYS_fdatasync);
}
int syncfs(int fd)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_syncfs, fd);
    return simple1(fd, "fsync", 2, SYS_syncfs);
}
void sync(void)
{
    if (on()) for (int i = 0; i < nroles; i++) logev("fsync", i, -1, 0, 3, 0, 0, "sync()");
    else syscall(SYS_sync);
}
static int do_fallocate(int fd, int mode, off_t off, off_t len)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_fallocate, fd, mode, off, len);
    int role = role_of_fd(fd), r;
    if (apply_faults(role, "fallocate", NULL, NULL)) r = -1;
    else r = syscall(SYS_fallocate, fd, mode, off, len);
    int e = errno;
    char ex[32];
    snprintf(ex, sizeof ex, "0x%x", mode);
    logev("fallocate", role, fd, off, len, r, r < 0 ? e : 0, ex);
    errno = e;
    return r;
}
int fallocate(int fd, int mode, off_t off, off_t len) { return do_fallocate(fd, mode, off, len); }
int fallocate64(int fd, int mode, off64_t off, off64_t len) { return do_fallocate(fd, mode, off, len); }
int posix_fallocate(int fd, off_t off, off_t len) { return do_fallocate(fd, 0, off, len) ? errno : 0; }
int posix_fallocate64(int fd, off64_t off, off64_t len) { return do_fallocate(fd, 0, off, len) ? errno : 0; }
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off)
{
    void *r = (void *)syscall(SYS_mmap, a, n, prot, fl, fd, off);
    if (fd >= 0 && active && on() && role_of_fd(fd) >= 0) {
        int e = errno;
        char ex[40];
        snprintf(ex, sizeof ex, "prot%d flags%d", prot, fl);
        logev((prot & PROT_WRITE) && (fl & MAP_SHARED) ? "mmapw" : "mmap", role_of_fd(fd), fd, off, n, r == MAP_FAILED ? -1 : 0, 0, ex);
        errno = e;
    }
    return r;
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t off) { return mmap(a, n, prot, fl, fd, off); }

/* ------------------------------------------------------------------ */
static long emul_seek(struct role *r, int fd, long off, int whence)
{
    struct stat st;
    rawfstat(fd, &st);
    long size = st.st_size;
    if (off < 0 || off >= size) { errno = ENXIO; return -1; }
    if (r->holes_mode == 2) return whence == SEEK_DATA ? off : size;
    long p = off;
    if (whence == SEEK_DATA) {
        for (int i = 0; i < r->nhext; i++) {
            long s = r->hext[i].off, e = s + r->hext[i].len;
            if (e <= off) continue;
            p = s > off ? s : off;
            if (p >= size) break;
            return p;
        }
        errno = ENXIO;
        return -1;
    }
    for (int i = 0; i < r->nhext; i++) {
        long s = r->hext[i].off, e = s + r->hext[i].len;
        if (e <= p) continue;
        if (s > p) break;
        p = e;
    }
    return p < size ? p : size;
}

static off_t do_lseek(int fd, off_t off, int whence)
{
    int role = role_of_fd(fd);
    struct role *r = &roles[role];
    off_t ret;
    if (apply_faults(role, "seek", NULL, NULL)) ret = -1;
    else if ((whence == SEEK_DATA || whence == SEEK_HOLE) && r->holes_mode) {
        if (r->holes_mode == 1) { errno = EINVAL; ret = -1; }
        else if (r->holes_mode == 3 && !r->hext && r->isdir) ret = syscall(SYS_lseek, fd, off, whence);
        else {
            ret = emul_seek(r, fd, off, whence);
            if (ret >= 0) syscall(SYS_lseek, fd, ret, SEEK_SET);
        }
    } else ret = syscall(SYS_lseek, fd, off, whence);
    int e = errno;
    if (whence == SEEK_DATA || whence == SEEK_HOLE)
        logev(whence == SEEK_DATA ? "seekdata" : "seekhole", role, fd, off, 0, ret, ret < 0 ? e : 0, "");
    errno = e;
    return ret;
}
off_t lseek(int fd, off_t off, int whence)
{
    if (!on() || role_of_fd(fd) < 0) return syscall(SYS_lseek, fd, off, whence);
    return do_lseek(fd, off, whence);
}
off64_t lseek64(int fd, off64_t off, int whence) { return lseek(fd, off, whence); }

static int emul_fiemap(struct role *r, int fd, struct fiemap *fm)
{
    struct stat st;
    uint64_t s = fm->fm_start, e;
    uint32_t k = 0;
    rawfstat(fd, &st);
    if (fm->fm_length == 0 || s > (1ULL << 62)) { errno = s ? EFBIG : EINVAL; return -1; }
    e = fm->fm_length > (1ULL << 62) - s ? 1ULL << 62 : s + fm->fm_length;
    for (int i = 0; i < r->next; i++) {
        uint64_t a = r->ext[i].off, l = r->ext[i].len;
        if (a + l <= s) continue;
        if (a >= e) break;
        if (r->fiemap_mode == 3) {
            if (a < s) { l -= s - a; a = s; }
            if (a + l > e) l = e - a;
        }
        if (fm->fm_extent_count) {
            if (k >= fm->fm_extent_count) break;
            struct fiemap_extent *x = &fm->fm_extents[k];
            memset(x, 0, sizeof *x);
            x->fe_logical = a;
            x->fe_physical = (uint64_t)(i + 1) << 32;
            x->fe_length = l;
            x->fe_flags = (uint32_t)r->ext[i].flags | (i == r->next - 1 ? FIEMAP_EXTENT_LAST : 0);
        }
        k++;
    }
    fm->fm_mapped_extents = k;
    return 0;
}

int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    int role = on() ? role_of_fd(fd) : -1;
    if (role < 0) return syscall(SYS_ioctl, fd, req, arg);
    struct role *R = &roles[role];
    int r;
    if (apply_faults(role, "ioctl", (uint32_t)req == FS_IOC_FIEMAP ? "fiemap" : NULL, NULL)) r = -1;
    else if ((uint32_t)req == FS_IOC_FIEMAP && R->fiemap_mode == 1) { errno = R->fiemap_err; r = -1; }
    else if ((uint32_t)req == FS_IOC_FIEMAP && R->fiemap_mode) r = emul_fiemap(R, fd, arg);
    else if ((uint32_t)req == FIGETBSZ && R->figetbsz_set) {
        if (R->figetbsz < 0) { errno = (int)-R->figetbsz; r = -1; }
        else { *(int *)arg = (int)R->figetbsz; r = 0; }
    } else r = syscall(SYS_ioctl, fd, req, arg);
    int e = errno;
    char ex[64];
    if ((uint32_t)req == FS_IOC_FIEMAP) {
        struct fiemap *fm = arg;
        snprintf(ex, sizeof ex, "fiemap n=%u", r == 0 ? fm->fm_mapped_extents : 0);
        logev("ioctl", role, fd, fm->fm_start, fm->fm_length, r, r < 0 ? e : 0, ex);
    } else {
        snprintf(ex, sizeof ex, "0x%lx", req);
        logev("ioctl", role, fd, 0, 0, r, r < 0 ? e : 0, ex);
    }
    errno = e;
    return r;
}

static void fixstat(struct stat *st)
{
    int role = role_of_stat(st);
    if (role < 0) return;
    if (roles[role].bdev) {
        st->st_mode = (st->st_mode & 07777) | S_IFBLK;
        st->st_rdev = makedev(roles[role].maj, roles[role].min);
        st->st_size = 0;
    }
    if (roles[role].blksize) st->st_blksize = roles[role].blksize < 0 ? 0 : roles[role].blksize;
}
static int do_stat(int dirfd, const char *p, struct stat *st, int fl)
{
    char buf[PATH_MAX];
    int a = on();
    if (a && p) p = redirected(p, buf);
    int r = syscall(SYS_newfstatat, dirfd, p, st, fl);
    if (!r && a) { int e = errno; fixstat(st); errno = e; }
    return r;
}
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *st, int f) { return do_stat(d, p, st, f); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { return do_stat(d, p, (struct stat *)st, f); }
int fstat(int fd, struct stat *st) { return do_stat(fd, "", st, AT_EMPTY_PATH); }
int fstat64(int fd, struct stat64 *st) { return do_stat(fd, "", (struct stat *)st, AT_EMPTY_PATH); }
int access(const char *p, int m)
{
    char buf[PATH_MAX];
    if (on() && p) p = redirected(p, buf);
    return syscall(SYS_faccessat, AT_FDCWD, p, m);
}

/* ------------------------------------------------------------------ */
static int memfail(size_t n)
{
    if (!active || !mem_min || n < mem_min || !on()) return 0;
    long k = __atomic_add_fetch(&mem_seen, 1, __ATOMIC_SEQ_CST);
    if (k < mem_nth || k >= mem_nth + mem_count) return 0;
    logev("fault", -1, -1, 7, (long)n, k, ENOMEM, "malloc");
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) { return memfail(n) ? NULL : __libc_malloc(n); }
void *realloc(void *p, size_t n) { return memfail(n) ? NULL : __libc_realloc(p, n); }
