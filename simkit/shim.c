/* System-call seam of the simulator (LD_PRELOAD).  Inactive until sim_start().  While active, every call on a tracked
 * path (below one of the registered prefixes) or tracked descriptor is numbered and logged, and the fault plan decides
 * whether it fails, is shortened, is interrupted, is torn, or ends the process.  No randomness and no real clock here:
 * the run is a function of the plan. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <stdio.h>

enum { K_OPEN = 1, K_READ, K_WRITE, K_CLOSE, K_FSYNC, K_RENAME, K_UNLINK, K_MMAP, K_TRUNC, K_LINK, K_META, K_STAT, K_MAX };
enum { A_ERR = 1, A_SHORT, A_CRASH_BEFORE, A_CRASH_AFTER, A_TORN_CRASH, A_TORN_ERR, A_SIGNAL };

typedef struct {
    int32_t kind, fd;
    int64_t off, req, ret, ino, data, len;
    int32_t err, fault, name, name2;
} op_t;

typedef struct { int32_t kind, index, count, action; int64_t arg, arg2; char suffix[256]; int64_t seen; } fault_t;

#define MAXFD 4096
#define MAXPFX 8
#define MAXFAULT 64
#define MAXCAP 4096

static int active;
static char prefixes[MAXPFX][PATH_MAX];
static int nprefix;
static int32_t fdname[MAXFD];          /* 0: not tracked, else name id + 1 */
static op_t *ops; static int64_t nops, capops;
static char *arena; static int64_t narena, caparena;
static char **names; static int nnames, capnames;
static fault_t faults[MAXFAULT]; static int nfaults;
static int64_t kindcount[K_MAX], total, fired[16];
static int32_t caps[K_MAX][MAXCAP]; static int ncaps[K_MAX]; static int64_t capcount[K_MAX], capfired, notyet;
static int readonly_fs;
static int clock_on; static int64_t clockvals[256]; static int nclock; static int64_t nread_clock;

static void *grow(void *p, int64_t need, int64_t *cap, size_t unit) {
    if (need <= *cap) return p;
    int64_t c = *cap ? *cap : 256;
    while (c < need) c *= 2;
    p = realloc(p, c * unit);
    if (!p) _exit(120);
    *cap = c;
    return p;
}

static int name_id(const char *s) {
    for (int i = 0; i < nnames; i++) if (!strcmp(names[i], s)) return i;
    if (nnames == capnames) { capnames = capnames ? 2 * capnames : 64; names = realloc(names, capnames * sizeof *names); }
    names[nnames] = strdup(s);
    return nnames++;
}

static const char *abspath(int dirfd, const char *p, char *buf) {
    if (p[0] == '/') return p;
    if (dirfd == AT_FDCWD) {
        if (!getcwd(buf, PATH_MAX)) return p;
    } else {
        char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(l, buf, PATH_MAX - 1);
        if (n < 0) return p;
        buf[n] = 0;
    }
    size_t k = strlen(buf);
    while (p[0] == '.' && p[1] == '/') p += 2;
    snprintf(buf + k, PATH_MAX - k, "/%s", p);
    return buf;
}

static int tracked_path(const char *p) {
    for (int i = 0; i < nprefix; i++)
        if (!strncmp(p, prefixes[i], strlen(prefixes[i]))) return 1;
    return 0;
}
static int tracked_fd(int fd) { return active && fd >= 0 && fd < MAXFD && fdname[fd]; }

static int raw_fstat(int fd, struct stat *st) { return syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH); }
static int stat_on;
void sim_stat(int on) { stat_on = on; }

static int64_t ino_of(int fd) { struct stat st; return raw_fstat(fd, &st) ? -1 : (int64_t)st.st_ino; }

static op_t *newop(int kind, int fd, int name) {
    ops = grow(ops, nops + 1, &capops, sizeof *ops);
    op_t *o = &ops[nops++];
    memset(o, 0, sizeof *o);
    o->kind = kind; o->fd = fd; o->name = name; o->name2 = -1; o->data = -1; o->ino = -1;
    return o;
}

static void crash(void) { syscall(SYS_exit_group, 137); }

/* ---- the baton between simulated processes: say where we are, wait for our turn ---- */
static int gate_in = -1, gate_out = -1;
static void gate(int32_t what, int32_t a, int32_t b) {
    int saved = errno;
    int32_t m[3] = {what, a, b};
    char c = 0;
    long r;
    while ((r = syscall(SYS_write, gate_out, m, sizeof m)) < 0 && errno == EINTR) ;
    if (r != sizeof m) syscall(SYS_exit_group, 121);
    while ((r = syscall(SYS_read, gate_in, &c, 1)) < 0 && errno == EINTR) ;
    if (r != 1) syscall(SYS_exit_group, 121);
    if (c == 'k') crash();
    errno = saved;
}
void sim_gate_fds(int in, int out) { gate_in = in; gate_out = out; }
void sim_gate(int what, int a, int b) { if (gate_in >= 0) gate(what, a, b); }

static int ends(const char *s, const char *suffix) {
    size_t n = strlen(s), k = strlen(suffix);
    return n >= k && !strcmp(s + n - k, suffix);
}

/* the fault for the next operation of this kind on this file (or these two), or NULL; counts the operation */
static fault_t *pick2(int kind, int name, int name2) {
    if (gate_in >= 0) gate('g', kind, 0);
    int64_t g = total++, k = kindcount[kind]++;
    fault_t *hit = NULL;
    for (int i = 0; i < nfaults; i++) {
        fault_t *f = &faults[i];
        int64_t x = f->kind == 0 ? g : f->kind == kind ? k : -1;
        if (x < 0) continue;
        if (f->suffix[0]) {         /* counts only the calls on one file */
            if (!(ends(names[name], f->suffix) || (name2 >= 0 && ends(names[name2], f->suffix)))) continue;
            x = f->seen++;
        }
        if (x < f->index) continue;
        if (f->count >= 0 && x >= (int64_t)f->index + f->count) continue;
        if (!hit) hit = f;
    }
    if (hit && hit->action == A_SIGNAL) {   /* the user interrupts; the call goes on, or ends with EINTR */
        static fault_t eintr = {0, 0, 0, A_ERR, EINTR, 0, "", 0};
        int saved = errno;
        fired[A_SIGNAL]++;
        raise(SIGINT);
        errno = saved;
        if (!hit->arg || (kind != K_OPEN && kind != K_READ && kind != K_WRITE && kind != K_FSYNC)) return NULL;
        fired[A_ERR]--;
        return &eintr;
    }
    return hit;
}
static fault_t *pick(int kind, int name) { return pick2(kind, name, -1); }

/* ---- control interface ---- */
void sim_start(void) { active = 1; }
void sim_stop(void) { active = 0; }
int sim_active(void) { return active; }
void sim_reset(void) {
    active = 0; nprefix = 0; nops = 0; narena = 0; nfaults = 0; total = 0; readonly_fs = 0; clock_on = 0; nread_clock = 0; capfired = 0; notyet = 0; stat_on = 0;
    memset(fdname, 0, sizeof fdname); memset(kindcount, 0, sizeof kindcount); memset(fired, 0, sizeof fired);
    memset(ncaps, 0, sizeof ncaps); memset(capcount, 0, sizeof capcount);
}
void sim_prefix(const char *p) { if (nprefix < MAXPFX) { strncpy(prefixes[nprefix], p, PATH_MAX - 1); nprefix++; } }
void sim_track_fd(int fd, const char *name) { if (fd >= 0 && fd < MAXFD) fdname[fd] = name_id(name) + 1; }
void sim_fault(int kind, int index, int count, int action, int64_t arg, int64_t arg2) {
    if (nfaults < MAXFAULT) { fault_t f = {kind, index, count, action, arg, arg2, "", 0}; faults[nfaults++] = f; }
}
void sim_fault_file(const char *suffix) { if (nfaults) strncpy(faults[nfaults - 1].suffix, suffix, 255); }
void sim_clear_faults(void) { nfaults = 0; memset(ncaps, 0, sizeof ncaps); readonly_fs = 0; }
void sim_cap(int kind, int v) { if (ncaps[kind] < MAXCAP) caps[kind][ncaps[kind]++] = v; }
void sim_readonly(int on) { readonly_fs = on; }
void sim_clock(int64_t v) { clock_on = 1; if (nclock < 256 && nread_clock == 0) clockvals[nclock++] = v; }
void sim_clock_clear(void) { clock_on = 0; nclock = 0; nread_clock = 0; }
int64_t sim_clock_reads(void) { return nread_clock; }
int64_t sim_nops(void) { return nops; }
int64_t sim_total(void) { return total; }
int64_t sim_kindcount(int k) { return kindcount[k]; }
int64_t sim_fired(int a) { return a == 15 ? capfired : a == 16 ? notyet : fired[a]; }
op_t *sim_ops(void) { return ops; }
char *sim_arena(void) { return arena; }
const char *sim_name(int i) { return i >= 0 && i < nnames ? names[i] : ""; }

/* ---- interposed calls ---- */
static int do_open(int dirfd, const char *path, int flags, int mode) {
    char buf[PATH_MAX];
    const char *ap;
    if (!active || !tracked_path(ap = abspath(dirfd, path, buf)) || (flags & O_PATH))
        return syscall(SYS_openat, dirfd, path, flags, mode);
    int name = name_id(ap);
    fault_t *f = pick(K_OPEN, name);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    struct stat st;
    int existed = syscall(SYS_newfstatat, AT_FDCWD, ap, &st, 0) == 0;
    op_t *o = newop(K_OPEN, -1, name);
    o->req = flags; o->len = existed ? st.st_size : -1;
    int err = 0;
    if (f) {
        fired[f->action]++; o->fault = f->action;
        if (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH) crash();
        if (f->action == A_ERR || f->action == A_TORN_ERR) err = f->arg;
    }
    if (!err && wr && readonly_fs && strcmp(ap, "/dev/null")) { err = EROFS; fired[0]++; }
    if (err) { o->ret = -1; o->err = err; errno = err; return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    o->ret = fd; o->err = fd < 0 ? e : 0;
    if (fd >= 0 && fd < MAXFD) { fdname[fd] = name + 1; o->fd = fd; o->ino = ino_of(fd); }
    if (f && f->action == A_CRASH_AFTER) crash();
    errno = e;
    return fd;
}
#define MODE(flags) int mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t apply_cap(int kind, size_t *n) {
    if (!ncaps[kind]) return 0;
    int32_t c = caps[kind][capcount[kind]++ % ncaps[kind]];
    if (c == -2) return -2;
    if (c < 0) { capfired++; return -1; }
    if (c > 0 && (size_t)c < *n) { *n = c; capfired++; }
    return 0;
}

static ssize_t do_read(int fd, void *buf, size_t n, int64_t off) {
    if (!tracked_fd(fd))
        return off < 0 ? syscall(SYS_read, fd, buf, n) : syscall(SYS_pread64, fd, buf, n, off);
    fault_t *f = pick(K_READ, fdname[fd] - 1);
    op_t *o = newop(K_READ, fd, fdname[fd] - 1);
    int64_t oi = nops - 1;
    o->req = n;
    if (f) {
        fired[f->action]++; o->fault = f->action;
        switch (f->action) {
        case A_CRASH_BEFORE: case A_TORN_CRASH: crash();
        case A_ERR: case A_TORN_ERR: o->ret = -1; o->err = f->arg; errno = f->arg; return -1;
        case A_SHORT: if ((size_t)f->arg < n) n = f->arg > 0 ? f->arg : 1; break;
        }
    } else {
        ssize_t c = apply_cap(K_READ, &n);
        if (c == -1) { o->ret = -1; o->err = EINTR; errno = EINTR; return -1; }
        if (c == -2) {      /* there is nothing to read yet: a file descriptor that does not block says so */
            int fl = fcntl(fd, F_GETFL);
            if (fl >= 0 && fl & O_NONBLOCK) { notyet++; o->ret = -1; o->err = EAGAIN; errno = EAGAIN; return -1; }
        }
    }
    ssize_t r = off < 0 ? syscall(SYS_read, fd, buf, n) : syscall(SYS_pread64, fd, buf, n, off);
    int e = errno;
    o = &ops[oi];
    o->ret = r; o->err = r < 0 ? e : 0;
    if (f && f->action == A_CRASH_AFTER) crash();
    errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t m) { return do_read(fd, b, n, -1); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!tracked_fd(fd)) return syscall(SYS_readv, fd, v, c);
    return c ? do_read(fd, v[0].iov_base, v[0].iov_len, -1) : 0;
}

static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off) {
    if (!tracked_fd(fd))
        return off < 0 ? syscall(SYS_write, fd, buf, n) : syscall(SYS_pwrite64, fd, buf, n, off);
    fault_t *f = pick(K_WRITE, fdname[fd] - 1);
    op_t *o = newop(K_WRITE, fd, fdname[fd] - 1);
    int64_t oi = nops - 1;
    int saved = errno;
    o->req = n;
    int64_t at = off;
    if (off < 0) {
        int fl = fcntl(fd, F_GETFL);
        at = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        if (fl >= 0 && (fl & O_APPEND)) { struct stat st; if (!raw_fstat(fd, &st)) at = st.st_size; }
    }
    o->off = at; o->ino = ino_of(fd);
    errno = saved;
    int torn = 0, torn_err = 0;
    if (f) {
        fired[f->action]++; o->fault = f->action;
        switch (f->action) {
        case A_CRASH_BEFORE: crash();
        case A_ERR: o->ret = -1; o->err = f->arg; errno = f->arg; return -1;
        case A_SHORT: if ((size_t)f->arg < n) n = f->arg > 0 ? f->arg : 1; break;
        case A_TORN_CRASH: torn = 1; n = n * (size_t)(f->arg & 255) / 256; break;
        case A_TORN_ERR: torn_err = f->arg; n = n * (size_t)(f->arg2 & 255) / 256; break;
        }
    } else if (apply_cap(K_WRITE, &n) < 0) { o->ret = -1; o->err = EINTR; errno = EINTR; return -1; }
    ssize_t r = 0;
    if (n || !(torn || torn_err))
        r = off < 0 ? syscall(SYS_write, fd, buf, n) : syscall(SYS_pwrite64, fd, buf, n, off);
    int e = errno;
    o = &ops[oi];
    o->ret = r; o->err = r < 0 ? e : 0;
    if (r > 0) {
        arena = grow(arena, narena + r, &caparena, 1);
        memcpy(arena + narena, buf, r);
        o->data = narena; o->len = r; narena += r;
    }
    if (torn || (f && f->action == A_CRASH_AFTER)) crash();
    if (torn_err && r <= 0) { o->ret = -1; o->err = torn_err; errno = torn_err; return -1; }
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!tracked_fd(fd)) return syscall(SYS_writev, fd, v, c);
    return c ? do_write(fd, v[0].iov_base, v[0].iov_len, -1) : 0;
}
static ssize_t nocopy(int a, int b) { errno = EINVAL; return -1; }
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    return tracked_fd(o) || tracked_fd(i) ? nocopy(o, i) : syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) {
    return tracked_fd(o) || tracked_fd(i) ? nocopy(o, i) : syscall(SYS_sendfile, o, i, off, n);
}
ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned fl) {
    return tracked_fd(o) || tracked_fd(i) ? nocopy(o, i) : syscall(SYS_copy_file_range, i, io, o, oo, n, fl);
}

/* a call that either fails as a whole or happens as a whole; returns 1 when it must not be made */
static int simple_before(fault_t *f, op_t *o) {
    if (!f) return 0;
    fired[f->action]++; o->fault = f->action;
    if (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH) crash();
    if (f->action == A_ERR || f->action == A_TORN_ERR) { o->ret = -1; o->err = f->arg; errno = f->arg; return 1; }
    return 0;
}
static void simple_after(fault_t *f) { if (f && f->action == A_CRASH_AFTER) { crash(); } }

int close(int fd) {
    if (!tracked_fd(fd)) { if (fd >= 0 && fd < MAXFD) fdname[fd] = 0; return syscall(SYS_close, fd); }
    fault_t *f = pick(K_CLOSE, fdname[fd] - 1);
    op_t *o = newop(K_CLOSE, fd, fdname[fd] - 1);
    fdname[fd] = 0;
    int bad = 0;
    if (f) {
        fired[f->action]++; o->fault = f->action;
        if (f->action == A_CRASH_BEFORE || f->action == A_TORN_CRASH) crash();
        if (f->action == A_ERR || f->action == A_TORN_ERR) bad = f->arg;
    }
    int r = syscall(SYS_close, fd), e = errno;   /* like Linux, the descriptor is gone in any case */
    simple_after(f);
    if (bad && bad != EINTR) { o->ret = -1; o->err = bad; errno = bad; return -1; }
    o->ret = r; errno = e;
    return r;
}

static int do_sync(int fd, long nr) {
    if (!tracked_fd(fd)) return syscall(nr, fd);
    fault_t *f = pick(K_FSYNC, fdname[fd] - 1);
    op_t *o = newop(K_FSYNC, fd, fdname[fd] - 1);
    o->ino = ino_of(fd);
    if (simple_before(f, o)) return -1;
    o->ret = 0;      /* the simulated disk is the log: nothing to wait for */
    simple_after(f);
    return 0;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
    char b1[PATH_MAX], b2[PATH_MAX];
    if (active) {
        const char *x = abspath(d1, a, b1), *y = abspath(d2, b, b2);
        if (tracked_path(x) || tracked_path(y)) {
            int n1 = name_id(x), n2 = name_id(y);
            fault_t *f = pick2(K_RENAME, n1, n2);
            op_t *o = newop(K_RENAME, -1, n1);
            o->name2 = n2;
            if (simple_before(f, o)) return -1;
            if (readonly_fs) { fired[0]++; o->ret = -1; o->err = errno = EROFS; return -1; }
            int r = syscall(SYS_renameat2, d1, a, d2, b, fl), e = errno;
            o->ret = r; o->err = r ? e : 0;
            simple_after(f);
            errno = e;
            return r;
        }
    }
    return syscall(SYS_renameat2, d1, a, d2, b, fl);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return do_rename(d1, a, d2, b, fl); }

static int do_unlink(int d, const char *p, int fl) {
    char buf[PATH_MAX];
    if (active) {
        const char *ap = abspath(d, p, buf);
        if (tracked_path(ap)) {
            fault_t *f = pick(K_UNLINK, name_id(ap));
            op_t *o = newop(K_UNLINK, -1, name_id(ap));
            if (simple_before(f, o)) return -1;
            if (readonly_fs) { fired[0]++; o->ret = -1; o->err = errno = EROFS; return -1; }
            int r = syscall(SYS_unlinkat, d, p, fl), e = errno;
            o->ret = r; o->err = r ? e : 0;
            simple_after(f);
            errno = e;
            return r;
        }
    }
    return syscall(SYS_unlinkat, d, p, fl);
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int remove(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }

static int do_link(int d1, const char *a, int d2, const char *b, int fl, int sym) {
    char b2[PATH_MAX], b1[PATH_MAX];
    if (active) {
        const char *y = abspath(d2, b, b2);
        if (tracked_path(y)) {
            int n1 = name_id(sym ? a : abspath(d1, a, b1)), n2 = name_id(y);
            fault_t *f = pick2(K_LINK, n1, n2);
            op_t *o = newop(K_LINK, -1, n1);
            o->name2 = n2; o->req = sym;
            if (simple_before(f, o)) return -1;
            if (readonly_fs) { fired[0]++; o->ret = -1; o->err = errno = EROFS; return -1; }
            int r = sym ? syscall(SYS_symlinkat, a, d2, b) : syscall(SYS_linkat, d1, a, d2, b, fl), e = errno;
            o->ret = r; o->err = r ? e : 0;
            simple_after(f);
            errno = e;
            return r;
        }
    }
    return sym ? syscall(SYS_symlinkat, a, d2, b) : syscall(SYS_linkat, d1, a, d2, b, fl);
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return do_link(d1, a, d2, b, fl, 0); }
int symlink(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0, 1); }
int symlinkat(const char *a, int d, const char *b) { return do_link(AT_FDCWD, a, d, b, 0, 1); }

int ftruncate(int fd, off_t len) {
    if (!tracked_fd(fd)) return syscall(SYS_ftruncate, fd, len);
    fault_t *f = pick(K_TRUNC, fdname[fd] - 1);
    op_t *o = newop(K_TRUNC, fd, fdname[fd] - 1);
    o->off = len; o->ino = ino_of(fd);
    if (simple_before(f, o)) return -1;
    int r = syscall(SYS_ftruncate, fd, len), e = errno;
    o->ret = r; o->err = r ? e : 0;
    simple_after(f);
    errno = e;
    return r;
}
int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }

static int meta_path(const char *p, const char *what) {   /* returns 1 when the call must fail */
    char buf[PATH_MAX];
    if (!active) return 0;
    const char *ap = abspath(AT_FDCWD, p, buf);
    if (!tracked_path(ap)) return 0;
    fault_t *f = pick(K_META, name_id(ap));
    op_t *o = newop(K_META, -1, name_id(ap));
    o->name2 = name_id(what);
    if (simple_before(f, o)) return 1;
    if (readonly_fs) { fired[0]++; o->ret = -1; o->err = errno = EROFS; return 1; }
    return 0;
}
int truncate(const char *p, off_t len) { return meta_path(p, "truncate") ? -1 : syscall(SYS_truncate, p, len); }
int truncate64(const char *p, off_t len) { return truncate(p, len); }
int mkdir(const char *p, mode_t m) { return meta_path(p, "mkdir") ? -1 : syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int chmod(const char *p, mode_t m) { return meta_path(p, "chmod") ? -1 : syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int fchmodat(int d, const char *p, mode_t m, int fl) {
    return meta_path(p, "chmod") ? -1 : syscall(SYS_fchmodat, d, p, m);
}
int utimensat(int d, const char *p, const struct timespec t[2], int fl) {
    if (p && meta_path(p, "utime")) return -1;
    return syscall(SYS_utimensat, d, p, t, fl);
}

static void *do_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    if (!(active && !(flags & MAP_ANONYMOUS) && tracked_fd(fd)))
        return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
    fault_t *f = pick(K_MMAP, fdname[fd] - 1);
    op_t *o = newop(K_MMAP, fd, fdname[fd] - 1);
    o->req = prot; o->off = flags; o->len = n;
    if (simple_before(f, o)) return MAP_FAILED;
    void *r = (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
    simple_after(f);
    return r;
}
void *mmap(void *a, size_t n, int p, int fl, int fd, off_t o) { return do_mmap(a, n, p, fl, fd, o); }
void *mmap64(void *a, size_t n, int p, int fl, int fd, off_t o) { return do_mmap(a, n, p, fl, fd, o); }

/* ---- looking at files ---- */
static int do_stat(int d, const char *p, struct stat *st, int fl) {
    if (active && stat_on) {
        char buf[PATH_MAX];
        fault_t *f = NULL;
        op_t *o = NULL;
        if (fl & AT_EMPTY_PATH) {
            if (tracked_fd(d)) { f = pick(K_STAT, fdname[d] - 1); o = newop(K_STAT, d, fdname[d] - 1); }
        } else {
            const char *ap = abspath(d, p, buf);
            if (tracked_path(ap)) { f = pick(K_STAT, name_id(ap)); o = newop(K_STAT, -1, name_id(ap)); }
        }
        if (o && simple_before(f, o)) return -1;
    }
    return syscall(SYS_newfstatat, d, p, st, fl);
}
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat *st) { return do_stat(fd, "", st, AT_EMPTY_PATH); }
int fstatat(int d, const char *p, struct stat *st, int fl) { return do_stat(d, p, st, fl); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstat64(int fd, struct stat64 *st) { return do_stat(fd, "", (struct stat *)st, AT_EMPTY_PATH); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return do_stat(d, p, (struct stat *)st, fl); }

/* ---- file locks: a process that waits gives the baton away ---- */
int flock(int fd, int op) {
    if (gate_in < 0 || (op & (LOCK_NB | LOCK_UN))) return syscall(SYS_flock, fd, op);
    for (;;) {
        gate('g', K_META, 1);
        if (!syscall(SYS_flock, fd, op | LOCK_NB)) return 0;
        if (errno != EWOULDBLOCK && errno != EINTR) return -1;
        gate('b', 0, 0);
    }
}
static int do_fcntl(int fd, int cmd, void *arg) {
    if (gate_in >= 0 && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) {
        for (;;) {
            gate('g', K_META, 1);
            if (!syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg)) return 0;
            if (errno != EAGAIN && errno != EACCES && errno != EINTR) return -1;
            gate('b', 0, 0);
        }
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *x = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *x = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, x); }

/* ---- randomness ---- */
static uint64_t rnd; static int rnd_on;
void sim_random(int64_t seed) { rnd_on = seed >= 0; rnd = (uint64_t)seed * 2654435761u + 88172645463325252ull; }
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (!rnd_on) return syscall(SYS_getrandom, buf, n, fl);
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; p[i] = rnd >> 24; }
    return n;
}

/* ---- clock ---- */
static int64_t simclock(void) {
    int64_t i = nread_clock++;
    if (!nclock) return 0;
    return clockvals[i < nclock ? i : nclock - 1];
}
/* wild clocks: every reading moves on by anything from nothing to days; the time of day also jumps back */
static uint64_t wild_rng; static int64_t wild_real, wild_mono, wild_n, wild_gone;
static uint64_t wild_next(void) {
    wild_rng = wild_rng * 6364136223846793005ULL + 1442695040888963407ULL;
    return wild_rng >> 33;
}
void sim_wild(int64_t seed) {
    wild_rng = (uint64_t)seed; wild_n = wild_gone = 0; wild_real = 1700000000LL * 1000000000LL; wild_mono = 5000LL * 1000000000LL;
}
int64_t sim_wild_reads(void) { return wild_n; }
int64_t sim_wild_seconds(void) { return wild_gone / 1000000000; }
static int64_t wild_clock(int real) {
    int64_t k = wild_next() % 100, d = wild_next() % 1000000;
    int back = real && wild_next() % 2;
    wild_n++;
    if (k >= 95) d = (int64_t)(wild_next() % 800000) * 1000000000LL * (back ? -1 : 1);
    else if (k >= 75) d = (int64_t)(wild_next() % 20000) * 1000000LL;
    wild_gone += d > 0 ? d : 0;
    if (real) return wild_real = wild_real + d < 0 ? 0 : wild_real + d;
    return wild_mono += d;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (wild_rng) {
        int64_t v = wild_clock(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE);
        ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
        return 0;
    }
    if (active && clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t v = simclock();
        int64_t s = v / 1000000000, ns = v % 1000000000;
        if (ns < 0) { ns += 1000000000; s--; }
        ts->tv_sec = s; ts->tv_nsec = ns;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    int r = clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return r;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
