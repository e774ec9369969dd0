/* Preloaded into the fajt executable: decides, as FAJT_SIM says, what every system call on its
 * source file, standard output and standard error, and every allocation meets, and reports what
 * was delivered and what fired through the descriptor the script names.
 *
 * Build: gcc -O2 -shared -fPIC -U_FORTIFY_SOURCE -fno-builtin -fno-delete-null-pointer-checks \
 *     -o shim.so shim.c */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXN 64

struct stream {
    long nchunks, chunks[MAXN];
    long nintr, intr_at[MAXN], intr_n[MAXN];
    long fail_at, fail_errno, fail_once; /* fail_at < 0: never; errno 0: moves nothing */
    long calls, moved, failed;
};

static struct {
    int on;
    int report;
    const char *path;
    long open_intr, open_errno;
    long stat_errno, seek_errno, size_lie;
    struct stream in, out, err;
    long nflips, flip_at[MAXN], flip_x[MAXN];
    long cut;
    long malloc_at, malloc_more;
    long kill_at, kill_late;
    /* state */
    int fd;
    long calls, mallocs;
} S;

/* Report record: kind byte, length (4 bytes), data. */
static void report(char kind, const void *data, uint32_t n)
{
    char head[5];
    head[0] = kind;
    memcpy(head + 1, &n, 4);
    struct iovec v[2] = {{head, 5}, {(void *)data, n}};
    syscall(SYS_writev, S.report, v, 2);
}

static void delivered(int64_t at, const void *data, uint32_t n)
{
    char head[13];
    uint32_t all = n + 8;
    head[0] = 'D';
    memcpy(head + 1, &all, 4);
    memcpy(head + 5, &at, 8);
    struct iovec v[2] = {{head, 13}, {(void *)data, n}};
    syscall(SYS_writev, S.report, v, 2);
}

static void fired(const char *what) { report('F', what, strlen(what)); }

static long num(char **p)
{
    return strtol(*p, p, 10);
}

static void stream_of(struct stream *s, char **p)
{
    s->nchunks = num(p);
    for (int i = 0; i < s->nchunks && i < MAXN; i++) s->chunks[i] = num(p);
    s->nintr = num(p);
    for (int i = 0; i < s->nintr && i < MAXN; i++) {
        s->intr_at[i] = num(p);
        s->intr_n[i] = num(p);
    }
    s->fail_at = num(p);
    s->fail_errno = num(p);
    s->fail_once = num(p);
}

__attribute__((constructor)) static void init(void)
{
    char *p = getenv("FAJT_SIM");
    S.path = getenv("FAJT_SIM_FILE");
    S.fd = -1;
    if (!p || !S.path) return;
    S.report = num(&p);
    S.open_intr = num(&p);
    S.open_errno = num(&p);
    S.stat_errno = num(&p);
    S.seek_errno = num(&p);
    S.size_lie = num(&p);
    stream_of(&S.in, &p);
    stream_of(&S.out, &p);
    stream_of(&S.err, &p);
    S.nflips = num(&p);
    for (int i = 0; i < S.nflips && i < MAXN; i++) {
        S.flip_at[i] = num(&p);
        S.flip_x[i] = num(&p);
    }
    S.cut = num(&p);
    S.malloc_at = num(&p);
    S.malloc_more = num(&p);
    S.kill_at = num(&p);
    S.kill_late = num(&p);
    S.on = 1;
}

__attribute__((destructor)) static void finish(void)
{
    if (!S.on) return;
    int64_t n[2] = {S.calls, S.mallocs};
    report('Z', n, sizeof n);
    S.on = 0;
}

static void die(void)
{
    fired("kill");
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}

/* A simulated call begins. */
static void begin(void)
{
    if (S.calls == S.kill_at && !S.kill_late) die();
}

static void end(void)
{
    if (S.calls == S.kill_at && S.kill_late) die();
    S.calls++;
}

/* How much of `want` may pass; -1 with errno set. */
static ssize_t gate(struct stream *s, size_t want, const char *intr, const char *shrt, const char *fail)
{
    for (int i = 0; i < s->nintr; i++)
        if (s->intr_at[i] == s->calls && s->intr_n[i] > 0) {
            s->intr_n[i]--;
            fired(intr);
            errno = EINTR;
            return -1;
        }
    size_t n = want;
    if (s->nchunks > 0) {
        size_t c = s->chunks[s->calls % s->nchunks];
        if (c < n) n = c;
    }
    s->calls++;
    if (s->fail_at >= 0 && !(s->fail_once && s->failed)) {
        if (s->moved >= s->fail_at && want > 0) {
            s->failed++;
            fired(fail);
            if (s->fail_errno == 0) return 0;
            errno = s->fail_errno;
            return -1;
        }
        if (n > (size_t)(s->fail_at - s->moved)) n = s->fail_at - s->moved;
    }
    if (n < want) fired(shrt);
    return n;
}

static int is_target(const char *path) { return S.on && path && strcmp(path, S.path) == 0; }

static int do_open(int dir, const char *path, int flags, int mode)
{
    if (!is_target(path)) return syscall(SYS_openat, dir, path, flags, mode);
    begin();
    if (S.open_intr > 0) {
        S.open_intr--;
        fired("open-interrupted");
        end();
        errno = EINTR;
        return -1;
    }
    if (S.open_errno) {
        fired("open-failed");
        end();
        errno = S.open_errno;
        return -1;
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0) {
        S.fd = fd;
        /* A fresh look at the file starts from its beginning. */
        report('O', "", 0);
        S.in.moved = 0;
    }
    end();
    return fd;
}

int open(const char *path, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    return do_open(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    return do_open(AT_FDCWD, path, flags, mode);
}
int openat(int dir, const char *path, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    return do_open(dir, path, flags, mode);
}
int openat64(int dir, const char *path, int flags, ...)
{
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    return do_open(dir, path, flags, mode);
}

int close(int fd)
{
    if (S.on && fd == S.fd) S.fd = -1;
    return syscall(SYS_close, fd);
}

int statx(int dir, const char *path, int flags, unsigned mask, struct statx *b)
{
    const char *volatile asked = path; /* std asks with a null path, declared nonnull */
    path = asked;
    int target = S.on && ((path && is_target(path)) || (dir >= 0 && dir == S.fd));
    if (target) {
        begin();
        if (S.stat_errno) {
            fired("stat-failed");
            end();
            errno = S.stat_errno;
            return -1;
        }
    }
    int r = syscall(SYS_statx, dir, path, flags, mask, b);
    if (target) {
        if (r == 0 && S.size_lie) {
            long n = (long)b->stx_size + S.size_lie;
            b->stx_size = n < 0 ? 0 : n;
            fired("size-lie");
        }
        end();
    }
    return r;
}

int fstat(int fd, struct stat *b)
{
    if (S.on && fd == S.fd && S.stat_errno) {
        begin();
        fired("stat-failed");
        end();
        errno = S.stat_errno;
        return -1;
    }
    int r = syscall(SYS_fstat, fd, b);
    if (S.on && fd == S.fd && r == 0 && S.size_lie) {
        begin();
        long n = (long)b->st_size + S.size_lie;
        b->st_size = n < 0 ? 0 : n;
        fired("size-lie");
        end();
    }
    return r;
}
int fstat64(int fd, struct stat64 *b) { return fstat(fd, (struct stat *)b); }

static off_t do_seek(int fd, off_t at, int how)
{
    if (S.on && fd == S.fd) {
        begin();
        if (S.seek_errno) {
            fired("seek-failed");
            end();
            errno = S.seek_errno;
            return -1;
        }
        end();
    }
    return syscall(SYS_lseek, fd, at, how);
}
off_t lseek(int fd, off_t at, int how) { return do_seek(fd, at, how); }
off64_t lseek64(int fd, off64_t at, int how) { return do_seek(fd, at, how); }

static ssize_t do_read(int fd, char *buf, size_t n, int has_at, off_t at)
{
    if (!S.on || fd != S.fd)
        return has_at ? syscall(SYS_pread64, fd, buf, n, at) : syscall(SYS_read, fd, buf, n);
    begin();
    if (!has_at) at = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    if (S.cut >= 0) {
        if (at >= S.cut) {
            fired("truncated");
            report('E', "", 0);
            end();
            return 0;
        }
        if (n > (size_t)(S.cut - at)) n = S.cut - at;
    }
    ssize_t m = gate(&S.in, n, "read-interrupted", "read-short", "read-failed");
    if (m < 0 || (m == 0 && n > 0)) {
        if (m == 0) report('E', "", 0);
        end();
        return m;
    }
    m = has_at ? syscall(SYS_pread64, fd, buf, m, at) : syscall(SYS_read, fd, buf, m);
    if (m > 0) {
        for (int i = 0; i < S.nflips; i++)
            if (S.flip_at[i] >= at && S.flip_at[i] < at + m) {
                buf[S.flip_at[i] - at] ^= (char)S.flip_x[i];
                fired("byte-flipped");
            }
        S.in.moved += m;
        delivered(at, buf, m);
    } else if (m == 0 && n > 0)
        report('E', "", 0);
    end();
    return m;
}

ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, 0, 0); }
ssize_t pread(int fd, void *buf, size_t n, off_t at) { return do_read(fd, buf, n, 1, at); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t at) { return do_read(fd, buf, n, 1, at); }

static ssize_t do_write(int fd, const void *buf, size_t n)
{
    if (!S.on || (fd != 1 && fd != 2)) return syscall(SYS_write, fd, buf, n);
    struct stream *s = fd == 1 ? &S.out : &S.err;
    begin();
    ssize_t m = fd == 1 ? gate(s, n, "stdout-interrupted", "stdout-short", "stdout-failed")
                        : gate(s, n, "stderr-interrupted", "stderr-short", "stderr-failed");
    if (m > 0) {
        m = syscall(SYS_write, fd, buf, m);
        if (m > 0) s->moved += m;
    }
    end();
    return m;
}

ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n); }

ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (!S.on || (fd != 1 && fd != 2)) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len > 0) return do_write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

/* Allocations */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

static int refuse(void)
{
    if (!S.on) return 0;
    long n = S.mallocs++;
    if (S.malloc_at >= 0 && n >= S.malloc_at && n - S.malloc_at < S.malloc_more) {
        fired("allocation-failed");
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

void *malloc(size_t n) { return refuse() ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refuse() ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refuse() ? NULL : __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n)
{
    if (refuse()) return ENOMEM;
    *p = __libc_memalign(a, n);
    return *p ? 0 : ENOMEM;
}
void *aligned_alloc(size_t a, size_t n) { return refuse() ? NULL : __libc_memalign(a, n); }

/* Panic messages name the thread: a number that does not change from run to run. */
pid_t gettid(void) { return 1000; }
