/* Simulated directory listings for P15: preloaded into the compiler that runs the fixture macro.
 * Listings of directories under $FAJT_DIRS come in a seeded order, with or without the types of
 * the entries, and opening, reading or looking at an entry fails when $FAJT_DIRS_SCRIPT says so:
 *   seed,unknown,open_fail,open_errno,read_fail,read_errno,stat_fail,stat_errno,report_fd
 * (`*_fail`: number of the call, -1 for none; `unknown`: 0 no type, 1 all, 2 some unknown). */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

struct list {
    DIR *dir;
    struct dirent64 *entries;
    size_t count, next;
    struct list *after;
};

static long script[9] = {0, 0, -1, 0, -1, 0, -1, 0, -1};
static const char *prefix;
static struct list *lists;
static long opens, reads, stats;

__attribute__((constructor)) static void start(void) {
    const char *s = getenv("FAJT_DIRS_SCRIPT");
    prefix = getenv("FAJT_DIRS");
    for (int i = 0; s && *s && i < 9; i++) {
        script[i] = strtol(s, (char **)&s, 10);
        if (*s == ',') s++;
    }
    unsetenv("LD_PRELOAD");
}

static void report(char what) {
    int e = errno;
    if (script[8] >= 0 && write(script[8], &what, 1) < 0) { /* nobody to tell */ }
    errno = e;
}

static uint64_t hash(const char *s) {
    uint64_t h = (uint64_t)script[0] * 0x9e3779b97f4a7c15u + 1469598103934665603u;
    for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211u;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9u;
    return h ^ h >> 32;
}

static int order(const void *a, const void *b) {
    const struct dirent64 *x = a, *y = b;
    if (script[0] == 0) return strcmp(x->d_name, y->d_name);
    uint64_t p = hash(x->d_name), q = hash(y->d_name);
    return p < q ? -1 : p > q ? 1 : strcmp(x->d_name, y->d_name);
}

static int inside(const char *path) {
    return prefix && path && strncmp(path, prefix, strlen(prefix)) == 0;
}

DIR *opendir(const char *path) {
    static DIR *(*real)(const char *);
    static struct dirent64 *(*real_read)(DIR *);
    if (!real) real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    if (!real_read) real_read = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    if (!inside(path)) return real(path);
    if (opens++ == script[2]) {
        errno = (int)script[3];
        report('O');
        return NULL;
    }
    DIR *dir = real(path);
    if (!dir) return NULL;
    struct list *l = calloc(1, sizeof *l);
    struct dirent64 *e;
    size_t room = 0;
    while ((e = real_read(dir))) {
        if (l->count == room) {
            room = room ? room * 2 : 16;
            l->entries = realloc(l->entries, room * sizeof *l->entries);
        }
        memset(&l->entries[l->count], 0, sizeof *e);
        l->entries[l->count].d_ino = e->d_ino;
        l->entries[l->count].d_type = e->d_type;
        l->entries[l->count].d_reclen = sizeof *e;
        strcpy(l->entries[l->count].d_name, e->d_name);
        l->count++;
    }
    qsort(l->entries, l->count, sizeof *l->entries, order);
    for (size_t i = 0; i < l->count; i++) {
        l->entries[i].d_off = (long)i + 1;
        if (script[1] == 1 || (script[1] == 2 && hash(l->entries[i].d_name) & 64)) {
            l->entries[i].d_type = DT_UNKNOWN;
            report('U');
        }
    }
    if (script[0]) report('S');
    l->dir = dir;
    l->after = lists;
    lists = l;
    return dir;
}

struct dirent64 *readdir64(DIR *dir) {
    static struct dirent64 *(*real)(DIR *);
    for (struct list *l = lists; l; l = l->after)
        if (l->dir == dir) {
            if (reads++ == script[4]) {
                errno = (int)script[5];
                report('R');
                return NULL;
            }
            return l->next < l->count ? &l->entries[l->next++] : NULL;
        }
    if (!real) real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    return real(dir);
}

/* On this platform both kinds of entry are laid out alike. */
struct dirent *readdir(DIR *dir) { return (struct dirent *)readdir64(dir); }

int closedir(DIR *dir) {
    static int (*real)(DIR *);
    if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    for (struct list **l = &lists; *l; l = &(*l)->after)
        if ((*l)->dir == dir) {
            struct list *gone = *l;
            *l = gone->after;
            free(gone->entries);
            free(gone);
            break;
        }
    return real(dir);
}

/* Looking at an entry by the descriptor of its directory, or by its path. */
static int looked_at(int fd, const char *path) {
    int ours = inside(path);
    for (struct list *l = lists; l && !ours; l = l->after) ours = fd >= 0 && dirfd(l->dir) == fd;
    if (ours && stats++ == script[6]) {
        errno = (int)script[7];
        report('T');
        return 1;
    }
    return 0;
}

int statx(int fd, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf) {
    static int (*real)(int, const char *, int, unsigned, struct statx *);
    if (!real) real = (int (*)(int, const char *, int, unsigned, struct statx *))dlsym(RTLD_NEXT, "statx");
    return looked_at(fd, path) ? -1 : real(fd, path, flags, mask, buf);
}

int fstatat64(int fd, const char *restrict path, struct stat64 *restrict buf, int flags) {
    static int (*real)(int, const char *, struct stat64 *, int);
    if (!real) real = (int (*)(int, const char *, struct stat64 *, int))dlsym(RTLD_NEXT, "fstatat64");
    return looked_at(fd, path) ? -1 : real(fd, path, buf, flags);
}

int lstat64(const char *restrict path, struct stat64 *restrict buf) {
    static int (*real)(const char *, struct stat64 *);
    if (!real) real = (int (*)(const char *, struct stat64 *))dlsym(RTLD_NEXT, "lstat64");
    return looked_at(-1, path) ? -1 : real(path, buf);
}

int stat64(const char *restrict path, struct stat64 *restrict buf) {
    static int (*real)(const char *, struct stat64 *);
    if (!real) real = (int (*)(const char *, struct stat64 *))dlsym(RTLD_NEXT, "stat64");
    return looked_at(-1, path) ? -1 : real(path, buf);
}
