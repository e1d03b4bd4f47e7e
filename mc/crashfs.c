/* Preloaded into the process under test: counts the file-system steps that touch one folder, and makes
   one of them the last (the process ends there, after a chosen part of a write) or makes it fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static int armed, step, target, mode, failure, keepDead;
static long part;
#define MAXLOG 4096
static char names[MAXLOG][12];
static long sizes[MAXLOG];

void crashfs_arm(const char *folder, int at, int how, long bytes, int error) {
    strncpy(prefix, folder, sizeof prefix - 1);
    step = 0; target = at; mode = how; part = bytes; failure = error; armed = 1;
}
int crashfs_disarm(void) { armed = 0; return step; }
const char *crashfs_name(int i) { return names[i]; }
long crashfs_size(int i) { return sizes[i]; }

static int inside(const char *path) {
    char real[PATH_MAX], full[PATH_MAX * 2];
    if (!armed || !path) return 0;
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else { if (!getcwd(real, sizeof real)) return 0; snprintf(full, sizeof full, "%s/%s", real, path); }
    return strncmp(full, prefix, strlen(prefix)) == 0;
}
static int insideFd(int fd) {
    char link[64], path[PATH_MAX];
    if (!armed || fd < 0) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n < 0) return 0;
    path[n] = 0;
    return strncmp(path, prefix, strlen(prefix)) == 0;
}
/* 0: go on; 1: the step must fail with errno set. A crash does not return (mode 0 is before the step). */
static int point(const char *name, long size) {
    int mine = step++;
    if (mine < MAXLOG) { snprintf(names[mine], sizeof names[mine], "%s", name); sizes[mine] = size; }
    if (mine != target) return 0;
    if (mode == 0) _exit(77);
    if (mode == 2) { errno = failure; return 1; }
    return 0;
}
#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

static ssize_t doWrite(ssize_t (*real)(int, const void *, size_t), int fd, const void *buf, size_t n) {
    int mine = step;
    if (!insideFd(fd)) return real(fd, buf, n);
    if (mine == target && mode == 0) {
        names[0][0] = names[0][0];
        size_t k = part < (long)n ? part : n;
        if (k) real(fd, buf, k);
        _exit(77);
    }
    if (mine == target && mode == 3) { step++; size_t k = part < (long)n ? part : n; return real(fd, buf, k ? k : 1); }   /* a short write */
    if (point("write", n)) { if (part > 0 && (size_t)part < n) real(fd, buf, part); errno = failure; return -1; }
    return real(fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return doWrite(real, fd, buf, n); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); if (insideFd(fd) && point("pwrite", n)) return -1; return real(fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off_t); if (insideFd(fd) && point("pwrite", n)) return -1; return real(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, writev, int, const struct iovec *, int); if (insideFd(fd) && point("writev", 0)) return -1; return real(fd, v, c); }
ssize_t sendfile64(int o, int i, off_t *p, size_t n) { REAL(ssize_t, sendfile64, int, int, off_t *, size_t); if (insideFd(o) && point("sendfile", n)) return -1; return real(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); if (insideFd(o) && point("copy", n)) return -1; return real(i, a, o, b, n, f); }

#define WRITES(flags) (((flags) & O_ACCMODE) != O_RDONLY || ((flags) & (O_CREAT | O_TRUNC)))
#define OPENER(name) \
int name(const char *path, int flags, ...) { \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, const char *, int, ...); \
    if (WRITES(flags) && inside(path) && point("open", 0)) return -1; \
    return real(path, flags, m); }
OPENER(open)
OPENER(open64)
#define OPENERAT(name) \
int name(int dir, const char *path, int flags, ...) { \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, int, const char *, int, ...); \
    if (WRITES(flags) && (inside(path) || insideFd(dir)) && point("open", 0)) return -1; \
    return real(dir, path, flags, m); }
OPENERAT(openat)
OPENERAT(openat64)

#define PATH1(name, args, call, path) int name args { static int (*real) args; if (!real) real = dlsym(RTLD_NEXT, #name); if (inside(path) && point(#name, 0)) return -1; return real call; }
#define FD1(name, args, call, fd) int name args { static int (*real) args; if (!real) real = dlsym(RTLD_NEXT, #name); if (insideFd(fd) && point(#name, 0)) return -1; return real call; }
PATH1(unlink, (const char *p), (p), p)
PATH1(unlinkat, (int d, const char *p, int f), (d, p, f), p)
PATH1(remove, (const char *p), (p), p)
PATH1(rmdir, (const char *p), (p), p)
PATH1(mkdir, (const char *p, mode_t m), (p, m), p)
PATH1(rename, (const char *a, const char *b), (a, b), b)
PATH1(renameat, (int x, const char *a, int y, const char *b), (x, a, y, b), b)
PATH1(renameat2, (int x, const char *a, int y, const char *b, unsigned f), (x, a, y, b, f), b)
PATH1(link, (const char *a, const char *b), (a, b), b)
PATH1(linkat, (int x, const char *a, int y, const char *b, int f), (x, a, y, b, f), b)
PATH1(symlink, (const char *a, const char *b), (a, b), b)
PATH1(truncate, (const char *p, off_t n), (p, n), p)
PATH1(truncate64, (const char *p, off64_t n), (p, n), p)
PATH1(chmod, (const char *p, mode_t m), (p, m), p)
FD1(ftruncate, (int fd, off_t n), (fd, n), fd)
FD1(ftruncate64, (int fd, off64_t n), (fd, n), fd)
FD1(fsync, (int fd), (fd), fd)
FD1(fdatasync, (int fd), (fd), fd)
FD1(fchmod, (int fd, mode_t m), (fd, m), fd)
