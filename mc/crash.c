/* Fault injection: ends the process at a chosen file-system operation below a
   chosen directory, a write after a chosen number of bytes.  Also records the
   operations.  Disarmed it passes every call through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed, count, at;
static long bytes;
static char prefix[PATH_MAX];
static size_t plen;
static char rec[1 << 22];
static size_t rlen;

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

void crash_arm(const char *dir, int n, long k)
{
    strncpy(prefix, dir, sizeof prefix - 1);
    plen = strlen(prefix);
    count = 0; rlen = 0; rec[0] = 0;
    at = n; bytes = k; armed = 1;
}
void crash_disarm(void) { armed = 0; }
const char *crash_record(void) { return rec; }

static int inside(const char *path)
{
    char cwd[PATH_MAX];
    if (!armed || !path) return 0;
    if (path[0] == '/') return strncmp(path, prefix, plen) == 0;
    if (!getcwd(cwd, sizeof cwd)) return 0;
    return strncmp(cwd, prefix, plen) == 0;
}
static int fdname(int fd, char *out)
{
    char p[64]; ssize_t n;
    if (!armed || fd < 0) return 0;
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    n = readlink(p, out, PATH_MAX - 1);
    if (n < 0) return 0;
    out[n] = 0;
    return strncmp(out, prefix, plen) == 0;
}
static void note(const char *op, const char *path, long n)
{
    size_t room = sizeof rec - rlen;
    int w = snprintf(rec + rlen, room, "%s\t%s\t%ld\n", op, path, n);
    if (w > 0 && (size_t)w < room) rlen += w;
}
/* 1: die here */
static int due(const char *op, const char *path, long n)
{
    note(op, path, n);
    return count++ == at;
}
#define DIE() _exit(77)

static int mutating(int flags) { return flags & (O_CREAT | O_TRUNC); }

#define OPEN(fn) \
int fn(const char *path, int flags, ...) \
{ \
    mode_t mode = 0; \
    REAL(int, #fn, const char *, int, ...); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    if (mutating(flags) && inside(path) && due("open", path, 0)) DIE(); \
    return real(path, flags, mode); \
}
OPEN(open)
OPEN(open64)
#define OPENAT(fn) \
int fn(int d, const char *path, int flags, ...) \
{ \
    mode_t mode = 0; \
    REAL(int, #fn, int, const char *, int, ...); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    if (mutating(flags) && inside(path) && due("open", path, 0)) DIE(); \
    return real(d, path, flags, mode); \
}
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n)
{
    char name[PATH_MAX];
    REAL(ssize_t, "write", int, const void *, size_t);
    if (fdname(fd, name) && due("write", name, (long)n)) {
        size_t done = 0, want = bytes < (long)n ? (size_t)bytes : n;
        while (done < want) { ssize_t r = real(fd, (const char *)b + done, want - done); if (r <= 0) break; done += r; }
        DIE();
    }
    return real(fd, b, n);
}
#define PWRITE(fn, off) \
ssize_t fn(int fd, const void *b, size_t n, off o) \
{ \
    char name[PATH_MAX]; \
    REAL(ssize_t, #fn, int, const void *, size_t, off); \
    if (fdname(fd, name) && due("write", name, (long)n)) { real(fd, b, bytes < (long)n ? (size_t)bytes : n, o); DIE(); } \
    return real(fd, b, n, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c)
{
    char name[PATH_MAX]; long total = 0; int i;
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    for (i = 0; i < c; i++) total += v[i].iov_len;
    if (fdname(fd, name) && due("write", name, total)) {
        long left = bytes;
        for (i = 0; i < c && left > 0; i++) {
            struct iovec one = v[i];
            if ((long)one.iov_len > left) one.iov_len = left;
            if (real(fd, &one, 1) < 0) break;
            left -= one.iov_len;
        }
        DIE();
    }
    return real(fd, v, c);
}
#define COPY(fn, off) \
ssize_t fn(int out, int in, off *o, size_t n) \
{ \
    char name[PATH_MAX]; \
    REAL(ssize_t, #fn, int, int, off *, size_t); \
    if (fdname(out, name)) { \
        struct stat st; long left = fstat(in, &st) == 0 ? (long)st.st_size - (o ? (long)*o : (long)lseek(in, 0, SEEK_CUR)) : 0; \
        if (left < 0) left = 0; \
        if ((long)n < left) left = n; \
        if (due("write", name, left)) { if (bytes > 0) real(out, in, o, bytes < left ? (size_t)bytes : (size_t)left); DIE(); } \
    } \
    return real(out, in, o, n); \
}
COPY(sendfile, off_t)
COPY(sendfile64, off64_t)
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f)
{
    char name[PATH_MAX];
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (fdname(out, name)) { errno = ENOSYS; return -1; }   /* callers fall back to what is handled above */
    return real(in, oi, out, oo, n, f);
}
#define ONE(fn) \
int fn(const char *p) \
{ \
    REAL(int, #fn, const char *); \
    if (inside(p) && due(#fn, p, 0)) DIE(); \
    return real(p); \
}
ONE(unlink)
ONE(rmdir)
#define TWO(fn) \
int fn(const char *p, const char *q) \
{ \
    REAL(int, #fn, const char *, const char *); \
    if ((inside(p) || inside(q)) && due(#fn, q, 0)) DIE(); \
    return real(p, q); \
}
TWO(rename)
TWO(link)
TWO(symlink)
int renameat(int d, const char *p, int e, const char *q)
{
    REAL(int, "renameat", int, const char *, int, const char *);
    if ((inside(p) || inside(q)) && due("rename", q, 0)) DIE();
    return real(d, p, e, q);
}
int renameat2(int d, const char *p, int e, const char *q, unsigned f)
{
    REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
    if ((inside(p) || inside(q)) && due("rename", q, 0)) DIE();
    return real(d, p, e, q, f);
}
int linkat(int d, const char *p, int e, const char *q, int f)
{
    REAL(int, "linkat", int, const char *, int, const char *, int);
    if ((inside(p) || inside(q)) && due("link", q, 0)) DIE();
    return real(d, p, e, q, f);
}
int unlinkat(int d, const char *p, int f)
{
    REAL(int, "unlinkat", int, const char *, int);
    if (inside(p) && due("unlink", p, 0)) DIE();
    return real(d, p, f);
}
int mkdir(const char *p, mode_t m)
{
    REAL(int, "mkdir", const char *, mode_t);
    if (inside(p) && due("mkdir", p, 0)) DIE();
    return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m)
{
    REAL(int, "mkdirat", int, const char *, mode_t);
    if (inside(p) && due("mkdir", p, 0)) DIE();
    return real(d, p, m);
}
#define TRUNC(fn, off) \
int fn(const char *p, off n) \
{ \
    REAL(int, #fn, const char *, off); \
    if (inside(p) && due("truncate", p, 0)) DIE(); \
    return real(p, n); \
}
TRUNC(truncate, off_t)
TRUNC(truncate64, off64_t)
#define FTRUNC(fn, off) \
int fn(int fd, off n) \
{ \
    char name[PATH_MAX]; \
    REAL(int, #fn, int, off); \
    if (fdname(fd, name) && due("truncate", name, 0)) DIE(); \
    return real(fd, n); \
}
FTRUNC(ftruncate, off_t)
FTRUNC(ftruncate64, off64_t)
