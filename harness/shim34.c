// Preloaded into the benchmark generator: records every file it changes, controls time and random numbers, injects write failures.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
static int logfd = -2;
static char tracked[1024];
static int count_open, count_write, count_close, count_unlink;
static void logf_(const char *op, const char *path) {
    if (logfd == -2) { const char *p = getenv("SHIM_LOG"); logfd = p ? (int)(long)((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"))(p, O_WRONLY | O_APPEND | O_CREAT, 0644) : -1; }
    if (logfd < 0) return;
    char b[PATH_MAX + 64], c[PATH_MAX] = "";
    if (path[0] != '/' && !getcwd(c, sizeof c)) c[0] = 0;
    int n = snprintf(b, sizeof b, "%s\t%s%s%s\n", op, c, c[0] ? "/" : "", path);
    ((ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(logfd, b, n);
}
// "open:12" fails the 12th opening for writing, and so on; "write:0" makes every write short
static int fault(const char *kind, int n) {
    const char *f = getenv("SHIM_FAULT");
    size_t k = strlen(kind);
    if (!f || strncmp(f, kind, k) || f[k] != ':') return 0;
    if (atoi(f + k + 1) != n) return 0;
    logf_("fault", f);
    return 1;
}
// changes outside the scratch directory of the run are recorded and refused
static int outside(int d, const char *path) {
    const char *root = getenv("SHIM_ROOT");
    char b[2 * PATH_MAX], l[64], r[PATH_MAX];
    int e = errno;
    if (!root) return 0;
    if (path[0] == '/') snprintf(b, sizeof b, "%s", path);
    else {
        char c[PATH_MAX] = "";
        if (d == AT_FDCWD) { if (!getcwd(c, sizeof c)) c[0] = 0; }
        else { snprintf(l, sizeof l, "/proc/self/fd/%d", d); ssize_t n = readlink(l, c, sizeof c - 1); c[n > 0 ? n : 0] = 0; }
        snprintf(b, sizeof b, "%s/%s", c, path);
    }
    for (;;) {                     // the nearest part that exists
        if (realpath(b, r)) break;
        char *s = strrchr(b, '/');
        if (!s || s == b) { strcpy(r, "/"); break; }
        *s = 0;
    }
    errno = e;
    if (!strncmp(r, "/dev/", 5) || !strncmp(r, "/proc/", 6)) return 0;
    size_t n = strlen(root);
    if (!strncmp(r, root, n) && (r[n] == 0 || r[n] == '/')) return 0;
    logf_("outside", path);
    return 1;
}
#define REFUSE(d, p, bad) if (outside(d, p)) { errno = EACCES; return bad; }
time_t time(time_t *t) { const char *s = getenv("SHIM_TIME"); time_t v; if (s) v = atoll(s); else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }
int rand(void) {
    static unsigned long k; const char *m = getenv("SHIM_RAND"); ++k;
    if (m) switch (m[0]) { case '0': return 0; case 'M': return RAND_MAX; case 'c': return (int)(k & RAND_MAX); case 'a': return k & 1 ? RAND_MAX : 0; }
    return ((int (*)(void))dlsym(RTLD_NEXT, "rand"))();
}
static int opened(int fd, const char *path) { (void)path; if (fd >= 0 && fd < 1024) tracked[fd] = 1; return fd; }
FILE *fopen(const char *path, const char *mode) {
    static FILE *(*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "fopen");
    int w = strpbrk(mode, "wa+") != 0;
    if (w) { logf_("write", path); REFUSE(AT_FDCWD, path, 0) if (fault("open", ++count_open)) { errno = EACCES; return 0; } }
    FILE *f = real(path, mode);
    if (f && w) opened(fileno(f), path);
    return f;
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
#define OPENBODY(dir, callit) \
    int w = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); \
    mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
    if (w) { logf_("write", path); REFUSE(dir, path, -1) if (fault("open", ++count_open)) { errno = EACCES; return -1; } } \
    int fd = callit; if (w) opened(fd, path); return fd;
int open(const char *path, int fl, ...) { static int (*real)(const char *, int, ...); if (!real) real = dlsym(RTLD_NEXT, "open"); OPENBODY(AT_FDCWD, real(path, fl, m)) }
int open64(const char *path, int fl, ...) { static int (*real)(const char *, int, ...); if (!real) real = dlsym(RTLD_NEXT, "open64"); OPENBODY(AT_FDCWD, real(path, fl, m)) }
int openat(int d, const char *path, int fl, ...) { static int (*real)(int, const char *, int, ...); if (!real) real = dlsym(RTLD_NEXT, "openat"); OPENBODY(d, real(d, path, fl, m)) }
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t); if (!real) real = dlsym(RTLD_NEXT, "write");
    if (fd >= 0 && fd < 1024 && tracked[fd]) {
        ++count_write;
        if (fault("write", count_write)) { errno = ENOSPC; return -1; }
        if (fault("eintr", count_write)) { errno = EINTR; return -1; }
        const char *f = getenv("SHIM_FAULT");
        if (f && !strncmp(f, "short:", 6) && n > 1) n = (n + 1) / 2;
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    static ssize_t (*real)(int, const struct iovec *, int); if (!real) real = dlsym(RTLD_NEXT, "writev");
    if (fd >= 0 && fd < 1024 && tracked[fd]) {
        ++count_write;
        if (fault("write", count_write)) { errno = ENOSPC; return -1; }
        if (fault("eintr", count_write)) { errno = EINTR; return -1; }
        const char *f = getenv("SHIM_FAULT");
        if (f && !strncmp(f, "short:", 6)) return write(fd, v[0].iov_base, v[0].iov_len ? v[0].iov_len : 0);
    }
    return real(fd, v, n);
}
int fclose(FILE *f) {
    static int (*real)(FILE *); if (!real) real = dlsym(RTLD_NEXT, "fclose");
    int fd = fileno(f), t = fd >= 0 && fd < 1024 && tracked[fd];
    if (t) tracked[fd] = 0;
    int fl = t && fault("close", ++count_close);
    if (fl) {      // what was still on its way is lost, as on a full or remote file system
        struct stat st;
        fflush(f);
        if (!fstat(fd, &st) && S_ISREG(st.st_mode) && ((int (*)(int, off_t))dlsym(RTLD_NEXT, "ftruncate"))(fd, st.st_size / 2)) logf_("fault", "truncation failed");
    }
    int r = real(f);
    if (fl) { errno = EIO; return EOF; }
    return r;
}
int close(int fd) { static int (*real)(int); if (!real) real = dlsym(RTLD_NEXT, "close"); if (fd >= 0 && fd < 1024) tracked[fd] = 0; return real(fd); }
#define CHANGE1(name) int name(const char *p) { static int (*real)(const char *); if (!real) real = dlsym(RTLD_NEXT, #name); logf_(#name, p); REFUSE(AT_FDCWD, p, -1) if (fault("unlink", ++count_unlink)) { errno = EACCES; return -1; } return real(p); }
CHANGE1(unlink) CHANGE1(remove) CHANGE1(rmdir)
int unlinkat(int d, const char *p, int fl) { static int (*real)(int, const char *, int); if (!real) real = dlsym(RTLD_NEXT, "unlinkat"); logf_("unlinkat", p); REFUSE(d, p, -1) if (fault("unlink", ++count_unlink)) { errno = EACCES; return -1; } return real(d, p, fl); }
int rename(const char *a, const char *b) { static int (*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "rename"); logf_("rename", a); logf_("rename", b); REFUSE(AT_FDCWD, a, -1) REFUSE(AT_FDCWD, b, -1) return real(a, b); }
int mkdir(const char *p, mode_t m) { static int (*real)(const char *, mode_t); if (!real) real = dlsym(RTLD_NEXT, "mkdir"); logf_("mkdir", p); REFUSE(AT_FDCWD, p, -1) return real(p, m); }
int chmod(const char *p, mode_t m) { static int (*real)(const char *, mode_t); if (!real) real = dlsym(RTLD_NEXT, "chmod"); logf_("chmod", p); REFUSE(AT_FDCWD, p, -1) return real(p, m); }
int truncate(const char *p, off_t n) { static int (*real)(const char *, off_t); if (!real) real = dlsym(RTLD_NEXT, "truncate"); logf_("truncate", p); REFUSE(AT_FDCWD, p, -1) return real(p, n); }
int symlink(const char *a, const char *b) { static int (*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "symlink"); logf_("symlink", b); REFUSE(AT_FDCWD, b, -1) return real(a, b); }
int link(const char *a, const char *b) { static int (*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "link"); logf_("link", b); REFUSE(AT_FDCWD, b, -1) return real(a, b); }
