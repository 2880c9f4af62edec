/* LD_PRELOAD: with ENV_ALL=x every variable that is not set reads as x. Besides,
 * makes the FAULT_AT-th operation that changes a regular file fail with FAULT_ERRNO,
 * or, with FAULT_ERRNO=0, transfer only a part of the data (a read with -1: one byte). Counts operations to FAULT_LOG.
 * With FAULT_READS=1 it is the operations that read from a regular file instead. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long count, at = -1, err;
static int sticky, reads;
static void init(void) {
    static int done;
    if (done) return;
    done = 1;
    const char *a = getenv("FAULT_AT"), *e = getenv("FAULT_ERRNO"), *s = getenv("FAULT_STICKY");
    at = a ? atol(a) : -1;
    err = e ? atol(e) : 5;
    sticky = s && *s == '1';
    reads = getenv("FAULT_READS") != 0;
}
static int regular(int fd) {
    struct stat st;
    return fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}
/* 0: go on, 1: fail, 2: transfer a part */
static int fault2(int fd, int read) {
    int e = errno;
    init();
    if (read != reads || !regular(fd)) { errno = e; return 0; }
    long n = count++;
    if (n == at || (sticky && at >= 0 && n > at && err)) {
        if (err > 0) { errno = err; return 1; }
        errno = e;
        return 2;
    }
    errno = e;
    return 0;
}
static int fault(int fd) { return fault2(fd, 0); }
__attribute__((destructor)) static void report(void) {
    const char *l = getenv("FAULT_LOG");
    if (!l) return;
    FILE *f = fopen(l, "w");
    if (f) { fprintf(f, "%ld\n", count); fclose(f); }
}
extern char **environ;
char *getenv(const char *name) {
    size_t n = strlen(name);
    char *all = 0;
    for (char **e = environ; e && *e; e++) {
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
        if (!strncmp(*e, "ENV_ALL=", 8)) all = *e + 8;
    }
    if (!strncmp(name, "LD_", 3) || !strncmp(name, "RUST_", 5) || !strncmp(name, "FAULT_", 6)) return 0;
    return all;
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*r)(int, const void *, size_t);
    if (!r) r = REAL(write);
    int f = fault(fd);
    if (f == 1) return -1;
    return r(fd, b, f == 2 && n > 1 ? n / 2 : n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    static ssize_t (*r)(int, const struct iovec *, int);
    if (!r) r = REAL(writev);
    int f = fault(fd);
    if (f == 1) return -1;
    return r(fd, v, f == 2 && n > 1 ? 1 : n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    static ssize_t (*r)(int, const void *, size_t, off64_t);
    if (!r) r = REAL(pwrite64);
    int f = fault(fd);
    if (f == 1) return -1;
    return r(fd, b, f == 2 && n > 1 ? n / 2 : n, o);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
    static ssize_t (*r)(int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!r) r = REAL(copy_file_range);
    int f = fault(o);
    if (f == 1) return -1;
    return r(i, io, o, oo, f == 2 && n > 16 ? 7 : n, fl);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    static ssize_t (*r)(int, int, off64_t *, size_t);
    if (!r) r = (ssize_t(*)(int, int, off64_t *, size_t))dlsym(RTLD_NEXT, "sendfile64");
    int f = fault(o);
    if (f == 1) return -1;
    return r(o, i, off, f == 2 && n > 16 ? 7 : n);
}
int ftruncate64(int fd, off64_t n) {
    static int (*r)(int, off64_t);
    if (!r) r = REAL(ftruncate64);
    if (fault(fd) == 1) return -1;
    return r(fd, n);
}
int fsync(int fd) {
    static int (*r)(int);
    if (!r) r = REAL(fsync);
    if (fault(fd) == 1) return -1;
    return r(fd);
}
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*r)(int, void *, size_t);
    if (!r) r = REAL(read);
    int f = fault2(fd, 1);
    if (f == 1) return -1;
    return r(fd, b, f == 2 && n > 1 ? (err < 0 ? 1 : n > 64 ? 7 : n / 2) : n);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    static ssize_t (*r)(int, const struct iovec *, int);
    if (!r) r = REAL(readv);
    int f = fault2(fd, 1);
    if (f == 1) return -1;
    return r(fd, v, f == 2 && n > 1 ? 1 : n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    static ssize_t (*r)(int, void *, size_t, off64_t);
    if (!r) r = REAL(pread64);
    int f = fault2(fd, 1);
    if (f == 1) return -1;
    return r(fd, b, f == 2 && n > 1 ? n / 2 : n, o);
}
