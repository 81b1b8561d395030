/* Fault injection for the commands run by C19 and C20 (LD_PRELOAD).
   FAULT_DIR  only files below this directory count
   FAULT      a list "op:n:kind[+]" separated by commas: the n-th (from 1) operation op (w, r, o: write, read,
              open for writing, i: open for reading) gets the fault; with + all later ones too.
              kinds: a number (errno), "zero" (0 returned), "short" (half of it done)
   FAULT_LOG  file that gets a line per injected fault: "w!" */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static unsigned long count[256];

static int under(const char *p) {
    const char *d = getenv("FAULT_DIR");
    return d && !strncmp(p, d, strlen(d));
}

static int counted(int fd) {
    char l[64], b[4096];
    if (fd <= 2) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, l, b, sizeof b - 1);
    if (n <= 0) return 0;
    b[n] = 0;
    return under(b) || !strcmp(b, "/dev/full");
}

static void note(char op) {
    const char *p = getenv("FAULT_LOG");
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (fd < 0) return;
    char b[3] = {op, '!', '\n'};
    syscall(SYS_write, fd, b, 3);
    syscall(SYS_close, fd);
}

/* 0: none, >0: errno, -1: zero, -2: short */
static int fault(char op) {
    unsigned long k = ++count[(unsigned char)op];
    const char *s = getenv("FAULT");
    int f = 0;
    while (s && *s) {
        char o;
        unsigned long n;
        char kind[16] = "";
        if (sscanf(s, "%c:%lu:%15[a-z0-9]", &o, &n, kind) == 3 && o == op) {
            const char *e = strchr(s, ',');
            const char *q = strchr(s, '+');
            int more = q && (!e || q < e);
            if (k == n || (more && k > n)) f = !strcmp(kind, "zero") ? -1 : !strcmp(kind, "short") ? -2 : atoi(kind);
        }
        s = strchr(s, ',');
        if (s) s++;
    }
    if (f) note(op);
    return f;
}

ssize_t write(int fd, const void *b, size_t n) {
    if (counted(fd)) {
        int f = fault('w');
        if (f > 0) { errno = f; return -1; }
        if (f == -1) return 0;
        if (f == -2 && n > 1) n /= 2;
    }
    return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    if (counted(fd)) {
        int f = fault('w');
        if (f > 0) { errno = f; return -1; }
        if (f == -1) return 0;
        if (f == -2 && n > 0) n = 1;
    }
    return syscall(SYS_writev, fd, v, n);
}

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (counted(fd)) {
        int f = fault('w');
        if (f > 0) { errno = f; return -1; }
        if (f == -1) return 0;
        if (f == -2 && n > 1) n /= 2;
    }
    return syscall(SYS_pwrite64, fd, b, n, o);
}

ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned g) {
    (void)a; (void)x; (void)b; (void)y; (void)n; (void)g;
    errno = ENOSYS;
    return -1;
}

ssize_t read(int fd, void *b, size_t n) {
    if (counted(fd)) {
        int f = fault('r');
        if (f > 0) { errno = f; return -1; }
        if (f == -2 && n > 1) n = 1;
    }
    return syscall(SYS_read, fd, b, n);
}

static int do_open(int at, const char *p, int fl, mode_t m) {
    char full[4096];
    const char *q = p;
    if (p[0] != '/') {
        char c[2048];
        if (syscall(SYS_getcwd, c, sizeof c) > 0) {
            snprintf(full, sizeof full, "%s/%s", c, p);
            q = full;
        }
    }
    if (under(q)) {
        int f = fault((fl & O_ACCMODE) == O_RDONLY ? 'i' : 'o');
        if (f > 0) { errno = f; return -1; }
    }
    return syscall(SYS_openat, at, p, fl, m);
}

int open64(const char *p, int fl, ...) {
    va_list a;
    va_start(a, fl);
    mode_t m = va_arg(a, int);
    va_end(a);
    return do_open(AT_FDCWD, p, fl, m);
}

int open(const char *p, int fl, ...) {
    va_list a;
    va_start(a, fl);
    mode_t m = va_arg(a, int);
    va_end(a);
    return do_open(AT_FDCWD, p, fl, m);
}
