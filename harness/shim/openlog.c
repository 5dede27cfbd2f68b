// LD_PRELOAD: records every path the process tries to open (given path, result, real path), one line each.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
static int lg = -2;
static void rec(const char *p, int fd) {
    if (lg == -2) {
        const char *e = getenv("PV_OPENLOG");
        lg = e ? (int)syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644) : -1;
    }
    if (lg < 0 || !p) return;
    char link[64], real[4096], buf[20000];
    real[0] = 0;
    if (fd >= 0) {
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, real, sizeof real - 1);
        real[n > 0 ? n : 0] = 0;
    }
    int k = snprintf(buf, sizeof buf, "%d\t", fd >= 0);
    for (const unsigned char *s = (const unsigned char *)p; *s && k < 9000; s++) k += snprintf(buf + k, 4, "%02x", *s);
    buf[k++] = '\t';
    for (const unsigned char *s = (const unsigned char *)real; *s && k < 19000; s++) k += snprintf(buf + k, 4, "%02x", *s);
    buf[k++] = '\n';
    (void)!syscall(SYS_write, lg, buf, k);
}
#define MODE va_list ap; va_start(ap, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
int open(const char *p, int fl, ...) { MODE int r = syscall(SYS_openat, AT_FDCWD, p, fl, m); rec(p, r); return r; }
int open64(const char *p, int fl, ...) { MODE int r = syscall(SYS_openat, AT_FDCWD, p, fl | O_LARGEFILE, m); rec(p, r); return r; }
int openat(int d, const char *p, int fl, ...) { MODE int r = syscall(SYS_openat, d, p, fl, m); rec(p, r); return r; }
int openat64(int d, const char *p, int fl, ...) { MODE int r = syscall(SYS_openat, d, p, fl | O_LARGEFILE, m); rec(p, r); return r; }
#define FO(name) FILE *name(const char *p, const char *m) { static FILE *(*f)(const char *, const char *); if (!f) f = dlsym(RTLD_NEXT, #name); FILE *r = f(p, m); rec(p, r ? fileno(r) : -1); return r; }
FO(fopen)
FO(fopen64)
