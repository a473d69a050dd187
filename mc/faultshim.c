/* LD_PRELOAD fault injector: counts the operations which change files below SHIM_DIR, and kills the
 * process or fails the operation at the SHIM_AT-th of them (see c_file.rs, C26). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static unsigned long n, at;
static const char *mode = 0, *dir = 0, *logf_ = 0;
static int full;

static void init(void) {
    if (mode)
        return;
    const char *a = getenv("SHIM_AT");
    at = a ? strtoul(a, 0, 10) : (unsigned long)-1;
    dir = getenv("SHIM_DIR");
    logf_ = getenv("SHIM_LOG");
    const char *m = getenv("SHIM_MODE");
    mode = m ? m : "count";
}
static int below(const char *p) {
    init();
    return dir && p && !strncmp(p, dir, strlen(dir));
}
static int below_fd(int fd) {
    char l[64], b[4096];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = syscall(SYS_readlink, l, b, sizeof b - 1);
    if (k < 0)
        return 0;
    b[k] = 0;
    return below(b);
}
static void die(void) {
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;)
        pause();
}
enum { GO, FAIL, TORN, KILL_AFTER };
/* what is to become of this operation */
static int step(int is_write) {
    unsigned long k = n++;
    if (!strcmp(mode, "count"))
        return GO;
    if (full && is_write) {
        errno = ENOSPC;
        return FAIL;
    }
    if (k != at)
        return GO;
    if (!strcmp(mode, "kill"))
        die();
    if (!strcmp(mode, "kill-torn")) {
        if (is_write)
            return TORN;
        die();
    }
    if (!strcmp(mode, "kill-after"))
        return KILL_AFTER;
    if (!strcmp(mode, "enospc")) {
        full = 1;
        errno = ENOSPC;
        return FAIL;
    }
    if (!strcmp(mode, "torn-enospc")) {
        full = 1;
        errno = ENOSPC;
        return is_write ? TORN : FAIL;
    }
    errno = EIO;
    return FAIL;
}
static void after(int s) {
    if (s == KILL_AFTER)
        die();
}
static ssize_t wr(int s, int fd, const void *b, size_t len, off64_t off, int pos) {
    if (s == FAIL)
        return -1;
    size_t l = s == TORN ? len / 2 : len;
    ssize_t r = pos ? syscall(SYS_pwrite64, fd, b, l, off) : syscall(SYS_write, fd, b, l);
    if (s == TORN && !strncmp(mode, "kill", 4))
        die();
    after(s);
    return r;
}
ssize_t write(int fd, const void *b, size_t len) { return wr(below_fd(fd) ? step(1) : GO, fd, b, len, 0, 0); }
ssize_t pwrite64(int fd, const void *b, size_t len, off64_t off) { return wr(below_fd(fd) ? step(1) : GO, fd, b, len, off, 1); }
ssize_t pwrite(int fd, const void *b, size_t len, off_t off) { return pwrite64(fd, b, len, off); }
#define OP(cond, call)                  \
    int s = (cond) ? step(0) : GO;      \
    if (s == FAIL)                      \
        return -1;                      \
    int r = (call);                     \
    after(s);                           \
    return r
int ftruncate64(int fd, off64_t len) { OP(below_fd(fd), syscall(SYS_ftruncate, fd, len)); }
int ftruncate(int fd, off_t len) { OP(below_fd(fd), syscall(SYS_ftruncate, fd, len)); }
int fsync(int fd) { OP(below_fd(fd), syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { OP(below_fd(fd), syscall(SYS_fdatasync, fd)); }
int unlink(const char *p) { OP(below(p), syscall(SYS_unlink, p)); }
int rename(const char *a, const char *b) { OP(below(a), syscall(SYS_rename, a, b)); }
static int op_open(const char *p, int fl, int md) { OP(below(p) && (fl & O_CREAT), syscall(SYS_openat, AT_FDCWD, p, fl | O_LARGEFILE, md)); }
int open64(const char *p, int fl, ...) {
    va_list a;
    va_start(a, fl);
    int md = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0;
    va_end(a);
    return op_open(p, fl, md);
}
int open(const char *p, int fl, ...) {
    va_list a;
    va_start(a, fl);
    int md = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0;
    va_end(a);
    return op_open(p, fl, md);
}
__attribute__((destructor)) static void report(void) {
    init();
    if (!logf_ || strcmp(mode, "count"))
        return;
    char b[32];
    int k = snprintf(b, sizeof b, "%lu\n", n);
    int fd = syscall(SYS_openat, AT_FDCWD, logf_, O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if (fd >= 0) {
        syscall(SYS_write, fd, b, k);
        syscall(SYS_close, fd);
    }
}
