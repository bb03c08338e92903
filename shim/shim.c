/* LD_PRELOAD shim: numbers the file system calls of one process and, at call number ND_SHIM_K, does what ND_SHIM_ACT says.
 *   KB  killed before the call        KA  killed after the call       KP  killed after half of a write
 *   EIO, EINTR, EACCES                the call fails
 *   ENOSPC                            this and every later call that needs space fails
 *   EPIPE                             this and every later write fails
 *   SHORT                             a read or write transfers one byte
 *   ZERO                              a write transfers nothing
 * The standard streams count if ND_SHIM_STDIN, ND_SHIM_STDOUT are set.
 * Calls on paths below /proc /dev /etc /lib /usr /sys and on other descriptors are not numbered.  Log: one line per numbered call. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static atomic_long count;
static long K;
static char act[16];
static int logfd = -1;
static atomic_int mine[4096];
static atomic_int nospace, nopipe;

__attribute__((constructor)) static void init(void) {
    const char *k = getenv("ND_SHIM_K"), *a = getenv("ND_SHIM_ACT"), *l = getenv("ND_SHIM_LOG");
    K = k ? atol(k) : 0;
    snprintf(act, sizeof act, "%s", a ? a : "");
    if(l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if(getenv("ND_SHIM_STDIN")) atomic_store(&mine[0], 1);
    if(getenv("ND_SHIM_STDOUT")) atomic_store(&mine[1], 1);
    unsetenv("LD_PRELOAD");
}

static int counted(const char *p) {
    static const char *skip[] = {"/proc", "/dev", "/etc", "/lib", "/usr", "/sys", 0};
    for(int i = 0; skip[i]; i++) if(!strncmp(p, skip[i], strlen(skip[i]))) return 0;
    return 1;
}
static int isfd(int fd) { return fd >= 0 && fd < 4096 && atomic_load(&mine[fd]); }
static void put(const char *op, const char *what) {
    if(logfd < 0) return;
    char b[512];
    int n = snprintf(b, sizeof b, "%s %s\n", op, what);
    syscall(SYS_write, logfd, b, n < (int)sizeof b ? n : (int)sizeof b);
}
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for(;;) pause(); }

/* the next number; 1 if this is the call to act on */
static int hit(const char *op, const char *what) {
    long n = atomic_fetch_add(&count, 1) + 1;
    put(op, what);
    return n == K;
}
static int fails(int h, int space, int rm) {
    if(h && !strcmp(act, "KB")) die();
    if(space && atomic_load(&nospace)) { errno = ENOSPC; return 1; }
    if(space && atomic_load(&nopipe)) { errno = EPIPE; return 1; }
    if(!h) return 0;
    if(!strcmp(act, "ENOSPC")) { if(space) { atomic_store(&nospace, 1); errno = ENOSPC; return 1; } return 0; }
    if(rm) return 0;
    if(!strcmp(act, "EPIPE")) { atomic_store(&nopipe, 1); errno = EPIPE; return 1; }
    if(!strcmp(act, "EIO")) { errno = EIO; return 1; }
    if(!strcmp(act, "EINTR")) { errno = EINTR; return 1; }
    if(!strcmp(act, "EACCES")) { errno = EACCES; return 1; }
    return 0;
}
static void after(int h) { if(h && (!strcmp(act, "KA") || !strcmp(act, "KP"))) die(); }
#define REAL(f, ...) ((__typeof__(&f))(dlsym(RTLD_NEXT, #f)))(__VA_ARGS__)

#define OPEN(name, decl, call, flagsx) \
    int name decl { \
        mode_t mode = 0; \
        if((flagsx) & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); mode = va_arg(v, int); va_end(v); } \
        if(!counted(path)) return REAL call; \
        int w = ((flagsx) & O_ACCMODE) != O_RDONLY; \
        int h = hit(w ? "openw" : "openr", path); \
        if(fails(h, w, 0)) return -1; \
        int fd = REAL call; \
        if(fd >= 0 && fd < 4096) atomic_store(&mine[fd], 1); \
        after(h); \
        return fd; \
    }
OPEN(open, (const char *path, int flags, ...), (open, path, flags, mode), flags)
OPEN(open64, (const char *path, int flags, ...), (open64, path, flags, mode), flags)
OPEN(openat, (int at, const char *path, int flags, ...), (openat, at, path, flags, mode), flags)
OPEN(openat64, (int at, const char *path, int flags, ...), (openat64, at, path, flags, mode), flags)

int close(int fd) {
    if(fd >= 0 && fd < 4096) atomic_store(&mine[fd], 0);
    return REAL(close, fd);
}
ssize_t read(int fd, void *b, size_t n) {
    if(!isfd(fd)) return REAL(read, fd, b, n);
    int h = hit("read", "");
    if(fails(h, 0, 0)) return -1;
    ssize_t r = REAL(read, fd, b, h && !strcmp(act, "SHORT") && n > 1 ? 1 : n);
    after(h);
    return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if(!isfd(fd)) return REAL(pread64, fd, b, n, o);
    int h = hit("read", "");
    if(fails(h, 0, 0)) return -1;
    ssize_t r = REAL(pread64, fd, b, h && !strcmp(act, "SHORT") && n > 1 ? 1 : n, o);
    after(h);
    return r;
}
static size_t cap(int h, size_t n) {
    if(h && !strcmp(act, "SHORT") && n > 1) return 1;
    if(h && !strcmp(act, "KP") && n > 1) return n / 2;
    return n;
}
ssize_t write(int fd, const void *b, size_t n) {
    if(!isfd(fd)) return REAL(write, fd, b, n);
    int h = hit("write", "");
    if(fails(h, 1, 0)) return -1;
    if(h && !strcmp(act, "ZERO")) return 0;
    ssize_t r = REAL(write, fd, b, cap(h, n));
    after(h);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if(!isfd(fd)) return REAL(pwrite64, fd, b, n, o);
    int h = hit("write", "");
    if(fails(h, 1, 0)) return -1;
    ssize_t r = REAL(pwrite64, fd, b, cap(h, n), o);
    after(h);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if(!isfd(fd)) return REAL(writev, fd, v, n);
    int h = hit("write", "");
    if(fails(h, 1, 0)) return -1;
    ssize_t r = REAL(writev, fd, v, n);
    after(h);
    return r;
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if(!isfd(a) && !isfd(b)) return REAL(copy_file_range, a, x, b, y, n, f);
    int h = hit("write", "copy_file_range");
    if(fails(h, 1, 0)) return -1;
    ssize_t r = REAL(copy_file_range, a, x, b, y, cap(h, n), f);
    after(h);
    return r;
}
ssize_t sendfile64(int o, int i, off64_t *x, size_t n);
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) {
    if(!isfd(o) && !isfd(i)) return REAL(sendfile64, o, i, x, n);
    int h = hit("write", "sendfile");
    if(fails(h, 1, 0)) return -1;
    ssize_t r = REAL(sendfile64, o, i, x, cap(h, n));
    after(h);
    return r;
}
#define PATHOP(name, decl, call, cond, what, space, rm) \
    int name decl { \
        if(!(cond)) return REAL call; \
        int h = hit(#name, what); \
        if(fails(h, space, rm)) return -1; \
        int r = REAL call; \
        after(h); \
        return r; \
    }
PATHOP(rename, (const char *a, const char *b), (rename, a, b), counted(a) || counted(b), b, 1, 0)
PATHOP(renameat, (int x, const char *a, int y, const char *b), (renameat, x, a, y, b), counted(a) || counted(b), b, 1, 0)
PATHOP(renameat2, (int x, const char *a, int y, const char *b, unsigned f), (renameat2, x, a, y, b, f), counted(a) || counted(b), b, 1, 0)
PATHOP(link, (const char *a, const char *b), (link, a, b), counted(a) || counted(b), b, 1, 0)
PATHOP(linkat, (int x, const char *a, int y, const char *b, int f), (linkat, x, a, y, b, f), counted(a) || counted(b), b, 1, 0)
PATHOP(unlink, (const char *a), (unlink, a), counted(a), a, 0, 1)
PATHOP(unlinkat, (int x, const char *a, int f), (unlinkat, x, a, f), counted(a), a, 0, 1)
PATHOP(truncate64, (const char *a, off64_t n), (truncate64, a, n), counted(a), a, 0, 0)
PATHOP(ftruncate64, (int fd, off64_t n), (ftruncate64, fd, n), isfd(fd), "", 0, 0)
PATHOP(fsync, (int fd), (fsync, fd), isfd(fd), "", 0, 0)
PATHOP(fdatasync, (int fd), (fdatasync, fd), isfd(fd), "", 0, 0)
