// Loaded into the program (LD_PRELOAD): ends it like SIGKILL at a chosen one of the calls that
// change something below MC_CRASH_DIR. MC_CRASH_AT counts them from 0. If the call writes,
// MC_CRASH_PART says how much of it still happens: 0 nothing, 1 one byte, 2 half of it.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static atomic_int count;

static const char *dir(void) {
    return getenv("MC_CRASH_DIR");
}

static void end(void) {
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

// Is this the call before which to end?
static int now(void) {
    const char *at = getenv("MC_CRASH_AT");
    return at && atomic_fetch_add(&count, 1) == atoi(at);
}

static int watched(const char *path) {
    const char *d = dir();
    return d && path && strncmp(path, d, strlen(d)) == 0;
}

static int watched_fd(int fd) {
    char link[64], path[4096];
    if (!dir()) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n < 0) return 0;
    path[n] = 0;
    return watched(path);
}

static void path_call(const char *path) {
    if (watched(path) && now()) end();
}

static void fd_call(int fd) {
    if (watched_fd(fd) && now()) end();
}

#define REAL(type, name, ...) type (*real)(__VA_ARGS__) = (type (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

#define OPEN(name)                                                    \
    int name(const char *path, int flags, ...) {                      \
        REAL(int, #name, const char *, int, ...);                     \
        va_list l;                                                    \
        va_start(l, flags);                                           \
        mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(l, mode_t) : 0; \
        va_end(l);                                                    \
        if (flags & (O_CREAT | O_TRUNC)) path_call(path);             \
        return real(path, flags, mode);                               \
    }
OPEN(open)
OPEN(open64)

#define OPENAT(name)                                                  \
    int name(int at, const char *path, int flags, ...) {              \
        REAL(int, #name, int, const char *, int, ...);                \
        va_list l;                                                    \
        va_start(l, flags);                                           \
        mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(l, mode_t) : 0; \
        va_end(l);                                                    \
        if (flags & (O_CREAT | O_TRUNC)) path_call(path);             \
        return real(at, path, flags, mode);                           \
    }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *data, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (watched_fd(fd) && now()) {
        const char *part = getenv("MC_CRASH_PART");
        size_t m = part && part[0] == '1' ? 1 : part && part[0] == '2' ? n / 2 : 0;
        if (m > n) m = n;
        if (m) real(fd, data, m);
        end();
    }
    return real(fd, data, n);
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    fd_call(fd);
    return real(fd, v, n);
}

int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *);
    path_call(a);
    return real(a, b);
}

int renameat(int x, const char *a, int y, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *);
    path_call(a);
    return real(x, a, y, b);
}

int unlink(const char *path) {
    REAL(int, "unlink", const char *);
    path_call(path);
    return real(path);
}

int unlinkat(int at, const char *path, int flags) {
    REAL(int, "unlinkat", int, const char *, int);
    path_call(path);
    return real(at, path, flags);
}

int mkdir(const char *path, mode_t mode) {
    REAL(int, "mkdir", const char *, mode_t);
    path_call(path);
    return real(path, mode);
}

int chmod(const char *path, mode_t mode) {
    REAL(int, "chmod", const char *, mode_t);
    path_call(path);
    return real(path, mode);
}

int fchmod(int fd, mode_t mode) {
    REAL(int, "fchmod", int, mode_t);
    fd_call(fd);
    return real(fd, mode);
}

int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", int, off64_t);
    fd_call(fd);
    return real(fd, n);
}

int fsync(int fd) {
    REAL(int, "fsync", int);
    fd_call(fd);
    return real(fd);
}
