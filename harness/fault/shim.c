/* Fault injection for git-branchless, used by the check of P23 (LD_PRELOAD).
 *
 * Counts the calls that change the file system, over all git-branchless
 * processes which share the control file, and kills the process, or lets the
 * calls fail as on a full disk, from a given number on. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

struct control {
    int64_t count; /* calls so far */
    int64_t at;    /* the call (from 1) to act on */
    int64_t mode;  /* 0 count, 1 kill before the call, 2 disk full from there, 3 one failing call */
    int64_t acted;
};

static struct control *control;
extern char *program_invocation_short_name;

__attribute__((constructor)) static void start(void)
{
    const char *path = getenv("GBV_FAULT");
    if (!path || strcmp(program_invocation_short_name, "git-branchless") != 0)
        return;
    int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
    int fd = real(path, O_RDWR | O_CLOEXEC);
    if (fd < 0)
        return;
    void *p = mmap(NULL, sizeof(struct control), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (p != MAP_FAILED)
        control = p;
}

/* Returns whether the call has to fail. */
static int step(int needs_space)
{
    if (!control)
        return 0;
    int64_t n = __atomic_add_fetch(&control->count, 1, __ATOMIC_SEQ_CST);
    if (control->mode == 1 && n == control->at) {
        control->acted = 1;
        kill(getpid(), SIGKILL);
    }
    if (needs_space && ((control->mode == 2 && n >= control->at) || (control->mode == 3 && n >= control->at && !__atomic_exchange_n(&control->acted, 1, __ATOMIC_SEQ_CST)))) {
        control->acted = 1;
        errno = ENOSPC;
        return 1;
    }
    return 0;
}

static int regular(int fd)
{
    struct stat st;
    return control && fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}

#define REAL(name) __typeof__(&name) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(write);
    if (regular(fd) && step(1))
        return -1;
    return real(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(writev);
    if (regular(fd) && step(1))
        return -1;
    return real(fd, v, n);
}

ssize_t pwrite(int fd, const void *buf, size_t n, off_t o)
{
    REAL(pwrite);
    if (regular(fd) && step(1))
        return -1;
    return real(fd, buf, n, o);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o)
{
    REAL(pwrite64);
    if (regular(fd) && step(1))
        return -1;
    return real(fd, buf, n, o);
}

int ftruncate(int fd, off_t n)
{
    REAL(ftruncate);
    if (regular(fd) && step(0))
        return -1;
    return real(fd, n);
}

int ftruncate64(int fd, off64_t n)
{
    REAL(ftruncate64);
    if (regular(fd) && step(0))
        return -1;
    return real(fd, n);
}

int rename(const char *a, const char *b)
{
    REAL(rename);
    if (step(0))
        return -1;
    return real(a, b);
}

int link(const char *a, const char *b)
{
    REAL(link);
    if (step(1))
        return -1;
    return real(a, b);
}

int symlink(const char *a, const char *b)
{
    REAL(symlink);
    if (step(1))
        return -1;
    return real(a, b);
}

int unlink(const char *a)
{
    REAL(unlink);
    if (step(0))
        return -1;
    return real(a);
}

int mkdir(const char *a, mode_t m)
{
    REAL(mkdir);
    if (step(1))
        return -1;
    return real(a, m);
}

int rmdir(const char *a)
{
    REAL(rmdir);
    if (step(0))
        return -1;
    return real(a);
}

#define OPEN(name)                                          \
    int name(const char *path, int flags, ...)              \
    {                                                       \
        int mode = 0;                                       \
        if (flags & (O_CREAT | O_TMPFILE)) {                \
            va_list ap;                                     \
            va_start(ap, flags);                            \
            mode = va_arg(ap, int);                         \
            va_end(ap);                                     \
        }                                                   \
        REAL(name);                                         \
        if ((flags & O_CREAT) && control && access(path, F_OK) != 0 && step(1)) \
            return -1;                                      \
        return real(path, flags, mode);                     \
    }

OPEN(open)
OPEN(open64)

#define OPENAT(name)                                        \
    int name(int dir, const char *path, int flags, ...)     \
    {                                                       \
        int mode = 0;                                       \
        if (flags & (O_CREAT | O_TMPFILE)) {                \
            va_list ap;                                     \
            va_start(ap, flags);                            \
            mode = va_arg(ap, int);                         \
            va_end(ap);                                     \
        }                                                   \
        REAL(name);                                         \
        if ((flags & O_CREAT) && control && faccessat(dir, path, F_OK, 0) != 0 && step(1)) \
            return -1;                                      \
        return real(dir, path, flags, mode);                \
    }

OPENAT(openat)
OPENAT(openat64)
