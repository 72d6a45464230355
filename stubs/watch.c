/* Records what a program asks the system for (C40): a line per variable looked
 * up and per file opened; anything that would change the system, start a
 * process or talk to another one is recorded and refused. With JSTMON_TIME the
 * clock shows that second, with JSTMON_TTY the streams claim to be terminals. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
extern char **environ;
static int fd = -1;
static int ready, tty;
static long shown, real;

static void put(const char *what, const char *arg) {
    char b[4200];
    int n = 0, i;
    int keep = errno;
    if (fd < 0)
        return;
    for (i = 0; what[i] && n < 60; i++)
        b[n++] = what[i];
    b[n++] = ' ';
    for (i = 0; arg && arg[i] && n < 4190; i++)
        b[n++] = arg[i] == '\n' ? '?' : arg[i];
    b[n++] = '\n';
    syscall(SYS_write, fd, b, n);
    errno = keep;
}

__attribute__((constructor)) static void start(void) {
    int i;
    for (i = 0; environ && environ[i]; i++)
        if (!strncmp(environ[i], "JSTMON_TTY=", 11))
            tty = 1;
        else if (!strncmp(environ[i], "JSTMON_TIME=", 12)) {
            struct timespec t;
            syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
            real = t.tv_sec;
            shown = strtol(environ[i] + 12, 0, 10);
        } else if (!strncmp(environ[i], "JSTMON_WATCH=", 13))
            fd = syscall(SYS_openat, AT_FDCWD, environ[i] + 13, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    put("start", "");
    ready = 1;
}

static int forbid(const char *what, const char *arg) {
    put(what, arg);
    errno = EPERM;
    return -1;
}

static char *look(const char *k) {
    int i, n = strlen(k);
    if (ready)
        put("getenv", k);
    for (i = 0; environ && environ[i]; i++)
        if (!strncmp(environ[i], k, n) && environ[i][n] == '=')
            return environ[i] + n + 1;
    return 0;
}
char *getenv(const char *k) { return look(k); }
char *secure_getenv(const char *k) { return look(k); }

static int opens(int at, const char *p, int flags, mode_t m) {
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC | O_APPEND)) || (flags & O_TMPFILE) == O_TMPFILE;
    if (w) {
        put("write", p);
        if (strcmp(p, "/dev/null") && strncmp(p, "/dev/tty", 8) && strncmp(p, "/dev/std", 8) && strncmp(p, "/proc/self/fd", 13)) {
            errno = EACCES;
            return -1;
        }
    } else
        put("read", p);
    return syscall(SYS_openat, at, p, flags, m);
}
#define MODE                                     \
    mode_t m = 0;                                \
    if (flags & (O_CREAT | O_TMPFILE)) {         \
        va_list l;                               \
        va_start(l, flags);                      \
        m = va_arg(l, int);                      \
        va_end(l);                               \
    }
int open(const char *p, int flags, ...) { MODE return opens(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return opens(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int at, const char *p, int flags, ...) { MODE return opens(at, p, flags, m); }
int openat64(int at, const char *p, int flags, ...) { MODE return opens(at, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return forbid("write", p); }
int creat64(const char *p, mode_t m) { return forbid("write", p); }
#define STDIO(name)                                                        \
    FILE *name(const char *p, const char *m) {                             \
        static FILE *(*f)(const char *, const char *);                     \
        if (!f)                                                            \
            f = dlsym(RTLD_NEXT, #name);                                   \
        if (strpbrk(m, "wa+")) {                                           \
            forbid("write", p);                                            \
            return 0;                                                      \
        }                                                                  \
        put("read", p);                                                    \
        return f(p, m);                                                    \
    }
STDIO(fopen)
STDIO(fopen64)
void *opendir(const char *p) {
    static void *(*f)(const char *);
    if (!f)
        f = dlsym(RTLD_NEXT, "opendir");
    put("read", p);
    return f(p);
}
/* looking whether something is there */
int statx(int at, const char *p, int f, unsigned m, void *b) {
    put("look", p);
    return syscall(SYS_statx, at, p, f, m, b);
}
int access(const char *p, int m) {
    put("look", p);
    return syscall(SYS_faccessat, AT_FDCWD, p, m);
}
int faccessat(int at, const char *p, int m, int f) {
    put("look", p);
    return syscall(SYS_faccessat, at, p, m);
}
#define STAT(name, flags)                                                 \
    int name(const char *p, void *b) {                                    \
        put("look", p);                                                   \
        return syscall(SYS_newfstatat, AT_FDCWD, p, b, flags);            \
    }
STAT(stat, 0)
STAT(stat64, 0)
STAT(lstat, AT_SYMLINK_NOFOLLOW)
STAT(lstat64, AT_SYMLINK_NOFOLLOW)
ssize_t readlink(const char *p, char *b, size_t n) {
    put("look", p);
    return syscall(SYS_readlinkat, AT_FDCWD, p, b, n);
}
int unlink(const char *p) { return forbid("unlink", p); }
int unlinkat(int at, const char *p, int f) { return forbid("unlink", p); }
int remove(const char *p) { return forbid("unlink", p); }
int rmdir(const char *p) { return forbid("rmdir", p); }
int mkdir(const char *p, mode_t m) { return forbid("mkdir", p); }
int mkdirat(int at, const char *p, mode_t m) { return forbid("mkdir", p); }
int rename(const char *p, const char *q) { return forbid("rename", p); }
int renameat(int a, const char *p, int b, const char *q) { return forbid("rename", p); }
int renameat2(int a, const char *p, int b, const char *q, unsigned f) { return forbid("rename", p); }
int link(const char *p, const char *q) { return forbid("link", q); }
int linkat(int a, const char *p, int b, const char *q, int f) { return forbid("link", q); }
int symlink(const char *p, const char *q) { return forbid("symlink", q); }
int symlinkat(const char *p, int a, const char *q) { return forbid("symlink", q); }
int truncate(const char *p, off_t n) { return forbid("truncate", p); }
int truncate64(const char *p, off64_t n) { return forbid("truncate", p); }
int chmod(const char *p, mode_t m) { return forbid("chmod", p); }
int fchmodat(int a, const char *p, mode_t m, int f) { return forbid("chmod", p); }
int chown(const char *p, uid_t u, gid_t g) { return forbid("chown", p); }
int socket(int a, int b, int c) { return forbid("socket", ""); }
int connect(int a, const void *b, unsigned c) { return forbid("connect", ""); }
int socketpair(int a, int b, int c, int *d) { return forbid("socketpair", ""); }
int getaddrinfo(const char *h, const char *s, const void *a, void **b) { forbid("getaddrinfo", h); return -4; }
pid_t fork(void) { return forbid("fork", ""); }
int execve(const char *p, char *const a[], char *const e[]) { return forbid("exec", p); }
int execv(const char *p, char *const a[]) { return forbid("exec", p); }
int execvp(const char *p, char *const a[]) { return forbid("exec", p); }
int posix_spawn(void *a, const char *p, void *b, void *c, void *d, void *e) { forbid("spawn", p); return EPERM; }
int posix_spawnp(void *a, const char *p, void *b, void *c, void *d, void *e) { forbid("spawn", p); return EPERM; }
int system(const char *p) { return forbid("spawn", p); }
FILE *popen(const char *p, const char *m) { forbid("spawn", p); return 0; }
int kill(pid_t p, int s) { return s ? forbid("kill", "") : 0; }
int setenv(const char *k, const char *v, int o) { return forbid("setenv", k); }
int chdir(const char *p) { return forbid("chdir", p); }
int isatty(int f) { return tty ? 1 : syscall(SYS_ioctl, f, 0x5401, (char[64]){0}) == 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (!r && shown && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE))
        t->tv_sec += shown - real;
    return r;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p)
        *p = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *z) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
