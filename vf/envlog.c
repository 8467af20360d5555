/* Preloaded into the compiler.  VF_ENVLOG=file: notes which environment variables and files are asked for.
   VF_TIME=seconds: shifts the clocks.  VF_PID=n: another process id. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#define REAL(ret, name, args) static ret (*f) args; if (!f) f = (ret (*) args)dlsym(RTLD_NEXT, #name)
static char *env(const char *name) {
    REAL(char *, getenv, (const char *));
    return f(name);
}
static int sys_open(const char *p, int fl, mode_t m) {
    REAL(int, open64, (const char *, int, ...));
    return f(p, fl, m);
}
static void note(char kind, const char *name) {
    char *path = env("VF_ENVLOG");
    if (!path || !name || !strncmp(name, "VF_", 3)) return;
    int fd = sys_open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (fd < 0) return;
    char b[600];
    size_t n = strlen(name);
    if (n > sizeof b - 3) n = sizeof b - 3;
    b[0] = kind;
    memcpy(b + 1, name, n);
    b[n + 1] = '\n';
    if (write(fd, b, n + 2) < 0) { }
    close(fd);
}
char *getenv(const char *name) { note('E', name); return env(name); }
char *secure_getenv(const char *name) { note('E', name); return env(name); }
static mode_t mode(int fl, va_list a) { return fl & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0; }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = mode(fl, a); va_end(a); note('F', p); return sys_open(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = mode(fl, a); va_end(a); note('F', p); return sys_open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = mode(fl, a); va_end(a); REAL(int, openat, (int, const char *, int, ...)); note('F', p); return f(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = mode(fl, a); va_end(a); REAL(int, openat64, (int, const char *, int, ...)); note('F', p); return f(d, p, fl, m); }
int stat(const char *p, struct stat *s) { REAL(int, stat, (const char *, struct stat *)); note('F', p); return f(p, s); }
int stat64(const char *p, struct stat64 *s) { REAL(int, stat64, (const char *, struct stat64 *)); note('F', p); return f(p, s); }
int lstat(const char *p, struct stat *s) { REAL(int, lstat, (const char *, struct stat *)); note('F', p); return f(p, s); }
int lstat64(const char *p, struct stat64 *s) { REAL(int, lstat64, (const char *, struct stat64 *)); note('F', p); return f(p, s); }
int statx(int d, const char *p, int fl, unsigned m, struct statx *s) { REAL(int, statx, (int, const char *, int, unsigned, struct statx *)); const char *volatile q = p; if (q && *q) note('F', q); return f(d, p, fl, m, s); }
int access(const char *p, int m) { REAL(int, access, (const char *, int)); note('F', p); return f(p, m); }
int faccessat(int d, const char *p, int m, int fl) { REAL(int, faccessat, (int, const char *, int, int)); note('F', p); return f(d, p, m, fl); }
ssize_t readlink(const char *p, char *b, size_t n) { REAL(ssize_t, readlink, (const char *, char *, size_t)); note('F', p); return f(p, b, n); }
DIR *opendir(const char *p) { REAL(DIR *, opendir, (const char *)); note('F', p); return f(p); }
char *getcwd(char *b, size_t n) { REAL(char *, getcwd, (char *, size_t)); note('C', "getcwd"); return f(b, n); }
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(int, clock_gettime, (clockid_t, struct timespec *));
    int r = f(c, t);
    char *s = env("VF_TIME");
    if (!r && s) t->tv_sec += atol(s);
    return r;
}
time_t time(time_t *t) {
    REAL(time_t, time, (time_t *));
    time_t x = f(0);
    char *s = env("VF_TIME");
    if (s) x += atol(s);
    if (t) *t = x;
    return x;
}
pid_t getpid(void) {
    REAL(pid_t, getpid, (void));
    char *s = env("VF_PID");
    return s ? (pid_t)atol(s) : f();
}
