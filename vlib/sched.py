"""Several processes under a scheduler of ours: every file system operation of each is a scheduling point (LD_PRELOAD), a
process goes on only when it is told to. A schedule is a list of [process, number of operations]; after its end the
processes run to their ends one after another. The same schedule gives the same interleaving."""
import os, select, subprocess
from . import cdrv
from .cdrv import Inconclusive

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static const char* root; static int in = -1, out = -1, inited; static unsigned char mine[1024];
#define REAL(n) static __typeof__(n)* real_; if (!real_) real_ = (__typeof__(n)*)dlsym(RTLD_NEXT, #n)
static void init(void) { const char* s = getenv("SCHED_FDS"); if (inited) return; inited = 1; root = getenv("SCHED_ROOT"); if (s) sscanf(s, "%d,%d", &in, &out); }
static void point(void) { char c = 'x'; int e = errno; init(); if (out < 0) return; if (syscall(SYS_write, out, &c, 1) == 1) while (syscall(SYS_read, in, &c, 1) < 0 && errno == EINTR) ; errno = e; }
static int under(const char* p) { init(); return root && p && !strncmp(p, root, strlen(root)); }
static int own(int fd) { return fd > 2 && fd < 1024 && mine[fd]; }
static int note(int fd) { if (fd >= 0 && fd < 1024) mine[fd] = 1; return fd; }
#define PATH(ret, name, par, arg) ret name par { REAL(name); if (under(p)) point(); return real_ arg; }
PATH(int, mkdir, (const char* p, mode_t m), (p, m))
PATH(int, mkdirat, (int d, const char* p, mode_t m), (d, p, m))
PATH(int, stat, (const char* p, struct stat* s), (p, s))
PATH(int, stat64, (const char* p, struct stat64* s), (p, s))
PATH(int, lstat, (const char* p, struct stat* s), (p, s))
PATH(int, lstat64, (const char* p, struct stat64* s), (p, s))
PATH(int, fstatat, (int d, const char* p, struct stat* s, int f), (d, p, s, f))
PATH(int, fstatat64, (int d, const char* p, struct stat64* s, int f), (d, p, s, f))
PATH(int, access, (const char* p, int m), (p, m))
PATH(int, rename, (const char* p, const char* q), (p, q))
PATH(int, unlink, (const char* p), (p))
PATH(int, rmdir, (const char* p), (p))
PATH(int, remove, (const char* p), (p))
#define OPEN(name, args) { REAL(name); va_list v; int m; va_start(v, fl); m = va_arg(v, int); va_end(v); if (!under(p) && !(fl & O_CREAT)) return real_ args; point(); return note(real_ args); }
int open(const char* p, int fl, ...) OPEN(open, (p, fl, m))
int open64(const char* p, int fl, ...) OPEN(open64, (p, fl, m))
int openat(int d, const char* p, int fl, ...) OPEN(openat, (d, p, fl, m))
int openat64(int d, const char* p, int fl, ...) OPEN(openat64, (d, p, fl, m))
#define FOPEN(name) { REAL(name); FILE* r; if (!under(p) && m[0] == 'r') return real_(p, m); point(); r = real_(p, m); if (r) note(fileno(r)); return r; }
FILE* fopen(const char* p, const char* m) FOPEN(fopen)
FILE* fopen64(const char* p, const char* m) FOPEN(fopen64)
ssize_t write(int fd, const void* b, size_t n) { REAL(write); if (own(fd)) point(); return real_(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int k) { REAL(writev); if (own(fd)) point(); return real_(fd, v, k); }
ssize_t read(int fd, void* b, size_t n) { REAL(read); if (own(fd)) point(); return real_(fd, b, n); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* q) { REAL(fwrite); if (own(fileno(q))) point(); return real_(b, s, n, q); }
size_t fread(void* b, size_t s, size_t n, FILE* q) { REAL(fread); if (own(fileno(q))) point(); return real_(b, s, n, q); }
int fclose(FILE* q) { REAL(fclose); int fd = fileno(q); if (own(fd)) point(); if (fd >= 0 && fd < 1024) mine[fd] = 0; return real_(q); }
int close(int fd) { REAL(close); if (own(fd)) point(); if (fd >= 0 && fd < 1024) mine[fd] = 0; return real_(fd); }
"""


def shim(ctx):
    so = os.path.join(ctx.scratch, "sched.so")
    if not os.path.exists(so):
        cdrv.write(os.path.join(ctx.scratch, "sched.c"), SHIM)
        rc, txt = cdrv.sh(["gcc", "-shared", "-fPIC", "-O1", "-w", "-D_FORTIFY_SOURCE=0", os.path.join(ctx.scratch, "sched.c"), "-o", so, "-ldl"])
        if rc:
            raise RuntimeError("cannot build the scheduler's library: " + txt[-1500:])
    return so


class Proc:
    def __init__(self, ctx, argv, root, cwd):
        a, self.go = os.pipe()
        self.req, b = os.pipe()
        env = dict(os.environ, LD_PRELOAD=shim(ctx), SCHED_ROOT=root, SCHED_FDS="%d,%d" % (a, b))
        self.p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, pass_fds=(a, b))
        os.close(a)
        os.close(b)
        self.alive, self.ops, self.out = True, 0, b""

    def wait(self):
        """Until it stands at its next operation or has ended."""
        # what it prints goes into a pipe, far less than the pipe holds
        if not select.select([self.req], [], [], 60)[0]:
            raise Inconclusive("a scheduled process does not come to its next operation")
        if not os.read(self.req, 1):
            self.alive = False
            self.out = self.p.communicate()[0]

    def step(self):
        self.ops += 1
        try:
            os.write(self.go, b"g")
        except BrokenPipeError:
            pass
        self.wait()

    def end(self):
        for fd in (self.go, self.req):
            os.close(fd)
        if self.p.poll() is None:
            self.p.kill()
            self.p.communicate()


def together(ctx, argvs, root, cwd, sched):
    """-> [(status, output)], number of switches between live processes"""
    ps, switches, last = [], 0, None
    try:
        for a in argvs:
            ps.append(Proc(ctx, a, root, cwd))
        for p in ps:
            p.wait()
        for i, n in list(sched) + [[i, 1 << 30] for i in range(len(ps))]:
            p = ps[i % len(ps)]
            while n and p.alive:
                if last is not None and last is not p and last.alive:
                    switches += 1
                last = p
                p.step()
                n -= 1
        return [(p.p.returncode, p.out) for p in ps], switches
    finally:
        for p in ps:
            p.end()


def schedule(r, k):
    """Random schedule for k processes."""
    kind = r.random()
    if kind < 0.3:
        return [[r.randrange(k), r.randint(1, 3)] for _ in range(r.randint(5, 60 * k))]
    if kind < 0.7:
        # few switches, at any place
        return [[r.randrange(k), r.choice([1, 2, 3, 4, 5, r.randint(1, 20), r.randint(1, 80)])] for _ in range(r.randint(1, 7))]
    if kind < 0.85:
        n = r.choice([1, 1, 2, 3])
        return [[i % k, n] for i in range(r.randint(k, 80 * k))]
    # all stand before the same operation, then one goes on
    n = r.randint(1, 12)
    return [[i, n] for i in range(k)] + [[r.randrange(k), r.randint(1, 80)] for _ in range(k)]


def shrinks(sched):
    k = max(1, len(sched) // 2)
    while k >= 1:
        for i in range(0, len(sched), k):
            if sched:
                yield sched[:i] + sched[i + k:]
        k //= 2
    for i, (p, n) in enumerate(sched):
        if n > 1:
            for m in (n // 2, n - 1):
                yield sched[:i] + [[p, m]] + sched[i + 1:]
