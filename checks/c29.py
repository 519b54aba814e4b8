"""C29: failed and interrupted runs are reported and do no lasting harm (fault injection at every operation)."""
import hashlib, os, random, re, resource, shutil, subprocess
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Inconclusive, Violation
from vlib.common import net_shrinks

ID = "C29"
COUNTS = {"quick": 2600, "thorough": 20000}
TECHNIQUE = "property-based testing with injected faults: generated histories of disturbed and undisturbed generator runs, systematic sweeps of the failing or killing operation, oracle = reference packages and a model of the directory tree"
RULE = ("histories of 1..4 disturbed runs followed by an undisturbed one: random networks, options, with and without -rw, over a tree that holds user files and earlier packages. Disturbances: the n-th file system "
        "operation (mkdir, open, read, write, close) fails with a generated errno, once or from then on, is done by half, or is the moment the process is killed (before or after it); file size limits; names "
        "occupied by directories, plain files, dangling links or links to a full device; unreadable DBC. Fixed cases sweep n over all operations of a run. Non-trivial: at least one disturbance took effect.")
ASSUMPTIONS = ["what was written and closed without an error is on the disk", "the disturbance of a directory look-up (stat) is not modelled"]
SUBS = ("lib", "usr", "inc", "conf", "butl")

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
/* FAULT=class:n:action:errno:sticky  FAULT_ROOT=dir  FAULT_MARK=file created as soon as the fault strikes */
static int inited, nth, err_, sticky, cnt, hit; static char cls, act; static const char* root; static unsigned char mine[1024];
#define REAL(n) static __typeof__(n)* real_; if (!real_) real_ = (__typeof__(n)*)dlsym(RTLD_NEXT, #n)
static void init(void) {
  const char* s = getenv("FAULT"); if (inited) return; inited = 1; root = getenv("FAULT_ROOT");
  if (s) sscanf(s, "%c:%d:%c:%d:%d", &cls, &nth, &act, &err_, &sticky);
}
static void mark(void) { const char* m = getenv("FAULT_MARK"); if (m && !hit) { static int (*o)(const char*, int, ...); o = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open"); int f = o(m, O_CREAT | O_WRONLY, 0666); static int (*c)(int); c = (int (*)(int))dlsym(RTLD_NEXT, "close"); if (f >= 0) c(f); } hit = 1; }
/* 0: go on, 'f': fail, 'h': half, 'k': kill before, 'K': kill after */
static int fault(char c) {
  init();
  if (!root || (cls != 'a' && cls != c)) return 0;
  cnt++;
  if (cnt == nth || (sticky && cnt > nth)) { mark(); if (act == 'k') kill(getpid(), SIGKILL); errno = err_; return act; }
  return 0;
}
static void after(int f) { if (f == 'K') kill(getpid(), SIGKILL); }
static int under(const char* p) { init(); return root && p && !strncmp(p, root, strlen(root)); }
static int own(int fd) { return fd > 2 && fd < 1024 && mine[fd]; }
static int note(int fd) { if (fd >= 0 && fd < 1024) mine[fd] = 1; return fd; }
int mkdir(const char* p, mode_t m) { REAL(mkdir); int f = under(p) ? fault('m') : 0, r; if (f == 'f') return -1; r = real_(p, m); after(f); return r; }
int mkdirat(int d, const char* p, mode_t m) { REAL(mkdirat); int f = under(p) ? fault('m') : 0, r; if (f == 'f') return -1; r = real_(d, p, m); after(f); return r; }
#define OPEN(name, pre, args, DIRS) { REAL(name); va_list v; int m = 0, f, r; va_start(v, fl); m = va_arg(v, int); va_end(v); if (!under(p)) return real_ args; f = fault('o'); if (f == 'f') return -1; r = note(real_ args); after(f); return r; }
int open(const char* p, int fl, ...) OPEN(open, , (p, fl, m), )
int open64(const char* p, int fl, ...) OPEN(open64, , (p, fl, m), )
int openat(int d, const char* p, int fl, ...) OPEN(openat, , (d, p, fl, m), )
int openat64(int d, const char* p, int fl, ...) OPEN(openat64, , (d, p, fl, m), )
FILE* fopen(const char* p, const char* m) { REAL(fopen); FILE* r; int f; if (!under(p)) return real_(p, m); f = fault('o'); if (f == 'f') return NULL; r = real_(p, m); if (r) note(fileno(r)); after(f); return r; }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); FILE* r; int f; if (!under(p)) return real_(p, m); f = fault('o'); if (f == 'f') return NULL; r = real_(p, m); if (r) note(fileno(r)); after(f); return r; }
ssize_t write(int fd, const void* b, size_t n) { REAL(write); int f = own(fd) ? fault('w') : 0; ssize_t r; if (f == 'f') return -1; r = real_(fd, b, f == 'h' && n > 1 ? n / 2 : n); after(f); return r; }
ssize_t writev(int fd, const struct iovec* v, int k) { REAL(writev); int f = own(fd) ? fault('w') : 0; ssize_t r; struct iovec h; if (f == 'f') return -1;
  if (f == 'h') { h = v[0]; if (h.iov_len > 1) h.iov_len /= 2; r = real_(fd, &h, 1); } else r = real_(fd, v, k); after(f); return r; }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { REAL(pwrite); int f = own(fd) ? fault('w') : 0; ssize_t r; if (f == 'f') return -1; r = real_(fd, b, n, o); after(f); return r; }
size_t fwrite(const void* b, size_t s, size_t n, FILE* q) { REAL(fwrite); int f = own(fileno(q)) ? fault('w') : 0; size_t r; if (f == 'f') return 0; r = real_(b, s, n, q); if (f == 'K') fflush(q); after(f); return r; }
ssize_t read(int fd, void* b, size_t n) { REAL(read); int f = own(fd) ? fault('r') : 0; ssize_t r; if (f == 'f') return -1; r = real_(fd, b, f == 'h' && n > 1 ? (n < 600 ? n / 2 : 300) : n); after(f); return r; }
size_t fread(void* b, size_t s, size_t n, FILE* q) { REAL(fread); int f = own(fileno(q)) ? fault('r') : 0; size_t r; if (f == 'f') return 0; r = real_(b, s, n, q); after(f); return r; }
int fclose(FILE* q) { REAL(fclose); int fd = fileno(q), f = own(fd) ? fault('c') : 0, r; if (fd >= 0 && fd < 1024) mine[fd] = 0; r = real_(q); after(f); if (f == 'f') { errno = err_; return EOF; } return r; }
int close(int fd) { REAL(close); int f = own(fd) ? fault('c') : 0, r; if (fd >= 0 && fd < 1024) mine[fd] = 0; r = real_(fd); after(f); if (f == 'f') { errno = err_; return -1; } return r; }
"""
ERR = {"m": [28, 13, 30, 5, 31, 122, 40], "o": [28, 13, 30, 5, 24, 23, 122, 26], "r": [5, 4, 116], "w": [28, 5, 4, 122, 27], "c": [5, 28, 122]}
ERR["a"] = [28, 5, 13, 122]
TXT = ["user file\n", "", "#error old\n"]
OPTS = ["-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir"]


def rfault(r):
    k = r.random()
    if k < 0.74:
        c = r.choice("mmoowwwwrrcca")
        act = r.choice("ffffhkK" if c in "wr" else "fffkK")
        top = {"m": 7, "o": 12, "w": 16, "r": 5, "c": 12, "a": 45}[c]
        e = r.choice(ERR[c])
        # an endless row of EINTR is no fault a system shows
        return {"k": "op", "cls": c, "n": r.randint(1, top), "act": act, "err": e, "sticky": act in "fh" and e != 4 and r.random() < 0.4}
    if k < 0.84:
        return {"k": "fsize", "n": r.choice([0, 1, 10, 100, 500, 1000, 4096, 8192, r.randint(0, 20000)]), "kill": r.random() < 0.4}
    if k < 0.95:
        return {"k": "name", "pick": r.getrandbits(16), "how": r.choice(["dir", "full", "full", "dangling", "subfile", "sublink"])}
    if k < 0.97:
        return {"k": "dbcdir"}
    return {"k": "outfile", "deep": r.random() < 0.5}


def gen(r, tier):
    net = G.rich(r, nmsg=r.choice([0, 1, 2, 4]), overlap=0.1, empty=0.1)
    return {"net": net, "drv": r.choice(["drv", "Abc"]), "opts": [o for o in OPTS if r.random() < 0.25],
            "runs": [{"rw": r.random() < 0.55, "fault": rfault(r)} for _ in range(r.choice([1, 1, 1, 2, 3, 4]))],
            "pre": r.choice([0, 0, 1, 2]), "last": r.random() < 0.5}


def fixed_cases(tier):
    out = []
    for i in range(3 if tier == "quick" else 12):
        r = random.Random("C29/%d" % i)
        net = G.rich(r, nmsg=(0, 2, 5)[i % 3], overlap=0.1, nnodes=2)
        for rw in (False, True):
            for cls, acts in (("a", "fkK"), ("w", "fh"), ("r", "fh"), ("m", "f"), ("o", "f"), ("c", "f")):
                for act in acts:
                    for sticky in ((False, True) if act in "fh" else (False,)):
                        out.append({"net": net, "drv": "drv", "opts": ["-nodeutils"] if i % 2 else [], "sweep": {"cls": cls, "act": act, "err": ERR[cls][0], "sticky": sticky}, "rw": rw, "pre": i % 3, "last": rw})
    net = {"nodes": [], "msgs": [], "version": None}
    out.append({"net": net, "drv": "drv", "opts": [], "runs": [], "full": True, "pre": 0, "last": False})
    return out


def shim(ctx):
    so = os.path.join(ctx.scratch, "shim.so")
    if not os.path.exists(so):
        cdrv.write(os.path.join(ctx.scratch, "shim.c"), SHIM)
        rc, txt = cdrv.sh(["gcc", "-shared", "-fPIC", "-O1", "-w", "-D_FORTIFY_SOURCE=0", os.path.join(ctx.scratch, "shim.c"), "-o", so, "-ldl"])
        if rc:
            raise RuntimeError("cannot build the fault injector: " + txt[-1500:])
    return so


def tree(d):
    files, dirs = {}, set()
    for base, ds, fs in os.walk(d):
        for x in list(ds):
            p = os.path.join(base, x)
            if os.path.islink(p):
                files[os.path.relpath(p, d)] = b"link " + os.readlink(p).encode()
            else:
                dirs.add(os.path.relpath(p, d))
        for f in fs:
            p = os.path.join(base, f)
            files[os.path.relpath(p, d)] = b"link " + os.readlink(p).encode() if os.path.islink(p) else b"file " + cdrv.read(p)
    return files, dirs


def lastline(so):
    l = [x.strip() for x in so.decode("latin1").splitlines() if x.strip()]
    return l[-1] if l else ""


def launch(ctx, w, case, rw, env=None, pre=None, out="o", dbc="net.dbc"):
    argv = [ctx.exe, "-dbc", os.path.join(w, dbc), "-out", os.path.join(w, out), "-drvname", case["drv"]] + (["-rw"] if rw else []) + case["opts"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=w, env=e, preexec_fn=pre, restore_signals=pre is None)
    except subprocess.TimeoutExpired:
        raise Violation("the program does not end within 60 s")
    return p.returncode, p.stdout, p.stderr


class Run:
    """One disturbed (or undisturbed) run, checked."""

    def __init__(self, ctx, w, case, ref, done):
        self.ctx, self.w, self.case, self.ref, self.done = ctx, w, case, ref, done
        self.left = set()
        self.base = os.path.join("o", case["drv"]) if "-driverdir" in case["opts"] else "o"

    def go(self, rw, fault):
        ctx, w, case, ref = self.ctx, self.w, self.case, self.ref
        mark = os.path.join(os.path.dirname(w), "mark")
        if os.path.exists(mark):
            os.unlink(mark)
        env, pre, kw, undo, killer, hit = {}, None, {}, [], False, fault is not None
        k = fault["k"] if fault else ""
        if k == "op":
            env = {"LD_PRELOAD": shim(ctx), "FAULT": "%s:%d:%s:%d:%d" % (fault["cls"], fault["n"], fault["act"], fault["err"], fault["sticky"]), "FAULT_ROOT": w, "FAULT_MARK": mark}
            killer = fault["act"] in "kK"
        elif k == "fsize":
            n, killer = fault["n"], fault["kill"]

            def pre():
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if killer else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        elif k == "name":
            undo = self.occupy(fault, rw)
            hit = bool(undo)
        elif k == "dbcdir":
            os.mkdir(os.path.join(w, "dir.dbc"))
            undo.append(("rm", os.path.join(w, "dir.dbc")))
            kw["dbc"] = "dir.dbc"
        elif k == "outfile":
            kw["out"] = "note.txt/x" if fault["deep"] else "note.txt"
        files, dirs = tree(w)
        rc, so, se = launch(ctx, w, case, rw, env, pre, **kw)
        nf, nd = tree(w)
        if k == "op":
            hit = os.path.exists(mark)
        what = "run %s%s with %s" % ("-rw " if rw else "", " ".join(case["opts"]), describe_fault(fault))
        if rc < 0 and not killer or rc >= 128:
            raise Violation("%s: the program died (status %d): %s" % (what, rc, se[-200:].decode("latin1")))
        base = self.base if "out" not in kw else kw["out"]
        # where the package is
        target = base if rw else None
        if not rw:
            new = sorted(x for x in nd - dirs if os.path.dirname(x) == base)
            if len(new) > 1:
                raise Violation("%s: made the directories %s" % (what, new))
            if new:
                target = new[0]
                if not re.fullmatch(r"\d\d\d", os.path.basename(target)):
                    raise Violation("%s: made the directory %s" % (what, target))
        mine = {os.path.join(target, p) for p in ref} if target else set()
        for p in sorted(set(files) | set(nf)):
            if files.get(p) == nf.get(p) or p in mine and p in nf:
                continue
            if rc < 0 and p not in files and target and os.path.dirname(os.path.dirname(p)) == target:
                # what a killed run was about to put in place is its own business
                self.left.add(p)
                continue
            if p in self.left:
                continue
            raise Violation("%s: %s, a file which is no part of this package, %s" % (what, p, "was removed" if p not in nf else "was changed" if p in files else "was created"))
        lost = dirs - nd
        if lost:
            raise Violation("%s: the directory %s was removed" % (what, sorted(lost)[0]))
        okd = {base, os.path.dirname(base)} | ({target} | {os.path.join(target, x) for x in SUBS} if target else set())
        odd = nd - dirs - okd
        if odd:
            raise Violation("%s: made the directory %s" % (what, sorted(odd)[0]))
        complete = bool(target) and all(nf.get(os.path.join(target, p)) == t for p, t in ref.items())
        claims = rc == 0 or rc > 0 and lastline(so) == self.done
        if claims and not complete:
            bad = sorted(p for p, t in ref.items() if not target or nf.get(os.path.join(target, p)) != t)
            raise Violation("%s: the run ends with status %d and '%s' although the package is not complete: %s" % (what, rc, lastline(so)[:60], ", ".join(bad)[:160]))
        if not hit and not (rc == 0 and complete):
            raise Violation("%s: an undisturbed run ends with status %d, package %s: %s" % (what, rc, "complete" if complete else "not complete", se[-200:].decode("latin1")))
        for op, p, *a in reversed(undo):
            if op == "rm":
                if os.path.isdir(p) and not os.path.islink(p):
                    os.rmdir(p)
                else:
                    os.unlink(p)
            elif op == "mv":
                os.rename(a[0], p)
        return hit, (describe_kind(fault) if fault else "undisturbed") + ": " + ("not reached" if not hit else "killed" if rc < 0 else "reported" if rc else "survived, package complete")

    def occupy(self, fault, rw):
        """Puts an obstacle in the place of a file or directory of the package (-rw), or of the output directory."""
        w, undo = self.w, []
        r = random.Random(fault["pick"])
        base = os.path.join(w, self.base)
        side = os.path.join(os.path.dirname(w), "side%d" % r.getrandbits(30))
        if not rw:
            if "-driverdir" not in self.case["opts"] or os.path.lexists(base):
                return []
            if fault["how"] in ("dir", "full"):
                return []
            p = base
        elif fault["how"] in ("subfile", "sublink"):
            p = os.path.join(base, r.choice(SUBS))
        else:
            p = os.path.join(base, r.choice(sorted(self.ref)))
        q = os.path.dirname(p)
        if os.path.relpath(q, w) != "." and not os.path.isdir(q):
            todo = []
            while not os.path.isdir(q):
                todo.append(q)
                q = os.path.dirname(q)
            for q in reversed(todo):
                os.mkdir(q)
        if os.path.lexists(p):
            os.rename(p, side)
            undo.append(("mv", p, side))
        if fault["how"] == "dir":
            os.mkdir(p)
        elif fault["how"] == "full":
            os.symlink("/dev/full", p)
        elif fault["how"] in ("dangling", "sublink"):
            os.symlink(os.path.join(os.path.dirname(w), "nowhere", "x"), p)
        else:
            cdrv.write(p, b"in the way\n")
        undo.append(("rm", p))
        return undo


def describe_kind(f):
    if f["k"] == "op":
        return {"m": "mkdir", "o": "open", "w": "write", "r": "read", "c": "close", "a": "operation"}[f["cls"]] + {"f": " fails", "h": " is partial", "k": ": killed before", "K": ": killed after"}[f["act"]] + (" for good" if f["sticky"] else "")
    return {"fsize": "file size limit" + (" (killed)" if f.get("kill") else ""), "name": "occupied name", "dbcdir": "DBC unreadable", "outfile": "output directory is a file"}[f["k"]]


def describe_fault(f):
    if f is None:
        return "no disturbance"
    if f["k"] == "op":
        return describe_kind(f) + " at number %d (errno %d)" % (f["n"], f["err"])
    return describe_kind(f) + " " + ",".join("%s=%s" % x for x in sorted(f.items()) if x[0] != "k")


def run(case, ctx):
    d = ctx.fresh()
    # the tree is named by its contents, not by place
    w = os.path.join(d, "w")
    refd = os.path.join(d, "ref")
    os.makedirs(os.path.join(w, "o"))
    os.makedirs(os.path.join(refd, "o"))
    text = M.render(case["net"])
    for x in (w, refd):
        cdrv.write(os.path.join(x, "net.dbc"), text)
    cdrv.write(os.path.join(w, "note.txt"), b"a note\n")
    rc, so, se = launch(ctx, refd, case, True)
    if rc:
        raise Violation("an undisturbed run into an empty directory ends with status %d: %s" % (rc, se[-200:].decode("latin1")))
    base = os.path.join("o", case["drv"]) if "-driverdir" in case["opts"] else "o"
    ref = {os.path.relpath(p, base): t for p, t in tree(refd)[0].items() if p.startswith("o/")}
    low = case["drv"].lower()
    for need in ("lib/%s.h" % low, "lib/%s.c" % low, "lib/%s-fmon.h" % low):
        if need not in ref:
            raise Violation("a run into an empty directory ends with status 0 without writing %s" % need)
    done = lastline(so)
    # earlier contents: another package and user files
    if case["pre"]:
        other = dict(case, opts=[o for o in case["opts"] if o == "-driverdir"], net=None)
        cdrv.write(os.path.join(w, "net.dbc"), "BO_ 77 Old: 8 N\n SG_ Old1 : 0|8@1+ (1,0) [0|0] \"\" N\n")
        for k in range(case["pre"]):
            launch(ctx, w, other, k == 1)
        cdrv.write(os.path.join(w, "net.dbc"), text)
        for p in ("o/keep.txt", "o/lib/mine.c" if os.path.isdir(os.path.join(w, "o/lib")) else "o/mine.c"):
            cdrv.write(os.path.join(w, p), b"user file\n")
    R = Run(ctx, w, case, ref, done)
    hits, cls, units = 0, {}, 0
    if case.get("full"):
        for i in range(1000):
            os.mkdir(os.path.join(w, "o", "%03d" % i))
        files, dirs = tree(w)
        rc, so, se = launch(ctx, w, case, False)
        if tree(w) != (files, dirs):
            raise Violation("a run with no free directory name changed something")
        if rc == 0 or lastline(so) == done:
            raise Violation("a run which finds no free directory name ends with status %d and '%s'" % (rc, lastline(so)[:60]))
        for i in (500,):
            os.rmdir(os.path.join(w, "o", "%03d" % i))
        R.go(False, None)
        return {"units": 2, "counts": {"no free name": 1}, "nontrivial": True}
    if "sweep" in case:
        n, more = 0, True
        while more and n < 150:
            n += 1
            more, c = R.go(case["rw"], dict(case["sweep"], k="op", n=n))
            cls[c] = cls.get(c, 0) + 1
            hits += more
            units += 1
            if not case["rw"] and n % 50 == 49:
                for x in os.listdir(os.path.join(w, base)):
                    if re.fullmatch(r"\d\d\d", x):
                        shutil.rmtree(os.path.join(w, base, x))
        R.go(case["last"], None)
        return {"units": units, "counts": cls, "nontrivial": hits > 0}
    for st in case["runs"]:
        h, c = R.go(st["rw"], st["fault"])
        hits += h
        units += 1
        cls[c] = cls.get(c, 0) + 1
    R.go(case["last"], None)
    return {"units": units + 1, "counts": cls, "nontrivial": hits > 0}


def shrinks(case):
    if "sweep" in case:
        for n in list(range(1, 60)):
            yield {"net": case["net"], "drv": case["drv"], "opts": case["opts"], "runs": [{"rw": case["rw"], "fault": dict(case["sweep"], k="op", n=n)}], "pre": case["pre"], "last": case["last"]}
        return
    rs = case["runs"]
    for i in range(len(rs)):
        if len(rs) > 1:
            yield {**case, "runs": rs[:i] + rs[i + 1:]}
    for o in case["opts"]:
        yield {**case, "opts": [x for x in case["opts"] if x != o]}
    if case["pre"]:
        yield {**case, "pre": 0}
    yield from net_shrinks(case)
