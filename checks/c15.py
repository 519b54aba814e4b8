"""C15: the generator survives every input file (memory safety, termination, confinement)."""
import base64, glob, hashlib, os, random, re, shutil, signal, subprocess, time
from vlib import build as B, cdrv, gen as G, model as M
from vlib.cdrv import Inconclusive, Violation

ID = "C15"
VARIANTS = ["asan", "fuzz"]
COUNTS = {"quick": 2600, "thorough": 40000}
LIMIT_S = {"quick": 150, "thorough": 400}
MAXLINE = 500000
RULE = ("DBC files made by mutating valid networks with comments, tables and markers (tokens replaced by extreme numbers, quotes and line ends removed or added, lines cut, swapped, "
        "duplicated, bytes changed, runs of up to 400000 equal characters put in), by gluing DBC keywords and tokens at random, and of plain random bytes, with random subsets of all options and odd driver names, run through the "
        "real program built with AddressSanitizer and bounds checks, with a file-system snapshot before and after; then coverage-guided libFuzzer of main() in process with the same "
        "sanitizers. Non-trivial: the file contains at least one line the program recognises as a message or signal.")
ASSUMPTIONS = ["files have at most about 1 MB", "memory is not exhausted, the disk is writable"]
TECHNIQUE = "property-based testing and coverage-guided fuzzing (libFuzzer) of the sanitizer-built program: mutated valid DBC files, token soup and random bytes, with file-system snapshots and shrinking"
OPTS = ["-rw", "-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir", "-gendate"]
NUMS = ["0", "-1", "1", "7", "8", "9", "63", "64", "65", "127", "128", "255", "256", "257", "300", "511", "512", "513", "1023", "2047", "2048", "65535", "65536", "536870911", "536870912", "2147483647",
        "2147483648", "-2147483648", "4294967295", "4294967296", "-9223372036854775808", "9223372036854775807", "18446744073709551615", "18446744073709551616", "9" * 40, "0.1", "-0.0", "1e400", "1e-400",
        "-1e308", "nan", "inf", "", "0x10", "1.5.2", "--5", "1E", "1e9", "1e-9", "1e-10", "99999999999.5"]
TOKENS = ["BO_", "SG_", "CM_", "VAL_", "BA_", "BO_TX_BU_", "BU_:", "VERSION", "BA_DEF_", "VAL_TABLE_", "EV_", "SG_MUL_VAL_", "NS_ :", "BS_:", ":", ";", ",", "|", "@", "@1+", "@0-", "@1-", "@0+", "(", ")", "[", "]",
          '"', '"";', '" ', "(1,0)", "[0|0]", "M", "m0", "Vector__XXX", "name", "_", "GenMsgCycleTime", '"GenMsgCycleTime"', "<RollingCounter>", "<Checksum:XOR8:3>", "<Checksum::>", "<Checksum:",
          "\\", "//", "/*", "*/", "%s", "%n%n", "??/", "\t", "\r", "\x00", "\xff\xfe", "\xe9", "é", "../../x", "..", "/etc", "#define X", "'", "\x7f"]


def tokens(r):
    c = r.random()
    if c < 0.4:
        return r.choice(TOKENS)
    if c < 0.75:
        return r.choice(NUMS)
    if c < 0.8:
        return r.choice(TOKENS) * r.randint(2, 300)
    if c < 0.85:
        return "".join(chr(r.randint(32, 255)) for _ in range(r.randint(1, 60)))
    return r.choice(["sig", "msg", "abc", "A", "x1", "n" * r.randint(1, 400)])


def garbage_line(r):
    c = r.random()
    t = lambda: tokens(r)
    if c < 0.2:
        return "BO_ %s %s: %s %s" % (t(), t(), t(), t())
    if c < 0.5:
        return ' SG_ %s %s: %s|%s@%s%s (%s,%s) [%s|%s] "%s" %s' % (t(), r.choice(["", "M ", "m1 "]), t(), t(), r.choice("01x"), r.choice("+-x"), t(), t(), t(), t(), r.choice(["", "V", t()]), t())
    if c < 0.6:
        return 'CM_ %s %s %s "%s";' % (r.choice(["SG_", "BO_", "BU_", t()]), t(), t(), t())
    if c < 0.7:
        return "VAL_ %s %s %s ;" % (t(), t(), " ".join('%s "%s"' % (t(), t()) for _ in range(r.randint(0, 6))))
    if c < 0.76:
        return 'BA_ "GenMsgCycleTime" BO_ %s %s;' % (t(), t())
    if c < 0.82:
        return "BO_TX_BU_ %s : %s;" % (t(), ",".join(t() for _ in range(r.randint(0, 4))))
    if c < 0.86:
        return 'VERSION "%s.%s"' % (t(), t())
    return "".join(t() + r.choice(["", " ", " "]) for _ in range(r.randint(0, 25)))


def mutate(r, lines):
    k = r.random()
    if not lines:
        lines.append("")
    i = r.randrange(len(lines))
    l = lines[i]
    if k < 0.3:
        w = re.split(r"([^A-Za-z0-9_.+-]+)", l)
        j = r.randrange(len(w))
        w[j] = tokens(r)
        lines[i] = "".join(w)
    elif k < 0.4:
        # a number somewhere becomes extreme
        ms = list(re.finditer(r"-?\d+(\.\d+)?", l))
        if ms:
            m = r.choice(ms)
            lines[i] = l[:m.start()] + r.choice(NUMS) + l[m.end():]
    elif k < 0.5:
        p = r.randint(0, len(l))
        lines[i] = l[:p] + r.choice(TOKENS + ["\n", "\r\n", "\n\n", '"']) + l[p:]
    elif k < 0.6:
        p, q = sorted((r.randint(0, len(l)), r.randint(0, len(l))))
        lines[i] = l[:p] + l[q:]
    elif k < 0.66:
        del lines[i]
    elif k < 0.72:
        lines.insert(r.randint(0, len(lines)), l)
    elif k < 0.78:
        j = r.randrange(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
    elif k < 0.84:
        lines.insert(i, garbage_line(r))
    elif k < 0.88:
        lines[i] = l.replace('"', "")
    elif k < 0.91:
        if l:
            p = r.randrange(len(l))
            lines[i] = l[:p] + chr(r.randint(0, 255)) + l[p + 1:]
    elif k < 0.94:
        lines[i] = l * r.randint(2, 30)
    elif k < 0.97 and i + 1 < len(lines):
        lines[i:i + 2] = [l + lines[i + 1]]
    else:
        p = r.randint(0, len(l))
        lines[i] = l[:p] + r.choice(["a", "1", " ", '"', "_", "x:", "é"]) * r.randint(100, MAXLINE) + l[p:]


def longrun(r, lines, i=None, run=None):
    """A run of very many equal characters (or pairs) somewhere in a line."""
    i = r.randrange(len(lines)) if i is None else i
    l = lines[i]
    p = r.randint(0, len(l))
    x = run or r.choice([" ", "\t", "a", "1", ".", ",", ":", ";", "(", "\xe9", '"', "a ", "1,", '""', "x1", "_", "-", "%s", " :", "N,"])
    return lines[:i] + [l[:p] + x * (r.choice([3000, 20000, 100000, 400000]) // len(x)) + l[p:]] + lines[i + 1:]


def fixed_cases(tier):
    """A very long run inside every kind of statement."""
    out = []
    base = ['VERSION "1.2"', "BU_: N1 N2", "BO_ 5 M: 8 N1", ' SG_ s : 0|8@1+ (2,1) [0|0] "km/h" N2', "", "BO_TX_BU_ 5 : N1,N2;", 'CM_ SG_ 5 s "text <Checksum:XOR8:3>";', 'CM_ BO_ 5 "text";', 'BA_ "GenMsgCycleTime" BO_ 5 10;', 'VAL_ 5 s 1 "On" 0 "Off" ;']
    r = random.Random("C15/long")
    for i in range(len(base)):
        for k, x in enumerate([" ", "a", "1", ":", "."]):
            out.append({"lines": longrun(r, list(base), i, x), "opts": ["-rw", "-nodeutils"][:1 + (i + k) % 2], "drv": "drv"})
    return out


def gen(r, tier):
    c = r.random()
    if c < 0.75:
        net = G.rich(r, overlap=0.2, empty=0.1, nmsg=r.choice([1, 1, 2, 3, 5]))
        if r.random() < 0.3:
            for m in net["msgs"]:
                for s in m["sigs"]:
                    if r.random() < 0.3:
                        s["start"] = r.randint(0, 600)
                    if r.random() < 0.2:
                        s["len"] = r.choice([0, 1, 31, 32, 33, 64, 65, 100, 255, 256, 257])
        lines = M.render(net).split("\n")
        for _ in range(r.choice([0, 1, 1, 2, 3, 5, 10, 30])):
            mutate(r, lines)
    elif c < 0.93:
        lines = [garbage_line(r) for _ in range(r.choice([1, 2, 4, 8, 20, 60]))]
        for _ in range(r.choice([0, 0, 1, 3])):
            mutate(r, lines)
    else:
        n = r.choice([0, 1, 10, 100, 1000, 5000])
        lines = "".join(chr(r.choice([r.randint(0, 255), 34, 32, 10, 59, 58])) for _ in range(n)).split("\n")
    text = "\n".join(l.encode("utf-8").decode("latin-1") if r.random() < 0.5 else l.encode("latin-1", "replace").decode("latin-1") for l in lines)
    if r.random() < 0.15:
        text = text.replace("\n", "\r\n")
    if r.random() < 0.1:
        text = text[:r.randint(0, len(text))]
    lines = [l[:MAXLINE] for l in text[:100000].split("\n")]
    if r.random() < 0.05:
        lines = longrun(r, lines)
    opts = [o for o in OPTS if r.random() < 0.4]
    drv = r.choice(["drv", "drv", "Drv1", "_", "a b", "1x9", "x" * 60, "d-r.v", "äb", "../q", "%s%d", "a/b"])
    return {"lines": lines, "opts": opts, "drv": drv}


def snapshot(d, skip):
    out = {}
    for base, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if os.path.join(base, x) != skip]
        for x in dirs:
            out[os.path.join(base, x)] = "dir"
        for f in files:
            p = os.path.join(base, f)
            out[p] = hashlib.sha256(cdrv.read(p)).hexdigest()
    return out


def runner(ctx):
    """A copy of the program which an unprivileged user may run; tells whether to change user."""
    exe = os.path.join(ctx.scratch, "coderdbc")
    if not os.path.exists(exe):
        shutil.copyfile(ctx.exe, exe)
        os.chmod(exe, 0o755)
        os.chmod(ctx.scratch, 0o755)
        ctx.user = None
        if os.getuid() == 0:
            try:
                r = subprocess.run([exe], user=65534, group=65534, extra_groups=[], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode == 0:
                    ctx.user = 65534
            except (OSError, subprocess.SubprocessError):
                pass
    return exe


ENV = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:hard_rss_limit_mb=2500",
       "UBSAN_OPTIONS": "halt_on_error=1:exitcode=99:print_stacktrace=1", "LC_ALL": "C"}


def launch(ctx, exe, argv, cwd, timeout):
    kw = {}
    if getattr(ctx, "user", None) is not None:
        kw = dict(user=ctx.user, group=ctx.user, extra_groups=[])
    return subprocess.run([exe.encode()] + [a.encode("utf-8") for a in argv], cwd=cwd, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def data_of(case):
    if "b64" in case:
        return base64.b64decode(case["b64"])
    return "\n".join(l[:MAXLINE] for l in case["lines"]).encode("latin-1")


def summary(se):
    t = se.decode("latin1")
    l = [x for x in t.splitlines() if "ERROR:" in x or "runtime error" in x or "SUMMARY" in x or "what()" in x or "terminate" in x or "Assertion" in x]
    return " / ".join(l[:3])[:400] or t[-300:]


def run(case, ctx):
    d = ctx.fresh()
    exe = runner(ctx)
    deep = os.path.join(d, "a", "b", "c")
    out = os.path.join(deep, "out")
    os.makedirs(out)
    dbc = os.path.join(deep, "net.dbc")
    data = data_of(case)
    cdrv.write(dbc, data)
    for base, dirs, files in os.walk(d):
        os.chmod(base, 0o777)
    os.chmod(dbc, 0o666)
    before = snapshot(d, out)
    argv = ["-dbc", dbc, "-out", out, "-drvname", case["drv"]] + case["opts"]
    try:
        r = launch(ctx, exe, argv, deep, 12)
    except subprocess.TimeoutExpired:
        try:
            r = launch(ctx, exe, argv, deep, 40)
        except subprocess.TimeoutExpired:
            raise Violation("the generator does not end (more than 40 s) on a DBC file of %d bytes" % len(data))
    if r.returncode < 0 or r.returncode in (99, 134, 139) or b"ERROR: AddressSanitizer" in r.stderr or b"runtime error:" in r.stderr:
        if b"hard rss limit exhausted" in r.stderr:
            raise Violation("the generator needs more than 2.5 GB for a DBC file of %d bytes" % len(data))
        if b"failed to allocate" in r.stderr or r.returncode == -9:
            raise Inconclusive("memory: " + summary(r.stderr))
        raise Violation("the generator failed (status %d): %s" % (r.returncode, summary(r.stderr)))
    after = snapshot(d, out)
    if before != after:
        ch = sorted(set(before.items()) ^ set(after.items()))
        raise Violation("the run changed something outside the output directory: %s" % ", ".join(sorted(set(os.path.relpath(p, d) for p, _ in ch)))[:300])
    nt = b"BO_ " in data
    return {"units": 1, "nontrivial": nt, "classes": ["option " + o for o in case["opts"]] + (["with message line"] if nt else []) + (["status 0"] if r.returncode == 0 else ["reported failure"])}


def shrinks(case):
    if "b64" in case:
        yield {"lines": base64.b64decode(case["b64"]).decode("latin-1").split("\n"), "opts": case["opts"], "drv": case["drv"]}
        return
    ls = case["lines"]
    n = len(ls)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            if n > 1:
                yield dict(case, lines=ls[:i] + ls[i + k:])
        k //= 2
    for o in case["opts"]:
        yield dict(case, opts=[x for x in case["opts"] if x != o])
    if case["drv"] != "drv":
        yield dict(case, drv="drv")
    for i, l in enumerate(ls):
        k = len(l) // 2
        while k >= 1:
            for p in range(0, len(l), k):
                yield dict(case, lines=ls[:i] + [l[:p] + l[p + k:]] + ls[i + 1:])
            k //= 2


def describe(case):
    return {"opts": case["opts"], "drv": case["drv"], "lines": [l[:160] for l in case.get("lines", [])[:25]]}


# ------------------------------------------------------------------ coverage-guided campaign
TARGET = r"""
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
int coderdbc_main(int argc, char** argv);
// a run which reports a failure by exit() ends the run, not the campaign
static bool inside;
static jmp_buf back;
extern "C" [[noreturn]] void __real_exit(int);
extern "C" [[noreturn]] void __wrap_exit(int code) { if (inside) { inside = false; longjmp(back, 1); } __real_exit(code); }
static std::string base, dbc, out;
static const char* kOpts[] = {"-rw", "-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir", "-gendate"};
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  base = std::string(getenv("FUZZ_SCRATCH")) + "/p" + std::to_string(getpid());
  std::filesystem::create_directories(base + "/out"); dbc = base + "/net.dbc"; out = base + "/out";
  int n = open("/dev/null", O_WRONLY); dup2(n, 1); return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  static int runs;
  if (n < 1) return 0;
  std::string text; size_t col = 0;
  for (size_t i = 1; i < n; i++) { if (d[i] == '\n') col = 0; else if (++col > 2000) continue; text += (char)d[i]; }
  FILE* f = fopen(dbc.c_str(), "wb"); if (!f) abort(); fwrite(text.data(), 1, text.size(), f); fclose(f);
  if (++runs % 256 == 0) { std::filesystem::remove_all(out); std::filesystem::create_directories(out); }
  std::vector<std::string> a = {"coderdbc", "-dbc", dbc, "-out", out, "-drvname", "drv", "-rw"};
  for (int k = 1; k < 7; k++) if (d[0] >> k & 1) a.push_back(kOpts[k]);
  std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]);
  int fd = dup(0); close(fd);
  inside = true;
  if (!setjmp(back)) coderdbc_main((int)v.size(), v.data());
  else for (int k = fd; k < fd + 8; k++) close(k);
  inside = false;
  return 0;
}
"""


def fuzzer(ctx):
    bd = ctx.bins[1]
    exe = os.path.join(bd, "fuzz15-" + hashlib.sha256(TARGET.encode()).hexdigest()[:12])
    if os.path.exists(exe):
        return exe
    objs = sorted(glob.glob(os.path.join(bd, "CMakeFiles", "coderdbc.dir", "**", "*.o"), recursive=True))
    w = os.path.join(ctx.scratch, "fz")
    os.makedirs(w, exist_ok=True)
    use = []
    for i, o in enumerate(objs):
        if os.path.basename(o).startswith("maincli"):
            n = os.path.join(w, "main.o")
            # C++ 'main' stays unmangled, the target declares it as an ordinary C++ function
            subprocess.run(["objcopy", "--redefine-sym", "main=_Z13coderdbc_mainiPPc", o, n], check=True)
            o = n
        use.append(o)
    cdrv.write(os.path.join(w, "t.cpp"), TARGET)
    tmp = os.path.join(w, "fuzz")
    rc, txt = cdrv.sh(["clang++", "-std=c++17", "-O1", "-g", "-fsanitize=fuzzer,address,bounds,null,alignment,vla-bound,return,unreachable", "-fno-sanitize-recover=all", "-Wl,--wrap=exit",
                       os.path.join(w, "t.cpp")] + use + ["-o", tmp], timeout=300)
    if rc:
        raise RuntimeError("cannot link the fuzz target: " + txt[-2000:])
    shutil.move(tmp, exe + ".%d" % os.getpid())
    os.rename(exe + ".%d" % os.getpid(), exe)
    return exe


def extra(ctx, tier, seed):
    exe = fuzzer(ctx)
    w = os.path.join(ctx.scratch, "fuzz")
    os.makedirs(os.path.join(w, "seeds"))
    r = random.Random("C15fuzz/%d" % seed)
    for i in range(96):
        if i % 3 == 2:
            t = "\n".join(garbage_line(r) for _ in range(8)).encode("utf-8")
        else:
            t = M.render(G.rich(r, overlap=0.2, nmsg=r.choice([1, 1, 2]))).encode("utf-8")
        cdrv.write(os.path.join(w, "seeds", "s%d" % i), bytes([r.randrange(256)]) + t[:6000])
    with open(os.path.join(w, "dict"), "w") as f:
        for t in sorted(set(TOKENS + NUMS)):
            if 0 < len(t) < 40:
                f.write('"%s"\n' % "".join("\\x%02x" % b for b in t.encode("utf-8")))
    secs = int((20 if tier == "quick" else 260) * min(1.0, float(os.environ.get("VERIF_SCALE", "1"))))
    shm = os.path.join(w, "scratch")
    os.makedirs(shm)
    env = dict(ENV, FUZZ_SCRATCH=shm)
    for base, dirs, files in os.walk(w):
        os.chmod(base, 0o777)
        for f in files:
            os.chmod(os.path.join(base, f), 0o644)
    kw = {}
    runner(ctx)
    local = os.path.join(ctx.scratch, "fuzz15")
    shutil.copyfile(exe, local)
    os.chmod(local, 0o755)
    if getattr(ctx, "user", None) is not None:
        kw = dict(user=ctx.user, group=ctx.user, extra_groups=[])
    procs = []
    for k in range(8):
        c = os.path.join(w, "corpus%d" % k)
        os.makedirs(c)
        os.chmod(c, 0o777)
        art = os.path.join(w, "art%d-" % k)
        lg = open(os.path.join(w, "log%d" % k), "wb")
        procs.append((subprocess.Popen([local, c, os.path.join(w, "seeds"), "-seed=%d" % (seed * 100 + k + 1), "-max_total_time=%d" % secs, "-max_len=8192", "-timeout=60", "-rss_limit_mb=3000",
                                        "-dict=" + os.path.join(w, "dict"), "-artifact_prefix=" + art, "-print_final_stats=1", "-len_control=0", "-detect_leaks=0"],
                                       cwd=w, env=env, stdin=subprocess.DEVNULL, stdout=lg, stderr=lg, **kw), lg))
    end = time.time() + secs + 120
    for p, lg in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        lg.close()
    execs, cov, oom = 0, 0, 0
    for k in range(8):
        log = cdrv.read(os.path.join(w, "log%d" % k)).decode("latin1")
        m = re.search(r"stat::number_of_executed_units: (\d+)", log)
        if m:
            execs += int(m.group(1))
        for m in re.finditer(r"cov: (\d+)", log):
            cov = max(cov, int(m.group(1)))
    if execs == 0 and not glob.glob(os.path.join(w, "art*")):
        raise RuntimeError("the fuzzer did not run: " + cdrv.read(os.path.join(w, "log0")).decode("latin1")[-800:])
    for a in sorted(glob.glob(os.path.join(w, "art*"))):
        if "-oom-" in a or "-slow-unit" in a:
            oom += 1
            continue
        raw = cdrv.read(a)
        if not raw:
            continue
        text = b"\n".join(l[:MAXLINE] for l in raw[1:].split(b"\n"))
        case = {"b64": base64.b64encode(text).decode(), "opts": ["-rw"] + [o for k, o in enumerate(OPTS) if k and raw[0] >> k & 1], "drv": "drv"}
        try:
            run(case, ctx)
        except Violation as e:
            v = Violation(str(e))
            v.case = case
            raise v
        except Inconclusive:
            pass
    return {"fuzz_executions": execs, "fuzz_edges_covered": cov, "fuzz_seconds": secs, "fuzz_memory_artifacts": oom}
