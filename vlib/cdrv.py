"""Runs the generator on a network and executes the generated C driver through a dumb,
table-less C harness (set fields / call / print fields).  The oracle lives in Python."""
import os, shutil, subprocess, tempfile
from . import model as M


class Violation(Exception):
    """The property under check does not hold for this case."""


class Inconclusive(Exception):
    """The machinery could not decide this case (time-out of a helper, ...)."""


class Ctx:
    """Per-worker context: binaries and a private scratch directory."""

    def __init__(self, bindir, scratch):
        self.exe = os.path.join(bindir, "coderdbc")
        self.scratch = scratch
        self.n = 0

    def fresh(self):
        self.n += 1
        d = os.path.join(self.scratch, "c%d" % (self.n % 4))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d


def write(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))


def read(path):
    with open(path, "rb") as f:
        return f.read()


def run_gen(ctx, argv, timeout=60, cwd=None, env=None, exe=None):
    try:
        r = subprocess.run([exe or ctx.exe] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
    except subprocess.TimeoutExpired:
        raise Inconclusive("generator time-out")
    return r.returncode, r.stdout, r.stderr


def generate(ctx, dbctext, d, drv="drv", opts=("-rw",), fname="net.dbc"):
    """Writes the DBC under d, runs the generator into d/out; returns d/out."""
    dbc = os.path.join(d, fname)
    write(dbc, dbctext)
    out = os.path.join(d, "out")
    os.makedirs(out, exist_ok=True)
    rc, so, se = run_gen(ctx, ["-dbc", dbc, "-out", out, "-drvname", drv] + list(opts))
    if rc < 0 or rc >= 128:
        raise Violation("generator died (status %d) on a valid DBC: %s" % (rc, se[-300:].decode("latin1")))
    return out


CONF = """#pragma once
#include <stdint.h>
typedef %(sf)s sigfloat_t;
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[64]; uint8_t guard[16]; uint8_t IDE; } __CoderDbcCanFrame_t__;
typedef uint%(xt)d_t ubitext_t;
typedef int%(xt)d_t bitext_t;
#ifdef __cplusplus
extern "C" {
#endif
uint32_t h_tick(void);
uint32_t h_hash(const uint8_t* d, uint32_t len, uint32_t id, int method, int opt);
#ifdef __cplusplus
}
#endif
#define GetSystemTick() h_tick()
#define GetFrameHash(a,b,c,d,e) h_hash((a),(b),(c),(d),(e))
%(enums)s
"""

PRE = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
static uint32_t g_tick; static uint32_t g_mask = 0xFF; static int g_hashes; static char g_hbuf[4096];
uint32_t h_tick(void) { return g_tick; }
uint32_t h_hash(const uint8_t* d, uint32_t len, uint32_t id, int method, int opt) {
  uint32_t h = 2166136261u; uint32_t i; char* p = g_hbuf;
  for (i = 0; i < len; i++) { h = (h ^ d[i]) * 16777619u; }
  h = (h ^ id) * 16777619u; h = (h ^ (uint32_t)method) * 16777619u; h = (h ^ (uint32_t)opt) * 16777619u;
  h ^= h >> 16; h ^= h >> 8;
  g_hashes++;
  p += sprintf(p, " hash %u %u %d %d ", len, id, method, opt);
  for (i = 0; i < len && i < 64; i++) p += sprintf(p, "%02x", d[i]);
  return h & g_mask;
}
#define PRT(x) do { if (((__typeof__((x)+0))-1) < 0) printf(" %lld", (long long)(x)); else printf(" %llu", (unsigned long long)(x)); } while (0)
#define PRD(x) printf(" %a", (double)(x))
static unsigned char* g_end; /* end of readable memory, next page is inaccessible */
static void h_init(void) {
  unsigned char* p = (unsigned char*)mmap(0, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) exit(99);
  mprotect(p + 2 * 4096, 4096, PROT_NONE); mprotect(p, 4096, PROT_NONE);
  g_end = p + 2 * 4096;
}
static unsigned long long sv(void) { char* s = strtok(NULL, " \n"); if (!s) exit(98); return s[0] == '-' ? (unsigned long long)strtoll(s, 0, 10) : strtoull(s, 0, 10); }
static double sd(void) { char* s = strtok(NULL, " \n"); if (!s) exit(98); return strtod(s, 0); }
static unsigned hexbuf(uint8_t* o, const char* s) { unsigned n = 0; if (s[0] == '-') return 0; while (s[0] && s[1]) { char t[3]; t[0] = s[0]; t[1] = s[1]; t[2] = 0; o[n++] = (uint8_t)strtoul(t, 0, 16); s += 2; } return n; }
static int h_calls, h_kind; static uint32_t h_id; static const void* h_mon;
"""


def needs_ext64(net):
    return any(s["signed"] and s["len"] > 32 for m in net["msgs"] for s in m["sigs"])


def drvnames(drv):
    return drv, drv.lower(), drv.upper()


def defines(drv, cfg):
    D = drv.upper()
    fl = []
    for k, n in (("bits", "USE_BITS_SIGNAL"), ("canstruct", "USE_CANSTRUCT"), ("sigfloat", "USE_SIGFLOAT"),
                 ("mon", "USE_DIAG_MONITORS"), ("mono", "USE_MONO_FMON"), ("roll", "AUTO_ROLL"), ("csm", "AUTO_CSM")):
        if cfg.get(k):
            fl.append("-D%s_%s" % (D, n))
    if cfg.get("initbyte") is not None:
        fl.append("-D%s_INITIAL_BYTE_VALUE=%dU" % (D, cfg["initbyte"]))
    if cfg.get("maxdlc") is not None:
        fl.append("-D%s_MAX_DLC_VALUE=%dU" % (D, cfg["maxdlc"]))
    return fl


def live(net):
    """Messages the harness drives (all that have code, or those named by "only")."""
    return [m for m in net["msgs"] if m["sigs"] and valid(m) and m["name"] in net.get("only", [m["name"]])]


def valid(m):
    rid = m.get("rawid", M.raw_id(m))
    return 0 <= rid <= 0xFFFFFFFF and (rid & 0x60000000) == 0 and 1 <= m["dlc"] <= 64


def harness(net, drv, cfg, receive=None):
    """receive: None or dict(prefix=..., header=..., rx=[msg indices], tx=[...])."""
    o, lo, up = drvnames(drv)
    ms = live(net)
    sf = cfg.get("sigfloat")
    out = ["#define _GNU_SOURCE 1", '#include "%s.c"' % lo]
    if receive:
        out.append('#include "%s"' % receive["source"])
    out.append(PRE)
    if cfg.get("mon"):
        out.append("static FrameMonitor_t h_snap; static int snap_ok(const FrameMonitor_t* m) { return h_snap.last_cycle == m->last_cycle && h_snap.frame_cnt == m->frame_cnt && h_snap.roll_error == m->roll_error && h_snap.csm_error == m->csm_error && h_snap.dlc_error == m->dlc_error && h_snap.timeout_cycle == m->timeout_cycle && h_snap.cycle_error == m->cycle_error; }")
        if cfg.get("mono"):
            out.append("void _FMon_MONO_%s(FrameMonitor_t* m, uint32_t id) { h_calls++; h_kind = -1; h_id = id; h_mon = m; h_snap = *m; }" % lo)
        else:
            for k, m in enumerate([m for m in net["msgs"] if valid(m)]):
                out.append("void _FMon_%s_%s(FrameMonitor_t* m, uint32_t id) { h_calls++; h_kind = %d; h_id = id; h_mon = m; h_snap = *m; }"
                           % (m["name"], lo, k))
    for k, m in enumerate(ms):
        n = m["name"]
        out.append("static %s_t s%d;" % (n, k))
        out.append("static void set%d(%s_t* p) {" % (k, n))
        for s in m["sigs"]:
            out.append("  { unsigned long long v = sv(); p->%s = v; }" % M.field(s))
        if sf:
            for s in m["sigs"]:
                if not M.is_simple(s):
                    pf = M.phys_field(s)
                    if M.is_double(s):
                        out.append("  p->%s = (sigfloat_t)sd();" % pf)
                    else:
                        out.append("  { unsigned long long v = sv(); p->%s = v; }" % pf)
        out.append("}")
        out.append("static void get%d(const %s_t* p) {" % (k, n))
        out.append('  printf(" f");')
        for s in m["sigs"]:
            out.append("  PRT(p->%s);" % M.field(s))
        if sf:
            out.append('  printf(" p");')
            for s in m["sigs"]:
                if not M.is_simple(s):
                    out.append("  %s(p->%s);" % ("PRD" if M.is_double(s) else "PRT", M.phys_field(s)))
        if cfg.get("mon"):
            out.append('  printf(" m %u %u %u %u %u %u", p->mon1.last_cycle, p->mon1.frame_cnt, p->mon1.roll_error, p->mon1.csm_error, p->mon1.cycle_error, p->mon1.dlc_error);')
        out.append("}")
        out.append("static void pack%d(uint8_t stale) {" % k)
        if cfg.get("canstruct"):
            out.append("""  unsigned i; int ok = 1; uint32_t r; __CoderDbcCanFrame_t__ c; memset(&c, stale, sizeof c);
  r = Pack_%s_%s(&s%d, &c);
  for (i = %d; i < 64; i++) if (c.Data[i] != stale) ok = 0;
  for (i = 0; i < 16; i++) if (c.guard[i] != stale) ok = 0;
  printf(" %%u %%u %%u %%u %%d ", r, c.DLC, c.IDE, c.MsgId, ok); for (i = 0; i < %d; i++) printf("%%02x", c.Data[i]);"""
                       % (n, o, k, m["dlc"], m["dlc"]))
        else:
            out.append("""  unsigned i; int ok = 1; uint32_t r; uint8_t len = 0xEE, ide = 0xEE; uint8_t* d = g_end - %d;
  memset(g_end - 256, stale, 256);
  r = Pack_%s_%s(&s%d, d, &len, &ide);
  for (i = 1; i <= 128; i++) if (d[-(int)i] != stale) ok = 0;
  printf(" %%u %%u %%u %%u %%d ", r, len, ide, r, ok); for (i = 0; i < %d; i++) printf("%%02x", d[i]);"""
                       % (m["dlc"], n, o, k, m["dlc"]))
        out.append("  get%d(&s%d);" % (k, k))
        out.append("}")
        out.append("static void unp%d(uint8_t* b, unsigned n, unsigned dlc) { uint8_t* d = g_end - n; uint32_t r; memcpy(d, b, n); r = Unpack_%s_%s(&s%d, d, (uint8_t)dlc); printf(\" %%u\", r); get%d(&s%d); }"
                   % (k, n, o, k, k, k))
    if receive:
        rx = receive["rx"]
        out.append("static %s_rx_t RX, RY;" % receive["prefix"])
        out.append("static void recv(uint32_t id, uint8_t* b, unsigned n, unsigned dlc) { uint8_t* d = g_end - n; uint32_t r, r2; memcpy(d, b, n);")
        out.append("  memset(&RX, 0xA5, sizeof RX); memset(&RY, 0x5A, sizeof RY); r = %s_Receive(&RX, d, id, (uint8_t)dlc); r2 = %s_Receive(&RY, d, id, (uint8_t)dlc);" % (receive["prefix"], receive["prefix"]))
        out.append('  printf(" %u %u c", r, r2);')
        for k in rx:
            n = ms[k]["name"]
            out.append("  { static %s_t A, B; memset(&A, 0xA5, sizeof A); memset(&B, 0x5A, sizeof B); if (memcmp(&A, &RX.%s, sizeof A) || memcmp(&B, &RY.%s, sizeof B)) { printf(\" %d\"); } }" % (n, n, n, k))
        out.append("  printf(\" g\");")
        for k in rx:
            n = ms[k]["name"]
            out.append("  if (r == %s_CANID && id == r) { get%d(&RX.%s); }" % (n, k, n))
        out.append("}")
    out.append("""
int main(void) {
  static char line[1 << 16]; static uint8_t b[4096];
  h_init();
  while (fgets(line, sizeof line, stdin)) {
    char op = line[0]; unsigned k; char* t = strtok(line, " \\n"); (void)t;
    if (op == 'T') { g_tick = (uint32_t)sv(); continue; }
    if (op == 'K') { g_mask = (uint32_t)sv(); continue; }
    k = (unsigned)sv(); h_calls = 0; h_kind = -9; h_mon = 0; h_id = 0; g_hashes = 0; g_hbuf[0] = 0;
    printf("%c", op);
    switch (op) {""")

    def per(fmt):
        return "switch (k) {" + " ".join("case %d: %s break;" % (k, fmt.replace("@", str(k))) for k in range(len(ms))) + "}"
    out.append("    case 'Z': %s break;" % per("memset(&s@, 0, sizeof s@);"))
    out.append("    case 'F': %s break;" % per("memset(&s@, 0xA5, sizeof s@);"))
    out.append("    case 'G': %s break;" % per("get@(&s@);"))
    out.append("    case 'S': %s break;" % per("set@(&s@);"))
    out.append("    case 'P': { uint8_t st = (uint8_t)sv(); %s } break;" % per("pack@(st);"))
    out.append("    case 'U': { unsigned dlc = (unsigned)sv(); char* h = strtok(NULL, \" \\n\"); unsigned n = hexbuf(b, h); %s } break;" % per("unp@(b, n, dlc);"))
    if receive:
        out.append("    case 'R': { unsigned dlc = (unsigned)sv(); char* h = strtok(NULL, \" \\n\"); unsigned n = hexbuf(b, h); recv(k, b, n, dlc); } break;")
    if cfg.get("mon"):
        mon = per("ok = (h_mon == (const void*)&s@.mon1) ? 1 + snap_ok(&s@.mon1) : 0;")
        out.append('    }\n    if (op == \'U\') { int ok = 0; %s printf(" h %%d %%d %%u %%d", h_calls, h_kind, h_id, ok); }' % mon)
    else:
        out.append("    }")
    out.append('    if (g_hashes) printf("%s x %d", g_hbuf, g_hashes);')
    out.append('    printf("\\n");')
    out.append("  }\n  return 0;\n}")
    return "\n".join(out) + "\n"


def conf_text(net, cfg):
    names = []
    for n in net.get("methods", []):
        if n not in names:
            names.append(n)
    enums = "enum { " + ", ".join("%s = %d" % (n, 3 + 4 * i) for i, n in enumerate(names)) + " };" if names else ""
    return CONF % dict(sf=cfg.get("sigfloat_t", "double"), xt=64 if (cfg.get("ext64") or needs_ext64(net)) else 32, enums=enums)


def prep_conf(out, d, net, cfg, name="myconf"):
    """Directory with the user's own dbccodeconf.h (it replaces the generated template);
    <drv>-config.h stays as generated."""
    cdir = os.path.join(d, name)
    os.makedirs(cdir, exist_ok=True)
    write(os.path.join(cdir, "dbccodeconf.h"), conf_text(net, cfg))
    gconf = os.path.join(out, "conf")
    for f in os.listdir(gconf) if os.path.isdir(gconf) else []:
        if f != "dbccodeconf.h":
            shutil.copyfile(os.path.join(gconf, f), os.path.join(cdir, f))
    return cdir


def sh(cmd, timeout=120, what="compiler", **kw):
    """-> (rc, output text)"""
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise Inconclusive(what + " time-out")
    txt = r.stdout.decode("latin1")
    if r.returncode and ("No space left" in txt or "out of memory" in txt or "Killed" in txt):
        raise Inconclusive("%s resources: %s" % (what, txt[-200:]))
    return r.returncode, txt


def errors(txt):
    e = [l for l in txt.splitlines() if "error" in l or "undefined" in l or "multiple definition" in l]
    return " / ".join((e or txt.splitlines()[-3:])[:3])


def macros(incs, header, pre="dbccodeconf.h", defs=()):
    """Object- and function-like macros that 'header' defines -> {name: text}."""
    res = []
    for h in (pre, header):
        rc, txt = sh(["gcc", "-E", "-dM", "-x", "c"] + ["-I" + i for i in incs] + list(defs) + ["-include", "stdint.h"] + (["-include", pre] if pre else []) + ["-include", h, "/dev/null"])
        if rc:
            raise Violation("%s cannot be preprocessed: %s" % (h, errors(txt)))
        res.append(dict((l.split(" ", 2) + [""])[1:3] for l in txt.splitlines() if l.startswith("#define ")))
    return {k: v for k, v in res[1].items() if res[0].get(k) != v}


def compile_harness(ctx, net, out, d, drv="drv", cfg=None, receive=None, extra=(), name="h"):
    cfg = cfg or {}
    cpp = cfg.get("lang") == "cpp"
    src = os.path.join(d, name + (".cpp" if cpp else ".c"))
    cdir = prep_conf(out, d, net, cfg)
    write(src, harness(net, drv, cfg, receive))
    cc = cfg.get("cc", "gcc")
    comp = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cc][cpp]
    std = "-std=gnu++17" if cpp else "-std=gnu11"
    exe = os.path.join(d, name)
    cmd = [comp, std, "-w", cfg.get("opt", "-O0"), "-I", cdir, "-I", out + "/lib",
           "-I", out + "/inc", "-I", out + "/butl"] + defines(drv, cfg) + list(extra) + [src, "-o", exe]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        raise Inconclusive("compiler time-out")
    if r.returncode:
        txt = r.stdout.decode("latin1")
        if "No space left" in txt or "out of memory" in txt or "Killed" in txt:
            raise Inconclusive("compiler resources: " + txt[-200:])
        errs = [l for l in txt.splitlines() if "error" in l]
        raise Violation("generated driver does not compile (%s %s): %s" % (comp, " ".join(defines(drv, cfg)), " / ".join(errs[:3])))
    return exe


def execute(exe, ops, timeout=60):
    try:
        r = subprocess.run([exe], input="\n".join(ops).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("driver time-out")
    lines = r.stdout.decode("latin1").splitlines()
    if r.returncode in (98, 99):
        raise RuntimeError("harness protocol error %d" % r.returncode)
    if r.returncode:
        raise Violation("generated driver died with status %d (out-of-bounds access) at operation: %s"
                        % (r.returncode, ([o for o in ops if o[0] not in "TK"] + ["?"])[min(len(lines), len(ops))][:200] if lines else ops[0][:200]))
    return lines


class Rec:
    """Parsed harness answer."""
    __slots__ = ("op", "ret", "len", "ide", "mid", "ok", "data", "f", "p", "m", "h", "hash", "nh", "r2", "chg", "raw")

    def __init__(self, line):
        self.raw = line
        t = line.split()
        self.op = t[0]
        i = 1
        self.f = self.p = self.m = self.h = self.hash = None
        self.nh = 0
        if self.op == "P":
            self.ret, self.len, self.ide, self.mid, self.ok = (int(x) for x in t[1:6])
            self.data = bytes.fromhex(t[6])
            i = 7
        elif self.op == "U":
            self.ret = int(t[1])
            i = 2
        elif self.op == "R":
            self.ret, self.r2 = int(t[1]), int(t[2])
            j = t.index("g")
            self.chg = [int(x) for x in t[4:j]]
            i = j + 1
        sec = None
        while i < len(t):
            w = t[i]
            if w in ("f", "p", "m", "h", "hash", "x"):
                sec = w
                if sec == "x":
                    self.nh = int(t[i + 1])
                    i += 1
                else:
                    setattr(self, sec, [])
            else:
                getattr(self, sec).append(w)
            i += 1
        if self.f is not None:
            self.f = [int(x) for x in self.f]
        if self.m is not None:
            self.m = [int(x) for x in self.m]
        if self.h is not None:
            self.h = [int(x) for x in self.h]


def num(tok):
    return float.fromhex(tok) if "x" in tok or "n" in tok else int(tok)
