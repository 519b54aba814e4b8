"""C26: driver calls on different objects never disturb each other."""
import os, random, re
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import rnd_cfg, net_shrinks

ID = "C26"
COUNTS = {"quick": 700, "thorough": 4000}
RULE = ("random networks with counters, checksums, scaled, signed and wide signals and random switches; for random pairs of calls (Pack, Unpack, Receive; "
        "same or different message, two sets of objects) the first call is single-stepped (x86 trap flag) and the second one is made from inside the trap "
        "handler, (a) after every single instruction of the first call and (b) after one random instruction; both calls must leave exactly the objects, "
        "buffers and return values that they leave when run one after the other, in either order. Non-trivial: at least one pair was interrupted at 20 or "
        "more points.")
ASSUMPTIONS = ["the user's hooks are themselves reentrant", "one processor's view: the interrupting call runs to completion between two instructions"]

TEXT = r"""#include "%(low)s.h"
#include "%(low)s-binutil.h"
#include <stdio.h>
#define MASK 7u
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <ucontext.h>
#ifdef __cplusplus
extern "C" {
#endif
uint32_t h_tick(void) { return 77; }
uint32_t h_hash(const uint8_t* d, uint32_t len, uint32_t id, int method, int opt) {
  uint32_t h = 2166136261u ^ id ^ (uint32_t)method ^ (uint32_t)opt, i;
  for (i = 0; i < len; i++) h = (h ^ d[i]) * 16777619u;
  return (h ^ (h >> 16)) & MASK;
}
%(hooks)s
#ifdef __cplusplus
}
#endif
struct Side { uint8_t guard0[16]; uint8_t data[96]; uint8_t len, ide; __CoderDbcCanFrame_t__ cf; uint32_t ret; %(members)s %(pre)s_rx_t rx; uint8_t guard1[16]; };
static struct Side cur[2], init[2], ref[2];
static uint8_t in[2][64]; static const uint8_t in0[2][64] = {{0}};
static uint8_t inref[2][64];
static int op[2], k_[2]; static unsigned dlc[2];
static void call(int s) {
  struct Side* c = &cur[s];
  switch (op[s] * 10000 + k_[s]) {
%(cases)s
  case 20000: c->ret = %(pre)s_Receive(&c->rx, in[s], rid[s], (uint8_t)dlc[s]); break;
  }
}
static void prep(int s) {
  struct Side* c = &cur[s]; memset(c, 0, sizeof *c);
  /* the frame to be packed into holds old bytes */
  memset(c->data, 0xB7, sizeof c->data); memset(&c->cf, 0xB7, sizeof c->cf);
  if (op[s] == 2) { %(pre)s_Receive(&c->rx, pre[s], rid[s], 64); }
  else switch (k_[s]) {
%(preps)s
  }
}
static volatile long steps, at, limit; static volatile int mode, bad1;
static void second(void) { memcpy(&cur[1], &init[1], sizeof cur[1]); call(1); if (memcmp(&cur[1], &ref[1], sizeof cur[1])) bad1 = 1; }
static void trap(int sig, siginfo_t* si, void* u) {
  (void)sig; (void)si;
  steps++;
  if (steps > limit) { static const char t[] = "HANG\n"; fflush(stdout); if (write(1, t, 5)) {} _exit(0); }
  if (mode == 1) second();
  else if (mode == 2 && steps == at) {
    second();
#ifdef __x86_64__
    ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
#endif
  }
  (void)u;
}
static void first(void) {
#ifdef __x86_64__
  __asm__ volatile("pushfq; orq $0x100,(%%%%rsp); popfq" ::: "memory", "cc");
#endif
  call(0);
#ifdef __x86_64__
  __asm__ volatile("pushfq; andq $~0x100,(%%%%rsp); popfq" ::: "memory", "cc");
#endif
}
static int check(const char* what, long where) {
  int b = 0;
  if (memcmp(&cur[0], &ref[0], sizeof cur[0])) b |= 1;
  if (memcmp(&cur[1], &ref[1], sizeof cur[1]) || bad1) b |= 2;
  if (memcmp(in, inref, sizeof in)) b |= 4;
  if (b) { printf("BAD %%s at %%ld: %%s%%s%%s\n", what, where, b & 1 ? "first call differs " : "", b & 2 ? "second call differs " : "", b & 4 ? "input frame changed" : ""); fflush(stdout); }
  return b;
}
static void reset(int m, long a, long l) { memcpy(cur, init, sizeof cur); mode = m; at = a; limit = l; steps = 0; bad1 = 0; }
static unsigned hexbuf(uint8_t* o, const char* s) { unsigned n = 0; while (s[0] && s[1]) { char t[3]; t[0] = s[0]; t[1] = s[1]; t[2] = 0; o[n++] = (uint8_t)strtoul(t, 0, 16); s += 2; } return n; }
int main(void) {
  static char line[4096]; struct sigaction sa; long n, i; (void)in0;
  memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
  while (fgets(line, sizeof line, stdin)) {
    int s, points; unsigned seed; char* t = strtok(line, " \n");
    (void)t;
    for (s = 0; s < 2; s++) {
      op[s] = atoi(strtok(NULL, " \n")); k_[s] = atoi(strtok(NULL, " \n")); rid[s] = (uint32_t)strtoul(strtok(NULL, " \n"), 0, 10); dlc[s] = (unsigned)atoi(strtok(NULL, " \n"));
      memset(in[s], 0, 64); memset(pre[s], 0, 64);
      hexbuf(in[s], strtok(NULL, " \n")); hexbuf(pre[s], strtok(NULL, " \n"));
      if (op[s] == 2) k_[s] = 0;
    }
    memcpy(inref, in, sizeof in);
    points = atoi(strtok(NULL, " \n")); seed = (unsigned)strtoul(strtok(NULL, " \n"), 0, 10);
    prep(0); prep(1); memcpy(init, cur, sizeof cur);
    reset(0, 0, 1 << 30); call(0); call(1); memcpy(ref, cur, sizeof cur);
    /* again, and in the other order: nothing but the arguments matters */
    reset(0, 0, 1 << 30); call(0); call(1); if (check("repetition", 0)) return 0;
    reset(0, 0, 1 << 30); call(1); call(0); if (check("other order", 0)) return 0;
    reset(0, 0, 1 << 24); first(); n = steps; call(1); if (check("single-stepping", 0)) return 0;
    reset(1, 0, n * 50 + 1000); first(); if (n == 0) call(1); if (check("interruption after every instruction", n)) return 0;
    for (i = 0; i < points && n > 0; i++) {
      long a; seed = seed * 1664525u + 1013904223u; a = 1 + (long)((seed >> 8) %% (unsigned long)n);
      reset(2, a, n * 50 + 1000); first(); if (check("one interruption", a)) return 0;
    }
    printf("OK %%ld\n", n); fflush(stdout);
  }
  return 0;
}
"""


def gen(r, tier):
    net = G.rich(r, nmsg=r.choice([1, 2, 2, 3, 4]), weights=(5, 3, 3))
    cfg = rnd_cfg(r, sigfloat=r.random() < 0.5, mon=r.random() < 0.6, canstruct=r.random() < 0.25, roll=r.random() < 0.6, csm=r.random() < 0.6)
    cfg["mono"] = cfg["mon"] and r.random() < 0.25
    if r.random() < 0.3:
        cfg["initbyte"] = r.choice([0xFF, 0x5A])
    return {"net": net, "cfg": cfg, "seed": r.getrandbits(32), "nv": 8}


def hashval(data, ident, method, opt):
    h = 2166136261 ^ ident ^ method ^ opt
    for b in data:
        h = ((h ^ b) * 16777619) & 0xFFFFFFFF
    return (h ^ h >> 16) & 7


def put(s, v, p):
    for b in M.bit_positions(s):
        p[b >> 3] &= ~(1 << (b & 7)) & 0xFF
    M.insert_or(s, v, p)


def good(r, net, m, frame, before):
    """Gives the frame the counter that follows the one of 'before' and a matching checksum."""
    p = bytearray(frame)
    csm = None
    for t in net["tail"]:
        mt = re.match(r'CM_ SG_ (\d+) (\w+) ', t)
        if not mt or int(mt.group(1)) != M.raw_id(m):
            continue
        s = next(x for x in m["sigs"] if x["name"] == mt.group(2))
        if "<RollingCounter>" in t:
            put(s, (M.extract({**s, "signed": False}, before) + 1) % (1 << s["len"]), p)
        c = re.search(r"<Checksum:(\w+):(\d+)>", t)
        if c:
            csm = s, 3 + 4 * list(dict.fromkeys(net["methods"])).index(c.group(1)), int(c.group(2))
    if csm:
        for v in range(1 << csm[0]["len"]):
            put(csm[0], v, p)
            if hashval(p[:m["dlc"]], m["id"], csm[1], csm[2]) == M.extract(csm[0], p):
                break
    return bytes(p)


def harness(net, drv, cfg):
    o, lo, up = cdrv.drvnames(drv)
    ms = cdrv.live(net)
    hooks = []
    if cfg.get("mon"):
        if cfg.get("mono"):
            hooks.append("void _FMon_MONO_%s(FrameMonitor_t* m, uint32_t id) { (void)m; (void)id; }" % lo)
        else:
            hooks += ["void _FMon_%s_%s(FrameMonitor_t* m, uint32_t id) { (void)m; (void)id; }" % (m["name"], lo) for m in net["msgs"] if cdrv.valid(m)]
    cases, preps, members = [], [], []
    for k, m in enumerate(ms):
        n = m["name"]
        members.append("%s_t v%d;" % (n, k))
        if cfg.get("canstruct"):
            cases.append("  case %d: c->ret = Pack_%s_%s(&c->v%d, &c->cf); break;" % (k, n, o, k))
        else:
            cases.append("  case %d: c->ret = Pack_%s_%s(&c->v%d, c->data, &c->len, &c->ide); break;" % (k, n, o, k))
        cases.append("  case %d: c->ret = Unpack_%s_%s(&c->v%d, in[s], (uint8_t)dlc[s]); break;" % (10000 + k, n, o, k))
        preps.append("  case %d: Unpack_%s_%s(&c->v%d, pre[s], 64); break;" % (k, n, o, k))
    t = TEXT % dict(low=lo, hooks="\n".join(hooks), members=" ".join(members), pre=lo, cases="\n".join(cases), preps="\n".join(preps))
    return t.replace("static int op[2]", "static uint8_t pre[2][64]; static uint32_t rid[2]; static int op[2]", 1)


def run(case, ctx):
    net, cfg = G.clean_tail(case["net"]), case["cfg"]
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    cdir = cdrv.prep_conf(out, d, net, cfg)
    cpp = cfg.get("lang") == "cpp"
    comp = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cfg.get("cc", "gcc")][cpp]
    src = os.path.join(d, "h." + ("cpp" if cpp else "c"))
    cdrv.write(src, harness(net, "drv", cfg))
    incs = ["-I", cdir, "-I", out + "/lib", "-I", out + "/inc", "-I", out + "/butl"]
    base = [comp, "-std=gnu++17" if cpp else "-std=gnu11", "-w"] + cdrv.defines("drv", cfg) + incs + (["-x", "c++"] if cpp else [])
    objs = []
    # the driver is compiled by itself: the harness sees only its header
    for f, opt in ((out + "/lib/drv.c", cfg.get("opt", "-O0")), (out + "/butl/drv-binutil.c", cfg.get("opt", "-O0")), (src, "-O0")):
        obj = os.path.join(d, os.path.basename(f) + ".o")
        rc, txt = cdrv.sh(base + [opt, "-D_GNU_SOURCE", "-mno-red-zone", "-c", f, "-o", obj])
        if rc:
            raise Violation("%s does not compile: %s" % (os.path.basename(f), cdrv.errors(txt)))
        objs.append(obj)
    exe = os.path.join(d, "h")
    rc, txt = cdrv.sh([comp] + objs + ["-o", exe])
    if rc:
        raise Violation("does not link: %s" % cdrv.errors(txt))
    r = random.Random(case["seed"])
    ops, what = [], []
    for n in range(case["nv"]):
        k0 = r.randrange(len(live))
        k1 = k0 if r.random() < 0.5 else r.randrange(len(live))
        t, w = ["X"], []
        for k in (k0, k1):
            m = live[k]
            o = r.choice([0, 0, 1, 1, 2])
            a, b = (r.getrandbits(512).to_bytes(64, "little") for _ in range(2))
            if r.random() < 0.6:
                a = good(r, net, m, a, b)
            t += [str(o), str(k), str(m["id"]), str(m["dlc"] if r.random() < 0.9 else r.randint(m["dlc"], 64)), a.hex(), b.hex()]
            w.append("%s(%s)" % (("Pack", "Unpack", "Receive")[o], m["name"]))
        ops.append(" ".join(t + [str(12), str(r.getrandbits(31))]))
        what.append(w)
    lines = cdrv.execute(exe, ops)
    units, points, stepped = 0, 0, 0
    for (a, b), l in zip(what, lines):
        if l.startswith("OK "):
            n = int(l.split()[1])
            units += 1
            points += n
            stepped += n >= 20
            continue
        if l.startswith("HANG"):
            raise Violation("%s does not come to an end when %s is called while it runs" % (a, b))
        raise Violation("%s, interrupted by %s: %s" % (a, b, l))
    if len(lines) != len(ops):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(ops)))
    return {"units": points, "nontrivial": stepped > 0, "counts": {"call pairs": units, "interruption points": points, "pairs on one message type": sum(a.split("(")[1] == b.split("(")[1] for a, b in what)}}


def shrinks(case):
    for c in net_shrinks(case):
        yield c
