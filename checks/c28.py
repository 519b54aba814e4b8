"""C28: constants and conversions work inside any expression."""
import os, random
from fractions import Fraction
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import rnd_cfg, net_shrinks, phys_of, fo_lit, describe_sig
from checks.c27 import inner, slack, steps_ok

EPS = Fraction(1, 1 << 48)

ID = "C28"
COUNTS = {"quick": 1100, "thorough": 6000}
RULE = ("random networks with scaled signals, cycle times and value tables; every message and value-table constant is used in #if, as case label, array "
        "bound and operand of arithmetic; every conversion is applied to random values given as plain variable, sum, conditional, bit operation and call with "
        "a side effect, stands itself under multiplication, division, subtraction and negation, and is compared with the scaling of the DBC in rational "
        "arithmetic. Non-trivial: a scaled signal or a value table.")
ASSUMPTIONS = ["constants of 63 bits and more are not used in #if", "decimal-scaled signals: the raw value may be off by less than one step (double arithmetic)",
               "integer scaling: raw*factor and the physical value fit int64"]


def gen(r, tier):
    sn = G.Names(r)
    net = G.network(r, nmsg=r.choice([1, 1, 2, 3]), weights=(2, 5, 4), signames=sn)
    seen = set()
    tail, vals = [], []
    for m in net["msgs"]:
        for s in m["sigs"]:
            # one macro name, one scaling
            if s["name"].lower() in seen or (not M.is_simple(s) and not steps_ok(s)):
                s["f"], s["o"] = "1", "0"
            seen.add(s["name"].lower())
        rid = M.raw_id(m)
        if r.random() < 0.6:
            tail.append(M.cyc_line(rid, r.choice([1, 20, 65535, 1000000, 2147483647])))
        for s in m["sigs"]:
            if r.random() < 0.3:
                lo, hi = M.raw_range(s)
                lo, hi = max(lo, -(1 << 62)), min(hi, 1 << 62)
                tail.append(M.val_line(rid, s["name"], [(r.choice([lo, hi, 0, -1 if lo < 0 else 1, r.randint(lo, hi)]), "V%d" % i) for i in range(r.randint(1, 4))]))
    net["tail"] = tail
    return {"net": net, "cfg": rnd_cfg(r), "seed": r.getrandbits(32), "nv": 6}


def run(case, ctx):
    net, cfg = G.clean_tail(case["net"]), case["cfg"]
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    conf = cdrv.prep_conf(out, d, net, cfg)
    cpp = cfg.get("lang") == "cpp"
    comp = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[cfg.get("cc", "gcc")][cpp]
    consts = {}
    for m in net["msgs"]:
        n = m["name"]
        consts.update({n + "_DLC": m["dlc"], n + "_CANID": m["id"], n + "_IDE": int(m["ext"])})
    for t in net["tail"]:
        w = t.split()
        m = next(x for x in net["msgs"] if str(M.raw_id(x)) == (w[3] if w[0] == "BA_" else w[1]))
        if w[0] == "BA_":
            consts[m["name"] + "_CYC"] = int(w[4].rstrip(";"))
        else:
            s = next(x for x in m["sigs"] if x["name"] == w[2])
            for v, k in zip(w[3:-1:2], w[4:-1:2]):
                consts["%s_%s_%s" % (M.field(s), m["name"], k.strip('"'))] = int(v)
    consts["DRV_MAX_DLC_VALUE"] = max(m["dlc"] for m in net["msgs"])
    p = ["#include <stdio.h>", '#include "drv.h"', "static long long calls;", "#define ONCE(T, v) static T once_##T(T x) { calls++; return x; }"]
    for t in ("uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "double"):
        p.append("ONCE(%s, 0)" % t)
    for k, v in sorted(consts.items()):
        p.append("#if !((%s) == %d) || !defined(%s) || (%s - 1 != %d)\n#error %s\n#endif" % (k, v, k, k, v - 1, k) if v > -(1 << 62) and v < 1 << 62 else "")
        p.append("static char arr_%s[(%s == %dLL) ? 3 : -1];" % (k, k, v))
        p.append("static int sw_%s(long long v) { (void)arr_%s; switch (v) { case %s: return 1; default: return 0; } }" % (k, k, k))
    b, exp = [], []
    r = random.Random(case["seed"])
    for k, v in sorted(consts.items()):
        b.append('printf("%%d %%La %%La\\n", sw_%s(%dLL), 3.0L * %s, 1.0L - %s);' % (k, v, k, k))
        exp.append((k, v))

    def lit(v):
        return "%dULL" % v if v > (1 << 63) - 1 else "(-%dLL - 1)" % ((1 << 63) - 1) if v == -(1 << 63) else "%dLL" % v
    mac = cdrv.macros([conf, out + "/lib"], "drv.h")
    sigs = [(m, s) for m in live for s in m["sigs"] if not M.is_simple(s)]
    for m, s in sigs:
        n = "DRV_%s_" % M.field(s)
        if n + "toS(x)" not in mac or n + "fromS(x)" not in mac:
            raise Violation("no conversion macros %stoS, %sfromS" % (n, n))
        T = ("int%d_t" if s["signed"] else "uint%d_t") % M.type_bits(s)
        dbl = M.is_double(s)
        for _ in range(case["nv"]):
            raw = G.raw_value(r, s)
            lo, hi = M.raw_range(s)
            a = raw // 2
            o = raw ^ 1 if lo <= raw ^ 1 <= hi else raw
            P = "double" if dbl else "__typeof__(((%s_t*)0)->%s)" % (m["name"], M.phys_field(s))
            ph = phys_of(s, raw)
            if dbl:
                pv = inner(s, raw, EPS)
                if pv is None:
                    continue
                pl = "(%s)" % pv.hex()
                f, off = fo_lit(s)
                x = (Fraction(pv) - off) / f
            else:
                pv, pl, x = ph, lit(ph), Fraction(raw)
            PT = "double" if dbl else ("int64_t" if ph < 0 or ph <= (1 << 63) - 1 else "uint64_t")
            b.append("{ volatile %s a = (%s)%s, b = (%s)%s, v = (%s)%s, w = (%s)%s; volatile int c = %d; calls = 0;" % (T, T, lit(a), T, lit(raw - a), T, lit(raw), T, lit(o), r.randint(0, 1)))
            F = n + "fromS"
            b.append('printf("%%La %%La %%La %%La %%La %%La %%La %%La", (long double)%s(v), 2.0L * %s(v), 0.0L - %s(v), (long double)%s(a + b), (long double)%s(c ? v : v), (long double)%s((%s)(v & ~(%s)0)), (long double)%s(once_%s(v)), (long double)(%s(v)) / 2.0L);'
                     % (F, F, F, F, F, F, T, T, F, T, F))
            S = n + "toS"
            b.append('printf(" %%lld", calls); calls = 0; { volatile %s pv = (%s)%s, pz = (%s)0; ' % (PT, PT, pl, PT))
            b.append('printf(" %%La %%La %%La %%La %%La %%La", (long double)%s(pv), 2.0L * %s(pv), 0.0L - %s(pv), (long double)%s(pv + pz), (long double)%s(c ? pv : pv), (long double)%s(once_%s(pv)));'
                     % (S, S, S, S, S, S, PT))
            b.append('printf(" %lld\\n", calls); } (void)w; }')
            exp.append((m, s, raw, ph, x))
    src = os.path.join(d, "t.cpp" if cpp else "t.c")
    cdrv.write(src, "\n".join(p + ["int main(void) {"] + b + ["return 0; }"]) + "\n")
    exe = os.path.join(d, "t")
    rc, txt = cdrv.sh([comp, "-std=gnu++17" if cpp else "-std=gnu11", "-w", cfg.get("opt", "-O0"), "-I", conf, "-I", out + "/lib", "-I", out + "/inc"] + cdrv.defines("drv", cfg) + [src, "-o", exe])
    if rc:
        raise Violation("constants or conversions cannot be used in an expression: " + cdrv.errors(txt))
    rc, txt = cdrv.sh([exe], what="test program")
    if rc:
        raise Violation("conversions died with status %d" % rc)
    lines = txt.splitlines()
    if len(lines) != len(exp):
        raise Violation("test program answered %d of %d" % (len(lines), len(exp)))

    def val(t):
        return hexfrac(t)
    units = 0
    for e, l in zip(exp, lines):
        t = l.split()
        units += 1
        if len(e) == 2:
            k, v = e
            if t[0] != "1" or val(t[1]) != 3 * v or val(t[2]) != 1 - v:
                raise Violation("%s is not %d as case label or under arithmetic: %s" % (k, v, l))
            continue
        m, s, raw, ph, x = e
        fr, calls, to, calls2 = [val(z) for z in t[:8]], t[8], [val(z) for z in t[9:15]], t[15]
        base = fr[0]
        f, off = fo_lit(s)
        tol = (abs(raw * f) + abs(off)) * Fraction(1, 1 << 48) if M.is_double(s) else 0
        ref = raw * f + off if M.is_double(s) else Fraction(ph)
        if abs(base - ref) > tol:
            raise Violation("%s: fromS(%d) is %s, expected %s" % (describe_sig(m, s), raw, float(base), float(ref)))
        for name, got, want in zip(("2 * fromS(v)", "0 - fromS(v)", "fromS(a + b)", "fromS(c ? v : v)", "fromS(v & m)", "fromS(f(v))", "fromS(v) / 2"), fr[1:], (2 * base, -base, base, base, base, base, base / 2)):
            if got != want:
                raise Violation("%s: %s gives %s where fromS(v) is %s (raw %d)" % (describe_sig(m, s), name, float(got), float(base), raw))
        if calls != "1" or calls2 != "1":
            raise Violation("%s: the argument of fromS / toS is evaluated %s / %s times" % (describe_sig(m, s), calls, calls2))
        base = to[0]
        if (abs(base - x) >= 1 + slack(s, x, EPS)) if M.is_double(s) else base != x:
            raise Violation("%s: toS(physical value of raw %s) is %s" % (describe_sig(m, s), float(x), float(base)))
        for name, got, want in zip(("2 * toS(p)", "0 - toS(p)", "toS(p + q)", "toS(c ? p : p)", "toS(f(p))"), to[1:], (2 * base, -base, base, base, base)):
            if got != want:
                raise Violation("%s: %s gives %s where toS(p) is %s" % (describe_sig(m, s), name, float(got), float(base)))
        units += 14
    return {"units": units, "nontrivial": bool(sigs) or any(t.startswith("VAL_") for t in net["tail"]),
            "counts": {"constants": len(consts), "integer conversions": sum(not M.is_double(s) for _, s in sigs), "decimal conversions": sum(M.is_double(s) for _, s in sigs)}}


def hexfrac(t):
    """Exact value of a %La text."""
    sign = -1 if t[0] == "-" else 1
    t = t.lstrip("-")
    mant, ex = t[2:].split("p")
    i, _, fpart = mant.partition(".")
    return sign * Fraction(int(i + fpart, 16)) * Fraction(2) ** (int(ex) - 4 * len(fpart))


def shrinks(case):
    return net_shrinks(case, ok=lambda c: all(M.is_simple(s) or steps_ok(s) for m in c["net"]["msgs"] for s in m["sigs"]))
