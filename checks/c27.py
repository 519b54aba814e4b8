"""C27: the generated code executes no undefined behaviour."""
import os, random, re, subprocess
from fractions import Fraction
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Inconclusive
from vlib.common import rnd_cfg, net_shrinks, phys_of, set_op, fo_lit

ID = "C27"
COUNTS = {"quick": 1100, "thorough": 6000}
RULE = ("random networks (overlapping signals included, all lengths, both byte orders, signed and scaled) and random switch combinations; the generated "
        "driver is compiled with UndefinedBehaviorSanitizer (shifts, overflow, bounds, float casts, null, alignment, enum/bool loads; gcc and clang, C and "
        "C++) and driven with random histories of Unpack (any payload and length), Pack (any value a field can hold; physical values of the signal's range) "
        "and the conversion macros; a report located in a generated file is a violation. Non-trivial: a signal of more than 8 bits or a scaled one.")
ASSUMPTIONS = ["physical values handed to Pack lie in the signal's range", "integer scaling: raw*factor fits int64, as does the physical value", "gcc/clang sanitizers define what counts as undefined"]
SAN = {"clang": "undefined,float-cast-overflow", "gcc": "undefined,float-cast-overflow"}


def steps_ok(s):
    """Integer scaling whose intermediate result raw*factor fits int64 as well."""
    return M.is_double(s) or all(-(1 << 63) <= v * int(Fraction(s["f"])) < 1 << 63 for v in M.raw_range(s))


def gen(r, tier):
    net = G.rich(r, weights=(4, 3, 3), overlap=0.1 if r.random() < 0.3 else 0.0)
    for m in net["msgs"]:
        for s in m["sigs"]:
            if not M.is_simple(s) and not steps_ok(s):
                s["f"], s["o"] = "1", "0"
    cfg = rnd_cfg(r, cc=r.choice(["gcc", "clang"]), sigfloat=r.random() < 0.5, sigfloat_t=r.choice(["double", "double", "float"]), mon=r.random() < 0.5, canstruct=r.random() < 0.25,
                  roll=r.random() < 0.5, csm=r.random() < 0.5)
    cfg["mono"] = cfg["mon"] and r.random() < 0.2
    cfg["opt"] = "-O0" if r.random() < 0.7 else "-O1"
    if r.random() < 0.2:
        cfg["initbyte"] = r.choice([0xFF, 0x5A])
    return {"net": net, "cfg": cfg, "seed": r.getrandbits(32), "nv": 25}


def slack(s, x, eps):
    """Error (in raw steps) the sigfloat arithmetic may make around raw value x."""
    f, o = fo_lit(s)
    return eps * 4 * (abs(x) + abs(o / f)) + Fraction(1, 1000)


def inner(s, v, eps):
    """Raw value near v whose physical value is in range by more than the arithmetic's own error."""
    lo, hi = M.raw_range(s)
    g = slack(s, max(abs(lo), abs(hi)), eps)
    if lo + g >= hi - g:
        return None
    x = max(lo + g, min(hi - g, Fraction(v)))
    f, o = fo_lit(s)
    return float(x * f + o)


def run(case, ctx):
    net, cfg = G.clean_tail(case["net"]), case["cfg"]
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg, extra=["-g", "-fsanitize=" + SAN[cfg.get("cc", "gcc")]])
    r = random.Random(case["seed"])
    ops = []
    eps = Fraction(1, 1 << (20 if cfg.get("sigfloat_t") == "float" else 48))
    for k, m in enumerate(live):
        dbl = [s for s in m["sigs"] if M.is_double(s)] if cfg.get("sigfloat") else []
        # only then may what Unpack computed be packed again
        pack = all(inner(s, 0, eps) is not None for s in dbl)
        again = pack and all(fo_lit(s)[0] != 0 and slack(s, max(map(abs, M.raw_range(s))), eps) < Fraction(1, 2) for s in dbl)
        ops.append("Z %d" % k)
        for n in range(case["nv"]):
            if n % 2 or not pack:
                p = G.payloads(r, m["dlc"], 4)[r.randrange(4)]
                c = r.random()
                dlc = m["dlc"] if c < 0.85 else r.choice([m["dlc"], r.randint(m["dlc"], 64)])
                ops += ["T %d" % r.choice([0, 1, 0xFFFFFFFF, r.getrandbits(32)]), "U %d %d %s" % (k, dlc, (p + bytes(64))[:max(dlc, m["dlc"])].hex())]
            else:
                raws = [G.raw_value(r, s) for s in m["sigs"]]
                phys = [None if M.is_simple(s) else inner(s, v, eps) if M.is_double(s) else phys_of(s, v) for s, v in zip(m["sigs"], raws)]
                if cfg.get("sigfloat"):
                    given = raws
                else:
                    # whatever the field's type can hold
                    given = [v if r.random() < 0.5 else r.getrandbits(64) - (1 << 63 if s["signed"] else 0) for s, v in zip(m["sigs"], raws)]
                ops += [set_op(k, m, given, phys if cfg.get("sigfloat") else None), "P %d %d" % (k, r.randint(0, 255))]
            if r.random() < 0.4 and again:
                ops.append("P %d %d" % (k, r.randint(0, 255)))
    env = dict(os.environ, UBSAN_OPTIONS="print_stacktrace=0", ASAN_OPTIONS="detect_leaks=0")
    try:
        p = subprocess.run([exe], input="\n".join(ops).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
    except subprocess.TimeoutExpired:
        raise Inconclusive("driver time-out")
    err = p.stderr.decode("latin1")
    if p.returncode:
        raise Violation("sanitized driver died with status %d: %s" % (p.returncode, err[-300:]))
    for l in err.splitlines():
        mt = re.match(r"(\S+?):(\d+)(?::\d+)?: runtime error: (.*)", l)
        if mt and os.path.basename(mt.group(1)).startswith("drv"):
            src = open(mt.group(1), encoding="latin1").read().splitlines() if os.path.exists(mt.group(1)) else []
            n = int(mt.group(2))
            raise Violation("undefined behaviour in the generated code (%s): %s at '%s'" % (" ".join(sorted(k for k, v in cfg.items() if v is True)), mt.group(3), src[n - 1].strip()[:200] if 0 < n <= len(src) else l))
    sg = [s for m in live for s in m["sigs"]]
    return {"units": sum(o[0] in "PU" for o in ops), "nontrivial": any(s["len"] > 8 or not M.is_simple(s) for s in sg),
            "counts": {"signals": len(sg), "signed": sum(s["signed"] for s in sg), "longer than 32 bits": sum(s["len"] > 32 for s in sg),
                       "scaled": sum(not M.is_simple(s) for s in sg)}}


def shrinks(case):
    return net_shrinks(case, ok=lambda c: all(M.is_simple(s) or steps_ok(s) for m in c["net"]["msgs"] for s in m["sigs"]))
