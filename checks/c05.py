"""C05: Pack derives the raw value from the physical one."""
import random
from fractions import Fraction
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import rnd_cfg, net_shrinks, phys_of, fo, fo_lit, describe_sig, set_op
from checks.c04 import renamed

ID = "C05"
COUNTS = {"quick": 1500, "thorough": 8000}
RULE = ("random networks with mostly scaled, non-overlapping signals compiled with USE_SIGFLOAT; physical values of random/extreme raw values (and, "
        "for decimal scaling, values between two steps) are packed and the raw value found in the payload is compared with (phys-offset)/factor in "
        "rational arithmetic (integers exactly, decimals < 1 step); plain signals exactly; Unpack;Pack of random payloads must reproduce all bits of "
        "integer-scaled signals. Non-trivial: has a scaled signal.")
ASSUMPTIONS = ["sigfloat_t is double (or float)", "integer-scaled signals: all physical values and raw*factor fit int64 (beyond: finding K3)"]


def gen(r, tier):
    net = G.network(r, weights=(2, 5, 4))
    if len(net["msgs"]) > 1 and r.random() < 0.5:
        renamed(r, net)
    return {"net": net, "cfg": rnd_cfg(r, sigfloat=True, sigfloat_t=r.choice(["double", "double", "double", "float"])), "seed": r.getrandbits(32), "nv": 40}


def run(case, ctx):
    net, cfg = case["net"], case["cfg"]
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg)
    r = random.Random(case["seed"])
    eps = Fraction(1, 1 << (20 if cfg.get("sigfloat_t") == "float" else 48))
    ops, exp = [], []
    for k, m in enumerate(live):
        for _ in range(case["nv"]):
            raws, phys = [], []
            for s in m["sigs"]:
                v = G.raw_value(r, s)
                ph = None
                if not M.is_simple(s):
                    ph = phys_of(s, v)
                    if M.is_double(s):
                        f, o = fo_lit(s)
                        lo, hi = M.raw_range(s)
                        x = Fraction(v)
                        if r.random() < 0.5:
                            x += Fraction(r.randint(-999, 999), 1000)
                        # keep clear of the range limits by the arithmetic's own error
                        g = eps * 4 * (abs(x) + abs(o / f)) + Fraction(1, 1000)
                        x = max(lo + g, min(hi - g, x)) if lo + g < hi - g else (Fraction(lo) + hi) / 2
                        ph = float(x * f + o)
                        if cfg.get("sigfloat_t") == "float":
                            import struct
                            ph = struct.unpack("f", struct.pack("f", ph))[0]
                raws.append(v)
                phys.append(ph)
            given = [v if p is None else r.choice([0, v]) for v, p in zip(raws, phys)]
            ops += ["Z %d" % k, set_op(k, m, given, phys), "P %d %d" % (k, r.randint(0, 255))]
            exp += [None, None, ("P", m, raws, phys)]
        for p in G.payloads(r, m["dlc"], case["nv"] // 2):
            ops += ["Z %d" % k, "U %d %d %s" % (k, m["dlc"], p.hex()), "P %d 0" % k]
            exp += [None, None, ("R", m, p, None)]
    units = 0
    lines = cdrv.execute(exe, ops)
    if len(lines) != len(ops):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(ops)))
    for e, l in zip(exp, lines):
        if e is None:
            continue
        kind, m, a, phys = e
        rec = Rec(l)
        for j, s in enumerate(m["sigs"]):
            got = M.extract(s, rec.data)
            units += 1
            if kind == "P":
                if phys[j] is None or not M.is_double(s):
                    if got != a[j]:
                        raise Violation("%s: physical %s packed as raw %d, expected %d" % (describe_sig(m, s), phys[j], got, a[j]))
                else:
                    f, o = fo(s)
                    q = (Fraction(phys[j]) - o) / f
                    if abs(got - q) >= 1 + eps * (abs(q) + abs(o / f)):
                        raise Violation("%s: physical %r packed as raw %d, (phys-offset)/factor is %.6f" % (describe_sig(m, s), phys[j], got, float(q)))
            elif not M.is_double(s) and got != M.extract(s, a):
                raise Violation("%s: Unpack then Pack of %s turned raw %d into %d" % (describe_sig(m, s), a.hex(), M.extract(s, a), got))
    sigs = [s for m in live for s in m["sigs"]]
    return {"units": units, "nontrivial": any(not M.is_simple(s) for s in sigs),
            "counts": {"integer-scaled": sum(not M.is_simple(s) and not M.is_double(s) for s in sigs), "decimal": sum(M.is_double(s) for s in sigs),
                       "negative factor": sum(s["f"][0] == "-" for s in sigs)}}


shrinks = net_shrinks
