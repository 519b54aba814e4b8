"""C04: unpacked physical values equal raw*factor+offset of that very signal."""
import random
from fractions import Fraction
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import rnd_cfg, net_shrinks, phys_of, phys_list, fo, describe_sig

ID = "C04"
COUNTS = {"quick": 1500, "thorough": 8000}
RULE = ("random networks with mostly scaled signals (integer, negative, huge, decimal and exponent factors/offsets; equally named signals with "
        "different scaling in different messages) compiled with USE_SIGFLOAT; payloads with extreme and random raw values are unpacked and every "
        "physical field compared with exact rational arithmetic (integers: equality; decimals: 2^-50 relative). Non-trivial: has a scaled signal.")
ASSUMPTIONS = ["sigfloat_t is double (or float, then 2^-21 relative)", "integer-scaled signals: all physical values and raw*factor fit int64 (see finding K3)"]


def renamed(r, net):
    """Reuse signal names across messages with different scalings."""
    pool = sorted(set(s["name"] for m in net["msgs"] for s in m["sigs"]))
    for m in net["msgs"]:
        have = {s["name"] for s in m["sigs"]}
        for s in m["sigs"]:
            c = r.choice(pool)
            if c not in have and r.random() < 0.6:
                have.discard(s["name"])
                have.add(c)
                s["name"] = c


def gen(r, tier):
    net = G.network(r, weights=(1, 5, 4), overlap=r.choice([0, 0, 0.3]))
    if len(net["msgs"]) > 1 and r.random() < 0.5:
        renamed(r, net)
    return {"net": net, "cfg": rnd_cfg(r, sigfloat=True, sigfloat_t=r.choice(["double", "double", "double", "float"])), "seed": r.getrandbits(32), "nv": 30}


def phys_error(s, raw, got, cfg):
    want = phys_of(s, raw)
    if not M.is_double(s):
        return None if got == want else want
    f, o = fo(s)
    eps = Fraction(1, 1 << (21 if cfg.get("sigfloat_t") == "float" else 50))
    if got != got or got in (float("inf"), float("-inf")):
        return float(want)
    return None if abs(Fraction(got) - want) <= eps * (abs(raw * f) + abs(o)) else float(want)


def run(case, ctx):
    net, cfg = case["net"], case["cfg"]
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg)
    r = random.Random(case["seed"])
    ops, exp = [], []
    for k, m in enumerate(live):
        ps = G.payloads(r, m["dlc"], case["nv"])
        for s in m["sigs"]:
            for v in M.raw_range(s):
                p = bytearray(m["dlc"])
                M.insert_or(s, v, p)
                ps.append(bytes(p))
        for p in ps:
            ops.append("U %d %d %s" % (k, m["dlc"], p.hex()))
            exp.append((m, p))
    units = 0
    lines = cdrv.execute(exe, ops)
    if len(lines) != len(ops):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(ops)))
    for (m, p), l in zip(exp, lines):
        rec = Rec(l)
        for s, got in zip(m["sigs"], phys_list(m, rec)):
            if got is None:
                continue
            raw = M.extract(s, p)
            units += 1
            w = phys_error(s, raw, got, cfg)
            if w is not None:
                raise Violation("%s: raw %d unpacked to physical %s, expected %s" % (describe_sig(m, s), raw, got, w))
    sigs = [s for m in live for s in m["sigs"]]
    return {"units": units, "nontrivial": any(not M.is_simple(s) for s in sigs),
            "counts": {"integer-scaled": sum(not M.is_simple(s) and not M.is_double(s) for s in sigs), "decimal": sum(M.is_double(s) for s in sigs),
                       "negative factor": sum(s["f"][0] == "-" for s in sigs),
                       "same name, other scaling": len({(s["name"], s["f"], s["o"]) for s in sigs}) - len({s["name"] for s in sigs})}}


shrinks = net_shrinks
