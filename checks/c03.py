"""C03: switches, language, compiler and optimisation never change the wire format; round trips."""
import random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import net_shrinks, set_op, phys_of, exact_double, overlaps

ID = "C03"
COUNTS = {"quick": 500, "thorough": 3500}
RULE = ("one random network per case, compiled in the baseline (C, gcc -O0, no macros) and in several random combinations of "
        "USE_BITS_SIGNAL, USE_CANSTRUCT, USE_SIGFLOAT, USE_DIAG_MONITORS, USE_MONO_FMON, AUTO_ROLL/AUTO_CSM (unused), C/C++, gcc/clang and "
        "-O level; the same raw values are packed and the same payloads unpacked everywhere (differential), and Unpack;Pack and Pack;Unpack "
        "round trips are checked in every configuration. Non-trivial: at least 2 different configurations and a signal of >=2 bits.")
ASSUMPTIONS = ["with USE_SIGFLOAT the raw value is given through the physical field; decimal-scaled signals are then compared only for values "
               "whose conversion needs no rounding (rounding drift is known finding K2)"]
BASE = {"lang": "c", "cc": "gcc", "opt": "-O0"}


def rnd_full(r):
    c = {"lang": r.choice(["c", "cpp"]), "cc": r.choice(["gcc", "clang"]), "opt": r.choice(["-O0", "-O1", "-O2", "-O3", "-Os"])}
    for k in ("bits", "canstruct", "sigfloat", "mon", "roll", "csm"):
        c[k] = r.random() < 0.5
    c["mono"] = c["mon"] and r.random() < 0.5
    return c


DYAD_F = ["0.5", "0.25", "0.0625", "1.0", "2.0", "1E+2", "-0.5", "0.0009765625"]


def gen(r, tier):
    net = G.network(r, overlap=r.choice([0, 0, 0, 0.3]), nmsg=r.choice([1, 2, 3, 4]))
    for m in net["msgs"]:
        for s in m["sigs"]:
            if M.is_double(s) and r.random() < 0.7:
                s["f"], s["o"] = r.choice(DYAD_F), r.choice(["0", "-40", "0.5", "100.25"])
    n = 3 if tier == "quick" else 5
    return {"net": net, "cfgs": [rnd_full(r) for _ in range(n)], "seed": r.getrandbits(32), "nv": 14}


def mask_of(m, sigs):
    b = bytearray(m["dlc"])
    for s in sigs:
        for p in M.bit_positions(s):
            b[p >> 3] |= 1 << (p & 7)
    return b


def masked(data, mask):
    return bytes(x & y for x, y in zip(data, mask))


def run(case, ctx):
    net = case["net"]
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    r = random.Random(case["seed"])
    # the plan: raw values to pack and payloads to unpack, the same for every configuration
    plan = []
    for k, m in enumerate(live):
        ov = overlaps(m)
        for _ in range(case["nv"]):
            plan.append(("P", k, m, [G.raw_value(r, s) for s in m["sigs"]], ov))
        for p in G.payloads(r, m["dlc"], case["nv"]):
            plan.append(("U", k, m, p, ov))
    ref = None
    units = 0
    for ci, cfg in enumerate([BASE] + case["cfgs"]):
        exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg, name="h%d" % ci)
        ops = []
        for kind, k, m, x, ov in plan:
            if kind == "P":
                ph = [None if M.is_simple(s) else phys_of(s, v) for s, v in zip(m["sigs"], x)] if cfg.get("sigfloat") else None
                ops += ["Z %d" % k, set_op(k, m, x, ph), "P %d 165" % k]
                ops += ["@"]
            else:
                ops += ["Z %d" % k, "U %d %d %s" % (k, m["dlc"], x.hex()), "P %d 90" % k]
        # Pack;Unpack needs the packed bytes: two passes
        first = [o for o in ops if o != "@"]
        lines = cdrv.execute(exe, first)
        if len(lines) != len(first):
            raise Violation("driver answered %d of %d operations under %s" % (len(lines), len(first), cfg))
        recs = [Rec(l) for l in lines]
        back, idx = [], 0
        res = []
        for kind, k, m, x, ov in plan:
            a, b, c = recs[idx:idx + 3]
            idx += 3
            res.append((a, b, c))
            if kind == "P":
                back += ["F %d" % k, "U %d %d %s" % (k, m["dlc"], c.data.hex())]
        blines = [Rec(l) for l in cdrv.execute(exe, back)][1::2] if back else []
        bi = 0
        mine = []
        for (kind, k, m, x, ov), (a, b, c) in zip(plan, res):
            units += 1
            sf = cfg.get("sigfloat")
            if kind == "P":
                okv = [not (sf and M.is_double(s)) or exact_double(s, v) for s, v in zip(m["sigs"], x)]
                cmpm = mask_of(m, [s for s, o in zip(m["sigs"], okv) if o])
                if not all(okv):
                    for s, o in zip(m["sigs"], okv):
                        if not o:
                            for p in M.bit_positions(s):
                                cmpm[p >> 3] &= ~(1 << (p & 7)) & 0xFF
                got = (c.ret, c.len, c.ide, c.mid, c.ok)
                mine.append((c.data, got))
                if ref is not None:
                    rd, rg = ref[len(mine) - 1]
                    if masked(rd, cmpm) != masked(c.data, cmpm):
                        raise Violation("%s packs %s to %s in the default configuration but to %s under %s" % (m["name"], x, rd.hex(), c.data.hex(), cfg))
                    if rg != got:
                        raise Violation("%s: (id,len,ide,id,bounds) %s by default but %s under %s" % (m["name"], rg, got, cfg))
                u = blines[bi]
                bi += 1
                for s, v, w, o in zip(m["sigs"], x, u.f, okv):
                    if o and s["name"] not in ov and v != w:
                        raise Violation("%s.%s: packed %d, unpacked %d under %s" % (m["name"], s["name"], v, w, cfg))
            else:
                mine.append((b.f, b.ret))
                if ref is not None and ref[len(mine) - 1] != mine[-1]:
                    raise Violation("%s: payload %s unpacks to %s by default but to %s under %s" % (m["name"], x.hex(), ref[len(mine) - 1], mine[-1], cfg))
                okv = [not (sf and M.is_double(s)) or exact_double(s, v) for s, v in zip(m["sigs"], b.f)]
                cov = mask_of(m, m["sigs"])
                for s, o in zip(m["sigs"], okv):
                    if not o and not case.get("strict"):
                        for p in M.bit_positions(s):
                            cov[p >> 3] &= ~(1 << (p & 7)) & 0xFF
                if masked(c.data, cov) != masked(x, cov):
                    raise Violation("%s: Unpack then Pack turns %s into %s (signal bits %s) under %s" % (m["name"], x.hex(), c.data.hex(), bytes(cov).hex(), cfg))
        ref = ref or mine
    return {"units": units, "nontrivial": len(case["cfgs"]) > 0 and any(s["len"] > 1 for m in live for s in m["sigs"]),
            "counts": {"cfg " + k: sum(bool(c.get(k)) for c in case["cfgs"]) for k in ("bits", "canstruct", "sigfloat", "mon", "mono", "roll", "csm")},
            "classes": ["cpp" for c in case["cfgs"] if c["lang"] == "cpp"][:1] + ["clang" for c in case["cfgs"] if c["cc"] == "clang"][:1]}


def shrinks(case):
    cs = case["cfgs"]
    if len(cs) > 1:
        for i in range(len(cs)):
            yield dict(case, cfgs=[cs[i]])
    for c in net_shrinks(case):
        yield c
    for i, c in enumerate(cs):
        for k in list(c):
            base = BASE.get(k, False)
            if c[k] != base and not (k == "mon" and c.get("mono")):
                yield dict(case, cfgs=cs[:i] + [dict(c, **{k: base})] + cs[i + 1:])
