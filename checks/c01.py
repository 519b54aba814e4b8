"""C01: Unpack decodes every signal of every frame exactly."""
import random
from vlib import cdrv, gen as G, model as M
from vlib.common import rnd_cfg, net_shrinks
from vlib.cdrv import Violation, Rec

ID = "C01"
COUNTS = {"quick": 1500, "thorough": 9000}
RULE = ("random networks (1..8 messages, payload 1..64 bytes, any start/length/byte order/sign, overlapping layouts, "
        "random scalings, gcc/clang, C/C++, -O0/-O2, bit-field structs on/off); every message's Unpack is run on directed + random "
        "payloads and every field compared with a bit-level reference decoder; plus an enumeration of all "
        "(start,length,order,sign) layouts of 1..8-byte frames. Non-trivial: at least one signal of >=2 bits or signed.")
ASSUMPTIONS = ["bitext_t/ubitext_t are 64-bit when a signed signal is wider than 32 bits, else 32-bit (user contract)",
               "the C compilers and the reference bit-layout model are trusted"]


def gen(r, tier):
    net = G.network(r, overlap=r.choice([0, 0, 0.2, 0.8]))
    return {"net": net, "cfg": rnd_cfg(r), "seed": r.getrandbits(32), "np": 60 if tier == "quick" else 120}


_fixed = {}


def fixed_cases(tier):
    """Every layout of frames of 1..8 bytes, 48 overlapping signals per message."""
    if tier in _fixed:
        return _fixed[tier]
    lays = []
    for dlc in ([8] if tier == "quick" else [1, 2, 3, 5, 8, 9]):
        ls = []
        for mot in (False, True):
            for n in range(1, min(64, dlc * 8) + 1):
                for q in range(0, dlc * 8 - n + 1):
                    for sg in (False, True):
                        ls.append({"start": G.mot_start(q) if mot else q, "len": n, "mot": mot, "signed": sg})
        lays.append((dlc, ls))
    out = []
    for dlc, ls in lays:
        rr = random.Random(5)
        rr.shuffle(ls)
        step = 48 * 4
        for a in range(0, len(ls), step):
            chunk, msgs = ls[a:a + step], []
            for k in range(0, len(chunk), 48):
                sigs = [dict(s, name="S%d" % j, f="1", o="0") for j, s in enumerate(chunk[k:k + 48])]
                msgs.append({"id": k + 1, "ext": False, "name": "M%d" % k, "dlc": dlc, "tx": "N", "sigs": sigs})
            out.append({"net": {"version": None, "nodes": [], "msgs": msgs}, "cfg": {}, "seed": a, "np": 24})
    _fixed[tier] = out
    return out


def run(case, ctx):
    net, cfg = case["net"], case["cfg"]
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg)
    r = random.Random(case["seed"])
    ops, exp = [], []
    for k, m in enumerate(live):
        for j, p in enumerate(G.payloads(r, m["dlc"], case["np"])):
            if j % 7 == 0:
                ops.append("F %d" % k)
                exp.append(None)
            ops.append("U %d %d %s" % (k, r.choice([m["dlc"], 0, 255]), p.hex()))
            exp.append((m, p))
    lines = cdrv.execute(exe, ops)
    units = 0
    for e, l in zip(exp, lines):
        if e is None:
            continue
        m, p = e
        rec = Rec(l)
        if rec.ret != m["id"]:
            raise Violation("Unpack of %s returned %#x, CAN id is %#x" % (m["name"], rec.ret, m["id"]))
        for s, v in zip(m["sigs"], rec.f):
            x = M.extract(s, p)
            units += 1
            if v != x:
                raise Violation("%s.%s (start %d len %d %s %s dlc %d): payload %s unpacked to %d, expected %d" % (
                    m["name"], s["name"], s["start"], s["len"], "Motorola" if s["mot"] else "Intel",
                    "signed" if s["signed"] else "unsigned", m["dlc"], p.hex(), v, x))
    if len(lines) != len(ops):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(ops)))
    sigs = [s for m in live for s in m["sigs"]]
    cnt = {"signals": len(sigs), "motorola": sum(s["mot"] for s in sigs), "signed": sum(s["signed"] for s in sigs),
           "wider than 32 bits": sum(s["len"] > 32 for s in sigs), "25..31 bits": sum(24 < s["len"] < 32 for s in sigs),
           "crosses a byte": sum(len(set(b >> 3 for b in M.bit_positions(s))) > 1 for s in sigs),
           "FD messages (>8 bytes)": sum(m["dlc"] > 8 for m in live)}
    return {"units": units, "counts": cnt, "nontrivial": any(s["len"] > 1 or s["signed"] for s in sigs)}


shrinks = net_shrinks
