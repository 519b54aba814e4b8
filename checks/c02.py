"""C02: Pack encodes every signal exactly and touches only its frame."""
import random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import rnd_cfg, net_shrinks

ID = "C02"
COUNTS = {"quick": 1500, "thorough": 9000}
RULE = ("random networks (payload 1..64 bytes, any layout, overlapping signals included, scaled and plain signals) packed in the "
        "default configuration with random/extreme field values (also wider than the signal) into a poisoned buffer that ends at an "
        "unmapped page; the whole frame is compared with a bit-level reference encoder, bytes around the frame with the poison. "
        "Plus an enumeration of all layouts of an 8-byte frame. Non-trivial: at least one signal of >=2 bits.")
ASSUMPTIONS = ["INITIAL_BYTE_VALUE keeps its default 0 and MAX_DLC_VALUE is not overridden (see C23)"]


def gen(r, tier):
    if r.random() < 0.02:
        # heavily multiplexed message: hundreds of signals on the same bytes
        net = G.network(r, nmsg=r.choice([1, 2]), nsig=r.choice([120, 250, 400]), overlap=1.0)
    else:
        net = G.network(r, overlap=r.choice([0, 0, 0.2, 0.8]), empty=0.1)
    return {"net": net, "cfg": rnd_cfg(r, bits=False), "seed": r.getrandbits(32), "nv": 40 if tier == "quick" else 80}


_fixed = {}


def fixed_cases(tier):
    if tier in _fixed:
        return _fixed[tier]
    out = []
    for dlc in ([8] if tier == "quick" else [1, 2, 3, 5, 8, 9]):
        ls = []
        for mot in (False, True):
            for n in range(1, min(64, dlc * 8) + 1):
                for q in range(0, dlc * 8 - n + 1):
                    ls.append({"start": G.mot_start(q) if mot else q, "len": n, "mot": mot, "signed": (q + n) % 3 == 0})
        random.Random(7).shuffle(ls)
        for a in range(0, len(ls), 160):
            chunk, msgs = ls[a:a + 160], []
            for k in range(0, len(chunk), 40):
                sigs = [dict(s, name="S%d" % j, f="1", o="0") for j, s in enumerate(chunk[k:k + 40])]
                msgs.append({"id": k + 1, "ext": False, "name": "M%d" % k, "dlc": dlc, "tx": "N", "sigs": sigs})
            out.append({"net": {"version": None, "nodes": [], "msgs": msgs}, "cfg": {}, "seed": a, "nv": 12, "single": True})
    _fixed[tier] = out
    return out


def field_value(r, s):
    """Any value of the field's C type, biased to the signal's own range."""
    w = M.type_bits(s)
    c = r.random()
    if c < 0.6:
        return G.raw_value(r, s)
    v = r.getrandbits(w) if c < 0.85 else (1 << w) - 1
    return v - (1 << w) if s["signed"] and v >> (w - 1) else v


def run(case, ctx):
    net, cfg = case["net"], case["cfg"]
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg)
    r = random.Random(case["seed"])
    ops, exp = [], []

    def put(k, m, vals):
        ops.append("S %d %s" % (k, " ".join(str(v) for v in vals)))
        exp.append(None)
        ops.append("P %d %d" % (k, r.choice([0, 255, 0xA5, 0x5A, r.randint(0, 255)])))
        exp.append((m, vals))
    for k, m in enumerate(live):
        n = len(m["sigs"])
        if case.get("single"):
            for j, s in enumerate(m["sigs"]):
                for v in (-1 if s["signed"] else (1 << s["len"]) - 1, G.raw_value(r, s), field_value(r, s)):
                    vals = [0] * n
                    vals[j] = v
                    put(k, m, vals)
        else:
            put(k, m, [0] * n)
            for _ in range(case["nv"]):
                if r.random() < 0.3:
                    vals = [0] * n
                    j = r.randrange(n)
                    vals[j] = field_value(r, m["sigs"][j])
                else:
                    vals = [field_value(r, s) for s in m["sigs"]]
                put(k, m, vals)
    lines = cdrv.execute(exe, ops)
    if len(lines) != len(ops):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(ops)))
    units = 0
    for e, l in zip(exp, lines):
        if e is None:
            continue
        m, vals = e
        rec = Rec(l)
        want = bytearray(m["dlc"])
        for s, v in zip(m["sigs"], vals):
            M.insert_or(s, v, want)
        units += 1
        what = None
        if rec.data != bytes(want):
            what = "packed %s, expected %s" % (rec.data.hex(), want.hex())
        elif not rec.ok:
            what = "wrote outside the frame of %d bytes" % m["dlc"]
        elif (rec.ret, rec.len, rec.ide) != (m["id"], m["dlc"], int(m["ext"])):
            what = "returned id %#x, length %d, ide %d; expected %#x, %d, %d" % (rec.ret, rec.len, rec.ide, m["id"], m["dlc"], int(m["ext"]))
        if what:
            raise Violation("message %s dlc %d, values %s: %s" % (m["name"], m["dlc"], dict(zip([s["name"] for s in m["sigs"]], vals)), what))
    sigs = [s for m in live for s in m["sigs"]]
    return {"units": units, "counts": {"signals": len(sigs), "motorola": sum(s["mot"] for s in sigs),
            "FD messages (>8 bytes)": sum(m["dlc"] > 8 for m in live), "frames packed": units},
            "nontrivial": any(s["len"] > 1 for s in sigs)}


shrinks = net_shrinks
