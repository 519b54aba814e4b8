"""C23: frame initialisation obeys the maximum-DLC and initial-byte settings."""
import os, random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import rnd_cfg, net_shrinks

ID = "C23"
COUNTS = {"quick": 1800, "thorough": 10000}
RULE = ("random networks (payload 1..64 bytes in any order, empty, invalid and overlapping messages included), a random initial byte value and maximum-DLC override (absent, 0..70), given by compiler option or in the config header, "
        "in random configurations; every message is packed with random fields into buffers of different stale contents; each frame is compared bit by bit with: signal bits = signals, other bits = initial byte below the maximum, "
        "stale contents at and above it. Non-trivial: a frame with bits of no signal and (an initial byte other than 0 or an override).")
ASSUMPTIONS = ["automatic rolling counters and checksums are off (C09, C10)"]


def gen(r, tier):
    net = G.network(r, overlap=r.choice([0, 0, 0.3]), empty=0.15, nsig=r.choice([1, 1, 2, 3, 5, 12]))
    for m in net["msgs"]:
        c = r.random()
        if c < 0.06:
            m["rawid"] = M.raw_id(m) | r.choice([1 << 29, 1 << 30])
        elif c < 0.12 and not m["sigs"]:
            m["dlc"] = r.choice([0, 65, 255, 300])
    cfg = rnd_cfg(r, canstruct=r.random() < 0.3, mon=r.random() < 0.15, ext64=True)
    cfg.pop("initbyte", None)
    if r.random() < 0.7:
        cfg["initbyte"] = r.choice([0, 0xFF, 0xFF, 0x55, 0xAA, 1, 0x80, r.randint(0, 255)])
    dl = sorted(set(m["dlc"] for m in net["msgs"] if m["dlc"] <= 64))
    c = r.random()
    if c < 0.55:
        x = r.choice(dl or [8])
        cfg["maxdlc"] = r.choice([x, x, max(0, x - 1), x + 1, 8, 64, 0, 1, r.randint(0, 70)])
    return {"net": net, "cfg": cfg, "inhdr": r.random() < 0.3, "seed": r.getrandbits(32), "nv": 12 if tier == "quick" else 40}


def run(case, ctx):
    net, cfg = case["net"], case["cfg"]
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    use = cfg
    if case.get("inhdr"):
        # settings made in the generated config header instead of the compiler call
        p = os.path.join(out, "conf", "drv-config.h")
        t = cdrv.read(p)
        for k, n in (("initbyte", "INITIAL_BYTE_VALUE"), ("maxdlc", "MAX_DLC_VALUE")):
            if cfg.get(k) is not None:
                t += b"\n#define DRV_%s %dU\n" % (n.encode(), cfg[k])
        cdrv.write(p, t)
        use = {k: v for k, v in cfg.items() if k not in ("initbyte", "maxdlc")}
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=use)
    r = random.Random(case["seed"])
    ops, exp = [], []
    for k, m in enumerate(live):
        for i in range(case["nv"]):
            vals = [0] * len(m["sigs"]) if i == 0 else [G.raw_value(r, s) for s in m["sigs"]]
            st = r.choice([0, 255, 0xA5, 0x5A, r.randint(0, 255)])
            ops += ["S %d %s" % (k, " ".join(map(str, vals))), "P %d %d" % (k, st)]
            exp += [None, (m, vals, st)]
    lines = cdrv.execute(exe, ops)
    if len(lines) != len(ops):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(ops)))
    units, free, cut = 0, False, 0
    ib = cfg.get("initbyte") or 0
    for e, l in zip(exp, lines):
        if e is None:
            continue
        m, vals, st = e
        rec = Rec(l)
        mx = m["dlc"] if cfg.get("maxdlc") is None else cfg["maxdlc"]
        want = bytearray(ib if i < mx else st for i in range(m["dlc"]))
        own, sig = bytearray(m["dlc"]), bytearray(m["dlc"])
        for s, v in zip(m["sigs"], vals):
            M.insert_or(s, v, sig)
            M.insert_or({**s, "signed": False}, (1 << s["len"]) - 1, own)
        want = bytes((w & ~o & 255) | x for w, o, x in zip(want, own, sig))
        units += 1
        free |= any(o != 255 for o in own)
        cut += mx < m["dlc"]
        if rec.data != want or not rec.ok:
            raise Violation("message %s (dlc %d), initial byte %#04x, %s, stale bytes %#04x: packed %s, expected %s%s" % (
                m["name"], m["dlc"], ib, "no maximum override" if cfg.get("maxdlc") is None else "maximum %d" % mx, st, rec.data.hex(), want.hex(), "" if rec.ok else "; wrote outside the frame"))
        if rec.len != m["dlc"] or rec.ret != m["id"]:
            raise Violation("message %s reports length %d, id %#x" % (m["name"], rec.len, rec.ret))
    return {"units": units, "nontrivial": free and bool(ib or cfg.get("maxdlc") is not None), "counts": {"frames longer than the override": cut},
            "classes": (["override"] if cfg.get("maxdlc") is not None else []) + (["initial byte"] if ib else []) + (["set in header"] if case.get("inhdr") else []) + (["FD"] if any(m["dlc"] > 8 for m in live) else [])}


def shrinks(case):
    yield from net_shrinks(case)
    if case.get("inhdr"):
        yield {**case, "inhdr": False}
