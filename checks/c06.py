"""C06: Receive unpacks exactly the addressed message."""
import random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import rnd_cfg, net_shrinks

ID = "C06"
COUNTS = {"quick": 700, "thorough": 4500}
RULE = ("random sets of 1..70 messages (ids 0..0x1FFFFFFF, standard/extended, dense and sparse, some without signals), every set size 1..40 "
        "enumerated; Receive is called with every message id, all neighbours, the ids of empty messages, ids with the extended mark and random ids; "
        "the whole rx struct is compared before/after (two fill patterns) and the addressed message with the reference decoder. "
        "Non-trivial: at least 2 non-empty messages.")
ASSUMPTIONS = ["the 29-bit id numbers of the messages are distinct (Receive has no IDE parameter)"]


def make(r, n, dense, empty):
    names, ids = G.Names(r), set()
    base = r.choice([0, 0, 1, 0x100, 0x7F0, 0x18FEF100, 0x1FFFFFFF - n])
    msgs = []
    for i in range(n):
        m = G.message(r, names, ids, dlc=r.choice([1, 2, 4, 8, 8, 8, 12, 64]), nsig=r.choice([1, 1, 2, 3]), weights=(8, 1, 1), empty=empty)
        if dense:
            m["id"] = base + i * r.choice([1, 1, 1, 2]) if False else base + i
            m["ext"] = m["id"] > 0x7FF or m["ext"]
        msgs.append(m)
    r.shuffle(msgs)
    return {"version": None, "nodes": ["N1"], "msgs": msgs}


def gen(r, tier):
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 25, 31, 32, 33, 50, 70]) if r.random() < 0.5 else r.randint(1, 12)
    net = make(r, n, r.random() < 0.5, r.choice([0, 0, 0.2, 0.5]))
    return {"net": net, "cfg": rnd_cfg(r, bits=False), "seed": r.getrandbits(32)}


_fixed = {}
BIG = [64, 65, 127, 128, 129, 131, 200, 255, 256, 257, 259, 300, 512, 513, 520]


def fixed_cases(tier):
    if tier not in _fixed:
        top = 40 if tier == "quick" else 140
        _fixed[tier] = [{"net": make(random.Random(n), n, n % 2 == 0, 0), "cfg": {}, "seed": n} for n in list(range(1, top + 1)) + BIG]
    return _fixed[tier]


def run(case, ctx, opts=("-rw",)):
    net, cfg = case["net"], case["cfg"]
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg, receive={"source": "drv-binutil.c", "prefix": "drv", "rx": range(len(live))})
    r = random.Random(case["seed"])
    byid = {m["id"]: (k, m) for k, m in enumerate(live)}
    ids = set()
    for m in net["msgs"]:
        ids |= {m["id"], m["id"] + 1, m["id"] - 1, m["id"] | 0x80000000}
    ids |= {0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x1FFFFFFF, 0x20000000}
    ids |= {r.getrandbits(b) for b in (8, 11, 16, 29, 32)}
    ids = sorted(i for i in ids if 0 <= i <= 0xFFFFFFFF)
    if len(ids) > 400:
        ids = sorted(set(r.sample(ids, 200)) | set(byid))
    ops, exp = [], []
    for i in ids:
        n = byid[i][1]["dlc"] if i in byid else 64
        for _ in range(2):
            p = bytes(r.getrandbits(8) for _ in range(n))
            ops.append("R %d %d %s" % (i, n, p.hex()))
            exp.append((i, p))
    units = 0
    lines = cdrv.execute(exe, ops)
    if len(lines) != len(ops):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(ops)))
    for (i, p), l in zip(exp, lines):
        rec = Rec(l)
        units += 1
        k, m = byid.get(i, (None, None))
        if rec.ret != (i if m else 0) or rec.r2 != rec.ret:
            raise Violation("Receive(id %#x) returned %#x (messages: %s)" % (i, rec.ret, ", ".join("%#x" % x for x in sorted(byid))[:300]))
        if rec.chg != ([k] if m else []):
            raise Violation("Receive(id %#x) changed %s, expected only %s" % (i, [live[c]["name"] for c in rec.chg], m and m["name"]))
        if m:
            for s, v in zip(m["sigs"], rec.f):
                if v != M.extract(s, p):
                    raise Violation("Receive(id %#x): %s.%s is %d, expected %d" % (i, m["name"], s["name"], v, M.extract(s, p)))
    return {"units": units, "nontrivial": len(live) > 1, "counts": {"ids tried": len(ids), "messages": len(live), "empty messages": len(net["msgs"]) - len(live),
            "extended messages": sum(m["ext"] for m in live)}, "classes": [">32 messages"] if len(live) > 32 else []}


shrinks = net_shrinks
