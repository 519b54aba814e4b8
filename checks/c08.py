"""C08: the frame monitor over any frame history."""
import random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import rnd_cfg, net_shrinks

ID = "C08"
COUNTS = {"quick": 1500, "thorough": 7000}
RULE = ("model-based: random networks compiled with USE_DIAG_MONITORS (per-message or mono hook, with and without the other switches), a random "
        "history of received frames (message, length 0..255 biased to DLC-1/DLC/DLC+1, changing tick, start state zero or garbage) is fed to the Unpack "
        "functions; after every step the message's monitor, the hook calls and the monitors of other messages are compared with a model. "
        "Non-trivial: at least 10 steps, both correct and short frames.")
ASSUMPTIONS = ["the hooks are the user's: they record their arguments and a copy of the monitor at call time"]


def gen(r, tier):
    net = G.network(r, overlap=0, nmsg=r.choice([1, 2, 3, 5, 7]))
    cfg = rnd_cfg(r, mon=True, mono=r.random() < 0.4)
    for k in ("sigfloat", "canstruct", "roll", "csm"):
        cfg[k] = r.random() < 0.25
    steps = []
    live = cdrv.live(net)
    if live:
        for _ in range(r.choice([10, 30, 60])):
            k = r.randrange(len(live))
            d = live[k]["dlc"]
            dlc = r.choice([d, d, d - 1, d + 1, 0, 255, r.randint(0, 255)]) & 0xFF
            steps.append([k, dlc, r.choice([0, 0xFFFFFFFF, r.getrandbits(32), r.randint(0, 100)]), r.getrandbits(32)])
    return {"net": net, "cfg": cfg, "steps": steps, "fill": r.choice(["Z", "F"])}


def run(case, ctx):
    net, cfg = case["net"], case["cfg"]
    live = cdrv.live(net)
    if not live or not case["steps"]:
        return {"nontrivial": False}
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg)
    vm = [m for m in net["msgs"] if cdrv.valid(m)]
    g = 0xA5A5A5A5 if case["fill"] == "F" else 0
    state = [[g, g] for _ in live]          # last_cycle, frame_cnt
    dlcerr = [None] * len(live)            # not asserted before the first frame
    ops, exp = ["%s %d" % (case["fill"], k) for k in range(len(live))], [None] * len(live)
    for i, (k, dlc, tick, seed) in enumerate(case["steps"]):
        if k >= len(live):
            continue
        m = live[k]
        p = random.Random(seed).getrandbits(8 * m["dlc"]).to_bytes(m["dlc"], "little")
        ops += ["T %d" % tick, "U %d %d %s" % (k, dlc, p.hex())]
        exp.append(("U", k, dlc, tick, p))
        o = (seed >> 3) % len(live)
        ops.append("G %d" % o)
        exp.append(("G", o, 0, 0, None))
    lines = cdrv.execute(exe, ops)
    if len(lines) != len(exp):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(exp)))
    units = short = 0
    for e, l in zip(exp, lines):
        if e is None:
            continue
        rec = Rec(l)
        kind, k, dlc, tick, p = e
        m = live[k]
        if kind == "U":
            state[k] = [tick, (state[k][1] + 1) & 0xFFFFFFFF]
            dlcerr[k] = int(dlc < m["dlc"])
            short += dlcerr[k]
            wk = -1 if cfg.get("mono") else next(i for i, x in enumerate(vm) if x is m)
            if rec.h[:3] != [1, wk, m["id"]] or rec.h[3] < 1:
                raise Violation("Unpack of %s (id %#x): hook calls %d, hook #%d, id %#x, right monitor: %s; expected one call of #%d" % (
                    m["name"], m["id"], rec.h[0], rec.h[1], rec.h[2], rec.h[3], wk))
            if rec.h[3] != 2:
                raise Violation("Unpack of %s: the hook was called before the monitor was complete" % m["name"])
            if rec.ret != m["id"]:
                raise Violation("Unpack of %s returned %#x" % (m["name"], rec.ret))
            if not cfg.get("sigfloat") and rec.f != [M.extract(s, p) for s in m["sigs"]]:
                raise Violation("Unpack of %s with monitors decoded %s from %s" % (m["name"], rec.f, p.hex()))
        got = (rec.m[0], rec.m[1], rec.m[5])
        want = (state[k][0], state[k][1], rec.m[5] if dlcerr[k] is None else dlcerr[k])
        units += 1
        if got != want:
            raise Violation("%s of %s (DLC %d, given %d, tick %d): (last_cycle, frame_cnt, dlc_error) = %s, expected %s" % (
                "Unpack" if kind == "U" else "later state", m["name"], m["dlc"], dlc, tick, got, want))
    return {"units": units, "nontrivial": len(case["steps"]) >= 10 and 0 < short < len(case["steps"]),
            "counts": {"frames received": len(case["steps"]), "short frames": short}, "classes": ["mono hook" if cfg.get("mono") else "message hooks"]}


def shrinks(case):
    st = case["steps"]
    n = len(st)
    while n > 1:
        n //= 2
        for a in range(0, len(st), n):
            yield dict(case, steps=st[:a] + st[a + n:])
    for c in net_shrinks(case):
        if c["cfg"].get("mon"):
            yield c
