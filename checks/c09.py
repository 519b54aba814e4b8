"""C09: rolling counters."""
import random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import rnd_cfg, net_shrinks, tail_refs_ok, set_op, overlaps

ID = "C09"
COUNTS = {"quick": 1500, "thorough": 7000}
RULE = ("model-based: random networks in which some messages carry a <RollingCounter> signal (unsigned, unscaled, 1..31 bits, any position, marker "
        "anywhere in the comment) compiled with AUTO_ROLL (with/without monitors and other switches); random histories of Pack (counter must advance by "
        "one modulo 2^len, frame equals the reference encoding) and Unpack (right, repeated, skipped counters; roll_error against a model). "
        "Non-trivial: at least one counter and 10 steps.")
ASSUMPTIONS = ["'previous value' on Pack is the counter field's value in the message struct", "roll_error is not asserted for the first received frame"]

TEXTS = ["<RollingCounter>", "alive <RollingCounter>", "<RollingCounter> of this frame", "x\n<RollingCounter>\ny", "a < b <RollingCounter>", "<Foo:1:2> <RollingCounter>"]


def gen(r, tier):
    net = G.network(r, nmsg=r.choice([1, 2, 3, 4]), weights=(6, 2, 1))
    tail, rolls = [], {}
    for m in net["msgs"]:
        c = [s for s in m["sigs"]]
        if not c or r.random() < 0.25:
            continue
        s = r.choice(c)
        if s["len"] > 31:
            continue
        s["signed"], s["f"], s["o"] = False, "1", "0"
        if r.random() < 0.3:
            new = s["name"] + "_counter_of_the_whole_message_xyz"[:max(0, r.choice([20, 24, 28, 32, 40]) - len(s["name"]))]
            if new.lower() not in [x["name"].lower() for x in m["sigs"]]:
                s["name"] = new
        rolls[str(M.raw_id(m))] = s["name"]
        tail.append(M.cm_sig(M.raw_id(m), s["name"], r.choice(TEXTS)))
    net["tail"] = tail
    cfg = rnd_cfg(r, roll=r.random() < 0.93, mon=r.random() < 0.85, csm=r.random() < 0.2, canstruct=r.random() < 0.2)
    if r.random() < 0.25:
        cfg["initbyte"] = r.choice([0xFF, 0x5A, 1])
    cfg["mono"] = cfg["mon"] and r.random() < 0.2
    steps = []
    live = cdrv.live(net)
    for _ in range(r.choice([12, 30, 60])):
        if not live:
            break
        k = r.randrange(len(live))
        c = r.random()
        op = "P" if c < 0.4 else ("S" if c < 0.5 else "U")
        steps.append([op, k, r.choice(["next", "next", "next", "same", "skip", "rand"]), r.getrandbits(32)])
    return {"net": net, "rolls": rolls, "cfg": cfg, "steps": steps}


def run(case, ctx):
    net, cfg = case["net"], case["cfg"]
    live = cdrv.live(net)
    if not live or not case["steps"]:
        return {"nontrivial": False}
    rolls = {}
    for k, m in enumerate(live):
        for j, s in enumerate(m["sigs"]):
            if case["rolls"].get(str(M.raw_id(m))) == s["name"] and any((" %d %s \"" % (M.raw_id(m), s["name"])) in t for t in net.get("tail", [])):
                if s["signed"] or s["len"] > 31 or not M.is_simple(s):
                    return {"nontrivial": False}
                rolls[k] = (j, s)
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg)
    ops, exp = [], []
    fields = {}
    last = {}
    rollbit = {}
    for k in range(len(live)):
        ops.append("Z %d" % k)
        exp.append(None)
        fields[k] = [0] * len(live[k]["sigs"])
        rollbit[k] = 0
    for op, k, how, seed in case["steps"]:
        if k >= len(live):
            continue
        r = random.Random(seed)
        m = live[k]
        if op == "S":
            fields[k] = [G.raw_value(r, s) for s in m["sigs"]]
            ops.append(set_op(k, m, fields[k]))
            exp.append(None)
        elif op == "P":
            if k in rolls and cfg.get("roll"):
                j, s = rolls[k]
                fields[k][j] = (fields[k][j] + 1) % (1 << s["len"])
            want = M.encode(m, fields[k], cfg.get("initbyte") or 0)
            ops.append("P %d %d" % (k, r.randint(0, 255)))
            exp.append(("P", m, list(fields[k]), bytes(want), rollbit[k]))
        else:
            p = bytearray(r.getrandbits(8 * m["dlc"]).to_bytes(m["dlc"], "little"))
            if k in rolls:
                j, s = rolls[k]
                mod = 1 << s["len"]
                cur = last.get(k, 0)
                v = {"next": cur + 1, "same": cur, "skip": cur + 2 + r.randint(0, 5), "rand": r.randrange(mod)}[how] % mod
                for b in M.bit_positions(s):
                    p[b >> 3] &= ~(1 << (b & 7)) & 0xFF
                M.insert_or(s, v, p)
                if cfg.get("roll"):
                    rollbit[k] = None if k not in last else int(v != (cur + 1) % mod)
                last[k] = v
            fields[k] = [M.extract(s, p) for s in m["sigs"]]
            ops.append("U %d %d %s" % (k, m["dlc"], bytes(p).hex()))
            exp.append(("U", m, list(fields[k]), bytes(p), rollbit[k]))
    lines = cdrv.execute(exe, ops)
    if len(lines) != len(ops):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(ops)))
    units = 0
    for n, (e, l) in enumerate(zip(exp, lines)):
        if e is None:
            continue
        kind, m, f, data, rb = e
        rec = Rec(l)
        units += 1
        if kind == "P" and rec.data != data:
            raise Violation("step %d: Pack of %s gave %s, expected %s (fields %s, counter %s)" % (n, m["name"], rec.data.hex(), data.hex(), f, case["rolls"].get(str(M.raw_id(m)))))
        if rec.f != f:
            raise Violation("step %d: fields of %s after %s are %s, expected %s (counter %s)" % (n, m["name"], kind, rec.f, f, case["rolls"].get(str(M.raw_id(m)))))
        if cfg.get("mon") and rb is not None and rec.m[2] != rb:
            raise Violation("step %d: roll_error of %s after %s is %d, expected %d (payload %s, counter %s)" % (n, m["name"], kind, rec.m[2], rb, data.hex(), case["rolls"].get(str(M.raw_id(m)))))
    return {"units": units, "nontrivial": bool(rolls) and len(case["steps"]) >= 10,
            "counts": {"steps": len(case["steps"]), "counters": len(rolls), "wide counters (>8 bits)": sum(s["len"] > 8 for _, s in rolls.values())}}


def shrinks(case):
    st = case["steps"]
    n = len(st)
    while n > 1:
        n //= 2
        for a in range(0, len(st), n):
            yield dict(case, steps=st[:a] + st[a + n:])
    for c in net_shrinks(case, ok=tail_refs_ok):
        yield c
