"""C10: automatic checksums."""
import random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import rnd_cfg, net_shrinks, tail_refs_ok, set_op

ID = "C10"
COUNTS = {"quick": 1500, "thorough": 7000}
RULE = ("random networks in which messages of 1..64 bytes carry a checksum signal (1..8 bits within any one byte, both byte orders, marker anywhere in a "
        "comment) and optionally a rolling counter, compiled with AUTO_CSM (with/without monitors); the user hash depends on every payload byte, length, id, "
        "method and option and logs its arguments; Pack and Unpack are compared with a model, received frames with right and wrong checksums. "
        "Non-trivial: at least one checksum signal.")
ASSUMPTIONS = ["GetFrameHash is the user's; METHOD is a C identifier it knows, OPT a non-negative decimal number", "checksum signals share no bit with other signals"]
METHODS = ["XOR8", "CRC8_SAE", "sum", "X", "E2E_P01"]


def hashval(data, mid, method, opt, mask):
    h = 2166136261
    for b in data:
        h = ((h ^ b) * 16777619) & 0xFFFFFFFF
    for x in (mid, 3 + 4 * METHODS.index(method), opt):
        h = ((h ^ (x & 0xFFFFFFFF)) * 16777619) & 0xFFFFFFFF
    h ^= h >> 16
    h ^= h >> 8
    return h & mask


def gen(r, tier):
    names, ids = G.Names(r), set()
    msgs, tail, csm = [], [], {}
    for _ in range(r.choice([1, 1, 2, 3])):
        m = G.message(r, names, ids, weights=(6, 2, 1))
        m["sigs"] = [s for s in m["sigs"]]
        msgs.append(m)
        used = set(b for s in m["sigs"] for b in M.bit_positions(s))
        if r.random() < 0.85:
            free = [b for b in range(m["dlc"]) if any(b * 8 + i not in used for i in range(8))]
            if not free:
                m["sigs"].pop()
                used = set(b for s in m["sigs"] for b in M.bit_positions(s))
                free = [b for b in range(m["dlc"]) if any(b * 8 + i not in used for i in range(8))]
            b = r.choice(free + [x for x in free if x >= 8] + [x for x in free if x == m["dlc"] - 1] * 2)
            bits = [i for i in range(8) if b * 8 + i not in used]
            lo = r.choice(bits)
            n = 1
            while n < 8 and lo + n in bits and r.random() < 0.85:
                n += 1
            while lo - 1 in bits and n < 8 and r.random() < 0.8:
                lo -= 1
                n += 1
            mot = r.random() < 0.5
            s = {"name": "Csm_" + m["name"][:20], "start": b * 8 + (lo + n - 1 if mot else lo), "len": n, "mot": mot, "signed": False, "f": "1", "o": "0", "recs": ["Vector__XXX"]}
            m["sigs"].insert(r.randint(0, len(m["sigs"])), s)
            meth, opt = r.choice(METHODS), r.choice([0, 1, 3, 255, 65535, 2147483647])
            csm[str(M.raw_id(m))] = [s["name"], meth, opt]
            mark = "<Checksum:%s:%d>" % (meth, opt)
            t = r.choice(["%s", "crc %s", "%s crc: over bytes 1:2", "text before %s and after: a:b", "low < high %s", "l1\n%s\nl3", "a<b>c %s"]) % mark
            tail.append(M.cm_sig(M.raw_id(m), s["name"], t))
            for x in m["sigs"]:
                if x is not s and x["len"] < 32 and not x["signed"] and M.is_simple(x) and r.random() < 0.3:
                    tail.insert(r.randint(0, len(tail)), M.cm_sig(M.raw_id(m), x["name"], "<RollingCounter>"))
                    csm[str(M.raw_id(m))].append(x["name"])
                    break
    net = {"version": None, "nodes": ["N1"], "msgs": msgs, "tail": tail, "methods": METHODS}
    cfg = rnd_cfg(r, csm=r.random() < 0.95, mon=r.random() < 0.8, canstruct=r.random() < 0.2, roll=r.random() < 0.4)
    if r.random() < 0.25:
        cfg["initbyte"] = r.choice([0xFF, 0x5A, 1])
    return {"net": net, "csm": csm, "cfg": cfg, "seed": r.getrandbits(32), "nv": 12, "mask": r.choice(["fit", "fit", "fit", "wide"])}


def run(case, ctx):
    net, cfg = dict(case["net"], methods=METHODS), case["cfg"]
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    exe = cdrv.compile_harness(ctx, net, out, d, cfg=cfg)
    r = random.Random(case["seed"])
    ops, exp = [], []
    found = {}
    for k, m in enumerate(live):
        c = case["csm"].get(str(M.raw_id(m)))
        j = next((i for i, s in enumerate(m["sigs"]) if c and s["name"] == c[0]), None)
        if j is not None and not any((" %d %s \"" % (M.raw_id(m), c[0])) in t and "<Checksum:" in t for t in net["tail"]):
            j = None
        rj = next((i for i, s in enumerate(m["sigs"]) if c and len(c) > 3 and s["name"] == c[3]), None)
        if rj is not None and not any((" %d %s \"" % (M.raw_id(m), c[3])) in t and "<Roll" in t for t in net["tail"]):
            rj = None
        on = j is not None and cfg.get("csm")
        s = m["sigs"][j] if j is not None else None
        found[k] = j
        mask = (1 << s["len"]) - 1 if s is not None and case["mask"] == "fit" else 0xFF
        ops.append("K %d" % mask)
        for _ in range(case["nv"]):
            vals = [G.raw_value(r, x) for x in m["sigs"]]
            ops += ["Z %d" % k, set_op(k, m, vals), "P %d %d" % (k, r.randint(0, 255))]
            if rj is not None and cfg.get("roll"):
                vals[rj] = (vals[rj] + 1) % (1 << m["sigs"][rj]["len"])
            want = M.encode(m, vals, cfg.get("initbyte") or 0, j if on else None)
            call = None
            if on:
                call = [str(m["dlc"]), str(m["id"]), str(3 + 4 * METHODS.index(c[1])), str(c[2]), bytes(want).hex()]
                M.insert_or(s, hashval(want, m["id"], c[1], c[2], mask), want)
            exp += [None, None, ("P", m, bytes(want), call, None)]
        for _ in range(case["nv"]):
            p = bytearray(r.getrandbits(8 * m["dlc"]).to_bytes(m["dlc"], "little"))
            err, call = 0, None
            if on and cfg.get("mon"):
                if r.random() < 0.7:
                    for v in r.sample(range(1 << s["len"]), 1 << s["len"]):
                        q = bytearray(p)
                        for b in M.bit_positions(s):
                            q[b >> 3] &= ~(1 << (b & 7)) & 0xFF
                        M.insert_or(s, v, q)
                        if hashval(q, m["id"], c[1], c[2], mask) == v:
                            p = q
                            break
                err = int(hashval(p, m["id"], c[1], c[2], mask) != M.extract(s, p))
                call = [str(m["dlc"]), str(m["id"]), str(3 + 4 * METHODS.index(c[1])), str(c[2]), bytes(p).hex()]
            ops += ["Z %d" % k, "U %d %d %s" % (k, m["dlc"], bytes(p).hex())]
            exp += [None, ("U", m, bytes(p), call, err)]
    lines = cdrv.execute(exe, ops)
    if len(lines) != len(exp):
        raise Violation("driver answered %d of %d operations" % (len(lines), len(exp)))
    units = good = 0
    for e, l in zip(exp, lines):
        if e is None:
            continue
        kind, m, data, call, err = e
        rec = Rec(l)
        units += 1
        c = case["csm"].get(str(M.raw_id(m)))
        if (rec.hash or None) != call or rec.nh != (1 if call else 0):
            raise Violation("%s of %s (checksum %s): hash calls %d, last with (len,id,method,opt,data) %s, expected %s" % (kind, m["name"], c, rec.nh, rec.hash, call))
        if kind == "P":
            if rec.data != data:
                raise Violation("Pack of %s (checksum %s) gave %s, expected %s" % (m["name"], c, rec.data.hex(), data.hex()))
            if not rec.ok:
                raise Violation("Pack of %s wrote outside the frame" % m["name"])
        else:
            if rec.f != [M.extract(s, data) for s in m["sigs"]]:
                raise Violation("Unpack of %s: fields %s from %s" % (m["name"], rec.f, data.hex()))
            if cfg.get("mon") and rec.m[3] != err:
                raise Violation("Unpack of %s (checksum %s): csm_error %d, expected %d for %s" % (m["name"], c, rec.m[3], err, data.hex()))
            good += call is not None and err == 0
    n = sum(v is not None for v in found.values())
    return {"units": units, "nontrivial": n > 0, "counts": {"checksum signals": n, "in byte 8 or later": sum(j is not None and live[k]["sigs"][j]["start"] >= 64 for k, j in found.items()),
            "frames with matching checksum": good}}


def shrinks(case):
    return net_shrinks(case, ok=tail_refs_ok)
