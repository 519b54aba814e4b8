"""C16: a signal that does not fit its frame is refused, never miscoded."""
import os, random, re
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import describe_sig

ID = "C16"
VARIANTS = ["asan"]
COUNTS = {"quick": 400, "thorough": 6000}
RULE = ("messages of 1..64 bytes with one signal of 1..64 bits that overhangs the frame by construction (just one bit, one byte, many bytes, Motorola signals running off the end, starting behind the "
        "frame by up to 2^31 bits; alone, among fitting signals, overlapping them, marked as rolling counter or checksum, scaled or multiplexed), 12 such messages per DBC, run through the "
        "AddressSanitizer build; the compiler must reject the code of every single one, while the same network with the signal moved into the frame (or a longer frame) compiles. In addition all overhanging "
        "layouts of frames of 1..8 bytes (thorough) or 1, 2 and 8 bytes (quick, sampled). Non-trivial: every case.")
ASSUMPTIONS = ["the generated sources are compiled with the user contract definitions (dbccodeconf.h) of a valid project", "start bits are below 2^31"]


def overhang(r, dlc):
    """A signal with at least one bit outside the frame."""
    total = dlc * 8
    for _ in range(200):
        n = r.choice(G.LENS)
        mot = r.random() < 0.5
        c = r.random()
        if mot:
            q = r.choice([total - n + 1, total - n + r.randint(1, n), total - 1, total, total + r.randint(0, 70)]) if c < 0.8 else r.choice([511, 512, 600, 4095, 65535, 65536, 2**31 - 1, r.randint(0, 4000)])
            if q < 0:
                q = r.randint(0, total - 1)
            st = G.mot_start(q) if c < 0.8 else q
        else:
            st = r.choice([total - n + 1, total - n + r.randint(1, n), total - 1, total, total + r.randint(0, 70)]) if c < 0.8 else r.choice([511, 512, 600, 4095, 65535, 65536, 2**31 - 1, r.randint(0, 4000)])
            if st < 0:
                st = r.randint(0, total - 1)
        s = {"start": st, "len": n, "mot": mot, "signed": r.random() < 0.3}
        if not M.fits(s, dlc):
            return s
    return {"start": total, "len": 1, "mot": False, "signed": False}


def gen(r, tier):
    names, ids, msgs = G.Names(r), set(), []
    tail = []
    for _ in range(12):
        dlc = r.choice(G.DLCS)
        m = G.message(r, names, ids, dlc=dlc, nsig=r.choice([0, 0, 0, 1, 2, 4]), overlap=0.1)
        s = overhang(r, dlc)
        s["name"] = "Bad" + names.new()
        G.scaling(r, s, weights=(8, 1, 1))
        s["unit"], s["recs"] = "", ["Vector__XXX"]
        if r.random() < 0.1:
            s["mux"] = r.choice(["M", "m0"])
        m["sigs"].insert(r.randint(0, len(m["sigs"])), s)
        if r.random() < 0.15 and s["len"] < 32 and not s["signed"]:
            tail.append(M.cm_sig(M.raw_id(m), s["name"], "<RollingCounter>"))
        elif r.random() < 0.15 and s["len"] <= 8:
            tail.append(M.cm_sig(M.raw_id(m), s["name"], "<Checksum:XOR8:1>"))
        msgs.append(m)
    cfg = {k: r.random() < 0.25 for k in ("bits", "canstruct", "sigfloat", "mon", "mono", "roll", "csm")}
    return {"net": {"version": None, "nodes": [], "msgs": msgs, "tail": tail, "methods": ["XOR8"]}, "cfg": cfg, "seed": r.getrandbits(32)}


_fixed = {}


def fixed_cases(tier):
    if tier in _fixed:
        return _fixed[tier]
    lay = []
    for dlc in ([1, 2, 8] if tier == "quick" else list(range(1, 9))):
        for mot in (False, True):
            for n in range(1, 65):
                for st in range(0, dlc * 8 + 9):
                    s = {"start": st, "len": n, "mot": mot, "signed": False}
                    if not M.fits(s, dlc):
                        lay.append((dlc, s))
    rr = random.Random(3)
    rr.shuffle(lay)
    if tier == "quick":
        lay = lay[:1800]
    out = []
    for a in range(0, len(lay), 150):
        msgs = [{"id": i, "ext": False, "name": "M%d" % i, "dlc": dlc, "tx": "N", "sigs": [dict(s, name="S", f="1", o="0")]} for i, (dlc, s) in enumerate(lay[a:a + 150])]
        out.append({"net": {"version": None, "nodes": [], "msgs": msgs, "tail": [], "methods": ["XOR8"]}, "cfg": {}, "seed": a})
    _fixed[tier] = out
    return out


def compile_(net, cfg, d, sub, ctx, rest=()):
    """Generates and compiles -> (compiler ok, output, generated?)"""
    w = os.path.join(d, sub)
    os.makedirs(w, exist_ok=True)
    dbc = os.path.join(w, "net.dbc")
    out = os.path.join(w, "out")
    os.makedirs(out, exist_ok=True)
    cdrv.write(dbc, M.render(net))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="exitcode=99")
    rc, so, se = cdrv.run_gen(ctx, ["-dbc", dbc, "-out", out, "-drvname", "drv", "-rw"], env=env)
    if rc < 0 or rc in (99, 134, 139):
        t = se.decode("latin1")
        raise Violation("the generator failed (status %d): %s" % (rc, " / ".join([l for l in t.splitlines() if "ERROR" in l or "error:" in l or "SUMMARY" in l][:3])))
    src = os.path.join(out, "lib", "drv.c")
    if not os.path.exists(src):
        return False, "nothing generated", False
    cdir = cdrv.prep_conf(out, w, net, cfg)
    rc, txt = cdrv.sh(["gcc", "-std=gnu11", "-w", "-fsyntax-only", "-fmax-errors=0", "-I", cdir, "-I", out + "/lib", "-I", out + "/inc"] + cdrv.defines("drv", cfg) + [src])
    return rc == 0, txt, True


def run(case, ctx):
    net, cfg = case["net"], case["cfg"]
    d = ctx.fresh()
    bad = [m for m in net["msgs"] if any(not M.fits(s, m["dlc"]) for s in m["sigs"])]
    ok, txt, made = compile_(net, cfg, d, "all", ctx)
    sure = set(re.findall(r"In function .{1,3}(?:Pack|Unpack)_(\w+?)_drv", txt)) if made else set()
    units = ones = 0
    for i, m in enumerate(bad):
        units += 1
        if m["name"] in sure and not (case["seed"] + i) % 29 == 0:
            continue
        one = {**net, "msgs": [m], "tail": [t for t in net["tail"] if (" %d " % M.raw_id(m)) in t]}
        ones += 1
        ok1, _, _ = compile_(one, cfg, d, "one", ctx)
        if ok1:
            s = next(s for s in m["sigs"] if not M.fits(s, m["dlc"]))
            raise Violation("%s does not fit its frame, yet the generated driver compiles" % describe_sig(m, s))
    if bad and ok:
        raise Violation("the driver with %d overhanging signals compiles" % len(bad))
    # the twin: every signal fits
    r = random.Random(case["seed"])
    tw = []
    for m in net["msgs"]:
        need = max([max(M.bit_positions(s)) // 8 + 1 for s in m["sigs"]] + [m["dlc"]])
        if need <= 64 and r.random() < 0.6:
            tw.append({**m, "dlc": need})
            continue
        ss = []
        for s in m["sigs"]:
            if not M.fits(s, m["dlc"]):
                n = min(s["len"], m["dlc"] * 8)
                q = r.randint(0, m["dlc"] * 8 - n)
                s = {**s, "len": n, "start": G.mot_start(q) if s["mot"] else q}
            ss.append(s)
        tw.append({**m, "sigs": ss})
    ok2, txt, made = compile_({**net, "msgs": tw}, cfg, d, "twin", ctx)
    if not ok2:
        raise Violation("the same network with every signal inside its frame %s: %s" % ("does not compile" if made else "is not generated", cdrv.errors(txt)))
    cnt = {"overhanging signals": len(bad), "compiled on their own": ones, "Motorola": sum(any(s["mot"] and not M.fits(s, m["dlc"]) for s in m["sigs"]) for m in bad),
           "alone in the frame": sum(len(m["sigs"]) == 1 for m in bad), "starting inside the frame": sum(any(s["start"] < m["dlc"] * 8 and not M.fits(s, m["dlc"]) for s in m["sigs"]) for m in bad)}
    return {"units": units, "counts": cnt, "nontrivial": bool(bad)}


def shrinks(case):
    net = case["net"]
    ms = net["msgs"]
    for k in (len(ms) // 2, 1):
        if k >= 1 and len(ms) > 1:
            for i in range(0, len(ms), k):
                n = {**net, "msgs": ms[:i] + ms[i + k:]}
                if n["msgs"]:
                    yield {**case, "net": G.clean_tail(n)}
    if net["tail"]:
        yield {**case, "net": {**net, "tail": []}}
    for k, v in case["cfg"].items():
        if v:
            yield {**case, "cfg": {**case["cfg"], k: False}}
    for i, m in enumerate(ms):
        for j, s in enumerate(m["sigs"]):
            def rep(sigs):
                return {**case, "net": G.clean_tail({**net, "msgs": ms[:i] + [{**m, "sigs": sigs}] + ms[i + 1:]})}
            if len(m["sigs"]) > 1:
                yield rep(m["sigs"][:j] + m["sigs"][j + 1:])
            for kv in ({"signed": False}, {"mux": ""}, {"f": "1", "o": "0"}, {"len": s["len"] // 2}, {"len": s["len"] - 1}):
                n = {**s, **kv}
                if n != s and n["len"] > 0 and M.fits(n, m["dlc"]) == M.fits(s, m["dlc"]):
                    yield rep(m["sigs"][:j] + [n] + m["sigs"][j + 1:])
