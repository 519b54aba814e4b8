"""C22: driver names and value descriptions become valid C names, used consistently."""
import os, random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec

ID = "C22"
COUNTS = {"quick": 1500, "thorough": 14000}
RULE = ("random driver-name arguments (mixed case, leading digits / blanks / punctuation, path separators, shell and format characters, non-ASCII, control characters, up to 100 characters, also such that leave nothing) and value descriptions of the same "
        "kind with repetitions; expected names come from a reference sanitiser. Observed: the set of files, the package produced for the already sanitised name (must be identical), compiled C symbols and macros in a random "
        "configuration, the answers of the driver, redefinition diagnostics. Non-trivial: the name argument is no C identifier already or a table holds a description that is none.")
ASSUMPTIONS = ["the name argument does not start with '-' (the option parser takes such an argument for the next option)", "when two descriptions of one signal give the same name, the macro has one of their values",
               "the driver is not named like a header of the C library", "no description leads to a macro the generator also writes for another purpose"]
PIECES = ["drv", "Net", "CAN", "abc", "X", "_", "__", "0", "1", "42", " ", "  ", "-", "--", ".", "..", "/", "\\", "$", "%s", "%d", "%n", "é", "Ж", "中", "\t", "\n", "'", '"', "`", "(", ")", "&", "|", ";", "*", "?", "#", "@", "a", "Z", "z9", "\x7f", "\x01", ":", "+", "=", ",", "~", "!", "[", "]", "{", "}", "^", "<", ">"]
FIXED = ["drv", "DRV", "Drv", "my driver", "1st", " lead", "9", "/../x", "../../etc/x", "a/b", "a.b", "%s%n", "_", "__", " ", "int", "A-B_c 1", "é", "...", "x" * 100, "Aa" * 50, "a b c", "tail ", "t-", "0a0", "\u00b5C"]


def name(r, pieces=PIECES, long=True):
    c = r.random()
    if c < 0.15:
        return r.choice(FIXED)
    if c < 0.3:
        return "".join(chr(r.randint(32, 126)) for _ in range(r.randint(1, 12)))
    if c < 0.4 and long:
        return "".join(r.choice(G.ALPHA + "0123456789 -") for _ in range(r.choice([31, 32, 50, 63, 64, 80, 100])))
    return "".join(r.choice(pieces) if r.random() < 0.5 else r.choice(G.ALPHA + "0123456789") for _ in range(r.randint(1, 10)))


def desc(r, used):
    if used and r.random() < 0.3:
        d = r.choice(used)
        return d if r.random() < 0.4 else d.replace("_", " ") if r.random() < 0.5 else r.choice(["1", "-", "(", "é"]) + d + r.choice(["", "!", "."])
    t = "".join(c for c in name(r) if c >= " " and c not in '"\x7f')
    return t


def usable(s, m, t):
    return M.c_name(t) not in ("toS", "fromS", "CovFactor", "ro", "phys") and len(t) < 200


def gen(r, tier):
    n = name(r)
    while n.startswith("-") or "\0" in n:
        n = r.choice("a_ 1") + n[1:]
    net = G.network(r, nmsg=r.choice([1, 2]), nsig=r.choice([1, 2, 3]))
    tail = []
    for m in net["msgs"]:
        for s in m["sigs"]:
            if r.random() < 0.7:
                used, pairs = [], []
                lo, hi = M.raw_range(s)
                for k in range(r.choice([1, 2, 4, 8])):
                    t = desc(r, used)
                    if usable(s, m, t):
                        used.append(t)
                        pairs.append([max(lo, min(hi, k)) if r.random() < 0.8 else r.randint(max(lo, -99), min(hi, 99)), t])
                if pairs:
                    tail.append([M.raw_id(m), s["name"], pairs])
    cfg = {k: r.random() < 0.35 for k in ("bits", "canstruct", "sigfloat", "mon", "roll", "csm")}
    cfg["mono"] = cfg["mon"] and r.random() < 0.4
    cfg.update(lang=r.choice(["c", "c", "cpp"]), ext64=True)
    if r.random() < 0.4:
        cfg["initbyte"] = r.choice([0xFF, 0x5A])
    return {"drv": n[:100], "net": net, "tabs": tail, "cfg": cfg, "nodeutils": r.random() < 0.3, "driverdir": r.random() < 0.2, "seed": r.getrandbits(32)}


def fixed_cases(tier):
    r = random.Random(22)
    out = []
    for n in FIXED:
        c = gen(r, tier)
        out.append({**c, "drv": n})
    return out


def tree(d):
    res = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            res[os.path.relpath(p, d)] = cdrv.read(p)
    return res


def run(case, ctx):
    net = dict(case["net"])
    net["tail"] = [M.val_line(a, b, [tuple(p) for p in ps]) for a, b, ps in case["tabs"]]
    o = M.c_name(case["drv"])
    low, up = o.lower(), o.upper()
    d = ctx.fresh()
    dbc = os.path.join(d, "net.dbc")
    cdrv.write(dbc, M.render(net))
    opts = ["-rw"] + (["-nodeutils"] if case["nodeutils"] else []) + (["-driverdir"] if case["driverdir"] else [])

    def go(sub, nm):
        base = os.path.join(d, sub, "deep")
        os.makedirs(base)
        rc, so, se = cdrv.run_gen(ctx, ["-dbc", dbc, "-drvname", nm, "-out", base] + opts, cwd=base)
        if rc < 0 or rc >= 128:
            raise Violation("the program died (status %d) for driver name %r" % (rc, nm))
        return base, tree(os.path.join(d, sub))
    base, got = go("a", case["drv"])
    plain = case["drv"] == o
    if not o:
        if got:
            raise Violation("driver name %r holds no character of a C identifier, still %s was written" % (case["drv"], sorted(got)[:3]))
        return {"units": 1, "nontrivial": True, "classes": ["empty name"]}
    pre = "deep/" + (o + "/" if case["driverdir"] else "")
    utils = [low] if not case["nodeutils"] else sorted(set((n + "_" + low).lower() for m in net["msgs"] for n in [m["tx"]] + [x for s in m["sigs"] for x in s["recs"]]))
    want = ["lib/%s.h" % low, "lib/%s.c" % low, "lib/%s-fmon.h" % low, "usr/%s-fmon.c" % low, "conf/%s-config.h" % low, "conf/dbccodeconf.h", "inc/canmonitorutil.h"]
    want = {pre + w for w in want} | {pre + "butl/%s-binutil.%s" % (u, e) for u in utils for e in "hc"}
    # nothing is claimed about utils of the placeholder node
    ph = {pre + "butl/vector__xxx_%s-binutil.%s" % (low, e) for e in "hc"} if case["nodeutils"] else set()
    if set(got) - ph != want - ph:
        raise Violation("driver name %r: missing files %s, unexpected files %s" % (case["drv"], sorted(want - ph - set(got))[:4], sorted(set(got) - want - ph)[:4]))
    if not plain:
        _, ref = go("b", o)
        if ref != got:
            bad = [f for f in sorted(set(ref) | set(got)) if ref.get(f) != got.get(f)]
            raise Violation("driver name %r does not give the package of its C name %r: %s" % (case["drv"], o, bad[:4]))
    out = os.path.join(base, o) if case["driverdir"] else base
    units = len(got)
    cfg = case["cfg"]
    exe = cdrv.compile_harness(ctx, net, out, d, drv=o, cfg=cfg, name="harness-of-c22")
    live = cdrv.live(net)
    # the driver answers, and obeys its upper-case configuration macros
    r = random.Random(case["seed"])
    ops, exp = [], []
    for k, m in enumerate(live):
        p = bytes(r.getrandbits(8) for _ in range(m["dlc"]))
        ops += ["Z %d" % k, "U %d %d %s" % (k, m["dlc"], p.hex()), "P %d 170" % k]
        exp += [None, (m, p), (m, None)]
    for e, l in zip(exp, cdrv.execute(exe, ops)):
        if e is None:
            continue
        m, p = e
        rec = Rec(l)
        units += 1
        if p is not None:
            if rec.f != [M.extract(s, p) for s in m["sigs"]]:
                raise Violation("Unpack_%s_%s(%s) gives %s" % (m["name"], o, p.hex(), rec.f))
            if (rec.p is not None) != bool(cfg.get("sigfloat")) or (rec.h is not None) != bool(cfg.get("mon")) or (cfg.get("mon") and (rec.h[0] != 1 or (rec.h[1] == -1) != bool(cfg["mono"]))):
                raise Violation("driver %s ignores one of its configuration macros: %s" % (o, l[:200]))
        else:
            own = set(b for s in m["sigs"] for b in M.bit_positions(s))
            ib = cfg.get("initbyte") or 0
            for b in range(m["dlc"] * 8):
                if b not in own and (rec.data[b >> 3] >> (b & 7) & 1) != (ib >> (b & 7) & 1):
                    raise Violation("driver %s ignores %s_INITIAL_BYTE_VALUE=%d: Pack_%s gives %s" % (o, up, ib, m["name"], rec.data.hex()))
    # the whole package, the generated monitor template and utils included
    inc = ["-I", os.path.join(d, "myconf"), "-I", out + "/lib", "-I", out + "/inc", "-I", out + "/butl"]
    srcs = [out + "/lib/%s.c" % low, out + "/usr/%s-fmon.c" % low] + [out + "/butl/%s-binutil.c" % u for u in utils if not u.startswith("vector__xxx")]
    cdrv.write(d + "/main.c", '#include <stdint.h>\nuint32_t h_tick(void) { return 0; }\nuint32_t h_hash(const uint8_t* a, uint32_t b, uint32_t c, int e, int f) { return 0; }\nint main(void) { return 0; }\n')
    rc, txt = cdrv.sh(["gcc", "-std=gnu11"] + inc + cdrv.defines(o, cfg) + srcs + [d + "/main.c", "-o", d + "/all"])
    units += len(srcs)
    if rc:
        raise Violation("the package of driver name %r does not compile or link: %s" % (case["drv"], cdrv.errors(txt)))
    for w in ("redefined", "redefinition", "extra tokens", "macro names must be"):
        if w in txt:
            raise Violation("the package of driver name %r: %s" % (case["drv"], [l for l in txt.splitlines() if w in l][0]))
    # value macros
    vals = {}
    for a, sn, ps in case["tabs"]:
        m = next((m for m in live if M.raw_id(m) == a), None)
        s = next((s for s in m["sigs"] if s["name"] == sn), None) if m else None
        if s:
            for v, t in ps:
                vals.setdefault("%s_%s_%s" % (M.field(s), m["name"], M.c_name(t)), (set(), t))[0].add(v)
    mac = cdrv.macros([os.path.join(d, "myconf"), out + "/lib", out + "/inc"], low + ".h")
    pres = ["%s_%s_" % (M.field(s), m["name"]) for m in live for s in m["sigs"]]
    have = {k: v for k, v in mac.items() if "(" not in k and any(k.startswith(x) for x in pres)}
    for k, (vs, t) in vals.items():
        units += 1
        if k not in have:
            raise Violation("description %r: macro %s is missing" % (t, k))
        if have[k].strip("() ") not in [str(v) for v in vs] and have[k].strip("() uUlL") not in [str(v) for v in vs]:
            raise Violation("description %r: macro %s is %s, expected %s" % (t, k, have[k], sorted(vs)))
    if set(have) - set(vals):
        raise Violation("macros that come from no description: %s" % sorted(set(have) - set(vals))[:4])
    odd = any(t != M.c_name(t) for _, _, ps in case["tabs"] for _, t in ps)
    return {"units": units, "nontrivial": not plain or odd, "classes": (["odd driver name"] if not plain else []) + (["odd descriptions"] if odd else []) + (["mixed case"] if o not in (low, up) else []) +
            (["one name for two values"] if any(len(v[0]) > 1 for v in vals.values()) else []) + (["long"] if len(o) > 60 else []), "counts": {"value macros": len(vals)}}


def shrinks(case):
    n = case["drv"]
    for i in range(len(n)):
        c = n[:i] + n[i + 1:]
        if c and c[0] != "-":
            yield {**case, "drv": c}
    if case["tabs"]:
        yield {**case, "tabs": []}
    for i, (a, b, ps) in enumerate(case["tabs"]):
        yield {**case, "tabs": case["tabs"][:i] + case["tabs"][i + 1:]}
        for j in range(len(ps)):
            if len(ps) > 1:
                yield {**case, "tabs": case["tabs"][:i] + [[a, b, ps[:j] + ps[j + 1:]]] + case["tabs"][i + 1:]}
            v, t = ps[j]
            for k in range(len(t)):
                yield {**case, "tabs": case["tabs"][:i] + [[a, b, ps[:j] + [[v, t[:k] + t[k + 1:]]] + ps[j + 1:]]] + case["tabs"][i + 1:]}
    for k in ("nodeutils", "driverdir"):
        if case[k]:
            yield {**case, k: False}
    for k, v in case["cfg"].items():
        if v and k not in ("ext64", "lang"):
            yield {**case, "cfg": {**case["cfg"], k: None}}
    for nn in G.shrink_net(case["net"]):
        if G.net_ok(nn):
            ids = {(M.raw_id(m), s["name"]) for m in nn["msgs"] for s in m["sigs"]}
            yield {**case, "net": nn, "tabs": [t for t in case["tabs"] if (t[0], t[1]) in ids]}
