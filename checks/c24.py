"""C24: several drivers share one directory and one program, each behaving as it does alone."""
import os, random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import phys_of, set_op

ID = "C24"
COUNTS = {"quick": 340, "thorough": 2600}
RULE = ("2..3 random networks (equal frame ids, equal signal names, shared nodes, different maximum DLC and versions, comments, markers) under different driver names, generated with -rw into one directory in random order with repetitions, each with its "
        "own options and random configuration macros; after every run the files of the other drivers must be untouched and the common headers the same; all headers are included in one file, all sources (drivers, generated monitor templates, "
        "utils) are compiled and linked into one program, and interleaved Pack/Unpack histories of all drivers in one process must give each driver's answers when generated, compiled and run alone. Non-trivial: every driver has a message with signals.")
ASSUMPTIONS = ["message names are distinct over the networks; driver names differ case-insensitively", "the user's dbccodeconf.h is common to all drivers"]
NAMES = ["drv", "Net2", "carA", "Abc", "x", "net", "BODY1", "Drv2", "D", "CANbus", "ab", "abcd"]
MACROS = {"bits": "USE_BITS_SIGNAL", "canstruct": "USE_CANSTRUCT", "sigfloat": "USE_SIGFLOAT", "mon": "USE_DIAG_MONITORS", "mono": "USE_MONO_FMON", "roll": "AUTO_ROLL", "csm": "AUTO_CSM"}
COMMON = ("conf/dbccodeconf.h", "inc/canmonitorutil.h")


def gen(r, tier):
    n = r.choice([2, 2, 2, 3])
    names = r.sample(NAMES, n)
    while len(set(x.lower() for x in names)) < n:
        names = r.sample(NAMES, n)
    if r.random() < 0.4:
        # names with much in common
        base = "".join(r.choice("abcdefghKLMNOP_0123456789") for _ in range(r.randint(2, 24)))
        base = "n" + base
        var = [base, base + "2", base + "_", base + "_two", base + "one", base + "xyz9", base[:-1] or "q"]
        var = [v for k, v in enumerate(var) if v.lower() not in [w.lower() for w in var[:k]]]
        if r.random() < 0.3:
            var = [v + "_" + base for v in ("a", "b", "ab", "a2")]
        names = r.sample(var, n)
    mn = G.Names(r)
    drvs, first, meth = [], None, []
    pa = r.choice([0.2, 0.5, 0.8])
    for nm in names:
        net = G.network(r, nmsg=r.choice([1, 2, 3]), nsig=r.choice([1, 2, 4]), empty=0.1)
        for m in net["msgs"]:
            m["name"] = mn.new()
        if first:
            if r.random() < 0.6:
                # equal ids, signal names and nodes in both networks
                for m, f in zip(net["msgs"], first["msgs"]):
                    m["id"], m["ext"] = f["id"], f["ext"]
                    have = set(s["name"].lower() for s in m["sigs"])
                    for s, t in zip(m["sigs"], f["sigs"]):
                        if t["name"].lower() not in have:
                            have.add(t["name"].lower())
                            s["name"] = t["name"]
                seen = set()
                net["msgs"] = [m for m in net["msgs"] if not (m["id"] in seen or seen.add(m["id"]))]
            if r.random() < 0.5:
                for m in net["msgs"]:
                    m["tx"] = r.choice(first["nodes"])
                    for s in m["sigs"]:
                        s["recs"] = [r.choice(first["nodes"])]
                net["nodes"] = list(first["nodes"])
        net = G.decorate(r, net)
        first = first or net
        meth += [x for x in net["methods"] if x not in meth]
        cfg = {k: r.random() < pa for k in MACROS}
        cfg["mono"] = cfg["mono"] and cfg["mon"]
        if r.random() < 0.3:
            cfg["initbyte"] = r.choice([255, 0x55])
        if r.random() < 0.15:
            cfg["maxdlc"] = r.choice([1, 8, 64])
        drvs.append({"drv": nm, "net": net, "cfg": cfg, "opts": [o for o in ("-nodeutils", "-gendate", "-noconfig", "-noinc") if r.random() < (0.4 if o == "-nodeutils" else 0.15)], "lang": r.choice(["c", "c", "cpp"])})
    for v in drvs:
        v["net"]["methods"] = meth
    order = list(range(n)) + [r.randrange(n) for _ in range(r.choice([0, 1, 2]))]
    r.shuffle(order)
    return {"drvs": drvs, "order": order, "lang": r.choice(["c", "c", "cpp"]), "opt": r.choice(["-O0", "-O2"]), "sf": r.choice(["double", "float"]), "incorder": r.getrandbits(20), "seed": r.getrandbits(32)}


def tree(d):
    res = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            res[os.path.relpath(p, d)] = b"\n".join(l for l in cdrv.read(p).split(b"\n") if not l.startswith(b"// Generation time"))
    return res


def mkcfg(case, v):
    return {**v["cfg"], "lang": case["lang"], "opt": case["opt"], "ext64": True, "sigfloat_t": case["sf"]}


def run(case, ctx):
    d = ctx.fresh()
    drvs = case["drvs"]
    out = os.path.join(d, "all")
    os.makedirs(out)
    for i, v in enumerate(drvs):
        cdrv.write(os.path.join(d, "n%d.dbc" % i), M.render(v["net"]))

    def go(i, where, opts):
        rc, so, se = cdrv.run_gen(ctx, ["-dbc", os.path.join(d, "n%d.dbc" % i), "-out", where, "-drvname", drvs[i]["drv"], "-rw"] + opts)
        if rc:
            raise Violation("generator ended with status %d: %s" % (rc, se[-200:].decode("latin1")))
    alone, own, units = [], [], 0
    for i, v in enumerate(drvs):
        a = os.path.join(d, "alone%d" % i)
        os.makedirs(a)
        go(i, a, v["opts"])
        alone.append(tree(a))
        own.append(set(alone[i]) - set(COMMON))
    for i, v in enumerate(drvs):
        for j in range(i):
            if own[i] & own[j]:
                raise Violation("drivers %s and %s both claim %s" % (v["drv"], drvs[j]["drv"], sorted(own[i] & own[j])[:3]))
    cur = {}
    for i in case["order"]:
        go(i, out, drvs[i]["opts"])
        new = tree(out)
        units += len(new)
        want = {**cur, **alone[i]}
        for p in sorted(set(new) | set(want)):
            if new.get(p) != want.get(p):
                if p in COMMON:
                    raise Violation("generating driver %s changes the common header %s" % (drvs[i]["drv"], p))
                raise Violation("generating driver %s into the common directory %s %s%s" % (
                    drvs[i]["drv"], "removes" if p not in new else "adds" if p not in want else "changes" if p not in own[i] else "does not write its own", p,
                    " of driver " + next((x["drv"] for x, o in zip(drvs, own) if p in o and p not in own[i]), "?") if p in cur and p not in own[i] else ""))
        for p in COMMON:
            if p in cur and p in alone[i] and cur[p] != alone[i][p]:
                raise Violation("the common header %s differs between driver %s and the ones before" % (p, drvs[i]["drv"]))
        cur = new
    # what -noinc / -noconfig left out everywhere the user has from earlier times
    extra = os.path.join(d, "extra")
    os.makedirs(extra)
    for i, v in enumerate(drvs):
        go(i, extra, ["-nodeutils"])
    inc = os.path.join(out if COMMON[1] in cur else extra, "inc")
    conf = os.path.join(d, "conf")
    os.makedirs(conf)
    methods = {"methods": drvs[0]["net"]["methods"], "msgs": []}
    cdrv.write(os.path.join(conf, "dbccodeconf.h"), cdrv.conf_text(methods, {"ext64": True, "sigfloat_t": case["sf"]}))
    for v in drvs:
        f = "%s-config.h" % v["drv"].lower()
        p = os.path.join(out, "conf", f)
        t = cdrv.read(p if os.path.exists(p) else os.path.join(extra, "conf", f)).decode("latin1")
        U = v["drv"].upper()
        for k, x in MACROS.items():
            if v["cfg"].get(k):
                if "/* #define %s_%s */" % (U, x) not in t:
                    raise Violation("the generated %s does not offer %s_%s" % (f, U, x))
                t = t.replace("/* #define %s_%s */" % (U, x), "#define %s_%s" % (U, x))
        for k, x in (("initbyte", "INITIAL_BYTE_VALUE"), ("maxdlc", "MAX_DLC_VALUE")):
            if v["cfg"].get(k) is not None:
                t += "\n#define %s_%s %dU\n" % (U, x, v["cfg"][k])
        cdrv.write(os.path.join(conf, f), t)
    incs = ["-I", conf, "-I", out + "/lib", "-I", inc, "-I", out + "/butl"]
    # ---- 1: the packages as they are, linked into one program
    rr = random.Random(case["incorder"])
    heads, objs, body = [], [], []
    for i, v in enumerate(drvs):
        low = v["drv"].lower()
        srcs = [out + "/lib/%s.c" % low, out + "/usr/%s-fmon.c" % low]
        heads.append(low + ".h")
        if v["cfg"]["mon"]:
            heads.append(low + "-fmon.h")
        for p in sorted(own[i]):
            if p.endswith("-binutil.c"):
                srcs.append(os.path.join(out, p))
                heads.append(os.path.basename(p)[:-2] + ".h")
        for m in cdrv.live(v["net"]):
            body.append("sink += (uintptr_t)&Pack_%s_%s; sink += (uintptr_t)&Unpack_%s_%s; sink += sizeof(%s_t);" % (m["name"], v["drv"], m["name"], v["drv"], m["name"]))
        for k, s in enumerate(srcs):
            o = os.path.join(d, "o%d_%d.o" % (i, k))
            cxx = v["lang"] == "cpp"
            rc, txt = cdrv.sh((["g++", "-x", "c++", "-std=gnu++17"] if cxx else ["gcc", "-std=gnu11"]) + ["-w"] + incs + ["-c", s, "-o", o])
            units += 1
            if rc:
                raise Violation("%s does not compile in the common directory: %s" % (os.path.basename(s), cdrv.errors(txt)))
            objs.append(o)
    rr.shuffle(heads)
    cxx = case["lang"] == "cpp"
    x = 'extern "C" ' if cxx else ""
    main = os.path.join(d, "main." + ("cpp" if cxx else "c"))
    cdrv.write(main, "#include <stdint.h>\n" + "".join('#include "%s"\n' % h for h in heads) + x + "uint32_t h_tick(void) { return 0; }\n" + x +
               "uint32_t h_hash(const uint8_t* a, uint32_t b, uint32_t c, int e, int f) { return 0; }\nint main(void) {\nvolatile uintptr_t sink = 0;\n" + "\n".join(body) + "\nreturn (int)(sink & 0); }\n")
    comp = ["g++", "-std=gnu++17"] if cxx else ["gcc", "-std=gnu11"]
    rc, txt = cdrv.sh(comp + ["-fpermissive"] * cxx + incs + ["-c", main, "-o", d + "/main.o"])
    if rc:
        raise Violation("the headers of all drivers cannot be used in one file (order %s): %s" % (" ".join(heads), cdrv.errors(txt)))
    if "redefined" in txt:
        raise Violation("the headers of the drivers redefine each other's macros: %s" % [l for l in txt.splitlines() if "redefined" in l][0])
    rc, txt = cdrv.sh(["g++"] + objs + [d + "/main.o", "-o", d + "/prog"])
    units += 2
    if rc:
        raise Violation("the drivers do not link into one program: %s" % cdrv.errors(txt))
    # ---- 2: behaviour, alone against together
    r = random.Random(case["seed"])
    answers, hist = [], []
    for i, v in enumerate(drvs):
        net, cfg = v["net"], mkcfg(case, v)
        live = cdrv.live(net)
        ops = []
        for k, m in enumerate(live):
            ops.append("Z %d" % k)
        for _ in range(12 if live else 0):
            k = r.randrange(len(live))
            m = live[k]
            if r.random() < 0.5:
                ops.append("T %d" % r.getrandbits(32))
            p = bytes(r.getrandbits(8) for _ in range(m["dlc"]))
            ops.append("U %d %d %s" % (k, r.choice([m["dlc"], m["dlc"], 0, 255]), p.hex()))
            if r.random() < 0.5:
                raws = [G.raw_value(r, s) for s in m["sigs"]]
                ops.append(set_op(k, m, raws, [None if M.is_simple(s) else phys_of(s, q) for s, q in zip(m["sigs"], raws)] if cfg["sigfloat"] else None))
            ops.append("P %d %d" % (k, r.randint(0, 255)))
        hist.append(ops)
        ref = os.path.join(d, "ref%d" % i)
        os.makedirs(ref)
        go(i, ref, [])
        exe = cdrv.compile_harness(ctx, net, ref, d, drv=v["drv"], cfg=cfg, name="alone-h%d" % i)
        answers.append(cdrv.execute(exe, ops) if ops else [])
    objs = []
    for i, v in enumerate(drvs):
        src = os.path.join(d, "tog-h%d." % i + ("cpp" if cxx else "c"))
        t = cdrv.harness(v["net"], v["drv"], mkcfg(case, v))
        t = t.replace("if (op == 'T')", "if (op == 'X') return 0;\n    if (op == 'T')").replace("static uint32_t g_tick", "extern uint32_t g_tick").replace("uint32_t h_tick(void) { return g_tick; }", "").replace("h_hash(", "h_hash_%d(" % i)
        t = t.replace("int main(void) {", "%sint main_%d(void) {" % (x, i))
        assert "return g_tick" not in t and "main_%d" % i in t
        cdrv.write(src, t)
        rc, txt = cdrv.sh(comp + ["-w", case["opt"], "-Dh_hash=h_hash_%d" % i] + incs + ["-c", src, "-o", d + "/t%d.o" % i])
        if rc:
            raise Violation("driver %s does not compile in the common directory: %s" % (v["drv"], cdrv.errors(txt)))
        objs.append(d + "/t%d.o" % i)
    cdrv.write(d + "/tog." + ("cpp" if cxx else "c"), "#include <stdio.h>\n#include <stdint.h>\nuint32_t g_tick;\n" + x + "uint32_t h_tick(void) { return g_tick; }\n" +
               "".join("%sint main_%d(void);\n" % (x, i) for i in range(len(drvs))) +
               "int main(void) { for (;;) { char l[64]; if (!fgets(l, sizeof l, stdin)) return 0; switch (l[0]) { " + "".join("case '%d': main_%d(); break; " % (i, i) for i in range(len(drvs))) + "default: return 98; } } }\n")
    rc, txt = cdrv.sh(comp + [case["opt"]] + objs + [d + "/tog." + ("cpp" if cxx else "c"), "-o", d + "/tog"])
    if rc:
        raise Violation("the drivers do not link into one program: %s" % cdrv.errors(txt))
    pos, ops, who, tick = [0] * len(drvs), [], [], [0] * len(drvs)
    while any(p < len(h) for p, h in zip(pos, hist)):
        i = r.choice([i for i in range(len(drvs)) if pos[i] < len(hist[i])])
        ops += ["%d" % i, "T %d" % tick[i]]
        for _ in range(r.randint(1, 5)):
            if pos[i] < len(hist[i]):
                o = hist[i][pos[i]]
                pos[i] += 1
                if o[0] == "T":
                    tick[i] = int(o.split()[1])
                else:
                    who.append((i, o))
                ops.append(o)
        ops.append("X")
    lines = cdrv.execute(d + "/tog", ops) if ops else []
    if len(lines) != len(who):
        raise Violation("the drivers together answered %d of %d operations" % (len(lines), len(who)))
    at = [0] * len(drvs)
    for (i, o), l in zip(who, lines):
        units += 1
        e = answers[i][at[i]]
        at[i] += 1
        if e != l:
            raise Violation("driver %s together with %s answers operation '%s' with '%s', alone with '%s'" % (drvs[i]["drv"], [v["drv"] for v in drvs if v is not drvs[i]], o[:100], l[:200], e[:200]))
    return {"units": units, "nontrivial": all(cdrv.live(v["net"]) for v in drvs),
            "classes": ["%d drivers" % len(drvs)] + (["regenerated"] if len(case["order"]) > len(drvs) else []) + (["different configurations"] if len(set(tuple(sorted(k for k in MACROS if v["cfg"][k])) for v in drvs)) > 1 else []),
            "counts": {"operations in one process": len(lines)}}


def shrinks(case):
    drvs = case["drvs"]
    if len(drvs) > 2:
        for i in range(len(drvs)):
            yield {**case, "drvs": drvs[:i] + drvs[i + 1:], "order": [o - (o > i) for o in case["order"] if o != i]}
    for i in range(len(case["order"])):
        o = case["order"][:i] + case["order"][i + 1:]
        if set(o) == set(range(len(drvs))):
            yield {**case, "order": o}
    for i, v in enumerate(drvs):
        def rep(**kw):
            return {**case, "drvs": drvs[:i] + [{**v, **kw}] + drvs[i + 1:]}
        if v["opts"]:
            yield rep(opts=[])
        for k in list(v["cfg"]):
            if v["cfg"][k]:
                yield rep(cfg={**v["cfg"], k: None if k in ("initbyte", "maxdlc") else False, **({"mono": False} if k == "mon" else {})})
        for n in G.shrink_net(v["net"]):
            if G.net_ok(n):
                yield rep(net=G.clean_tail(n))
        if v["lang"] != "c":
            yield rep(lang="c")
    if case["lang"] != "c":
        yield {**case, "lang": "c"}
    if case["opt"] != "-O0":
        yield {**case, "opt": "-O0"}
