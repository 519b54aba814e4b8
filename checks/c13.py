"""C13: the generated package compiles and links in every option / configuration combination."""
import os, random, re
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import net_shrinks

ID = "C13"
COUNTS = {"quick": 500, "thorough": 2500}
RULE = ("random networks with comments, value tables, cycle times, rolling and checksum markers, multiplexed / scaled / 64-bit signals, nodes and empty messages, a random subset of "
        "the generation options and 2 random configurations each (any subset of the seven configuration macros set by uncommenting them in the generated config header, user "
        "definitions appended to the generated dbccodeconf.h template, optional tick / hash providers, __DEF_ allocation); every source is compiled and everything is linked with a "
        "program that references every function, in C, C++ or C linked into C++. Non-trivial: at least 2 configuration macros on and a non-empty message.")
ASSUMPTIONS = ["message and signal names are no C keywords, distinct case-insensitively and do not end in the suffixes the generator adds",
               "checksum methods named in the DBC are defined by the user, bitext_t is widened to 64 bits when a signed signal is longer than 32 bits"]
MACROS = ["USE_BITS_SIGNAL", "USE_CANSTRUCT", "USE_SIGFLOAT", "USE_DIAG_MONITORS", "AUTO_ROLL", "AUTO_CSM", "USE_MONO_FMON"]
OPTS = ["-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir", "-gendate", "norw"]


def gen(r, tier):
    net = G.rich(r, overlap=0.1, empty=0.1)
    if r.random() < 0.1:
        for m in net["msgs"]:
            m["sigs"] = []
        net = G.clean_tail(net)
    cfgs = []
    for _ in range(2):
        p = r.choice([0.0, 0.3, 0.5, 0.8, 1.0])
        cfgs.append({"on": [x for x in MACROS if r.random() < p], "lang": r.choice(["c", "c", "cpp", "mix"]), "cc": r.choice(["gcc", "gcc", "clang"]),
                     "std": r.choice(["gnu", "iso"]), "tick": r.random() < 0.5, "hash": r.random() < 0.5, "def": r.random() < 0.4, "sf": r.choice(["float", "double"]),
                     "o": r.choice(["-O0", "-O0", "-O1"])})
    return {"net": net, "opts": [x for x in OPTS if r.random() < 0.25], "drv": r.choice(["drv", "Drv", "CAN_Net1", "x", "testdb", "MyCar2", "_A"]), "cfgs": cfgs}


def genrun(ctx, text, d, sub, drv, opts):
    base = os.path.join(d, sub)
    os.makedirs(base, exist_ok=True)
    dbc = os.path.join(d, "net.dbc")
    cdrv.write(dbc, text)
    rc, so, se = cdrv.run_gen(ctx, ["-dbc", dbc, "-out", base, "-drvname", drv] + [o for o in opts if o != "norw"] + ([] if "norw" in opts else ["-rw"]))
    if rc:
        raise Violation("generator ended with status %d on a valid DBC: %s" % (rc, se[-200:].decode("latin1")))
    if "-driverdir" in opts:
        base = os.path.join(base, drv)
    if "norw" in opts:
        base = os.path.join(base, "000")
    return base


def run(case, ctx):
    net, drv = case["net"], case["drv"]
    low, up = drv.lower(), drv.upper()
    d = ctx.fresh()
    text = M.render(net)
    pkg = genrun(ctx, text, d, "out", drv, case["opts"])
    ref = genrun(ctx, text, d, "ref", drv, [])
    live = cdrv.live(net)
    units = 0
    files = {}
    for n in ("lib", "butl", "inc", "usr", "conf"):
        p = os.path.join(pkg, n)
        files[n] = sorted(os.listdir(p)) if os.path.isdir(p) else []
    # what an option suppresses is what the user already has from an earlier generation
    fmon = os.path.join(pkg if "-nofmon" not in case["opts"] else ref, "usr", low + "-fmon.c")
    inc = os.path.join(pkg if "-noinc" not in case["opts"] else ref, "inc")
    gconf = os.path.join(pkg if "-noconfig" not in case["opts"] else ref, "conf")
    butl = [f for f in files["butl"] if f.endswith("-binutil.c")]
    for want in ([low + ".c", low + ".h", low + "-fmon.h"]):
        if want not in files["lib"]:
            raise Violation("lib/%s was not generated" % want)
    if not butl and ("-nodeutils" not in case["opts"] or any(m["tx"] != "Vector__XXX" or any(x != "Vector__XXX" for s in m["sigs"] for x in s["recs"]) for m in net["msgs"])):
        raise Violation("no binutil source was generated")
    for ci, c in enumerate(case["cfgs"]):
        conf = os.path.join(d, "conf%d" % ci)
        os.makedirs(conf)
        t = cdrv.read(os.path.join(gconf, "dbccodeconf.h")).decode("latin1")
        if cdrv.needs_ext64(net):
            t = t.replace("uint32_t ubitext_t", "uint64_t ubitext_t").replace("int32_t bitext_t", "int64_t bitext_t")
        t += "\n#ifdef __cplusplus\nextern \"C\" {\n#endif\n"
        if "USE_SIGFLOAT" in c["on"]:
            t += "typedef %s sigfloat_t;\n" % c["sf"]
        if "USE_CANSTRUCT" in c["on"]:
            t += "typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[64]; uint8_t IDE; } __CoderDbcCanFrame_t__;\n"
        if "AUTO_CSM" in c["on"] and net.get("methods"):
            t += "enum { %s };\n" % ", ".join(sorted(set(net["methods"])))
        if c["tick"]:
            t += "uint32_t my_tick(void);\n#define GetSystemTick() my_tick()\n"
        if c["hash"]:
            t += "uint8_t my_hash(const uint8_t* d, uint8_t len, uint32_t id, int method, int op);\n#define GetFrameHash(a,b,c,d,e) my_hash(a,b,c,d,e)\n"
        t += "#ifdef __cplusplus\n}\n#endif\n"
        if c["def"]:
            us = [f[:-len("-binutil.c")] for f in butl]
            t += "".join("#define __DEF_%s__\n" % u.upper() for u in us)
        cdrv.write(os.path.join(conf, "dbccodeconf.h"), t)
        t = cdrv.read(os.path.join(gconf, low + "-config.h")).decode("latin1")
        for x in MACROS:
            line = "/* #define %s_%s */" % (up, x)
            if line not in t:
                raise Violation("the generated %s-config.h does not offer %s_%s" % (low, up, x))
            if x in c["on"]:
                t = t.replace(line, "#define %s_%s" % (up, x))
        cdrv.write(os.path.join(conf, low + "-config.h"), t)
        # a program that uses everything
        u = ["#include <stdint.h>", '#include "%s.h"' % low] + ['#include "%s"' % f.replace(".c", ".h") for f in butl]
        if "USE_DIAG_MONITORS" in c["on"]:
            u.append('#include "%s-fmon.h"' % low)
        if c["lang"] == "c":
            ext, hdr = "c", ""
        else:
            ext, hdr = "cpp", 'extern "C" '
        if c["tick"]:
            u.append(hdr + "uint32_t my_tick(void) { return 1u; }")
        if c["hash"]:
            u.append(hdr + "uint8_t my_hash(const uint8_t* d, uint8_t len, uint32_t id, int method, int op) { return (uint8_t)(d[0] + len + id + (uint32_t)method + (uint32_t)op); }")
        b = ["volatile uintptr_t sink = 0;"]
        for m in live:
            b.append("sink += (uintptr_t)&Pack_%s_%s; sink += (uintptr_t)&Unpack_%s_%s; sink += sizeof(%s_t);" % (m["name"], drv, m["name"], drv, m["name"]))
        for f in butl:
            x = f[:-len("-binutil.c")]
            hd = cdrv.read(os.path.join(pkg, "butl", f.replace(".c", ".h"))).decode("latin1")
            if re.search(r"\b%s_rx_t\b" % re.escape(x), hd):
                b.append("sink += (uintptr_t)&%s_Receive; sink += sizeof(%s_rx_t);" % (x, x))
                if c["def"]:
                    b.append("sink += (uintptr_t)&%s_rx;" % x)
            if re.search(r"\b%s_tx_t\b" % re.escape(x), hd):
                b.append("sink += sizeof(%s_tx_t);" % x)
                if c["def"]:
                    b.append("sink += (uintptr_t)&%s_tx;" % x)
        main = os.path.join(d, "main%d.%s" % (ci, ext))
        cdrv.write(main, "\n".join(u + ["int main(void) {"] + b + ["return (int)(sink & 0); }", ""]))
        cc, cxx = (("gcc", "g++"), ("clang", "clang++"))[c["cc"] == "clang"]
        drvc = (cxx, "-x", "c++") if c["lang"] == "cpp" else (cc, "-x", "c")
        stdc, stdx = ("-std=gnu11", "-std=gnu++17") if c["std"] == "gnu" else ("-std=c99", "-std=c++11")
        incs = ["-I", conf, "-I", pkg + "/lib", "-I", inc, "-I", pkg + "/butl"]
        objs = []
        srcs = [(os.path.join(pkg, "lib", low + ".c"), drvc), (fmon, drvc)] + [(os.path.join(pkg, "butl", f), drvc) for f in butl]
        srcs.append((main, (cc, "-x", "c") if ext == "c" else (cxx, "-x", "c++")))
        for si, (src, comp) in enumerate(srcs):
            o = os.path.join(d, "o%d_%d.o" % (ci, si))
            rc, txt = cdrv.sh([comp[0], stdc if comp[2] == "c" else stdx, "-w", c["o"]] + list(comp[1:]) + incs + ["-c", src, "-o", o])
            units += 1
            if rc:
                raise Violation("%s does not compile as %s (%s, %s) with %s: %s" % (os.path.basename(src), comp[2], comp[0], stdc if comp[2] == "c" else stdx,
                                                                                      " ".join(c["on"]) or "no macros", cdrv.errors(txt)))
            objs.append(o)
        # every header stands alone, in any place and number
        alone = []
        for h in [low + ".h", low + "-fmon.h", low + "-config.h", "dbccodeconf.h", "canmonitorutil.h"] + [f.replace(".c", ".h") for f in butl[:4]]:
            alone.append(os.path.join(d, "alone%d_%d.%s" % (ci, len(alone), ext)))
            cdrv.write(alone[-1], '#include "%s"\n#include "%s"\n' % (h, h))
        rc, txt = cdrv.sh([cc if ext == "c" else cxx, stdc if ext == "c" else stdx, "-w", "-fsyntax-only"] + incs + alone)
        units += len(alone)
        if rc:
            raise Violation("a header cannot be included alone and twice (%s) with %s: %s" % (case["drv"], " ".join(c["on"]) or "no macros", cdrv.errors(txt)))
        rc, txt = cdrv.sh([cc if ext == "c" else cxx] + objs + ["-o", os.path.join(d, "prog%d" % ci)])
        units += 1
        if rc:
            raise Violation("the package does not link with %s: %s" % (" ".join(c["on"]) or "no macros", cdrv.errors(txt)))
    return {"units": units, "nontrivial": bool(live) and any(len(c["on"]) >= 2 for c in case["cfgs"]),
            "classes": ["lang " + c["lang"] for c in case["cfgs"]] + ["option " + o for o in case["opts"]],
            "counts": {"macro " + x: sum(x in c["on"] for c in case["cfgs"]) for x in MACROS}}


def shrinks(case):
    if len(case["cfgs"]) > 1:
        for c in case["cfgs"]:
            yield dict(case, cfgs=[c])
    for o in case["opts"]:
        yield dict(case, opts=[x for x in case["opts"] if x != o])
    for n in G.shrink_net(case["net"]):
        if n["msgs"] and G.net_ok(n):
            yield dict(case, net=G.clean_tail(n))
    for i, c in enumerate(case["cfgs"]):
        for x in c["on"]:
            yield dict(case, cfgs=case["cfgs"][:i] + [dict(c, on=[y for y in c["on"] if y != x])] + case["cfgs"][i + 1:])
        for k, v in (("tick", False), ("hash", False), ("def", False), ("lang", "c"), ("cc", "gcc"), ("std", "gnu"), ("o", "-O0"), ("sf", "double")):
            if c[k] != v:
                yield dict(case, cfgs=case["cfgs"][:i] + [dict(c, **{k: v})] + case["cfgs"][i + 1:])
    if case["drv"] != "drv":
        yield dict(case, drv="drv")
