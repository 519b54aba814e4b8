"""C20: version constants are right and mixed versions refuse to build."""
import os, random, shutil
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation

ID = "C20"
COUNTS = {"quick": 1300, "thorough": 8000}
RULE = ("random networks generated twice from DBC files that differ only in their VERSION line (none, empty, a.b with numbers up to 4294967295, pairs equal or differing in exactly one or both numbers, swapped, off by one, "
        "off by 2^16, 2^8...), with and without -nodeutils, random driver names and configuration macros, C and C++; constants are checked by static assertions, and the header / driver source / every binutil source "
        "of the two generations are combined in all ways and compiled. Non-trivial: the versions differ in exactly one number or are equal.")
ASSUMPTIONS = ["VERSION strings are empty or of the form a.b"]
MACROS = ["USE_BITS_SIGNAL", "USE_CANSTRUCT", "USE_DIAG_MONITORS", "AUTO_ROLL", "USE_MONO_FMON"]


def number(r):
    return r.choice([0, 0, 1, 2, 9, 10, 99, 255, 256, 257, 32767, 65535, 65536, 2147483647, 2147483648, 4294967295, r.randint(0, 4294967295), r.randint(0, 300)])


def near(r, n):
    c = [x for x in (n + 1, n - 1, n + 256, n - 256, n + 65536, n - 65536, n ^ 0x80000000, n * 10, n // 10, number(r)) if 0 <= x <= 4294967295 and x != n]
    return r.choice(c)


def gen(r, tier):
    net = G.network(r, nmsg=r.choice([1, 1, 2, 3]), nnodes=r.randint(1, 3), ver=False, empty=0.1)
    a = [number(r), number(r)]
    c = r.random()
    if c < 0.12:
        b = list(a)
    elif c < 0.42:
        b = [a[0], near(r, a[1])]
    elif c < 0.72:
        b = [near(r, a[0]), a[1]]
    elif c < 0.8:
        b = [a[1], a[0]]
    else:
        b = [near(r, a[0]), near(r, a[1])]
    va, vb = ("%d.%d" % tuple(a), a), ("%d.%d" % tuple(b), b)
    if r.random() < 0.15:
        va = (r.choice([None, ""]), [0, 0])
    if r.random() < 0.15:
        vb = (r.choice([None, ""]), [0, 0])
    on = [x for x in MACROS if r.random() < 0.2]
    return {"net": net, "va": va, "vb": vb, "nodeutils": r.random() < 0.5, "drv": r.choice(["drv", "Car2", "x"]), "on": on, "cpp": r.random() < 0.25}


def genrun(ctx, d, sub, net, ver, case):
    w = os.path.join(d, sub)
    out = os.path.join(w, "out")
    os.makedirs(out)
    dbc = os.path.join(w, "net.dbc")
    cdrv.write(dbc, M.render({**net, "version": ver}))
    rc, so, se = cdrv.run_gen(ctx, ["-dbc", dbc, "-out", out, "-drvname", case["drv"], "-rw"] + (["-nodeutils"] if case["nodeutils"] else []))
    if rc:
        raise Violation("generator ended with status %d on a valid DBC: %s" % (rc, se[-200:].decode("latin1")))
    return out


def run(case, ctx):
    net, drv = case["net"], case["drv"]
    low, up = drv.lower(), drv.upper()
    d = ctx.fresh()
    outs = [genrun(ctx, d, "a", net, case["va"][0], case), genrun(ctx, d, "b", net, case["vb"][0], case)]
    nums = [case["va"][1], case["vb"][1]]
    same = nums[0] == nums[1]
    comp = ["g++", "-x", "c++", "-std=gnu++17"] if case["cpp"] else ["gcc", "-x", "c", "-std=gnu11"]
    sa = "static_assert" if case["cpp"] else "_Static_assert"
    cdir = cdrv.prep_conf(outs[0], d, net, {})
    defs = ["-D%s_%s" % (up, x) for x in case["on"]]
    units = 0

    def cc(src, incs):
        return cdrv.sh(comp[:1] + ["-w", "-fsyntax-only"] + comp[1:] + ["-I" + i for i in incs] + ["-I" + cdir] + defs + [src])
    for o, n in zip(outs, nums):
        t = os.path.join(d, "v.c")
        cdrv.write(t, '#include "dbccodeconf.h"\n#include "%s.h"\n%s(VER_%s_MAJ == %dULL && VER_%s_MIN == %dULL, "version");\n#if VER_%s_MAJ != %dU || VER_%s_MIN != %dU\n#error version\n#endif\n'
                   % (low, sa, up, n[0], up, n[1], up, n[0], up, n[1]))
        rc, txt = cc(t, [o + "/lib", o + "/inc"])
        units += 1
        if rc:
            raise Violation("VERSION %r: the constants VER_%s_MAJ / _MIN of %s.h are not %d and %d: %s" % (case["va" if o is outs[0] else "vb"][0], up, low, n[0], n[1], cdrv.errors(txt)))
    # combine the header of generation i with the sources of generation j
    for i in (0, 1):
        for j in (0, 1):
            mix = os.path.join(d, "m%d%d" % (i, j))
            os.makedirs(mix)
            for f in os.listdir(outs[i] + "/lib"):
                if f != low + ".c":
                    shutil.copyfile(os.path.join(outs[i], "lib", f), os.path.join(mix, f))
            shutil.copyfile(os.path.join(outs[j], "lib", low + ".c"), os.path.join(mix, low + ".c"))
            srcs = [low + ".c"]
            for f in sorted(os.listdir(outs[j] + "/butl")):
                shutil.copyfile(os.path.join(outs[j], "butl", f), os.path.join(mix, f))
                if f.endswith(".c"):
                    srcs.append(f)
            if len(srcs) < 2 and (not case["nodeutils"] or any(m["tx"] for m in net["msgs"])):
                raise Violation("no binutil source was generated")
            for f in srcs:
                rc, txt = cc(os.path.join(mix, f), [mix, outs[i] + "/inc"])
                units += 1
                ok = i == j or same
                if ok and rc:
                    raise Violation("%s and %s.h of equal versions (%s / %s) do not compile together: %s" % (f, low, case["va"][0], case["vb"][0], cdrv.errors(txt)))
                if not ok and not rc:
                    raise Violation("%s of version %s compiles with %s.h of version %s" % (f, nums[j], low, nums[i]))
    one = (nums[0][0] == nums[1][0]) + (nums[0][1] == nums[1][1])
    return {"units": units, "nontrivial": one >= 1, "classes": [("equal versions" if one == 2 else "one number differs" if one else "both differ")] +
            (["no or empty VERSION"] if not case["va"][0] or not case["vb"][0] else [])}


def shrinks(case):
    for kv in ({"cpp": False}, {"nodeutils": False}, {"drv": "drv"}, {"on": []}):
        if {**case, **kv} != case:
            yield {**case, **kv}
    for n in G.shrink_net(case["net"]):
        if G.net_ok(n):
            yield {**case, "net": n}
    for k in ("va", "vb"):
        for i in (0, 1):
            if case[k][0] and case[k][1][i] > 9:
                v = list(case[k][1])
                v[i] //= 10
                yield {**case, k: ("%d.%d" % tuple(v), v)}
