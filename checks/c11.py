"""C11: every valid message and signal is generated once, with true constants."""
import os, random, subprocess
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import net_shrinks

ID = "C11"
COUNTS = {"quick": 1600, "thorough": 6000}
RULE = ("random networks mixing valid, empty and droppable messages (id bits 29/30 set, ids above 32 bits, lengths 0 / above 64 / beyond 8 and 32 bits), cycle times, "
        "with and without -nodeutils; the set of constants comes from the preprocessor (-dM), their values and the packed sizeof of every struct from a compiled "
        "probe, the set of functions from the object file. Non-trivial: at least one non-empty message next to a dropped or an empty one, or at least 3 messages.")
ASSUMPTIONS = ["ids without the extended mark above 0x7FF (but below 2^29) are not valid DBC and not generated",
               "cycle time 0 counts as not set"]

BAD_DLC = [0, 65, 66, 72, 100, 128, 255, 256, 257, 264, 320, 1000, 65544, 4294967304]
BAD_ID = [0xC0000000, 0x20000001, 0x40000000, 0x60000123, 0xA0000000, 0xE0000005, 0x100000000, 0x100000064, 0x1000000000, 0x20000000, 0xFFFFFFFF, 0x5FFFFFFF]


def gen(r, tier, big=0):
    nn = G.Names(r, cased=False)
    nodes = [nn.new() for _ in range(r.randint(1, 3))]
    names, ids = G.Names(r), set()
    msgs = []
    for _ in range(big or r.choice([1, 2, 3, 4, 5, 8, 12])):
        m = G.message(r, names, ids, nodes=nodes, empty=0.2, nsig=r.choice([None, 1, 2, 3, 5]))
        c = r.random()
        if c < 0.15:
            m["dlc"] = r.choice(BAD_DLC)
        elif c < 0.3:
            c = r.random()
            if msgs and c < 0.5:
                # differs from a valid message's id only above the 29 bits
                m["rawid"] = M.raw_id(r.choice(msgs)) + r.choice([1 << 29, 1 << 30, 3 << 29, 1 << 32, 1 << 32, 5 << 32])
            else:
                m["rawid"] = r.choice(BAD_ID) if c < 0.8 else r.randint(1, 3) << 29 | r.getrandbits(29) | (r.getrandbits(1) << 31)
        if not cdrv.valid(m) and msgs and r.random() < 0.15:
            m["name"] = r.choice(msgs)["name"]
        if r.random() < 0.4:
            m["cyc"] = r.choice([1, 5, 10, 100, 1000, 65535, 65536, 1000000, 2147483647, r.randint(1, 100000)])
        msgs.append(m)
    if r.random() < 0.3:
        msgs = r.sample(msgs, len(msgs))
    if r.random() < 0.2:
        # equally named signals all over the network
        for m in msgs:
            if m["sigs"]:
                m["sigs"][0]["name"] = "Common"
    return {"net": {"version": None, "nodes": nodes, "msgs": msgs}, "opts": r.choice([[], [], ["-nodeutils"], ["-noinc"], ["-nofmon"]]), "tight": r.random() < 0.3,
            "cychead": r.random() < 0.5}


def fixed_cases(tier):
    """Networks beyond every small counter."""
    return [gen(random.Random("C11/big/%d" % n), tier, n) for n in [64, 127, 129, 255, 256, 257, 260, 300, 400] + [512, 513, 1000, 1500] * (tier == "thorough")]


def text(case):
    net = dict(case["net"])
    seen = set()
    tail = ['BA_DEF_ BO_  "GenMsgCycleTime" INT 0 65535;', 'BA_DEF_DEF_  "GenMsgCycleTime" 0;'] if case["cychead"] else []
    for m in net["msgs"]:
        rid = m.get("rawid", M.raw_id(m))
        if "cyc" in m and rid not in seen:
            tail.append(M.cyc_line(rid, m["cyc"]))
        seen.add(rid)
    net["tail"] = tail
    t = M.render(net)
    return t.replace("\n\nBO_ ", "\nBO_ ") if case["tight"] else t


def run(case, ctx):
    net = case["net"]
    d = ctx.fresh()
    out = cdrv.generate(ctx, text(case), d, opts=["-rw"] + case["opts"])
    conf = cdrv.prep_conf(out, d, net, {})
    incs = [conf, out + "/lib", out + "/inc"]
    alive = [m for m in net["msgs"] if cdrv.valid(m)]
    full = cdrv.live(net)
    dropped = [m for m in net["msgs"] if not cdrv.valid(m)]
    empty = [m for m in alive if not m["sigs"]]
    mac = cdrv.macros(incs, "drv.h")
    want = {}
    for m in alive:
        want[m["name"] + "_CANID"] = m["id"]
        want[m["name"] + "_IDE"] = int(m["ext"])
        want[m["name"] + "_DLC"] = m["dlc"]
        if m.get("cyc"):
            want[m["name"] + "_CYC"] = m["cyc"]
    got = set(k for k in mac if k.endswith(("_CANID", "_IDE", "_DLC", "_CYC")) and not k.endswith("_VALIDATE_DLC"))
    if got != set(want):
        raise Violation("message constants defined but not expected: %s; expected but not defined: %s" % (sorted(got - set(want))[:4], sorted(set(want) - got)[:4]))
    p = ["#include <stdio.h>", "#include <stdint.h>", '#include "dbccodeconf.h"', "#pragma pack(push, 1)", '#include "drv.h"', "#pragma pack(pop)"]
    livenames = set(m["name"] for m in full)
    p += ["typedef int %s_t;" % n for n in sorted(set(m["name"] for m in dropped + empty) - livenames)]
    b, exp = [], []
    for k in sorted(want):
        b.append('printf("%%llu\\n", (unsigned long long)(%s));' % k)
        exp.append((k, want[k]))
    if alive:
        b.append('printf("%llu\\n", (unsigned long long)(DRV_MAX_DLC_VALUE));')
        exp.append(("DRV_MAX_DLC_VALUE", max(m["dlc"] for m in alive)))
    for m in full:
        n = m["name"]
        b.append('printf("%%llu\\n", (unsigned long long)sizeof(%s_t));' % n)
        exp.append(("sizeof(packed %s_t)" % n, sum(M.type_bits(s) // 8 for s in m["sigs"])))
        for s in m["sigs"]:
            b.append('printf("%%llu\\n", (unsigned long long)sizeof(((%s_t*)0)->%s));' % (n, M.field(s)))
            exp.append(("sizeof(%s_t.%s)" % (n, M.field(s)), M.type_bits(s) // 8))
            b.append('printf("%%d\\n", (__typeof__(((%s_t*)0)->%s))-1 < 0);' % (n, M.field(s)))
            exp.append(("signedness of %s_t.%s" % (n, M.field(s)), int(s["signed"])))
    cdrv.write(d + "/p.c", "\n".join(p + ["int main(void) {"] + b + ["return 0; }"]))
    inc = ["-I" + i for i in incs]
    rc, txt = cdrv.sh(["gcc", "-w"] + inc + [d + "/p.c", "-o", d + "/p"])
    if rc:
        raise Violation("the set of structs or members is wrong: " + cdrv.errors(txt))
    vals = subprocess.run([d + "/p"], stdout=subprocess.PIPE).stdout.decode().split()
    for (what, w), v in zip(exp, vals):
        if int(v) != w:
            raise Violation("%s is %s, expected %d" % (what, v, w))
    rc, txt = cdrv.sh(["gcc", "-w", "-c"] + inc + [out + "/lib/drv.c", "-o", d + "/drv.o"])
    if rc:
        raise Violation("drv.c does not compile: " + cdrv.errors(txt))
    rc, txt = cdrv.sh(["nm", "-g", "--defined-only", d + "/drv.o"])
    fs = sorted(l.split()[2] for l in txt.splitlines() if len(l.split()) == 3 and l.split()[1] == "T")
    wf = sorted("%s_%s_drv" % (f, m["name"]) for m in full for f in ("Pack", "Unpack"))
    if fs != wf:
        raise Violation("functions in drv.c: unexpected %s, missing %s" % (sorted(set(fs) - set(wf))[:3], sorted(set(wf) - set(fs))[:3]))
    return {"units": len(exp) + len(wf) + len(want), "nontrivial": bool(full) and (bool(dropped or empty) or len(alive) > 2),
            "counts": {"messages": len(alive), "dropped messages": len(dropped), "empty messages": len(empty), "cycle times": sum("_CYC" in k for k in want),
                       "signals": sum(len(m["sigs"]) for m in full)},
            "classes": ["options " + " ".join(case["opts"])] if case["opts"] else []}


def shrinks(case):
    net = case["net"]
    for i in range(len(net["msgs"])):
        if len(net["msgs"]) > 1:
            yield dict(case, net=dict(net, msgs=net["msgs"][:i] + net["msgs"][i + 1:]))
    for i, m in enumerate(net["msgs"]):
        def rep(x):
            return dict(case, net=dict(net, msgs=net["msgs"][:i] + [x] + net["msgs"][i + 1:]))
        for j in range(len(m["sigs"])):
            yield rep(dict(m, sigs=m["sigs"][:j] + m["sigs"][j + 1:]))
        for k in ("cyc", "rawid"):
            if k in m:
                yield rep({a: b for a, b in m.items() if a != k})
    for k, v in (("opts", []), ("tight", False), ("cychead", False)):
        if case[k] != v:
            yield {**case, k: v}
