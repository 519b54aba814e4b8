"""C07: node utils hold exactly the node's messages."""
import os, random, subprocess
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Inconclusive, Rec
from vlib.common import net_shrinks

ID = "C07"
COUNTS = {"quick": 340, "thorough": 2500}
RULE = ("random networks with 1..6 nodes, random senders, receivers per signal and multi-transmitter lines, with and without -nodeutils; which "
        "messages each generated rx/tx struct holds is observed by C++ member detection, each node's Receive is executed for all message ids. "
        "Non-trivial: -nodeutils with at least 2 nodes and 2 non-empty messages.")
ASSUMPTIONS = ["nothing is claimed about the placeholder node Vector__XXX, nor about nodes without any message"]


def gen(r, tier, big=None):
    nn = G.Names(r, pre=["drv"], longs=False, cased=False)
    nodes = [nn.new() for _ in range(r.randint(1, 6) if r.random() < 0.93 else r.choice([12, 17, 33, 40]))]
    if big:
        nodes = [nn.new() for _ in range(big[0])]
    if r.random() < 0.4:
        nodes[0] = r.choice("ABCXYZ")
    names, ids = G.Names(r), set()
    msgs = [G.message(r, names, ids, nodes=nodes, nsig=r.choice([1, 2, 3, 5]), weights=(8, 1, 1), empty=0.15, dlc=r.choice([2, 4, 8])) for _ in range(big[1] if big else r.randint(1, 9) if len(nodes) < 12 else r.randint(10, 40))]
    btx = []
    for m in msgs:
        if r.random() < 0.35:
            btx.append({"id": M.raw_id(m), "nodes": sorted(set(r.choice(nodes) for _ in range(r.choice([1, 2, 3, 3, 6, 20]))))})
    r.shuffle(btx)
    return {"net": {"version": None, "nodes": nodes, "msgs": msgs, "btx": btx}, "nodeutils": r.random() < 0.85, "drv": r.choice(["drv", "drv", "MyDrv", "CAR_x1"]), "seed": r.getrandbits(32)}


def fixed_cases(tier):
    """Networks beyond every small counter."""
    return [gen(random.Random("C07/big/%d" % n[0]), tier, n) for n in ((2, 130), (3, 257), (4, 300), (70, 30), (260, 50))]


def expected(case):
    """node -> (rx set, tx set) of indices into live(net); all messages -> participates."""
    net = case["net"]
    live = cdrv.live(net)
    part, rx, tx = set(), {}, {}
    btx = {}
    for t in net.get("btx", []):
        btx.setdefault(t["id"], set()).update(t["nodes"])
    for m in net["msgs"]:
        if not cdrv.valid(m):
            continue
        t = ({m["tx"]} if m.get("tx") else set()) | btx.get(M.raw_id(m), set())
        rr = set(n for s in m["sigs"] for n in s["recs"])
        part |= t | rr
        if m["sigs"]:
            k = next(i for i, x in enumerate(live) if x is m)
            for n in t:
                tx.setdefault(n, set()).add(k)
            for n in rr:
                rx.setdefault(n, set()).add(k)
    part.discard("Vector__XXX")
    return {n: (rx.get(n, set()), tx.get(n, set())) for n in part}, live


PROBE = """#include <stdio.h>
#include "dbccodeconf.h"
#include "%(low)s.h"
%(fallback)s
template<class T> T& mk();
%(detect)s
namespace inner {
%(incs)s
void probe() {
%(body)s
}}
int main() { inner::probe(); return 0; }
"""


def run(case, ctx):
    net, drv = case["net"], case["drv"]
    low = drv.lower()
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d, drv=drv, opts=["-rw"] + (["-nodeutils"] if case["nodeutils"] else []))
    exp, live = expected(case)
    if not case["nodeutils"]:
        exp = {None: (set(range(len(live))), set())}
    utils = []
    for n in sorted(exp, key=str):
        base = low if n is None else (n + "_" + drv).lower()
        for e in (".h", ".c"):
            if not os.path.exists(os.path.join(out, "butl", base + "-binutil" + e)):
                raise Violation("no %s-binutil%s was generated for node %s" % (base, e, n))
        utils.append((n, base, exp[n]))
    # which messages does each struct hold?
    names = [m["name"] for m in live]
    fb = "\n".join("struct %s_%s_t { };" % (b, x) for _, b, _ in utils for x in ("rx", "tx"))
    det = "\n".join("template<class T> auto has_%s(int) -> decltype((void)mk<T>().%s, 1) { return sizeof(mk<T>().%s) == sizeof(%s_t); }\ntemplate<class T> int has_%s(long) { return 0; }"
                    % (n, n, n, n, n) for n in names)
    incs = "\n".join('#include "%s-binutil.h"' % b for _, b, _ in utils)
    body = "\n".join('printf("%s %s%s\\n"%s);' % (b, x, " %d" * len(names), "".join(", has_%s<%s_%s_t>(0)" % (n, b, x) for n in names))
                     for _, b, _ in utils for x in ("rx", "tx"))
    cdrv.write(os.path.join(d, "probe.cpp"), PROBE % dict(low=low, fallback=fb, detect=det, incs=incs, body=body))
    os.makedirs(os.path.join(d, "myconf"), exist_ok=True)
    cdrv.write(os.path.join(d, "myconf", "dbccodeconf.h"), cdrv.conf_text(net, {}))
    cdrv.write(os.path.join(d, "myconf", low + "-config.h"), cdrv.read(os.path.join(out, "conf", low + "-config.h")))
    try:
        r = subprocess.run(["g++", "-std=gnu++17", "-w", "-I", d + "/myconf", "-I", out + "/lib", "-I", out + "/butl", d + "/probe.cpp", "-o", d + "/probe"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        raise Inconclusive("compiler time-out")
    if r.returncode:
        raise Violation("binutil headers do not compile: " + " / ".join([l for l in r.stdout.decode("latin1").splitlines() if "error" in l][:3]))
    got = {}
    for l in subprocess.run([d + "/probe"], stdout=subprocess.PIPE).stdout.decode().splitlines():
        t = l.split()
        got[t[0], t[1]] = {i for i, x in enumerate(t[2:]) if x == "1"}
    units = 0
    rr = random.Random(case["seed"])
    for n, b, (rx, tx) in utils:
        for x, want in (("rx", rx), ("tx", tx)):
            units += 1
            if got[b, x] != want:
                raise Violation("node %s: %s struct holds %s, expected %s" % (n, x, sorted(names[i] for i in got[b, x]), sorted(names[i] for i in want)))
    for n, b, (rx, tx) in utils:
        if not rx:
            # nothing received: the source must still compile
            r = subprocess.run(["gcc", "-w", "-c", "-I", d + "/myconf", "-I", out + "/lib", "-I", out + "/butl", out + "/butl/%s-binutil.c" % b, "-o", d + "/e.o"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise Violation("%s-binutil.c does not compile: %s" % (b, r.stdout.decode("latin1")[-300:]))
            continue
        exe = cdrv.compile_harness(ctx, net, out, d, drv=drv, cfg={}, receive={"source": b + "-binutil.c", "prefix": b, "rx": sorted(rx)}, name="h_" + b)
        ops, ex = [], []
        for m in net["msgs"]:
            p = bytes(rr.getrandbits(8) for _ in range(64))
            ops.append("R %d %d %s" % (m["id"], 64, p.hex()))
            ex.append((m, p))
        for (m, p), l in zip(ex, cdrv.execute(exe, ops)):
            rec = Rec(l)
            units += 1
            k = next((i for i, x in enumerate(live) if x is m), None)
            hit = k in rx
            if rec.ret != (m["id"] if hit else 0) or rec.chg != ([k] if hit else []):
                raise Violation("node %s: Receive(%#x = %s) returned %#x and changed %s; the node %s this message" % (
                    n, m["id"], m["name"], rec.ret, [names[c] for c in rec.chg], "receives" if hit else "does not receive"))
            if hit and rec.f != [M.extract(s, p) for s in m["sigs"]]:
                raise Violation("node %s: Receive(%#x) decoded %s" % (n, m["id"], rec.f))
    return {"units": units, "nontrivial": case["nodeutils"] and len(utils) > 1 and len(live) > 1,
            "counts": {"node drivers": len(utils), "multi-transmitter lines": len(net.get("btx", [])), "nodes without rx": sum(not u[2][0] for u in utils),
                       "nodes without tx": sum(not u[2][1] for u in utils)}, "classes": ["-nodeutils" if case["nodeutils"] else "single util"]}


def shrinks(case):
    for c in net_shrinks(case):
        yield c
    if case["drv"] != "drv":
        yield dict(case, drv="drv")
    net = case["net"]
    for i, t in enumerate(net.get("btx", [])):
        for n in t["nodes"]:
            if len(t["nodes"]) > 1:
                b = list(net["btx"])
                b[i] = dict(t, nodes=[x for x in t["nodes"] if x != n])
                yield dict(case, net=dict(net, btx=b))
