"""C21: a message's code depends only on its own definition (differential between two networks)."""
import copy, random
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation, Rec
from vlib.common import rnd_cfg

ID = "C21"
COUNTS = {"quick": 1000, "thorough": 9000}
RULE = ("pairs of random networks that agree on one message with all its comments, value tables, cycle time and markers, and otherwise differ freely (the message alone, other messages before and after it, messages with "
        "equally named signals of other scaling, width or sign, equal value descriptions, equal frame numbers in the other frame format, other maximum DLC, nodes, version, unrelated comments and attributes, statement order); "
        "size of the struct, all constants and value macros and the answers to random Pack/Unpack histories in a random configuration are compared. Non-trivial: the message has a scaled or marked signal or "
        "shares a signal name with another message.")
ASSUMPTIONS = ["names of conversion macros are not part of the comparison"]


def rename_clash(r, net, T):
    """Gives signals of other messages the names of T's signals."""
    for m in net["msgs"]:
        if m is T or not m["sigs"] or r.random() < 0.4:
            continue
        for s in m["sigs"]:
            if r.random() < 0.6:
                n = r.choice(T["sigs"])["name"]
                if n.lower() not in [x["name"].lower() for x in m["sigs"]]:
                    s["name"] = n
                    if r.random() < 0.5:
                        G.scaling(r, s, weights=(2, 4, 3))
                        if not G.scale_ok(s):
                            s["f"], s["o"] = "1", "0"


def own(T):
    rid = M.raw_id(T)

    def f(t):
        w = t.split()
        return (w[3] if w[0] == "BA_" else w[1] if w[0] == "VAL_" else w[2]) == str(rid)
    return f


def gen(r, tier, big=0):
    a = G.network(r, overlap=r.choice([0, 0, 0.3]), nmsg=r.choice([1, 2, 3, 5]))
    T = r.choice(a["msgs"])
    T["name"] = "Target" + T["name"]
    rename_clash(r, a, T)
    a = G.decorate(r, a)
    mine = [t for t in a["tail"] if own(T)(t)]
    b = G.network(r, overlap=r.choice([0, 0.3]), nmsg=big or r.choice([1, 2, 3, 5]), empty=0.1)
    b["msgs"] = [m for m in b["msgs"] if m["name"].lower() != T["name"].lower() and (m["id"], m["ext"]) != (T["id"], T["ext"])]
    if r.random() < 0.15:
        b["msgs"] = []
    if b["msgs"] and r.random() < 0.3:
        m = r.choice(b["msgs"])
        if (T["ext"] and T["id"] <= 0x7FF) or not T["ext"]:
            m["id"], m["ext"] = T["id"], not T["ext"]
            b["msgs"] = [x for x in b["msgs"] if x is m or (x["id"], x["ext"]) != (m["id"], m["ext"])]
    rename_clash(r, {"msgs": b["msgs"]}, T)
    b = G.decorate(r, b)
    for t in mine:
        b["tail"].insert(r.randint(0, len(b["tail"])), t)
    T2 = copy.deepcopy(T)
    b["msgs"].insert(r.randint(0, len(b["msgs"])), T2)
    b["btx"] += [x for x in a["btx"] if x["id"] == M.raw_id(T)]
    cfg = rnd_cfg(r, sigfloat=r.random() < 0.5, mon=r.random() < 0.4, mono=r.random() < 0.3, roll=r.random() < 0.4, csm=r.random() < 0.4, canstruct=r.random() < 0.3, ext64=True)
    if r.random() < 0.2:
        cfg["initbyte"] = r.choice([0xFF, 0x55])
    meth = a["methods"] + [x for x in b["methods"] if x not in a["methods"]]
    a["methods"] = b["methods"] = meth
    return {"a": a, "b": b, "target": T["name"], "cfg": cfg, "seed": r.getrandbits(32), "nv": 30}


def fixed_cases(tier):
    """Networks beyond every small counter."""
    return [gen(random.Random("C21/big/%d" % n), tier, n) for n in (64, 130, 257, 300)]


def drive(ctx, net, d, sub, case):
    import os
    w = os.path.join(d, sub)
    os.makedirs(w)
    out = cdrv.generate(ctx, M.render(net), w)
    T = next(m for m in net["msgs"] if m["name"] == case["target"])
    view = {**net, "only": [case["target"]], "msgs": [T] + [m for m in net["msgs"] if m is not T]}
    exe = cdrv.compile_harness(ctx, view, out, w, cfg=case["cfg"])
    mac = cdrv.macros([os.path.join(w, "myconf"), out + "/lib", out + "/inc"], "drv.h", defs=cdrv.defines("drv", case["cfg"]))
    pre = [T["name"] + x for x in ("_IDE", "_DLC", "_CANID", "_CYC")]
    vals = {}
    for k, v in mac.items():
        if k in pre or any(k.startswith("%s_%s_" % (M.field(s), T["name"])) for s in T["sigs"]):
            if not k.endswith(("_toS(x)", "_fromS(x)", "_CovFactor")):
                vals[k] = v
    c = os.path.join(w, "sz.c")
    cdrv.write(c, '#include "dbccodeconf.h"\n#include "drv.h"\nchar size_of[sizeof(%s_t)];\n' % T["name"])
    rc, txt = cdrv.sh(["gcc", "-w", "-S", "-o", "-", "-I", os.path.join(w, "myconf"), "-I", out + "/lib", "-I", out + "/inc"] + cdrv.defines("drv", case["cfg"]) + [c])
    if rc:
        raise Violation("header does not compile: " + cdrv.errors(txt))
    size = [l for l in txt.splitlines() if ".size" in l or ".comm" in l]
    return T, exe, vals, size


def run(case, ctx):
    d = ctx.fresh()
    T, ea, va, sa = drive(ctx, case["a"], d, "a", case)
    _, eb, vb, sb = drive(ctx, case["b"], d, "b", case)
    if va != vb:
        k = sorted(x for x in set(va) | set(vb) if va.get(x) != vb.get(x))[0]
        raise Violation("%s of message %s is %s in one network and %s in another one that defines the message identically" % (k, T["name"], va.get(k, "missing"), vb.get(k, "missing")))
    if sa != sb:
        raise Violation("the size of struct %s_t depends on other messages: %s / %s" % (T["name"], sa, sb))
    r = random.Random(case["seed"])
    ops = ["Z 0"]
    sf = case["cfg"].get("sigfloat")
    for p in G.payloads(r, T["dlc"], case["nv"]):
        ops.append("T %d" % r.getrandbits(32))
        ops.append("U 0 %d %s" % (r.choice([T["dlc"], T["dlc"], 0, 255]), p.hex()))
        if r.random() < 0.5:
            ops.append("P 0 %d" % r.randint(0, 255))
        if r.random() < 0.5:
            from vlib.common import phys_of, set_op
            raws = [G.raw_value(r, s) for s in T["sigs"]]
            ops.append(set_op(0, T, raws, [None if M.is_simple(s) else phys_of(s, v) for s, v in zip(T["sigs"], raws)] if sf else None))
            ops.append("P 0 %d" % r.randint(0, 255))
            ops.append("G 0")
    la, lb = cdrv.execute(ea, ops), cdrv.execute(eb, ops)
    vis = [o for o in ops if o[0] not in "TK"]
    for o, x, y in zip(vis, la, lb):
        if x != y:
            raise Violation("message %s behaves differently in two networks that define it identically: operation '%s' gives '%s' / '%s'" % (T["name"], o[:120], x[:200], y[:200]))
    if len(la) != len(lb) or len(la) != len(vis):
        raise Violation("drivers answered %d and %d of %d operations" % (len(la), len(lb), len(vis)))
    others = set(s["name"] for n in ("a", "b") for m in case[n]["msgs"] if m["name"] != T["name"] for s in m["sigs"])
    clash = any(s["name"] in others for s in T["sigs"])
    return {"units": len(la) + len(va), "nontrivial": clash or any(not M.is_simple(s) for s in T["sigs"]) or any(own(T)(t) for t in case["a"]["tail"]),
            "classes": (["shared signal names"] if clash else []) + (["scaled"] if any(not M.is_simple(s) for s in T["sigs"]) else []) + (["alone in one network"] if len(case["b"]["msgs"]) == 1 else []) +
            (["value macros"] if len(va) > 4 else []) + (["equal frame number"] if any(m["id"] == T["id"] and m["ext"] != T["ext"] for m in case["b"]["msgs"]) else [])}


def shrinks(case):
    tn = case["target"]
    f = None
    for n in ("a", "b"):
        net = case[n]
        T = next(m for m in net["msgs"] if m["name"] == tn)
        f = own(T)
        ms = net["msgs"]
        for i, m in enumerate(ms):
            if m is not T:
                yield {**case, n: G.clean_tail({**net, "msgs": ms[:i] + ms[i + 1:]})}
                for j in range(len(m["sigs"])):
                    yield {**case, n: G.clean_tail({**net, "msgs": ms[:i] + [{**m, "sigs": m["sigs"][:j] + m["sigs"][j + 1:]}] + ms[i + 1:]})}
        for i, t in enumerate(net["tail"]):
            if not f(t):
                yield {**case, n: {**net, "tail": net["tail"][:i] + net["tail"][i + 1:]}}
        if net["version"] is not None:
            yield {**case, n: {**net, "version": None}}
    # changes of the message itself happen in both networks
    TA = next(m for m in case["a"]["msgs"] if m["name"] == tn)

    def both(T):
        return {**case, **{n: G.clean_tail({**case[n], "msgs": [T if m["name"] == tn else m for m in case[n]["msgs"]]}) for n in ("a", "b")}}
    for j in range(len(TA["sigs"])):
        if len(TA["sigs"]) > 1:
            yield both({**TA, "sigs": TA["sigs"][:j] + TA["sigs"][j + 1:]})
    for t in case["a"]["tail"]:
        if f(t) and t in case["b"]["tail"]:
            yield {**case, **{n: {**case[n], "tail": [x for x in case[n]["tail"] if x != t]} for n in ("a", "b")}}
    for k, v in case["cfg"].items():
        if v and k not in ("ext64",):
            yield {**case, "cfg": {a: b for a, b in case["cfg"].items() if a != k}}
    if case["nv"] > 4:
        yield {**case, "nv": case["nv"] // 2}
