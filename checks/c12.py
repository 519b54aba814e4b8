"""C12: attributes, value tables, comments and extra transmitters reach exactly their owner."""
import os, random, re, subprocess
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import net_shrinks

ID = "C12"
COUNTS = {"quick": 1000, "thorough": 5000}
RULE = ("random networks (equal signal names in several messages, standard and extended frames with the same number, dropped and empty messages) with random GenMsgCycleTime "
        "attributes, value tables, comments and extra transmitters, mixed with entries naming missing or dropped items, missing signals, other attributes and other targets. "
        "Added macros (preprocessor, against the package without entries) and their compiled values must be exactly the listed ones, every comment line must stand in front of its "
        "item only, and the package must be byte-identical to the one without the entries that name nothing. Non-trivial: at least 3 effective and 1 ineffective entry.")
ASSUMPTIONS = ["when two descriptions of one signal give the same macro name, one of the values is enough", "an item has at most one comment / value table / cycle time",
               "a comment stands in front of the declaration it belongs to", "a statement may continue on further lines, but its keyword is followed by a blank and the next word"]
WORDS = ["speed of", "the wheel;", "0x1F", "(approx.)", "BO_ 100 Abc: 8 X", "SG_ x : 0|8@1+ (1,0) [0|0]", "100%", "a/b", "VAL_ 1 a", "-", "CM_ ;", "#define Q 1", "ok", "état", "==", "it's", "A > B"]
DESC = ["On", "Off", "not available", "Error 1", "12 V", "state-3", "SNA", "a_b", "x", "ERROR", "Init", "1st", "_r", "max. value", "A:B", "in/out", "(reserved)", "50%", "--", "é", "On ", "on;off", "VERYLONG" * 12]


def vals(r, s):
    lo, hi = M.raw_range(s)
    out = []
    for _ in range(r.choice([1, 2, 3, 5, 8, 20] + [40, 70, 130, 260] * (r.random() < 0.1))):
        c = r.random()
        v = (len(out) if c < 0.4 else r.choice([lo, hi, hi - 1, 0, -1, 1, 2147483647, -2147483648, 4294967295, 2147483648, 65535, 1 << 40]) if c < 0.7 else r.randint(lo, hi))
        v = max(-(1 << 63) + 1, min((1 << 63) - 1, v))
        desc = r.choice(DESC) if r.random() < 0.6 else "".join(r.choice("abcXYZ019 _-.,:()/") for _ in range(r.randint(1, 20)))
        out.append([v, desc])
    return out


MARKS = "$`~"
TOKEN = r"Tk\d+q|[$`~]"


def lines(r, ctr):
    """Lines of one comment; each holds a token that occurs nowhere else."""
    out = []
    if ctr[0] % 5 == 3 and len(ctr) <= len(MARKS) and r.random() < 0.5:
        # the shortest text there is
        ctr[0] += 1
        ctr.append(0)
        return [MARKS[len(ctr) - 2]]
    for _ in range(r.choice([1, 1, 1, 2, 3, 5] + [12, 40] * (r.random() < 0.1))):
        if out and r.random() < 0.05:
            out.append("")
        ctr[0] += 1
        w = [r.choice(WORDS) for _ in range(r.randint(0, 4))]
        if r.random() < 0.02:
            w.append("z" * r.choice([64, 128, 250, 256, 1020, 1024, 2000, 4096, 9000]))
        w.insert(r.randint(0, len(w)), "Tk%dq" % ctr[0])
        out.append(" ".join(w))
    return out


def gen(r, tier, big=(0, 0)):
    nn = G.Names(r, cased=False)
    nodes = [nn.new() for _ in range(r.randint(1, 3))]
    names, ids, sn = G.Names(r), set(), G.Names(r)
    pool = [sn.new() for _ in range(4)]
    msgs, raws = [], set()
    for _ in range(big[0] or r.choice([1, 2, 3, 4, 6])):
        m = G.message(r, names, ids, nodes=nodes, empty=0 if big[1] else 0.15, nsig=big[1] or r.choice([1, 2, 3, 5]), signames=sn, **({"overlap": 1.0} if big[1] else {}))
        have = set()
        for s in m["sigs"]:
            c = r.choice(pool)
            if c not in have and r.random() < 0.6:
                s["name"] = c
            have.add(s["name"])
        plain = [s for s in m["sigs"] if M.is_simple(s)]
        if len(plain) > 1 and r.random() < 0.25:
            # two plain signals X and X_ro (the generator names scaled signals like the latter)
            a, b = r.sample(plain, 2)
            if a["name"] + "_ro" not in have:
                b["name"] = a["name"] + "_ro"
        c = r.random()
        if c < 0.1:
            m["dlc"] = r.choice([0, 65, 264])
        elif c < 0.2:
            m["rawid"] = M.raw_id(m) | r.choice([1 << 29, 1 << 30])
        elif c < 0.4 and msgs:
            # the same number in the other frame format
            o = r.choice(msgs)
            if o["id"] < 0x800 and "rawid" not in o:
                m["id"], m["ext"] = o["id"], not o["ext"]
        if M.raw_id(m) in raws:
            continue
        raws.add(M.raw_id(m))
        msgs.append(m)
    ctr = [0]
    ents = []

    def rid(m):
        return m.get("rawid", M.raw_id(m))
    taken = set()
    for m in msgs:
        if r.random() < 0.6:
            ents.append({"k": "cyc", "id": rid(m), "v": r.choice([1, 10, 20, 100, 65535, r.randint(1, 2147483647)])})
        if r.random() < 0.5:
            ents.append({"k": "cmb", "id": rid(m), "t": lines(r, ctr)})
        for s in m["sigs"]:
            if r.random() < 0.5:
                ents.append({"k": "cms", "id": rid(m), "s": s["name"], "t": lines(r, ctr)})
            if r.random() < 0.5:
                ents.append({"k": "val", "id": rid(m), "s": s["name"], "p": vals(r, s)})
        if r.random() < 0.25:
            ents.append({"k": "btx", "id": rid(m), "n": sorted(set(r.choice(nodes) for _ in range(r.randint(1, 2))))})
    # entries that name nothing
    allraw = set(rid(m) for m in msgs)
    for _ in range(r.choice([0, 1, 2, 4, 6])):
        m = r.choice(msgs)
        bad = r.choice([rid(m) ^ 0x80000000, rid(m) + (1 << 32), rid(m) ^ 1, rid(m) | 0x40000000, 0xC0000000, 0, 5, r.getrandbits(29), 4294967295])
        if bad in allraw:
            continue
        anys = m["sigs"][0]["name"] if m["sigs"] else "x"
        k = r.choice(["cyc", "cmb", "cms", "val", "btx", "cms2", "val2", "other"])
        if k == "cyc":
            ents.append({"k": "cyc", "id": bad, "v": 77, "no": 1})
        elif k == "cmb":
            ents.append({"k": "cmb", "id": bad, "t": lines(r, ctr), "no": 1})
        elif k == "cms":
            ents.append({"k": "cms", "id": bad, "s": anys, "t": lines(r, ctr) + r.choice([[], ["<RollingCounter>"], ["<Checksum:XOR8:1>"]]), "no": 1})
        elif k == "val":
            ents.append({"k": "val", "id": bad, "s": anys, "p": [[1, "Lost"], [2, "Gone"]], "no": 1})
        elif k == "btx":
            ents.append({"k": "btx", "id": bad, "n": nodes[:1], "no": 1})
        elif k == "other":
            ents.append({"k": "raw", "x": r.choice(['BA_ "GenMsgStartDelayTime" BO_ %d 33;', 'BA_ "GenMsgCycleTimeFast" BO_ %d 44;', 'BA_ "GenMsgCycleTime" SG_ %d ' + anys + " 55;",
                                                    'BA_ "GenSigStartValue" SG_ %d ' + anys + " 5;", 'BA_REL_ "GenMsgCycleTime" BU_BO_REL_ ' + nodes[0] + " %d 66;",
                                                    "SIG_VALTYPE_ %d " + anys + " : 1;", "SIG_GROUP_ %d grp 1 : " + anys + ";"]) % rid(m), "no": 1})
        else:
            miss = r.choice(["Missing", anys + "x", anys[:-1] or "q", anys + "_ro", anys.swapcase(), "_ro"])
            if any(s["name"] == miss for s in m["sigs"]):
                continue
            ents.append({"k": k[:-1], "id": rid(m), "s": miss, "no": 1, **({"t": lines(r, ctr)} if k == "cms2" else {"p": [[1, "Lost"], [2, "Gone"]]})})
    if r.random() < 0.4:
        ents.append({"k": "raw", "x": r.choice(['CM_ BU_ %s "Node comment";' % nodes[0], 'CM_ "Net comment 100";', 'CM_ EV_ env "Env comment";', 'BA_ "BusType" "CAN FD";',
                                                'BA_ "GenMsgCycleTime" BU_ %s 10;' % nodes[0], 'VAL_TABLE_ tbl 1 "One" 0 "Zero" ;', 'VAL_ env 1 "One" 0 "Zero" ;']), "no": 1})
    r.shuffle(ents)
    for e in ents:
        if e["k"] in ("cyc", "val") and r.random() < 0.15:
            e["w"] = r.getrandbits(16)
    return {"net": {"version": None, "nodes": nodes, "msgs": msgs}, "ents": ents, "nodeutils": r.random() < 0.5}


def fixed_cases(tier):
    """Networks beyond every small counter."""
    return [gen(random.Random("C12/big/%d/%d" % n), tier, n) for n in ((65, 0), (129, 0), (256, 0), (257, 0), (300, 0), (1, 257), (2, 300))]


def wrap(t, seed):
    """Continues the statement on further lines, at blanks outside its texts."""
    if seed is None:
        return t
    r, out = random.Random(seed), ""
    for i, part in enumerate(t.split('"')):
        if i % 2 == 0:
            part = "".join("\n " if c == " " and " " in out + part[:j] and r.random() < 0.3 else c for j, c in enumerate(part))
        out += ('"' if i else "") + part
    return out


def text(case, ents):
    net = dict(case["net"])
    net["btx"] = [{"id": e["id"], "nodes": e["n"]} for e in ents if e["k"] == "btx"]
    tail = []
    for e in ents:
        if e["k"] == "cyc":
            tail.append(wrap(M.cyc_line(e["id"], e["v"]), e.get("w")))
        elif e["k"] == "cmb":
            tail.append(M.cm_msg(e["id"], "\n".join(e["t"])))
        elif e["k"] == "cms":
            tail.append(M.cm_sig(e["id"], e["s"], "\n".join(e["t"])))
        elif e["k"] == "val":
            tail.append(wrap(M.val_line(e["id"], e["s"], e["p"]), e.get("w")))
        elif e["k"] == "raw":
            tail.append(e["x"])
    net["tail"] = tail
    return M.render(net)


def tree(out):
    res = {}
    for b, _, fs in os.walk(out):
        for f in fs:
            p = os.path.join(b, f)
            res[os.path.relpath(p, out)] = cdrv.read(p)
    return res


def split_code(src):
    """(code with comments blanked out, comments blanked in -> mask)"""
    out, i, n = [], 0, len(src)
    com = []
    while i < n:
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            out.append(" " * (j - i)); com.append((i, j)); i = j
        elif src.startswith("/*", i):
            j = src.find("*/", i + 2)
            j = n if j < 0 else j + 2
            out.append("".join(c if c == "\n" else " " for c in src[i:j])); com.append((i, j)); i = j
        else:
            out.append(src[i]); i += 1
    return "".join(out), com


def run(case, ctx):
    net, ents = case["net"], case["ents"]
    opts = ["-rw"] + (["-nodeutils"] if case["nodeutils"] else [])
    d = ctx.fresh()

    def go(sub, es):
        x = os.path.join(d, sub)
        os.makedirs(x)
        return cdrv.generate(ctx, text(case, es), x, opts=opts)
    full, eff, base = go("a", ents), go("b", [e for e in ents if not e.get("no")]), go("c", [])
    ta, tb = tree(full), tree(eff)
    if ta != tb:
        bad = [f for f in sorted(set(ta) | set(tb)) if ta.get(f) != tb.get(f)]
        # name the responsible entry
        raise Violation("entries naming nothing that exists change %s: %s" % (bad, [e for e in ents if e.get("no")]))
    alive = {m.get("rawid", M.raw_id(m)): m for m in net["msgs"] if cdrv.valid(m)}
    want, names = {}, {}
    owners, order = {}, {}
    for e in ents:
        m = alive.get(e.get("id"))
        if e.get("no") or m is None:
            continue
        if e["k"] == "cyc":
            want.setdefault(m["name"] + "_CYC", set()).add(e["v"])
        elif e["k"] == "val":
            s = next(x for x in m["sigs"] if x["name"] == e["s"])
            for v, t in e["p"]:
                want.setdefault("%s_%s_%s" % (M.field(s), m["name"], M.c_name(t)), set()).add(v)
        elif e["k"] in ("cmb", "cms"):
            o = (m["name"], None if e["k"] == "cmb" else M.field(next(x for x in m["sigs"] if x["name"] == e["s"])))
            for n, t in enumerate(e["t"]):
                if t.strip():
                    owners[re.search(TOKEN, t).group(0)] = (o, t)
                    order.setdefault(o, []).append(re.search(TOKEN, t).group(0))
    conf = cdrv.prep_conf(full, d, net, {})
    incs = [conf, full + "/lib"]
    conf0 = cdrv.prep_conf(base, d, net, {}, "conf0")
    added = set(cdrv.macros(incs, "drv.h")) - set(cdrv.macros([conf0, base + "/lib"], "drv.h"))
    if added != set(want):
        raise Violation("macros added: unexpected %s, missing %s" % (sorted(added - set(want))[:4], sorted(set(want) - added)[:4]))
    units = len(want) + 1
    if want:
        ks = sorted(want)
        cdrv.write(d + "/p.c", '#include <stdio.h>\n#include "dbccodeconf.h"\n#include "drv.h"\nint main(void) {\n' +
                   "".join('printf("%%lld\\n", (long long)(%s));\n' % k for k in ks) + "return 0; }\n")
        rc, txt = cdrv.sh(["gcc", "-w", "-I" + incs[0], "-I" + incs[1], d + "/p.c", "-o", d + "/p"])
        if rc:
            raise Violation("value macros do not compile: " + cdrv.errors(txt))
        for k, v in zip(ks, subprocess.run([d + "/p"], stdout=subprocess.PIPE).stdout.decode().split()):
            units += 1
            if int(v) not in want[k]:
                raise Violation("%s is %s, expected %s" % (k, v, sorted(want[k])))
    # comments
    src = ta["lib/drv.h"].decode("utf-8", "surrogateescape")
    code, com = split_code(src)
    events = [(x.start(), "m", x.group(1)) for x in re.finditer(r"#\s*define\s+(\w+)_(?:IDE|DLC|CANID|CYC)\b(?!\()", code)]
    structs = [(x.start(), x.end(), x.group(2), x.group(1), x.start(1)) for x in re.finditer(r"typedef\s+struct\b\s*\w*\s*\{([^}]*)\}\s*(\w+)_t\s*;", code)]
    for a, b, n, body, off in structs:
        events += [(off + x.start(1), "s", (n, x.group(1))) for x in re.finditer(r"(\w+)\s*(?::\s*\d+)?\s*;", body)]
    events.sort()
    occ = {}
    for x in re.finditer(TOKEN, src):
        occ.setdefault(x.group(0), []).append(x.start())
    for tk, (own, line) in owners.items():
        units += 1
        if tk not in occ:
            raise Violation("comment line %r of %s does not appear in the header" % (line, own))
    for own, tks in order.items():
        if sorted(tks, key=lambda k: occ[k][0]) != tks:
            raise Violation("the comment lines of %s appear in another order" % (own,))
    for tk, ps in occ.items():
        if tk not in owners:
            raise Violation("a comment line that belongs to no generated item appears in the header (%s)" % tk)
        (mn, sn), line = owners[tk]
        for p in ps:
            units += 1
            lo, hi = src.rfind("\n", 0, p) + 1, src.find("\n", p)
            if line.strip() not in src[lo:hi]:
                raise Violation("comment line %r appears as %r" % (line, src[lo:hi]))
            ev = next((e for e in events if e[0] > p), None)
            if ev is None or (ev[1] == "m" and (sn is not None or ev[2] != mn)) or (ev[1] == "s" and (sn is None or ev[2] != (mn, sn))):
                raise Violation("comment line %r of %s stands in front of %s" % (line, "message " + mn if sn is None else "signal %s.%s" % (mn, sn), ev and ev[2]))
    ne, no = sum(not e.get("no") for e in ents), sum(bool(e.get("no")) for e in ents)
    return {"units": units, "nontrivial": ne >= 3 and no >= 1,
            "counts": {"value entries": sum(len(e["p"]) for e in ents if e["k"] == "val" and not e.get("no")), "comment lines": len(owners), "entries naming nothing": no,
                       "cycle times": sum(k.endswith("_CYC") for k in want)}}


def shrinks(case):
    net, ents = case["net"], case["ents"]
    if len(ents) > 3:
        yield dict(case, ents=ents[:len(ents) // 2])
        yield dict(case, ents=ents[len(ents) // 2:])
    for i in range(len(ents)):
        yield dict(case, ents=ents[:i] + ents[i + 1:])
    for i, m in enumerate(net["msgs"]):
        if len(net["msgs"]) > 1 and not any(e.get("id") == m.get("rawid", M.raw_id(m)) for e in ents):
            yield dict(case, net=dict(net, msgs=net["msgs"][:i] + net["msgs"][i + 1:]))
        for j, s in enumerate(m["sigs"]):
            if not any(e.get("s") == s["name"] for e in ents):
                yield dict(case, net=dict(net, msgs=net["msgs"][:i] + [dict(m, sigs=m["sigs"][:j] + m["sigs"][j + 1:])] + net["msgs"][i + 1:]))
    for i, e in enumerate(ents):
        if "w" in e:
            yield dict(case, ents=ents[:i] + [{a: b for a, b in e.items() if a != "w"}] + ents[i + 1:])
        for k in ("t", "p"):
            if k in e and len(e[k]) > 1:
                for j in range(len(e[k])):
                    yield dict(case, ents=ents[:i] + [{**e, k: e[k][:j] + e[k][j + 1:]}] + ents[i + 1:])
    if case["nodeutils"]:
        yield dict(case, nodeutils=False)
