"""C14: free text in the DBC never changes the generated code (metamorphic)."""
import os, random, re
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from checks.c12 import tree

ID = "C14"
COUNTS = {"quick": 2200, "thorough": 12000}
RULE = ("random networks whose comments, units and value descriptions are built from hostile pieces (format directives, backslashes, trigraphs, comment delimiters, preprocessor and "
        "DBC statement look-alikes, semicolons, non-ASCII bytes, line breaks); the same network is generated again with the texts emptied (value descriptions reduced to the macro "
        "name they stand for, documented markers kept) and all files must be equal once comments are removed by the C translation phases (both with and without trigraphs); every "
        "fourth case the real preprocessor confirms it. Non-trivial: at least 2 non-empty texts.")
ASSUMPTIONS = ["a text holds no double quote and no lone CR; units have no line breaks; a value description with line breaks has no semicolon before a line break"]

PIECES = ["%s", "%n%n", "%d", "%", "%%", "%08.3lf", "%5$s", "\\", "\\\\", "\\n", "\\\""[:1], "//", "/*", "*/", "/", "*", "??/", "??=", "#define X 1", "#endif", "#error no", "#if 0", "#include <none.h>",
          "}", "{", ";", "'", "'a", "`", "<a>", "<Check", "Rolling", "BO_ 100 Fake: 8 Node", " SG_ fake : 0|8@1+ (1,0) [0|0]", "CM_ BO_ 100", "CM_ SG_ 1 x", "VAL_ 100 sig 1", "BA_ GenMsgCycleTime BO_ 100 55;",
          "BO_TX_BU_ 100 : Fake;", "VERSION 9.9", "EV_ x: 0", "BU_: Fake", "NS_ :", "return 0;", "int x;", "_m->x = 1;", "uint8_t", "é", "ü°", "\udcff\udc80", "日本", "\t", "  ", " : ", "a:b", "|", "@1+", "(1,0)", "[0|255]", ",",
          "RollingCounter", "<RollingCounter", "RollingCounter>", "<rollingcounter>", "<Rolling Counter>", "< RollingCounter >", "Checksum:XOR8:3", "<checksum:XOR8:3>", "<Checksum>", "<CRC:XOR8:3>", "< Checksum:XOR8:3>",
          ";;", "100", "0x1F", "-1", "ok", "speed", "word " * 20, "x" * 300, "long " * 230, "y" * 1023, "z" * 4099, "+", "==", "$", "^", "~", "&", "?", "!", "a", "1", "_"]
LINES = ["BO_ 100 Fake: 8 Node", " SG_ fake : 0|8@1+ (1,0) [0|0] unit Vector__XXX", "CM_ BO_ 100 text;", "CM_ SG_ 100 x text", "VAL_ 100 sig 1 on ;", "BA_ GenMsgCycleTime BO_ 100 55;", "BO_TX_BU_ 100 : Fake;",
         "VERSION 9.9", "#define BROKEN", "#error x", "*/", "/*", "\\", "text \\", "text\\ ", "??/", "??/ ", "}", ";", "end;", "text;", "uint8_t i;", "return 1;", "", "  ", "// x", "BU_: a b", "VAL_TABLE_ t 1 x;", "CM_", "BA_ "]


def piece(r):
    return r.choice(PIECES)


def line(r):
    if r.random() < 0.35:
        return r.choice(LINES)
    return "".join(piece(r) + r.choice(["", " ", " "]) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))


MARKS = ["<RollingCounter>", "<Checksum:XOR8:3>", "see <RollingCounter> and <Checksum:X:1>"]


def fix(t):
    """No quotes, and no marker: a signal comment must not hold one by accident."""
    t = t.replace('"', "")
    return t.replace("<RollingCounter>", "").replace("<Checksum:", "")


def stray(r, t):
    """Markers outside signal comments are plain text."""
    return t + r.choice(MARKS) if r.random() < 0.08 else t


def comment(r):
    n = r.choice([1, 1, 1, 2, 2, 3, 5] + [20, 70, 150] * (r.random() < 0.05))
    return fix("\n".join(line(r) for _ in range(n)))


def unit(r):
    return stray(r, fix(" ".join(piece(r) for _ in range(r.choice([1, 1, 2, 3]))))[:r.choice([60] * 9 + [3000])])


def desc(r):
    t = stray(r, fix("".join(piece(r) + r.choice(["", " "]) for _ in range(r.choice([1, 1, 2, 3])))))
    if r.random() < 0.2:
        t = t.rstrip()
        if t.endswith(";") or not t:
            t += "d"
        t += "\n" + fix(line(r))
    return "\n".join(x.rstrip() for x in t.split("\n"))


def cname(t):
    return M.c_name("".join(t.split("\n")))


def gen(r, tier):
    net = G.network(r, nmsg=r.choice([1, 2, 3, 4]), nsig=r.choice([1, 2, 3, 4]), empty=0.15)
    ents = []
    for m in net["msgs"]:
        rid = M.raw_id(m)
        if r.random() < 0.6:
            ents.append({"h": "CM_ BO_ %d" % rid, "t": stray(r, comment(r)), "e": ""})
        mk = r.random()
        for i, s in enumerate(m["sigs"]):
            s["unit"] = unit(r) if r.random() < 0.6 else ""
            if i == 0 and mk < 0.1 and not s["signed"] and s["len"] < 32 or i == 0 and mk > 0.9 and s["len"] <= 8:
                mark = "<RollingCounter>" if mk < 0.5 else "<Checksum:XOR8:%d>" % r.randint(0, 9)
                a, b = comment(r), comment(r)
                ents.append({"h": "CM_ SG_ %d %s" % (rid, s["name"]), "t": a + mark + b, "e": mark})
            elif r.random() < 0.6:
                ents.append({"h": "CM_ SG_ %d %s" % (rid, s["name"]), "t": comment(r), "e": ""})
            if r.random() < 0.4:
                ents.append({"h": "VAL_ %d %s" % (rid, s["name"]), "p": [[r.randint(-3, 300), desc(r)] for _ in range(r.choice([1, 2, 3, 4] * 5 + [30, 100]))]})
    for h in ("CM_", "CM_ BU_ " + net["nodes"][0], "CM_ EV_ env", "CM_ BO_ 1999", "CM_ SG_ 1999 x"):
        if r.random() < 0.15:
            ents.append({"h": h, "t": stray(r, comment(r)), "e": ""})
    r.shuffle(ents)
    for m in net["msgs"]:
        if r.random() < 0.3:
            ents.insert(r.randint(0, len(ents)), {"h": M.cyc_line(M.raw_id(m), r.choice([10, 100, 1000]))})
    return {"net": net, "ents": ents, "crlf": r.random() < 0.15, "opts": r.choice([[], [], ["-nodeutils"]]), "pp": r.random() < 0.25}


def text(case, wild):
    net = dict(case["net"])
    if not wild:
        net["msgs"] = [dict(m, sigs=[dict(s, unit="") for s in m["sigs"]]) for m in net["msgs"]]
    tail = []
    for e in case["ents"]:
        if "p" in e:
            tail.append(e["h"] + " " + " ".join('%d "%s"' % (v, t if wild else cname(t)) for v, t in e["p"]) + " ;")
        elif "t" in e:
            tail.append('%s "%s";' % (e["h"], e["t"] if wild else e["e"]))
        else:
            tail.append(e["h"])
    net["tail"] = tail
    t = M.render(net)
    return t.replace("\n", "\r\n") if case["crlf"] else t


TRI = {"=": "#", "/": "\\", "'": "^", "(": "[", ")": "]", "!": "|", "<": "{", ">": "}", "-": "~"}


def strip(src, tri):
    """C translation phases 1-3; -> list of non-empty lines with single blanks."""
    s = src.decode("latin1").replace("\r\n", "\n")
    if tri:
        s = re.sub(r"\?\?([=/'()!<>-])", lambda m: TRI[m.group(1)], s)
    s = re.sub(r"\\[ \t\v\f\r]*\n", "", s)
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                out.append("<<unterminated comment>>")
                break
            out.append(" ")
            i = j + 2
        elif c in "\"'":
            j = i + 1
            while j < n and s[j] != c and s[j] != "\n":
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(c)
            i += 1
    return [" ".join(l.split()) for l in "".join(out).split("\n") if l.strip()]


def run(case, ctx):
    d = ctx.fresh()
    outs = []
    for sub, wild in (("a", True), ("b", False)):
        x = os.path.join(d, sub)
        os.makedirs(x)
        cdrv.write(x + "/net.dbc", text(case, wild))
        outs.append(cdrv.generate(ctx, text(case, wild), x, opts=["-rw"] + case["opts"]))
    a, b = tree(outs[0]), tree(outs[1])
    if set(a) != set(b):
        raise Violation("texts change the set of generated files: %s" % sorted(set(a) ^ set(b)))
    units = 0
    for f in sorted(a):
        for tri in (False, True):
            units += 1
            la, lb = strip(a[f], tri), strip(b[f], tri)
            if la != lb:
                k = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), min(len(la), len(lb)))
                raise Violation("texts change %s%s: %r instead of %r" % (f, " (with trigraphs)" if tri else "", la[k:k + 1], lb[k:k + 1]))
    if case["pp"]:
        for std in ("gnu11", "c99"):
            for defs in ([], ["-DDRV_USE_DIAG_MONITORS", "-DDRV_USE_SIGFLOAT", "-DDRV_USE_BITS_SIGNAL", "-DDRV_AUTO_ROLL", "-DDRV_AUTO_CSM"]):
                res = []
                for o in outs:
                    rc, txt = cdrv.sh(["gcc", "-std=" + std, "-w", "-E", "-P", "-dD"] + defs + ["-I", o + "/lib", "-I", o + "/conf", "-I", o + "/inc", o + "/lib/drv.c"])
                    res.append((rc, [" ".join(l.split()) for l in txt.splitlines() if l.strip()]))
                units += 1
                if res[0] != res[1]:
                    k = next((i for i in range(min(len(res[0][1]), len(res[1][1]))) if res[0][1][i] != res[1][1][i]), 0)
                    raise Violation("preprocessed drv.c differs (%s): %r instead of %r" % (std, res[0][1][k:k + 1], res[1][1][k:k + 1]))
    nt = sum(1 for e in case["ents"] if e.get("t") or e.get("p")) + sum(1 for m in case["net"]["msgs"] for s in m["sigs"] if s["unit"])
    allt = "\n".join([e.get("t", "") for e in case["ents"]] + [t for e in case["ents"] for _, t in e.get("p", [])] + [s["unit"] for m in case["net"]["msgs"] for s in m["sigs"]])
    return {"units": units, "nontrivial": nt >= 2,
            "counts": {"texts": nt, "texts with line breaks": sum("\n" in e.get("t", "") for e in case["ents"]), "value descriptions": sum(len(e.get("p", [])) for e in case["ents"])},
            "classes": [n for n, x in (("percent", "%"), ("backslash at line end", "\\\n"), ("comment open", "/*"), ("comment close", "*/"), ("trigraph", "??/"), ("statement look-alike", "BO_ 100"),
                                       ("non-ASCII", "é")) if x in allt] + (["CRLF"] if case["crlf"] else [])}


def shrinks(case):
    ents = case["ents"]
    if len(ents) > 2:
        yield dict(case, ents=ents[:len(ents) // 2])
        yield dict(case, ents=ents[len(ents) // 2:])
    for i in range(len(ents)):
        yield dict(case, ents=ents[:i] + ents[i + 1:])
    net = case["net"]
    for i, m in enumerate(net["msgs"]):
        if len(net["msgs"]) > 1:
            yield dict(case, net=dict(net, msgs=net["msgs"][:i] + net["msgs"][i + 1:]))
        for j, s in enumerate(m["sigs"]):
            yield dict(case, net=dict(net, msgs=net["msgs"][:i] + [dict(m, sigs=m["sigs"][:j] + m["sigs"][j + 1:])] + net["msgs"][i + 1:]))
            for u in ([""] + ([s["unit"][:len(s["unit"]) // 2], s["unit"][1:], s["unit"][:-1]] if s["unit"] else [])) if s["unit"] else []:
                yield dict(case, net=dict(net, msgs=net["msgs"][:i] + [dict(m, sigs=m["sigs"][:j] + [dict(s, unit=u)] + m["sigs"][j + 1:])] + net["msgs"][i + 1:]))
    for i, e in enumerate(ents):
        def rep(x):
            return dict(case, ents=ents[:i] + [x] + ents[i + 1:])
        if e.get("t") and not e["e"]:
            ls = e["t"].split("\n")
            for j in range(len(ls)):
                if len(ls) > 1:
                    yield rep(dict(e, t="\n".join(ls[:j] + ls[j + 1:])))
            for j in range(len(ls)):
                for x in (ls[j][:len(ls[j]) // 2], ls[j][len(ls[j]) // 2:], ls[j][1:], ls[j][:-1]):
                    if x != ls[j]:
                        yield rep(dict(e, t="\n".join(ls[:j] + [x] + ls[j + 1:])))
        if "p" in e:
            for j in range(len(e["p"])):
                if len(e["p"]) > 1:
                    yield rep(dict(e, p=e["p"][:j] + e["p"][j + 1:]))
                v, t = e["p"][j]
                for x in (t[:len(t) // 2], t[len(t) // 2:], t[1:], t[:-1]):
                    if x != t:
                        yield rep(dict(e, p=e["p"][:j] + [[v, x]] + e["p"][j + 1:]))
    for k, v in (("crlf", False), ("opts", []), ("pp", False)):
        if case[k] != v:
            yield {**case, k: v}
