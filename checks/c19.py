"""C19: generation is deterministic and ignores DBC presentation (metamorphic, byte-identical trees)."""
import os, random, re
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import net_shrinks

ID = "C19"
COUNTS = {"quick": 1800, "thorough": 12000}
RULE = ("random networks with comments, tables, markers, extra transmitters, standard and extended frames with equal numbers, random options; for each, 6 presentation-changing variants (random combinations of: message blocks "
        "reordered, signals with distinct start bits reordered, CRLF, trailing blanks, other blanks and tabs between the parts of statements, blank lines, unrelated sections inserted, last line end missing, other directory, other environment and working directory, "
        "plain repetition) are generated and every file compared byte by byte; plus a run with -gendate toggled. Non-trivial: at least one message with two signals or two messages.")
ASSUMPTIONS = ["a variant keeps the DBC file's name", "signals with equal start bits keep their order", "texts contain no lone carriage returns", "a statement begins at the start of a line (SG_ is indented) and is broken only inside texts; what follows @ stays together"]
KINDS = ["messages", "signals", "crlf", "blanks", "spacing", "lines", "sections", "nolastnl", "dir", "env"]
UNREL = ["BA_DEF_ BO_  \"GenMsgCycleTime\" INT 0 65535;", "BA_DEF_ SG_ \"GenSigStartValue\" FLOAT -3.4E+038 3.4E+038;", "BA_DEF_DEF_ \"GenMsgCycleTime\" 0;", "BA_DEF_ \"BusType\" STRING ;", "BA_ \"BusType\" \"CAN FD\";",
         "BA_ \"NodeLayer\" BU_ N1 3;", "VAL_TABLE_ Tab 3 \"SNA\" 0 \"Off\" ;", "CM_ BU_ N1 \"the body controller\";", "CM_ \"created by some tool\";", "EV_ EnvX: 0 [0|1] \"\" 0 1 DUMMY_NODE_VECTOR0 Vector__XXX;",
         "BA_DEF_REL_ BU_SG_REL_ \"GenSigTimeout\" INT 0 65535;", "SIG_GROUP_ 77 grp 1 : a b;", "ENVVAR_DATA_ EnvX: 5;", "CM_ EV_ EnvX \"environment\";", "CAT_DEF_ 1 cat 2;", "FILTER 1 CAT 2;", "// written by hand", "BA_DEF_SGTYPE_ x;"]


def gen(r, tier, big=0):
    net = G.rich(r, overlap=r.choice([0, 0, 0.2]), empty=0.1, **({"nmsg": big} if big else {}))
    if r.random() < 0.25:
        c = [m for m in net["msgs"] if m["id"] <= 0x7FF]
        if c:
            m = r.choice(c)
            t = {**m, "ext": not m["ext"], "name": m["name"] + "x2", "sigs": [dict(s) for s in m["sigs"]]}
            net["msgs"].insert(r.randint(0, len(net["msgs"])), t)
            if r.random() < 0.5:
                net["tail"].append(M.cyc_line(M.raw_id(t), 250))
    vs = []
    for _ in range(6):
        p = r.choice([0.0, 0.2, 0.5])
        vs.append({"kinds": sorted(set([k for k in KINDS if r.random() < p] + ([r.choice(KINDS)] if p else []))), "seed": r.getrandbits(32)})
    return {"net": net, "vars": vs, "opts": [o for o in ("-nodeutils", "-noconfig", "-nofmon") if r.random() < 0.25], "drv": r.choice(["drv", "Drv2"])}


def fixed_cases(tier):
    """Networks beyond every small counter."""
    return [gen(random.Random("C19/big/%d" % n), tier, n) for n in (40, 100, 257, 300)]


WS = [" ", " ", "  ", "\t", "   ", " \t"]


def respace(r, stmt):
    """The same statement with other white space between its parts (texts are left alone)."""
    m = re.match(r"[ \t]*(BO_|SG_|BO_TX_BU_|CM_|VAL_|BA_|VERSION)[ \t]", stmt)
    if not m:
        return stmt
    kw = m.group(1)
    out = []
    for i, part in enumerate(stmt.split('"')):
        if i % 2 == 0:
            lead = ""
            if i == 0 and kw == "SG_":
                lead, part = r.choice([" ", "  ", "\t", "    "]), part.lstrip()
            part = re.sub(r"[ \t]+", lambda x: r.choice(WS), part)
            if kw in ("BO_", "SG_", "BO_TX_BU_"):
                part = re.sub(r"[ \t]*:[ \t]*", lambda x: r.choice(["", " ", "\t"]) + ":" + r.choice(["", " ", "  "]), part)
                part = re.sub(r"[ \t]*([,|()\[\]])[ \t]*", lambda x: r.choice(["", " "]) + x.group(1) + r.choice(["", " "]), part)
            part = re.sub(r"[ \t]*;", lambda x: r.choice(["", " ", "\t"]) + ";", part)
            part = lead + part
        out.append(part)
    return '"'.join(out)


def text(net, kinds=(), seed=0):
    r = random.Random(seed)
    msgs = [dict(m) for m in net["msgs"]]
    if "messages" in kinds:
        r.shuffle(msgs)
    if "signals" in kinds:
        for m in msgs:
            if len(set(s["start"] for s in m["sigs"])) == len(m["sigs"]):
                m["sigs"] = r.sample(m["sigs"], len(m["sigs"]))
    st = []                                     # top-level statements, each a list of lines
    if net.get("version") is not None:
        st.append(['VERSION "%s"' % net["version"]])
    st += [[], M.NS.split("\n"), ["BU_: " + " ".join(net["nodes"])], []]
    first = len(st)
    for m in msgs:
        b = M.render_msg(m).rstrip("\n").split("\n")
        if "lines" in kinds:
            nb = []
            for l in b:
                nb.append(l)
                if r.random() < 0.2:
                    nb.append("")
            b = nb
        st.append(b + [""])
    after = len(st)
    for t in net.get("btx", []):
        st.append(["BO_TX_BU_ %d : %s;" % (t["id"], ",".join(t["nodes"]))])
    st.append([])
    st += [t.split("\n") for t in net.get("tail", [])]
    if "lines" in kinds:
        for _ in range(r.randint(1, 6)):
            st.insert(r.randint(0, len(st)), [r.choice(["", "", "  ", "\t"])] * r.randint(1, 3))
    if "sections" in kinds:
        # the sections of a DBC file have a fixed order: others stand before or after the messages
        for _ in range(r.randint(1, 6)):
            n = r.choice([0, 1, first - 1] + [r.randint(after, len(st)) for _ in range(9)]) if "lines" not in kinds else len(st)
            st.insert(n, [r.choice(UNREL)])
    if "spacing" in kinds:
        st = ["\n".join(b) for b in st]
        st = ["\n".join(respace(r, l) for l in re.split(r"\n(?=[ \t]*SG_[ \t]|$)", b)) if b.startswith("BO_ ") else respace(r, b) for b in st]
        st = [b.split("\n") for b in st]
    lines = [l for b in st for l in b]
    if "blanks" in kinds:
        lines = [l + r.choice(["", " ", "   ", "\t", " \t "]) for l in lines]
    eol = "\r\n" if "crlf" in kinds else "\n"
    return eol.join(lines) + ("" if "nolastnl" in kinds else eol)


def tree(d):
    res = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            res[os.path.relpath(p, d)] = cdrv.read(p)
    return res


def genrun(ctx, d, sub, txt, drv, opts, kinds=()):
    w = os.path.join(d, sub)
    src = os.path.join(w, "some", "where else") if "dir" in kinds else w
    out = os.path.join(w, "out")
    os.makedirs(src)
    os.makedirs(out, exist_ok=True)
    dbc = os.path.join(src, "net.dbc")
    cdrv.write(dbc, txt)
    env, cwd = None, None
    if "env" in kinds:
        env = {"LC_ALL": "de_DE.UTF-8", "LANG": "de_DE.UTF-8", "TZ": "Asia/Tokyo", "HOME": w, "PATH": "/usr/bin:/bin", "USER": "nobody"}
        cwd, dbc = src, "net.dbc"
    rc, so, se = cdrv.run_gen(ctx, ["-dbc", dbc, "-out", out, "-drvname", drv, "-rw"] + list(opts), env=env, cwd=cwd)
    if rc < 0 or rc >= 128:
        raise Violation("generator died (status %d) on a valid DBC: %s" % (rc, se[-200:].decode("latin1")))
    return tree(out)


def first_diff(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for x, y in zip(la, lb):
        if x != y:
            return "'%s' / '%s'" % (x.decode("latin1")[:120], y.decode("latin1")[:120])
    return "one has more lines"


def run(case, ctx):
    net, drv, opts = case["net"], case["drv"], case["opts"]
    d = ctx.fresh()
    ref = genrun(ctx, d, "ref", text(net), drv, opts)
    if not ref:
        raise Violation("nothing was generated")
    units = 0
    for i, v in enumerate(case["vars"]):
        t = genrun(ctx, d, "v%d" % i, text(net, v["kinds"], v["seed"]), drv, opts, v["kinds"])
        units += len(t)
        if set(t) != set(ref):
            raise Violation("presentation change (%s) changes the set of files: %s" % (", ".join(v["kinds"]) or "repetition", sorted(set(t) ^ set(ref))[:4]))
        for p in sorted(ref):
            if ref[p] != t[p]:
                raise Violation("presentation change (%s) changes %s: %s" % (", ".join(v["kinds"]) or "repetition", p, first_diff(ref[p], t[p])))
    t = genrun(ctx, d, "g", text(net), drv, list(opts) + ["-gendate"])
    if set(t) != set(ref):
        raise Violation("-gendate changes the set of files")
    for p in sorted(ref):
        a, b = ref[p].split(b"\n"), t[p].split(b"\n")
        extra = [l for l in b if re.match(rb"//.*\b\d{4}\D\d\d\D\d\d\D+\d\d:\d\d:\d\d\s*$", l)]
        if len(extra) != 1 or [l for l in b if l is not extra[0]] != a:
            raise Violation("-gendate does more to %s than adding one generation-time comment line (%d such lines)" % (p, len(extra)))
    cnt = {}
    for v in case["vars"]:
        for k in v["kinds"] or ["repetition"]:
            cnt["variant: " + k] = cnt.get("variant: " + k, 0) + 1
    return {"units": units, "counts": cnt, "nontrivial": len(net["msgs"]) > 1 or any(len(m["sigs"]) > 1 for m in net["msgs"])}


def shrinks(case):
    for v in case["vars"]:
        if len(case["vars"]) > 1:
            yield {**case, "vars": [v]}
    for i, v in enumerate(case["vars"]):
        for k in v["kinds"]:
            yield {**case, "vars": case["vars"][:i] + [{**v, "kinds": [x for x in v["kinds"] if x != k]}] + case["vars"][i + 1:]}
        for s in range(4):
            if v["seed"] > 3:
                yield {**case, "vars": case["vars"][:i] + [{**v, "seed": s}] + case["vars"][i + 1:]}
    for o in case["opts"]:
        yield {**case, "opts": [x for x in case["opts"] if x != o]}
    for n in G.shrink_net(case["net"]):
        if n["msgs"]:
            yield {**case, "net": G.clean_tail(n)}
