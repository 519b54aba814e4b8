"""C17: command-line options mean the same in every order."""
import os, random, re
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation

ID = "C17"
COUNTS = {"quick": 9000, "thorough": 40000}
RULE = ("random argument vectors: the valued options with several alternative values, repeated, without value or with a value that has no identifier character, all flags in any subset and any number, "
        "unknown options with and without values, stray words, empty words, in random order; a model parser says which option values result; the output tree must be exactly the set of files that those "
        "values mean and byte-identical to the tree of a canonical command line with the same values, or nothing at all. Non-trivial: at least one repetition, unknown option or stray word.")
ASSUMPTIONS = ["an option word starts with '-'; the word after any option word, unless it starts with '-', is that option's value", "the output directory exists and is writable"]
FLAGS = ["-rw", "-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir", "-gendate"]
DBC1 = 'VERSION "1.2"\n\nBU_: NA NB\n\nBO_ 5 One: 2 NA\n SG_ A : 0|8@1+ (1,0) [0|0] "" NB\n\n'
DBC2 = 'VERSION "3.4"\n\nBU_: NC\n\nBO_ 7 Two: 8 NC\n SG_ B : 0|16@1- (2,5) [0|0] "V" NC,NA\n\nBO_ 8 Three: 1 NC\n\n'
NODES = {"n1.dbc": ["NA", "NB"], "sub/n2.dbc": ["NC", "NA"]}
UNKNOWN = ["-foo", "--rw", "-RW", "-h", "-rwx", "-db", "-dbcx", "-", "--", "-outt", "-drv", "-node", "-noconfi", "-no-inc", "-version", "-0", "-help2", "--help"]
STRAY = ["word", "rw", "dbc", "n1.dbc", "o2", "x=1", "", " ", "help", "*"]
DRVS = ["drv", "Abc", "X_1", "9lives", "a b", "é_z", "..p", "Z-z"]
BADDRV = ["123", "é", "+.", "9", ""]


def gen(r, tier):
    parts = []
    for o, vals in (("-dbc", ["n1.dbc", "sub/n2.dbc", "n1.dbc", "sub/n2.dbc", "n1.dbc", "sub/n2.dbc", "missing.dbc"]), ("-out", ["o1", "o2/in"]), ("-drvname", DRVS)):
        n = r.choices([0, 1, 2, 3], [6, 70, 18, 6])[0]
        for _ in range(n):
            c = r.random()
            if c < 0.04:
                parts.append([o])
            elif c < 0.1 and o == "-drvname":
                parts.append([o, r.choice(BADDRV)])
            else:
                parts.append([o, r.choice(vals)])
    for f in FLAGS:
        for _ in range(r.choices([0, 1, 2], [60, 34, 6])[0]):
            parts.append([f] + ([r.choice(STRAY)] if r.random() < 0.15 else []))
    if r.random() < 0.05:
        parts.append(["-help"] + ([r.choice(STRAY)] if r.random() < 0.3 else []))
    for _ in range(r.choices([0, 1, 2, 4], [50, 30, 15, 5])[0]):
        c = r.random()
        parts.append([r.choice(UNKNOWN)] if c < 0.5 else [r.choice(UNKNOWN), r.choice(STRAY)] if c < 0.8 else [r.choice(STRAY)])
    r.shuffle(parts)
    return {"argv": [w for p in parts for w in p]}


def meaning(argv):
    """Reference parser -> dict of resulting values or None when nothing may be generated."""
    v = {"flags": set()}
    i = 0
    while i < len(argv):
        w = argv[i]
        i += 1
        if not w.startswith("-"):
            continue
        val = None
        if i < len(argv) and not argv[i].startswith("-"):
            val = argv[i]
            i += 1
        if w in ("-dbc", "-out", "-drvname"):
            v[w] = val or ""
        elif w in FLAGS or w == "-help":
            v["flags"].add(w)
    if "-help" in v["flags"]:
        return None
    if not v.get("-dbc") or not v.get("-out") or not M.c_name(v.get("-drvname") or ""):
        return None
    return v


def layout(d):
    for p in ("sub", "o1", "o2/in"):
        os.makedirs(os.path.join(d, p))
    cdrv.write(os.path.join(d, "n1.dbc"), DBC1)
    cdrv.write(os.path.join(d, "sub/n2.dbc"), DBC2)


def tree(d):
    res = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            res[os.path.relpath(os.path.join(base, x), d) + "/"] = None
        for f in files:
            p = os.path.join(base, f)
            t = cdrv.read(p)
            res[os.path.relpath(p, d)] = re.sub(rb"// Generation time[^\n]*\n", b"// Generation time\n", t)
    return res


def canonical(v):
    a = ["-dbc", v["-dbc"], "-out", v["-out"], "-drvname", M.c_name(v["-drvname"])]
    return a + sorted(v["flags"])


def files_of(v):
    """The files these option values mean."""
    drv = M.c_name(v["-drvname"])
    low, f = drv.lower(), v["flags"]
    base = v["-out"] + ("/" + drv if "-driverdir" in f else "") + ("" if "-rw" in f else "/000")
    s = {"lib/%s.h" % low, "lib/%s.c" % low, "lib/%s-fmon.h" % low}
    if "-nofmon" not in f:
        s.add("usr/%s-fmon.c" % low)
    if "-noconfig" not in f:
        s |= {"conf/%s-config.h" % low, "conf/dbccodeconf.h"}
    if "-noinc" not in f:
        s.add("inc/canmonitorutil.h")
    for n in (["%s_%s" % (x.lower(), low) for x in NODES[v["-dbc"]]] if "-nodeutils" in f else [low]):
        s |= {"butl/%s-binutil.h" % n, "butl/%s-binutil.c" % n}
    return {os.path.normpath(base + "/" + x) for x in s}


def run(case, ctx):
    argv = case["argv"]
    d = ctx.fresh()
    x, y = os.path.join(d, "x"), os.path.join(d, "y")
    layout(x)
    empty = tree(x)
    v = meaning(argv)
    rc, so, se = cdrv.run_gen(ctx, argv, cwd=x)
    if rc < 0 or rc >= 128:
        raise Violation("the program died (status %d) for the arguments %r" % (rc, argv))
    tx = tree(x)
    if v and v["-dbc"] == "missing.dbc":
        v = None
    if v and (v["-dbc"] not in NODES or v["-out"] not in ("o1", "o2", "o2/in")):
        return {"units": 1, "nontrivial": False, "classes": ["stray word as path"]}
    if v is None:
        if tx != empty:
            raise Violation("arguments %r ask for no generation, but created or changed %s" % (argv, sorted(set(tx) ^ set(empty))[:6] or "files"))
    else:
        layout(y)
        cdrv.run_gen(ctx, canonical(v), cwd=y)
        ty = tree(y)
        want = files_of(v) | {"n1.dbc", "sub/n2.dbc"}
        got = {p for p in tx if not p.endswith("/")}
        if got != want:
            raise Violation("arguments %r (meaning %s): files %s" % (argv, " ".join(canonical(v)), "; ".join(filter(None, [
                "missing " + ", ".join(sorted(want - got)[:5]) if want - got else "", "unexpected " + ", ".join(sorted(got - want)[:5]) if got - want else ""]))))
        if tx != ty:
            df = sorted(p for p in set(tx) | set(ty) if tx.get(p, 0) != ty.get(p, 0))
            raise Violation("arguments %r do not give the same result as the equivalent %r: %s differ" % (argv, canonical(v), df[:5]))
        stamp = [p for p in files_of(v) if b"// Generation time" in tx[p]]
        if bool(stamp) != ("-gendate" in v["flags"]):
            raise Violation("arguments %r: generation time %s" % (argv, "given although not asked for" if stamp else "missing"))
    odd = len([w for w in argv if w in UNKNOWN or w in STRAY]) + sum(argv.count(o) > 1 for o in set(argv))
    return {"units": 1, "nontrivial": odd > 0, "classes": ["generates" if v else "does not generate"] + (["unusual words"] if odd else [])}


def shrinks(case):
    a = case["argv"]
    k = max(1, len(a) // 2)
    while k >= 1:
        for i in range(0, len(a), k):
            yield {"argv": a[:i] + a[i + k:]}
        k //= 2
