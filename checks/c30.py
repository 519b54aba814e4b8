"""C30: every generated file tells its origin truthfully, whatever the DBC file is called."""
import os, random, re, time
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import net_shrinks
from checks.c12 import split_code

ID = "C30"
COUNTS = {"quick": 2500, "thorough": 20000}
TECHNIQUE = "property-based testing: generated DBC file names, directories, time zones and options through the real CLI; metamorphic relation to a plainly named run plus a model of the label lines; shrinking"
RULE = ("random networks under generated file names (blanks, quotes, percent signs, comment delimiters, #, $, UTF-8, control characters, line breaks, up to 200 characters, without or with several extensions) in generated directories "
        "(relative and absolute, with odd characters), with and without -gendate under random time zones, random other options; every file of the package is read. Non-trivial: the name holds a character outside [A-Za-z0-9._-] or -gendate is given.")
ASSUMPTIONS = ["file names hold no backslash (the program takes it for a directory separator)"]
BITS = ["net", "car", "x", " ", "  ", "%s", "%d%n", "%", "'", '"', "*", "#define A 1", "$", "(", ")", ";", "é", "µ", "日本", "??", "?", ".", "..", ".dbc", "DBC", "-", "--", "_", "\t", "\n", "\r", "\r\n", "\nint x;", "\n#error z\n",
        "\v", "\x01", "\x7f", "`", "&", "|", "<a>", "{", "}", "~", "@", "!", "1", "0", "A" * 60]
ZONES = ["UTC", "Asia/Tokyo", "America/New_York", "UTC-14", "UTC+12", "Asia/Kolkata"]
OPTS = ["-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir"]


def gen(r, tier):
    net = G.rich(r, nmsg=r.choice([0, 1, 1, 2]), nnodes=r.randint(1, 2))
    bit = lambda: r.choice(BITS) if r.random() < 0.7 else chr(r.choice([x for x in range(1, 127) if x not in (47, 92)]))
    name = "".join(bit() for _ in range(r.choice([1, 1, 2, 3, 5, 12]))) + r.choice([".dbc", ".dbc", "", ".DBC", ".txt"])
    name = name.encode("utf-8")[:200].decode("utf-8", "ignore")
    if name.strip(".") == "":
        name = "n" + name
    # a name that begins with '-' and stands alone would be taken for an option
    dirs = [x for x in ("".join(bit() for _ in range(r.choice([1, 2]))) for _ in range(r.choice([0, 0, 1, 2]))) if x.strip(".")]
    return {"net": net, "name": name, "dirs": dirs, "abs": r.random() < 0.5, "gendate": r.random() < 0.5, "tz": r.choice(ZONES), "opts": [o for o in OPTS if r.random() < 0.2], "rw": r.random() < 0.5,
            "drv": r.choice(["drv", "Abc"])}


def package(ctx, w, argv, cwd, tz):
    t0 = int(time.time())
    rc, so, se = cdrv.run_gen(ctx, argv, cwd=cwd, env={**os.environ, "TZ": tz})
    t1 = int(time.time()) + 1
    if rc:
        raise Violation("a run ends with status %d: %s" % (rc, se[-200:].decode("latin1")))
    res = {}
    for b, _, fs in os.walk(os.path.join(w, "out")):
        for f in fs:
            p = os.path.join(b, f)
            res[os.path.relpath(p, os.path.join(w, "out"))] = cdrv.read(p).decode("utf-8", "surrogateescape")
    return res, (t0, t1), so.decode("utf-8", "surrogateescape")


def stamp(t, tz):
    old = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    try:
        return time.strftime("%Y.%m.%d %H:%M:%S", time.localtime(t))
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def run(case, ctx):
    d = ctx.fresh()
    text = M.render(case["net"])
    pk = []
    for k in (0, 1):
        w = os.path.join(d, "w%d" % k)
        src = os.path.join(w, "in", *(case["dirs"] if k else []))
        os.makedirs(src)
        os.makedirs(os.path.join(w, "out"))
        name = case["name"] if k else "plain.dbc"
        cdrv.write(os.path.join(src, name), text)
        dbc = os.path.join(src, name) if case["abs"] or not k else os.path.join("in", *case["dirs"], name)
        pk.append(package(ctx, w, ["-dbc", dbc, "-out", os.path.join(w, "out"), "-drvname", case["drv"]] + (["-rw"] if case["rw"] else []) + case["opts"] + (["-gendate"] if case["gendate"] and k else []), w, case["tz"]))
    (ref, _, so0), (got, (t0, t1), so) = pk
    if sorted(ref) != sorted(got):
        raise Violation("the set of files depends on the name of the DBC file: %s" % sorted(set(ref) ^ set(got))[:4])
    ver = re.search(r"v(\d+)\.(\d+)", so)
    if not ver:
        raise Violation("the program does not tell its version")
    # what stands for the name in a one-line comment: line breaks cannot be shown there
    want = ".{0,2}".join(re.escape(x) for x in re.split(r"[\r\n]", case["name"])) if re.search(r"[\r\n]", case["name"]) else re.escape(case["name"])
    want = re.compile(r"(?:^|[\s\"'<(])" + want + r"(?=[\s\"'>)]|$)", re.S | re.M)
    units = 0
    stamps = set(stamp(t, case["tz"]) for t in range(t0 - 1, t1 + 2))
    for f in sorted(got):
        g, p = got[f], ref[f]
        units += 1
        gc, gm = split_code(g)
        rc_, rm = split_code(p)
        strip = lambda c: [x for x in re.split(r"\s+", c) if x]
        if strip(gc) != strip(rc_):
            a, b = strip(gc), strip(rc_)
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation("%s: the code depends on the name of the DBC file: '%s' instead of '%s'" % (f, " ".join(a[i:i + 4]), " ".join(b[i:i + 4])))
        # logical lines, as the compiler sees them
        head = g[:gc.find("#") if "#" in gc else len(g)]
        if not re.search(r"v%s\.%s\b" % ver.groups(), head):
            raise Violation("%s does not name the generator's version %s" % (f, ver.group(0)))
        low = case["drv"].lower()
        own = os.path.basename(f) not in ("dbccodeconf.h", "canmonitorutil.h")
        if own and not want.search(head):
            raise Violation("%s does not name the DBC file %r: %r" % (f, case["name"], head[:200]))
        if own != ("plain.dbc" in p):
            raise Violation("%s %s the DBC file" % (f, "does not name" if own else "is shared by drivers but names"))
        m = re.findall(r"\d{4}\.\d\d\.\d\d \d\d:\d\d:\d\d", head)
        if case["gendate"] and not (set(m) & stamps):
            raise Violation("%s: generation date with -gendate is %s, the run was at %s (%s)" % (f, m or "missing", sorted(stamps)[0], case["tz"]))
        if not case["gendate"] and m:
            raise Violation("%s holds a generation date without -gendate" % f)
    odd = bool(re.search(r"[^A-Za-z0-9._-]", case["name"]))
    return {"units": units, "nontrivial": odd or case["gendate"], "classes": (["odd name"] if odd else ["plain name"]) + (["line break in name"] if re.search(r"[\r\n]", case["name"]) else []) + (["date"] if case["gendate"] else [])}


def shrinks(case):
    n = case["name"]
    k = len(n) // 2
    while k >= 1:
        for i in range(0, len(n), k):
            x = n[:i] + n[i + k:]
            if x.strip("."):
                yield {**case, "name": x}
        k //= 2
    for o in case["opts"]:
        yield {**case, "opts": [x for x in case["opts"] if x != o]}
    for kv in ({"dirs": []}, {"gendate": False}, {"tz": "UTC"}, {"abs": True}, {"drv": "drv"}):
        if {**case, **kv} != case:
            yield {**case, **kv}
    yield from net_shrinks(case)
