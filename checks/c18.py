"""C18: runs write only their own files and never overwrite without -rw (model-based histories)."""
import os, random, re, shutil
from . import c31
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation

ID = "C18"
COUNTS = {"quick": 3600, "thorough": 25000}
RULE = ("histories of 1..12 steps over two output directories: generator runs (three DBC files, driver names in mixed case, every option subset, path with or without trailing slash) mixed with user actions (edit, truncate, "
        "delete or add files anywhere in the tree, occupy or free numbered names with directories or plain files); a model of the directory tree predicts every file after every step; package contents come from reference "
        "runs without -no* options; one case in seventeen is a set of runs at the same time under a scheduler (see C31). Non-trivial: at least two generator runs.")
ASSUMPTIONS = ["output directories exist and are writable, no user file occupies the name of a package directory"]
DRVS = ["drv", "Abc", "abc", "X1"]
DBCS = {"a.dbc": 'VERSION "1.2"\n\nBU_: NA NB\n\nBO_ 5 One: 2 NA\n SG_ A : 0|8@1+ (1,0) [0|0] "" NB\n\n',
        "b.dbc": 'VERSION "3.4"\n\nBU_: NC\n\nBO_ 7 Two: 8 NC\n SG_ B : 0|16@1- (2,5) [0|0] "V" NC,NA\n\nBO_ 8 Three: 1 NC\n\n',
        "c.dbc": "BO_ 1 Alone: 3 Vector__XXX\n\n"}
OPTS = ["-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir", "-gendate"]


def gen(r, tier):
    if r.random() < 0.06:
        # runs at the same time
        return {"steps": [], "at_once": c31.gen(r, tier)}
    steps = []
    prw = r.choice([0.0, 0.3, 0.5, 1.0])
    for _ in range(r.choice([1, 2, 3, 4, 6, 8, 12])):
        if r.random() < 0.62:
            steps.append({"op": "run", "dbc": r.choice(sorted(DBCS)), "drv": r.choice(DRVS), "out": r.choice(["o1", "o1", "o2/in", "o1/", "./o1"]),
                          "opts": [o for o in OPTS if r.random() < 0.2], "rw": r.random() < prw})
        else:
            steps.append({"op": r.choice(["edit", "edit", "delete", "add", "add", "truncate", "mkdir", "rmdir", "occupy"]), "n": r.getrandbits(30)})
    return {"steps": steps}


def fixed_cases(tier):
    run_ = {"op": "run", "dbc": "a.dbc", "drv": "drv", "out": "o1", "opts": [], "rw": False}
    return [{"full": 1000, "steps": [run_]}, {"full": 999, "steps": [run_, run_]}, {"full": 100, "steps": [run_, run_]}, {"steps": [run_] * 12}]


def norm(b):
    return re.sub(rb"// Generation time[^\n]*\n", b"// Generation time\n", b)


def tree(d):
    files, dirs = {}, set()
    for base, ds, fs in os.walk(d):
        for x in ds:
            dirs.add(os.path.relpath(os.path.join(base, x), d))
        for f in fs:
            p = os.path.join(base, f)
            files[os.path.relpath(p, d)] = norm(cdrv.read(p))
    return files, dirs


def package(ctx, d, cache, st):
    """Full package of these options by a reference run in an empty directory."""
    key = (st["dbc"], st["drv"], "-nodeutils" in st["opts"], "-gendate" in st["opts"])
    if key not in cache:
        ref = os.path.join(d, "ref%d" % len(cache))
        os.makedirs(ref)
        cdrv.run_gen(ctx, ["-dbc", st["dbc"], "-out", ref, "-drvname", st["drv"], "-rw"] + [o for o in st["opts"] if o in ("-nodeutils", "-gendate")], cwd=os.path.join(d, "w"))
        files = tree(ref)[0]
        low = st["drv"].lower()
        for need in ("lib/%s.h" % low, "lib/%s.c" % low, "lib/%s-fmon.h" % low, "usr/%s-fmon.c" % low, "conf/%s-config.h" % low, "conf/dbccodeconf.h", "inc/canmonitorutil.h"):
            if need not in files:
                raise Violation("a run with -rw into an empty directory did not write %s (options %s)" % (need, " ".join(st["opts"])))
        cache[key] = files
    low = st["drv"].lower()
    drop = set()
    if "-noconfig" in st["opts"]:
        drop |= {"conf/dbccodeconf.h", "conf/%s-config.h" % low}
    if "-noinc" in st["opts"]:
        drop.add("inc/canmonitorutil.h")
    if "-nofmon" in st["opts"]:
        drop.add("usr/%s-fmon.c" % low)
    return {p: t for p, t in cache[key].items() if p not in drop}


def user(st, w, files, dirs):
    r = random.Random(st["n"])
    op = st["op"]
    if op in ("edit", "delete", "truncate"):
        c = sorted(p for p in files if p.startswith("o"))
        if not c:
            return
        p = os.path.join(w, r.choice(c))
        if op == "delete":
            os.remove(p)
        else:
            cdrv.write(p, b"" if op == "truncate" else cdrv.read(p) + b"// edited %d\n" % r.getrandbits(20))
        return
    ds = sorted(x for x in dirs if x.startswith("o"))
    if op == "add":
        n = r.choice(["notes.txt", "drv.h", "drv-binutil.c", "abc.c", "dbccodeconf.h", "Makefile", "1000", "0", "00", "0000", "x1-fmon.c"])
        p = os.path.join(w, r.choice(ds), n)
        if not os.path.isdir(p):
            cdrv.write(p, b"user file %d\n" % r.getrandbits(20))
    elif op in ("mkdir", "occupy"):
        base = r.choice(["o1", "o2/in", "o1/drv", "o1/Abc", "o1/abc"])
        p = os.path.join(w, base, "%03d" % r.choice([0, 0, 1, 1, 2, 3, 5]))
        if not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
            if op == "mkdir":
                os.mkdir(p)
            else:
                cdrv.write(p, b"not a directory\n")
    elif op == "rmdir":
        c = sorted(x for x in dirs if re.fullmatch(r"o.*/\d\d\d", x))
        if c:
            shutil.rmtree(os.path.join(w, r.choice(c)))


def run(case, ctx):
    if "at_once" in case:
        return c31.run(case["at_once"], ctx)
    d = ctx.fresh()
    w = os.path.join(d, "w")
    for p in ("o1", "o2/in"):
        os.makedirs(os.path.join(w, p))
    for n, t in DBCS.items():
        cdrv.write(os.path.join(w, n), t)
    for i in range(case.get("full", 0)):
        os.mkdir(os.path.join(w, "o1", "%03d" % i))
    cache, runs, units = {}, 0, 0
    cls = {}
    for k, st in enumerate(case["steps"]):
        files, dirs = tree(w)
        if st["op"] != "run":
            user(st, w, files, dirs)
            cls["user: " + st["op"]] = cls.get("user: " + st["op"], 0) + 1
            continue
        runs += 1
        base = os.path.normpath(st["out"])
        if "-driverdir" in st["opts"]:
            base = os.path.join(base, st["drv"])
        if os.path.isfile(os.path.join(w, base)):
            continue
        pk = package(ctx, d, cache, st)
        target = base
        if not st["rw"]:
            free = [i for i in range(1000) if not os.path.lexists(os.path.join(w, base, "%03d" % i))]
            target = os.path.join(base, "%03d" % free[0]) if free else None
        blocked = target and any(os.path.isfile(os.path.join(w, target, x)) for x in ("lib", "usr", "inc", "conf", "butl"))
        rc, so, se = cdrv.run_gen(ctx, ["-dbc", st["dbc"], "-out", st["out"], "-drvname", st["drv"]] + (["-rw"] if st["rw"] else []) + st["opts"], cwd=w)
        if rc < 0 or rc >= 128:
            raise Violation("the program died (status %d) in step %d" % (rc, k + 1))
        if blocked:
            continue
        nf, nd = tree(w)
        want = dict(files)
        if target:
            want.update({os.path.join(target, p): t for p, t in pk.items()})
        units += len(nf)
        what = "step %d (%s%s %s into %s)" % (k + 1, st["drv"], " -rw" if st["rw"] else "", " ".join(st["opts"]), st["out"])
        for p in sorted(set(want) | set(nf)):
            if p in want and p not in nf:
                raise Violation("%s: %s %s" % (what, p, "was removed" if p in files else "was not written"))
            if p not in want:
                raise Violation("%s: unexpected file %s" % (what, p))
            if want[p] != nf[p]:
                raise Violation("%s: %s %s" % (what, p, "of another run or the user was changed" if not target or not p.startswith(target + "/") or p[len(target) + 1:] not in pk else "has not the contents which a first run gives it"))
        allowed = set(dirs)
        if target:
            t = target
            while t:
                allowed.add(t)
                t = os.path.dirname(t)
            allowed |= {os.path.join(target, x) for x in ("lib", "usr", "inc", "conf", "butl")}
        if nd - allowed or dirs - nd:
            raise Violation("%s: directories created or removed: %s" % (what, sorted((nd - allowed) | (dirs - nd))[:4]))
        key = "run " + ("in place" if st["rw"] else "numbered" if free else "numbered, no free name")
        cls[key] = cls.get(key, 0) + 1
    return {"units": units, "counts": cls, "nontrivial": runs >= 2}


def shrinks(case):
    if "at_once" in case:
        for c in c31.shrinks(case["at_once"]):
            yield {**case, "at_once": c}
        return
    s = case["steps"]
    k = max(1, len(s) // 2)
    while k >= 1:
        for i in range(0, len(s), k):
            if len(s) > 1:
                yield {**case, "steps": s[:i] + s[i + k:]}
        k //= 2
    for i, st in enumerate(s):
        if st["op"] == "run":
            for o in st["opts"]:
                yield {**case, "steps": s[:i] + [{**st, "opts": [x for x in st["opts"] if x != o]}] + s[i + 1:]}
            for kv in ({"dbc": "a.dbc"}, {"drv": "drv"}, {"out": "o1"}):
                if {**st, **kv} != st:
                    yield {**case, "steps": s[:i] + [{**st, **kv}] + s[i + 1:]}
