"""C31: runs at the same time in one output directory leave each other's packages alone (scheduled interleavings)."""
import os, re
from vlib import cdrv, gen as G, model as M, sched
from vlib.common import net_shrinks
from vlib.cdrv import Violation

ID = "C31"
COUNTS = {"quick": 5000, "thorough": 45000}
TECHNIQUE = "property-based testing over generated schedules: several generator processes whose file system operations are interleaved by a deterministic scheduler (random, few-switch and lockstep schedules), oracle = packages of lone runs; shrinking of schedule, runs and networks"
RULE = ("2..6 generator processes at once on one output directory: one or several networks, numbered (no -rw) and in-place (-rw) runs mixed, driver names, -driverdir, -nodeutils and the other options, with earlier packages, "
        "occupied numbers and user files in place; the scheduler decides before each look-up, mkdir, open, write and close which process goes on. Non-trivial: at least one switch away from a process which had not ended.")
ASSUMPTIONS = ["an operation of the file system is atomic", "two -rw runs with the same driver name in the same place are not claimed"]
OPTS = ["-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir"]
DRVS = ["drv", "Abc", "can1", "X"]


def place(p):
    return os.path.join("o", p["drv"]) if "-driverdir" in p["opts"] else "o"


def gen(r, tier):
    nets = [G.rich(r, nmsg=r.choice([0, 1, 1, 2, 4]), overlap=0.1, empty=0.1) for _ in range(r.choice([1, 2, 2, 3]))]
    k = r.choice([2, 2, 2, 3, 3, 4, 6])
    prw = r.choice([0.0, 0.0, 0.3, 1.0])
    same = r.random() < 0.4
    o0 = [o for o in OPTS if r.random() < 0.2]
    procs, used = [], set()
    for _ in range(k):
        p = {"net": r.randrange(len(nets)), "drv": DRVS[0] if same else r.choice(DRVS), "rw": r.random() < prw,
             "opts": o0 if r.random() < 0.6 else [o for o in OPTS if r.random() < 0.2]}
        if p["rw"]:
            key = (place(p), p["drv"].lower())
            if key in used:
                p["rw"] = False
            used.add(key)
        procs.append(p)
    return {"nets": nets, "procs": procs, "sched": sched.schedule(r, k), "pre": r.choice([0, 0, 0, 1, 2, 3]), "hole": r.random() < 0.3, "fresh": r.random() < 0.2}


def fixed_cases(tier):
    net = {"nodes": ["NA"], "msgs": [], "version": None}
    out = []
    p = {"net": 0, "drv": "drv", "rw": False, "opts": []}
    for opts in ([], ["-driverdir"]):
        q = dict(p, opts=opts)
        # one stops before its n-th operation, the other runs through
        for n in range(0, 60 if tier == "thorough" else 24):
            out.append({"nets": [net, dict(net, nodes=["NB", "NC"])], "procs": [q, dict(q, net=1)], "sched": [[0, n], [1, 1000]], "pre": n % 3, "hole": False, "fresh": not n % 2})
        out.append({"nets": [net], "procs": [q] * 3, "sched": [[i % 3, 1] for i in range(200)], "pre": 0, "hole": True, "fresh": False})
    # fewer free numbers than runs
    for s in ([], [[i % 3, 1] for i in range(6000)], [[0, 999], [1, 1000], [2, 1001]]):
        out.append({"nets": [net], "procs": [p] * 3, "sched": s, "pre": 998, "hole": False, "fresh": False})
    return out


def tree(d):
    files, dirs = {}, set()
    for base, ds, fs in os.walk(d):
        dirs |= {os.path.relpath(os.path.join(base, x), d) for x in ds}
        for f in fs:
            p = os.path.join(base, f)
            files[os.path.relpath(p, d)] = cdrv.read(p)
    return files, dirs


def argv(ctx, d, p, i):
    return [ctx.exe, "-dbc", os.path.join(d, "n%d.dbc" % p["net"]), "-out", os.path.join(d, "o"), "-drvname", p["drv"]] + (["-rw"] if p["rw"] else []) + p["opts"]


def lone(ctx, d, case, p, cache):
    """What the run writes when it is alone: {path within the package: contents}, last line."""
    key = (p["net"], p["drv"], tuple(p["opts"]))
    if key not in cache:
        ref = os.path.join(d, "ref%d" % len(cache))
        os.makedirs(os.path.join(ref, "o"))
        for i, n in enumerate(case["nets"]):
            cdrv.write(os.path.join(ref, "n%d.dbc" % i), M.render(n))
        rc, so, se = cdrv.run_gen(ctx, argv(ctx, ref, dict(p, rw=True), 0), cwd=ref)
        if rc:
            raise Violation("a run into an empty directory ends with status %d: %s" % (rc, se[-200:].decode("latin1")))
        base, low = place(p), p["drv"].lower()
        files = {os.path.relpath(x, base): t for x, t in tree(ref)[0].items() if x.startswith("o/")}
        for need in ("lib/%s.h" % low, "lib/%s.c" % low, "lib/%s-fmon.h" % low):
            if need not in files:
                raise Violation("a run into an empty directory ends with status 0 without writing %s" % need)
        cache[key] = files
    return cache[key]


def run(case, ctx):
    d = ctx.fresh()
    w = os.path.join(d, "w")
    os.makedirs(w)
    procs = case["procs"]
    for i, n in enumerate(case["nets"]):
        cdrv.write(os.path.join(w, "n%d.dbc" % i), M.render(n))
    cache = {}
    refs = [lone(ctx, d, case, p, cache) for p in procs]
    if not case["fresh"] or case["pre"] > 5:
        os.mkdir(os.path.join(w, "o"))
        for b in sorted({place(p) for p in procs}):
            if case["pre"] <= 5 and b != "o" and case["hole"]:
                continue
            os.makedirs(os.path.join(w, b), exist_ok=True)
            for i in range(case["pre"]):
                os.mkdir(os.path.join(w, b, "%03d" % i))
            if case["hole"] and not case["pre"]:
                os.mkdir(os.path.join(w, b, "001"))
        cdrv.write(os.path.join(w, "o", "keep.txt"), b"user file\n")
    files, dirs = tree(w)
    res, switches = sched.together(ctx, [argv(ctx, w, p, i) for i, p in enumerate(procs)], os.path.join(w, "o"), w, case["sched"])
    nf, nd = tree(w)
    names = ["run %d (%s%s %s)" % (i + 1, p["drv"], " -rw" if p["rw"] else "", " ".join(p["opts"])) for i, p in enumerate(procs)]
    for n, (rc, out) in zip(names, res):
        if rc < 0 or rc >= 128:
            raise Violation("%s died (status %d): %s" % (n, rc, out[-200:].decode("latin1")))
    want, cls = dict(files), {}
    places = sorted({place(p) for p in procs})
    for b in places:
        here = [i for i, p in enumerate(procs) if place(p) == b]
        num = [i for i in here if not procs[i]["rw"]]
        free = [n for n in range(1000) if os.path.join(b, "%03d" % n) not in dirs and os.path.join(b, "%03d" % n) not in files]
        for i in here:
            if procs[i]["rw"]:
                if res[i][0]:
                    raise Violation("%s ends with status %d although nothing is wrong: %s" % (names[i], res[i][0], res[i][1][-150:].decode("latin1")))
                want.update({os.path.join(b, x): t for x, t in refs[i].items()})
        good = [i for i in num if res[i][0] == 0]
        if len(good) != min(len(num), len(free)):
            raise Violation("%d of %d runs without -rw at once in %s end with status 0, %d numbers are free" % (len(good), len(num), b, len(free)))
        # one directory each, the lowest free ones
        left = [refs[i] for i in good]
        for n in free[:len(good)]:
            t = os.path.join(b, "%03d" % n)
            pk = {os.path.relpath(x, t): c for x, c in nf.items() if x.startswith(t + "/")}
            if pk in left:
                left.remove(pk)
                want.update({os.path.join(t, x): c for x, c in pk.items()})
                continue
            if t not in nd:
                raise Violation("%d runs without -rw at once in %s end with status 0, but there is no directory %s: the packages went into %s" % (len(good), b, t, sorted(x for x in nd - dirs if os.path.dirname(x) == b)))
            raise Violation("the package in %s, written while other runs were working (%s), is the package of none of them alone: it has the files %s" % (t, "; ".join(names), sorted(pk)[:8]))
        if good:
            cls["numbered: %d at once" % min(len(good), 4)] = 1
        if len(good) < len(num):
            cls["more runs than free numbers"] = 1
        if len(here) > len(num):
            cls["in place: %d at once" % min(len(here) - len(num), 3)] = 1
    for x in sorted(set(want) | set(nf)):
        if want.get(x) != nf.get(x):
            raise Violation("%s %s after the runs %s at once" % (x, "is missing" if x not in nf else "was not there and belongs to no package" if x not in want else "has other contents than after a lone run" if x not in files else "is not as it has to be", "; ".join(names)))
    if dirs - nd:
        raise Violation("the directory %s was removed" % sorted(dirs - nd)[0])
    return {"units": len(nf), "counts": cls, "nontrivial": switches > 0}


def shrinks(case):
    ps = case["procs"]
    for i in range(len(ps)):
        if len(ps) > 2:
            yield {**case, "procs": ps[:i] + ps[i + 1:], "sched": [[p - (p > i), n] for p, n in case["sched"] if p != i]}
    for s in sched.shrinks(case["sched"]):
        yield {**case, "sched": s}
    for k in ("pre", "hole"):
        if case[k]:
            yield {**case, k: type(case[k])()}
    for i, p in enumerate(ps):
        for o in p["opts"]:
            yield {**case, "procs": ps[:i] + [{**p, "opts": [x for x in p["opts"] if x != o]}] + ps[i + 1:]}
    for i, n in enumerate(case["nets"]):
        for c in net_shrinks({"net": n}):
            yield {**case, "nets": case["nets"][:i] + [c["net"]] + case["nets"][i + 1:]}
