"""Search engine: generated cases over 8 worker processes, one oracle per check, greedy
structural shrinking, replay files, evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback
from . import build as B
from .cdrv import Ctx, Inconclusive, Violation

ROOT = B.ROOT
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
EVID = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(ROOT, "evidence"))
REPL = os.path.join(ROOT, "replays")
FINDINGS = os.path.join(ROOT, "known-findings.txt")


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def seed_for(mod, seed, i):
    return "%s/%d/%d" % (mod.ID, seed, i)


def gen_case(mod, seed, i, tier):
    return mod.gen(random.Random(seed_for(mod, seed, i)), tier)


def evaluate(mod, case, ctx):
    """-> ("ok", info) | ("bad", text) | ("skip", text)"""
    try:
        return "ok", (mod.run(case, ctx) or {})
    except Violation as e:
        return "bad", str(e)
    except Inconclusive as e:
        return "skip", str(e)


def _ctx(bins, base, name):
    sc = os.path.join(base, name)
    os.makedirs(os.path.join(sc, "tmp"), exist_ok=True)
    # temporary files of the program under test are not shared between workers
    os.environ["TMPDIR"] = os.path.join(sc, "tmp")
    ctx = Ctx(bins[0] if bins else "", sc)
    ctx.bins = bins
    return ctx


def _worker(modname, w, seed, tier, todo, stop, q, base, bins, deadline):
    mod = importlib.import_module("checks." + modname)
    ctx = _ctx(bins, base, "w%d" % w)
    res = dict(n=0, skip=0, classes={}, keys=[], samples=[], fail=None, units=0, err=None, skips=[])
    try:
        for kind, i in todo:
            if stop.is_set() or time.time() > deadline:
                break
            case = mod.fixed_cases(tier)[i] if kind == "f" else gen_case(mod, seed, i, tier)
            st, info = evaluate(mod, case, ctx)
            if st == "skip":
                res["skip"] += 1
                if len(res["skips"]) < 3:
                    res["skips"].append(info[:200])
                continue
            res["n"] += 1
            if st == "bad":
                res["fail"] = (case, info)
                stop.set()
                break
            for c in info.get("classes", ()):
                res["classes"][c] = res["classes"].get(c, 0) + 1
            for c, k in info.get("counts", {}).items():
                res["classes"][c] = res["classes"].get(c, 0) + k
            res["units"] += info.get("units", 0)
            if info.get("nontrivial", True):
                res["keys"].append(case_key(case))
                if len(res["samples"]) < 1 and i % 7 == 3 or (kind == "g" and len(res["samples"]) < 1 and i > 40):
                    res["samples"].append(mod.describe(case) if hasattr(mod, "describe") else case)
    except Exception:
        res["err"] = traceback.format_exc()
    q.put((w, res))


def _shrink_eval(args):
    modname, case, bins, base = args
    mod = importlib.import_module("checks." + modname)
    ctx = _ctx(bins, base, "s%d" % os.getpid())
    try:
        return evaluate(mod, case, ctx)
    except Exception:
        return "skip", "crash of the check while shrinking"


def shrink(mod, modname, case, text, bins, base, seconds, jobs=NPROC):
    """Greedy: evaluate candidates in parallel batches, take the first that still fails."""
    if not hasattr(mod, "shrinks"):
        return case, text
    end = time.time() + seconds
    with mp.get_context("fork").Pool(jobs) as pool:
        progress = True
        while progress and time.time() < end:
            progress = False
            batch = []
            it = mod.shrinks(case)
            seen = {case_key(case)}
            done = False
            while not done and time.time() < end:
                batch = []
                while len(batch) < NPROC:
                    c = next(it, None)
                    if c is None:
                        done = True
                        break
                    k = case_key(c)
                    if k in seen:
                        continue
                    seen.add(k)
                    batch.append(c)
                if not batch:
                    break
                rs = pool.map(_shrink_eval, [(modname, c, bins, base) for c in batch], chunksize=1)
                hit = next((j for j, r in enumerate(rs) if r[0] == "bad"), None)
                if hit is not None:
                    case, text = batch[hit], rs[hit][1]
                    progress = True
                    break
    return case, text


def load_findings(pid):
    """known-findings.txt lines:  finding: property=<id> case=<file> <what fails>
                                  fixed: property=<id> <commit> <what failed>"""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                case, what = rest.split(" ", 1)
                out.append((os.path.join(ROOT, case.split("=", 1)[1]), what))
    return out


def run_check(modname, tier=None, seed=None, replay=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = importlib.import_module("checks." + modname)
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="verif-%s-" % mod.ID)
    os.chmod(base, 0o755)
    try:
        return _run(mod, modname, tier, seed, replay, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _build(mod):
    bins = []
    for v in getattr(mod, "VARIANTS", ["plain"]):
        bins.append(B.build(v))
    return bins


def _report(mod, case, text, prefix="fail"):
    os.makedirs(REPL, exist_ok=True)
    path = os.path.join(REPL, "%s-%s.json" % (mod.ID, case_key(case)))
    with open(path, "w") as f:
        json.dump({"property": mod.ID, "what": text, "case": case}, f, indent=1)
    print("%s: %s" % (mod.ID, text))
    if hasattr(mod, "show"):
        print(mod.show(case))
    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
    sys.stdout.flush()


def _search(modname, seed, tier, todos, base, bins, deadline):
    """-> {worker: result}, None when a worker died."""
    ctxm = mp.get_context("fork")
    stop, q = ctxm.Event(), ctxm.Queue()
    procs = []
    for w, todo in enumerate(todos):
        p = ctxm.Process(target=_worker, args=(modname, w, seed, tier, todo, stop, q, base, bins, deadline))
        p.start()
        procs.append(p)
    results = {}
    while len(results) < len(todos):
        try:
            w, r = q.get(timeout=5)
            results[w] = r
        except Exception:
            dead = [w for w, p in enumerate(procs) if not p.is_alive() and w not in results]
            if dead:
                time.sleep(1)
                while not q.empty():
                    w, r = q.get()
                    results[w] = r
                dead = [w for w in dead if w not in results]
                if dead:
                    for p in procs:
                        p.kill()
                    print("ERROR: worker(s) %s died" % dead)
                    return None
    for p in procs:
        p.join()
    return results


def _run(mod, modname, tier, seed, replay, base, t0):
    try:
        bins = _build(mod)
    except B.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    if replay:
        with open(replay) as f:
            case = json.load(f)["case"]
        st, info = evaluate(mod, case, _ctx(bins, base, "r"))
        if st == "bad":
            print("%s: %s" % (mod.ID, info))
            print("VIOLATION property=%s replay=%s" % (mod.ID, os.path.abspath(replay)))
            return 1
        print("%s: replay %s" % (mod.ID, "inconclusive: " + str(info) if st == "skip" else "passes"))
        return 0 if st == "ok" else 2

    # known findings are probed with their recorded inputs and never suppress anything else
    nfind = 0
    for path, what in load_findings(mod.ID):
        with open(path) as f:
            case = json.load(f)["case"]
        st, info = evaluate(mod, case, _ctx(bins, base, "k"))
        if st == "bad":
            nfind += 1
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, what))

    n = int(mod.COUNTS[tier] * float(os.environ.get("VERIF_SCALE", "1")))
    nfix = len(mod.fixed_cases(tier)) if hasattr(mod, "fixed_cases") else 0
    deadline = time.time() + (getattr(mod, "LIMIT_S", {}).get(tier) or (240 if tier == "quick" else 720))
    todos = [[("f", i) for i in range(w, nfix, NPROC)] + [("g", i) for i in range(w, n, NPROC)] for w in range(NPROC)]
    results = _search(modname, seed, tier, todos, base, bins, deadline)
    if results is None:
        return 2
    errs = [r["err"] for r in results.values() if r["err"]]
    fails = [r["fail"] for _, r in sorted(results.items()) if r["fail"]]
    violations = 0
    extra = None

    def confirm(case, text, jobs=NPROC):
        nonlocal violations
        small, stext = shrink(mod, modname, case, text, bins, base, 40 if tier == "quick" else 120, jobs)
        # a failure counts only if it reproduces from its replay file
        again = [evaluate(mod, small, _ctx(bins, base, "v%d" % k))[0] for k in range(3)]
        if "bad" not in again:
            small, stext = case, text
            again = [evaluate(mod, small, _ctx(bins, base, "v%d" % k))[0] for k in range(8)]
        if "bad" in again:
            violations = 1
            _report(mod, small, stext)
            return True
        print("note: a failing case did not reproduce, not reported: %s" % text[:300])
        return False

    if not fails and not errs and hasattr(mod, "extra"):
        # an additional campaign of this check (coverage-guided fuzzing)
        try:
            extra = mod.extra(_ctx(bins, base, "x"), tier, seed)
        except Violation as e:
            fails.append((getattr(e, "case", None), str(e)))
    if fails and not confirm(*fails[0]):
        # a failure which comes and goes: what the runs share is outside their scratch directories, so search on with one worker
        todo = ([("f", i) for i in range(nfix)] + [("g", i) for i in range(n)])
        more = _search(modname, seed, tier, [todo], base, bins, time.time() + (60 if tier == "quick" else 240))
        if more is None:
            return 2
        results[NPROC] = more[0]
        if more[0]["fail"]:
            confirm(*more[0]["fail"], jobs=1)
    classes, keys, samples, units, ev, skipped, skips = {}, set(), [], 0, 0, 0, []
    for _, r in sorted(results.items()):
        for c, k in r["classes"].items():
            classes[c] = classes.get(c, 0) + k
        keys.update(r["keys"])
        samples += r["samples"]
        units += r["units"]
        ev += r["n"]
        skipped += r["skip"]
        skips += r["skips"]
    cov = {"evaluations": ev, "distinct_nontrivial": len(keys), "rule": mod.RULE,
           "samples": samples[:4], "elementary_comparisons": units,
           "classes": dict(sorted(classes.items())), "inconclusive": skipped}
    if skips:
        cov["inconclusive_reasons"] = skips[:5]
    if extra:
        cov.update(extra)
        cov["evaluations"] += extra.get("fuzz_executions", 0)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, mod.ID + ".json"), "w") as f:
        json.dump({"property": mod.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
                   "violations": violations, "known_findings_reproduced": nfind}, f, indent=1)
        f.write("\n")
    if violations:
        return 1
    if errs:
        print("ERROR: check crashed\n" + errs[0])
        return 2
    if ev == 0 or skipped > max(5, ev // 10):
        print("ERROR: %d of %d cases inconclusive: %s" % (skipped, ev + skipped, skips[:2]))
        return 2
    print("%s ok: %d cases, %d distinct non-trivial, %d comparisons, %.1f s" % (mod.ID, ev, len(keys), units, time.time() - t0))
    return 0
