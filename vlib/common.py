"""Things several checks share."""
from . import gen as G


def rnd_cfg(r, **force):
    c = {"lang": r.choice(["c", "c", "c", "cpp"]), "opt": r.choice(["-O0", "-O0", "-O0", "-O2"]),
         "cc": r.choice(["gcc", "gcc", "gcc", "clang"]), "bits": r.random() < 0.2, "ext64": r.random() < 0.3}
    c.update(force)
    return c


def cfg_shrinks(case, key="cfg", keep=()):
    for k in list(case[key]):
        if k not in keep and case[key][k]:
            yield {**case, key: {a: b for a, b in case[key].items() if a != k}}


def net_shrinks(case, ok=None):
    for n in G.shrink_net(case["net"]):
        if G.net_ok(n):
            c = dict(case, net=n)
            if ok is None or ok(c):
                yield c
    if "cfg" in case:
        for c in cfg_shrinks(case):
            yield c
    for k in ("np", "nv"):
        if case.get(k, 0) > 4:
            yield {**case, k: case[k] // 2}


# ------------------------------------------------------------------ physical values
from fractions import Fraction
from decimal import Decimal
from . import model as M


def fo(s):
    return Fraction(Decimal(s["f"])), Fraction(Decimal(s["o"]))


def fo_lit(s):
    """Factor/offset as the nearest doubles (what any double-based driver can at best use)."""
    return Fraction(float(s["f"])), Fraction(float(s["o"]))


def phys_of(s, raw):
    """Physical value for a raw one: int for integer scaling, exact Fraction otherwise."""
    f, o = fo(s)
    v = raw * f + o
    return v if M.is_double(s) else int(v)


def exact_double(s, raw):
    """True if raw -> phys -> raw involves no rounding at all in double arithmetic."""
    f, o = fo(s)
    if f == 0:
        return False
    try:
        return all(Fraction(float(x)) == x for x in (f, o, Fraction(raw), raw * f, raw * f + o, (raw * f + o - o) / f))
    except OverflowError:
        return False


def phys_tok(s, v):
    return float(v).hex() if M.is_double(s) else str(int(v))


def set_op(k, m, raws, phys=None):
    """phys: list parallel to m['sigs'] (None entries for plain signals)."""
    t = [str(v) for v in raws]
    if phys is not None:
        t += [phys_tok(s, v) for s, v in zip(m["sigs"], phys) if not M.is_simple(s)]
    return "S %d %s" % (k, " ".join(t))


def phys_list(m, rec):
    """rec.p spread over the message's signals (None for plain ones)."""
    from .cdrv import num
    it = iter(rec.p)
    return [None if M.is_simple(s) else num(next(it)) for s in m["sigs"]]


def overlaps(m):
    """Names of the signals of m that share a bit with another one."""
    seen, bad = {}, set()
    for s in m["sigs"]:
        for b in M.bit_positions(s):
            if b in seen:
                bad.add(s["name"])
                bad.add(seen[b])
            else:
                seen[b] = s["name"]
    return bad


def describe_sig(m, s):
    return "%s.%s (start %d len %d %s %s factor %s offset %s, dlc %d)" % (
        m["name"], s["name"], s["start"], s["len"], "Motorola" if s["mot"] else "Intel",
        "signed" if s["signed"] else "unsigned", s["f"], s["o"], m["dlc"])


def tail_refs_ok(case):
    """Every CM_ SG_ line still names an existing message and signal (keeps shrinking honest)."""
    sigs = set("%d %s" % (M.raw_id(m), s["name"]) for m in case["net"]["msgs"] for s in m["sigs"])
    return all(" ".join(t.split(" ", 4)[2:4]) in sigs for t in case["net"].get("tail", []) if t.startswith("CM_ SG_ "))
