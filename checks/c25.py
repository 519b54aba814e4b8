"""C25: the generated header documents every message and signal truthfully."""
import random, re, subprocess
from decimal import Decimal
from fractions import Fraction
from vlib import cdrv, gen as G, model as M
from vlib.cdrv import Violation
from vlib.common import net_shrinks
from checks.c12 import split_code

ID = "C25"
COUNTS = {"quick": 2800, "thorough": 14000}
RULE = ("random networks with units, scalings (integer, decimal, exponent, large and negative), multiplex marks and value tables; for every field of every struct - with and without bit-fields - "
        "the comments next to it are read back and compared with the DBC: bit length, sign mark, factor, offset, unit, multiplex role, value table; the same for each message's name and number, and the "
        "conversion-factor macros are evaluated by the compiler. Non-trivial: at least one scaled signal or unit or multiplex mark.")
ASSUMPTIONS = ["factor and offset are documented with 9 decimals", "units, value descriptions and comments hold no text that looks like the documentation itself (this is C14's and C12's subject)"]
UNITS = ["", "", "km/h", "V", "%", "degC", "1/min", "m/s^2", "Nm", "A h", "°C", "%%d", "Ohm*m", "bit", "l/100km", "x" * 40, "kg m / s", "#"]
DESCS = ["On", "Off", "not available", "12 V", "Error (1)", "a,b;c", "--", "50 %", "état", "reserved for later use", "x" * 60]


def gen(r, tier, big=(0, 0)):
    net = G.network(r, nmsg=big[0] or r.choice([1, 1, 2, 3, 5]), weights=(3, 4, 4), empty=0 if big[1] else 0.1, **({"nsig": big[1], "overlap": 1.0} if big[1] else {}))
    tail = []
    for m in net["msgs"]:
        for s in m["sigs"]:
            if r.random() < 0.6:
                s["unit"] = r.choice(UNITS)
            if r.random() < 0.1:
                s["unit"] = "".join(r.choice("abcXYZ019/%*^ .-") for _ in range(r.randint(1, 30))).strip()
            if r.random() < 0.3:
                s["mux"] = r.choice(["M", "m0", "m1", "m7", "m255", "m0M", "m12M"])
            if r.random() < 0.1 and s["len"] <= 32:
                s["f"], s["o"] = r.choice([("1", "5000000000"), ("1", "-3000000000"), ("4294967296", "0"), ("-2147483649", "7"), ("1", "2147483648"), ("-1", "0"), ("3000000000", "-6000000000")])
                if not G.scale_ok(s):
                    s["f"], s["o"] = "1", "0"
            if r.random() < 0.15:
                tail.append(M.val_line(M.raw_id(m), s["name"], [[r.randint(-5, 300), r.choice(DESCS)] for _ in range(r.choice([1, 2, 5]))]))
                s["vals"] = tail[-1]
            if r.random() < 0.1:
                tail.append(M.cm_sig(M.raw_id(m), s["name"], r.choice(["a comment", "two\nlines", "<RollingCounter> alive" if not s["signed"] and s["len"] < 32 and M.is_simple(s) else "plain"])))
    net["tail"] = tail
    return {"net": net}


def fixed_cases(tier):
    """Networks beyond every small counter."""
    return [gen(random.Random("C25/big/%d/%d" % n), tier, n) for n in ((65, 0), (129, 0), (257, 0), (300, 0), (1, 257), (2, 300))]


def near(text, dbc, digits=9):
    """The printed number is the DBC's one, up to the decimals shown."""
    a, b = Fraction(Decimal(text)), Fraction(Decimal(dbc))
    return abs(a - b) <= Fraction(1, 10 ** digits) + abs(b) * Fraction(1, 10 ** 14)


FIELD = re.compile(r"^[ \t]*u?int(?:8|16|32|64)_t[ \t]+(\w+)[ \t]*(?::[ \t]*\d+)?[ \t]*;[ \t]*(//|/\*)(.*)$", re.M)
NUM = r"[ \t]*=?[ \t]*([-+]?\d[\d.]*(?:[eE][-+]?\d+)?)"


def run(case, ctx):
    net = case["net"]
    live = cdrv.live(net)
    if not live:
        return {"nontrivial": False}
    d = ctx.fresh()
    out = cdrv.generate(ctx, M.render(net), d)
    src = cdrv.read(out + "/lib/drv.h").decode("utf-8", "surrogateescape")
    code, com = split_code(src)
    units = 0
    for m in [x for x in net["msgs"] if cdrv.valid(x)]:
        x = re.search(r"#[ \t]*define[ \t]+%s_CANID\b" % re.escape(m["name"]), code)
        if not x:
            raise Violation("message %s is not in the header" % m["name"])
        # the comment that stands in front of the message's constants
        at = [c for c in com if c[1] <= x.start() and re.search(r"@%s\b" % re.escape(m["name"]), src[c[0]:c[1]]) and "CAN Message" in src[c[0]:c[1]]]
        if at:
            units += 1
            t = src[at[-1][0]:at[-1][1]].split("CAN Message", 1)[1]
            nums = re.findall(r"0[xX][0-9a-fA-F]+|\d+", t)
            if [int(n, 0) for n in nums] != [m["id"]] * len(nums) or not nums:
                raise Violation("message %s (%d, %#x) is documented as %r" % (m["name"], m["id"], m["id"], t.strip()))
        else:
            raise Violation("message %s is not announced in front of its constants" % m["name"])
    for m in live:
        x = re.search(r"typedef\s+struct\b\s*\w*\s*\{([^}]*)\}\s*%s_t\s*;" % re.escape(m["name"]), code)
        if not x:
            raise Violation("no struct for message %s" % m["name"])
        a, b = x.start(1), x.end(1)
        roles = {}
        prev = a
        seen = {}
        for y in FIELD.finditer(src, a, b):
            if code[y.start(1):y.end(1)] != y.group(1):
                continue
            front = "".join(src[p:q] for p, q in com if prev <= p and q <= y.start())
            prev = y.end()
            seen.setdefault(y.group(1), []).append((y.group(3), front))
        for s in m["sigs"]:
            f = M.field(s)
            if len(seen.get(f, [])) != 2:
                raise Violation("field %s of %s: %d documented declarations instead of 2 (bit-fields and plain)" % (f, m["name"], len(seen.get(f, []))))
            for tail, front in seen[f]:
                who = "the documentation of %s.%s %r" % (m["name"], f, tail.strip())
                unit = s.get("unit", "")
                head = tail
                if unit:
                    if ("Unit:'%s'" % unit) not in tail:
                        raise Violation("%s does not name the unit %r" % (who, unit))
                    head = tail.replace("Unit:'%s'" % unit, "")
                elif "Unit" in tail:
                    raise Violation("%s names a unit, the DBC has none" % who)
                units += 6
                g = re.search("Bits" + NUM, head)
                if not g or Fraction(g.group(1)) != s["len"]:
                    raise Violation("%s does not tell the length %d" % (who, s["len"]))
                if ("[-]" in head) != s["signed"]:
                    raise Violation("%s has the wrong sign mark, the signal is %s" % (who, "signed" if s["signed"] else "unsigned"))
                plain = M.is_simple(s)
                for key, k, neutral in (("Factor", "f", 1), ("Offset", "o", 0)):
                    g = re.search(key + NUM, head)
                    v = str(neutral) if plain else s[k]
                    if g is None and key in head:
                        raise Violation("%s: unreadable %s" % (who, key.lower()))
                    if not near(g.group(1) if g else str(neutral), v, 9 if M.is_double(s) else 12):
                        raise Violation("%s does not tell the %s %s" % (who, key.lower(), v))
                low = front.lower()
                role = "M" if s.get("mux") == "M" else "m" if s.get("mux") else ""
                got = "M" if "multiplex" in low and "master" in low else "m" if "multiplex" in low else ""
                # extended multiplexing (m<n>M): either role is true
                if role != got and not (re.match(r"m\d+M$", s.get("mux") or "") and got):
                    raise Violation("%s.%s is documented as %s, but it is %s" % (m["name"], f, *({"M": "the multiplexor", "m": "multiplexed", "": "not multiplexed"}[z] for z in (got, role))))
                want = re.findall(r'(-?\d+) "([^"]*)"', s["vals"].split(s["name"], 1)[1]) if s.get("vals") in net.get("tail", []) else []
                lines = [l.strip(" \t/") for l in front.split("//")]
                for v, t in want:
                    if not any(re.match(r"%s\s*:\s*\"%s\"" % (v, re.escape(t.strip())), l) for l in lines):
                        raise Violation("the value table in front of %s.%s does not list %s \"%s\"" % (m["name"], f, v, t))
                if not want and any(re.match(r"-?\d+\s*:\s*\"", l) for l in lines):
                    raise Violation("a value table is listed in front of %s.%s, the DBC has none" % (m["name"], f))
    scaled = {}
    for m in live:
        for s in m["sigs"]:
            if not M.is_simple(s):
                scaled.setdefault(M.field(s), []).append((m, s))
    if scaled:
        conf = cdrv.prep_conf(out, d, net, {})
        mac = cdrv.macros([conf, out + "/lib"], "drv.h")
        probe = []
        for f, l in sorted(scaled.items()):
            for m, s in l:
                k = "DRV_%s_%s_CovFactor" % (f, m["name"])
                k = k if k in mac else "DRV_%s_CovFactor" % f
                if k not in mac:
                    raise Violation("no conversion-factor macro for %s.%s" % (m["name"], f))
                probe.append((k, m, s))
        cdrv.write(d + "/p.c", '#include <stdio.h>\n#include "dbccodeconf.h"\n#include "drv.h"\nint main(void) {\n' +
                   "".join('printf("%%.17g\\n", (double)(%s));\n' % k for k, _, _ in probe) + "return 0; }\n")
        rc, txt = cdrv.sh(["gcc", "-w", "-I" + conf, "-I" + out + "/lib", d + "/p.c", "-o", d + "/p"])
        if rc:
            raise Violation("conversion-factor macros do not compile: " + cdrv.errors(txt))
        for (k, m, s), v in zip(probe, subprocess.run([d + "/p"], stdout=subprocess.PIPE).stdout.decode().split()):
            units += 1
            if float(v) != float(s["f"]):
                raise Violation("%s is %s, the factor of %s.%s is %s" % (k, v, m["name"], s["name"], s["f"]))
    sigs = [s for m in live for s in m["sigs"]]
    return {"units": units, "nontrivial": any(not M.is_simple(s) or s.get("unit") or s.get("mux") for s in sigs),
            "counts": {"signals": len(sigs), "scaled": sum(not M.is_simple(s) for s in sigs), "units": sum(bool(s.get("unit")) for s in sigs),
                       "multiplexed": sum(bool(s.get("mux")) for s in sigs), "value tables": sum("vals" in s for s in sigs)}}


def shrinks(case):
    yield from net_shrinks(case)
