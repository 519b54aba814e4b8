"""Structured random generation of DBC networks (plain dicts, see model.py) and the
generic shrinker.  Everything is drawn from one random.Random, so a case is a function of
its seed; signals are placed by construction, never by rejection of whole networks."""
import copy
from fractions import Fraction
from decimal import Decimal
from . import model as M

LENS = [1, 1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 8, 9, 10, 12, 13, 15, 16, 16, 17, 20, 23, 24, 25, 26, 29, 30, 31, 31,
        32, 32, 33, 34, 36, 39, 40, 41, 47, 48, 49, 55, 56, 57, 61, 62, 63, 63, 64, 64]
DLCS = [1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 8, 8, 8, 8, 9, 12, 16, 20, 24, 32, 48, 63, 64, 64]
RESERVED = set("""auto break case char const continue default do double else enum extern float for goto if inline int long
register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while asm fortran
alignas alignof and and_eq bitand bitor bool catch char8_t char16_t char32_t class compl concept consteval constexpr
const_cast decltype delete dynamic_cast explicit export false friend mutable namespace new noexcept not not_eq nullptr
operator or or_eq private protected public reinterpret_cast requires static_assert static_cast template this thread_local
throw true try typeid typename using virtual wchar_t xor xor_eq unix linux i386 main mon1 typeof
RX RY A B b k d n r p line op t v st h m recv s0 s1""".split())
# X such that X_t is a type of the C library (the generator makes the type <message>_t)
LIBC_T = set("""id pid off ino dev size time uid gid key mode div ldiv lldiv imaxdiv fsid loff nlink register ssize clock
clockid timer wchar wint daddr caddr blkcnt fsblkcnt fsfilcnt blksize quad u_quad error fpos max_align ptrdiff sigset suseconds
useconds mbstate siginfo stack locale off64 va_list socklen sa_family sig_atomic pthread pthread_mutex fd_mask cookie bool
jmp_buf float double intmax uintmax intptr uintptr char8 char16 char32 nullptr uchar regex regoff rlim idtype greg gregset
fpregset mcontext ucontext stack wctype wctrans fenv fexcept in_port in_addr comparison_fn tm iconv glob nl_item""".split())
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
RELATED = ["1", "_1", "0", "x", "X", "_a", "_rot", "_ro2", "_roll", "_physical", "_phys2", "_expected", "_dlc2", "_id", "_to", "S", "_2nd", "_max", "__"]
WORDS = ["Speed", "Temp", "rpm", "ENGINE", "Sts", "cnt", "Flag", "Volt", "x", "Pos", "BMS", "Req", "mode", "Val"]


class Names:
    """Distinct C identifiers free of the suffixes the generator adds itself (so two different items
    can never legally collide); a few differ only in case from an earlier one, unless cased is False."""

    def __init__(self, rnd, pre=(), longs=True, cased=True):
        self.longs, self.cased = longs, cased
        self.r, self.used, self.list = rnd, set(x.lower() for x in pre), []

    def new(self, prefix="", maxlen=32):
        r = self.r
        for _ in range(1000):
            c = r.random()
            variant = c < 0.02 and self.cased and self.list
            if variant:
                s = r.choice(self.list)
                s = r.choice([s.upper(), s.lower(), s.swapcase(), s[0].swapcase() + s[1:], s[:-1] + s[-1].swapcase()])
                prefix, maxlen = "", max(maxlen, len(s))
            elif c < 0.1 and self.list:
                # a relative of an earlier name: one is a prefix of the other
                s = r.choice(self.list) + r.choice(RELATED)
                prefix = ""
            elif c < 0.15:
                s = "".join(r.choice(ALPHA) for _ in range(r.randint(1, 3)))
            elif c < 0.3:
                n = r.choice([20, 23, 24, 27, 28, 31, 32])
                s = r.choice(ALPHA) + "".join(r.choice(ALPHA + "0123456789") for _ in range(n - 1))
            elif c < 0.31 and self.longs:
                # long names (DBC tools keep them in attributes, nothing limits them here)
                n = r.choice([33, 40, 63, 64, 65, 100, 127, 128, 129, 200])
                s = r.choice(ALPHA) + "".join(r.choice(ALPHA + "0123456789") for _ in range(n - 1))
                maxlen = max(maxlen, n)
            else:
                s = r.choice(WORDS) + r.choice(["", "_", "A", "L"]) + r.choice(WORDS) + str(r.randint(0, 99))
            s = (prefix + s)[:maxlen]
            low = s.lower()
            if s in RESERVED or low in LIBC_T or (s in self.list if variant else low in self.used) or s.startswith("__") or (s[0] == "_"):
                continue
            if low.endswith(("_ro", "_phys", "_expt", "_t", "_dlc", "_ide", "_canid", "_cyc")):
                continue
            if low.startswith(("int", "uint", "pack_", "unpack_", "drv", "fmon", "_fmon")):
                continue
            # no underscore at all in very short names: avoids 'X_Y' gluing collisions
            self.used.add(low)
            self.list.append(s)
            return s
        raise RuntimeError("names exhausted")


def mot_start(q):
    return (q // 8) * 8 + 7 - q % 8


def place(rnd, dlc, used, length=None, tries=12):
    """A fitting (start, len, mot) that avoids the bits in 'used'; None if nothing is free."""
    total = dlc * 8
    for t in range(tries):
        n = length if (length and t < 6) else rnd.choice(LENS)
        if t >= 8:
            n = min(n, rnd.randint(1, 8))
        n = min(n, total)
        mot = rnd.random() < 0.5
        c = rnd.random()
        q = rnd.randint(0, total - n)
        if c < 0.25:
            q = q // 8 * 8
        elif c < 0.35:
            q = 0
        elif c < 0.5:
            q = total - n
        s = {"start": mot_start(q) if mot else q, "len": n, "mot": mot}
        s["signed"] = False
        m = 0
        for b in M.bit_positions(s):
            m |= 1 << b
        if not (m & used):
            return s, m
    return None


INT_F = ["1", "1", "2", "3", "5", "10", "100", "-1", "-2", "255", "256", "1000", "65536", "-10", "7", "60"]
INT_O = ["0", "0", "1", "-1", "-40", "40", "100", "-100", "-128", "-32768", "1000", "-1000", "65535", "-273", "128", "1000000", "-2147483648"]
DEC_F = ["1", "1", "-1", "10", "-3", "0.1", "0.5", "0.25", "0.01", "1.5", "2.5", "0.001", "0.03125", "0.0009765625", "0.0625", "0.05", "0.2", "1E-3", "5e-05",
         "2.5E-05", "1.0", "-0.1", "-0.5", "0.0078125", "1e3", "1E+2", "0.00048828125", "0.392157", "0.000000083", "3.051E-005", "8.38e-08", "0.1234567891"]
DEC_O = ["0", "0", "0", "0.0", "-40", "0.5", "-0.5", "100.25", "-273.15", "1.5", "-1e3", "12.5", "-128.0", "0.001"]


def phys_range(sig):
    f, o = Fraction(Decimal(sig["f"])), Fraction(Decimal(sig["o"]))
    lo, hi = M.raw_range(sig)
    a, b = lo * f + o, hi * f + o
    return min(a, b), max(a, b)


def scale_ok(sig):
    """Integer-scaled signals whose every physical value is representable (scope of C04/C05)."""
    if M.is_double(sig) or M.is_simple(sig):
        return True
    lo, hi = phys_range(sig)
    if lo < -(1 << 63) or hi >= (1 << 63):
        return False
    # raw*factor has to fit as well (known finding K3)
    if any(not -(1 << 63) <= v * int(Decimal(sig["f"])) < 1 << 63 for v in M.raw_range(sig)):
        return False
    return abs(int(Decimal(sig["f"]))) < (1 << 53) and abs(int(Decimal(sig["o"]))) < (1 << 53)


def scaling(rnd, sig, kinds=("simple", "int", "dec"), weights=(5, 3, 2)):
    k = rnd.choices(kinds, weights)[0]
    sig["f"], sig["o"] = "1", "0"
    if k == "int":
        for _ in range(8):
            sig["f"], sig["o"] = rnd.choice(INT_F), rnd.choice(INT_O)
            if rnd.random() < 0.2:
                sig["o"] = str(rnd.randint(-(1 << rnd.randint(1, 40)), 1 << rnd.randint(1, 40)))
            if rnd.random() < 0.2:
                sig["f"] = str(rnd.choice([1, -1]) * rnd.randint(1, 1 << rnd.randint(1, 33)))
            if scale_ok(sig):
                break
        else:
            sig["f"], sig["o"] = "1", "0"
    elif k == "dec":
        sig["f"], sig["o"] = rnd.choice(DEC_F), rnd.choice(DEC_O)
        if rnd.random() < 0.1:
            # plain factor, decimal offset
            sig["f"], sig["o"] = rnd.choice(["1", "-1", "2", "-5"]), rnd.choice(["0.5", "-0.25", "-273.15", "1e3"])
        if rnd.random() < 0.3:
            sig["f"] = "%.*g" % (rnd.randint(1, 12), 10 ** rnd.uniform(-8, 4)) or "0.5"
        if rnd.random() < 0.2:
            sig["o"] = "%.*f" % (rnd.randint(1, 6), rnd.uniform(-1000, 1000))
        if not any(c in sig["f"] + sig["o"] for c in ".eE"):
            sig["f"] = sig["f"] + ".0"
        if M.is_tiny(sig):
            sig["f"], sig["o"] = "0.5", "0"
    return sig


def limits(rnd, s):
    """The range [min|max] of a signal: the true one, a narrower, wider, reversed, empty or unrelated one, as tools write it.
    It restricts nothing in the generated code."""
    lo, hi = (-(1 << (s["len"] - 1)), (1 << (s["len"] - 1)) - 1) if s["signed"] else (0, (1 << s["len"]) - 1)
    k = rnd.random()
    try:
        f, o = float(s["f"]), float(s["o"])
    except ValueError:
        f, o = 1.0, 0.0
    if k < 0.35:
        a, b = lo * f + o, hi * f + o
        if k < 0.05:
            a, b = b, a
    elif k < 0.6:
        a, b = sorted([rnd.randint(lo, hi) * f + o, rnd.randint(lo, hi) * f + o])
    elif k < 0.7:
        a = b = rnd.choice([1, 5, -3, 0.5, lo * f + o])
    elif k < 0.8:
        a, b = rnd.choice([(0, 1), (-1, 1), (1, 0), (0, 100), (0, 3), (-40, 215), (10, 20)])
    else:
        a, b = rnd.choice([("-3.4E+038", "3.4E+038"), ("0", "1.84467440737096E+019"), ("-1E-005", "1E+015"), ("0.0", "6553.5"), ("-0", "0"), ("+1", "2e3"), ("1e400", "-1e400")])
    return tuple(x if isinstance(x, str) else "%.10g" % x for x in (a, b))


def message(rnd, names, ids, dlc=None, nsig=None, overlap=0.0, kinds=None, weights=(5, 3, 2), nodes=(), empty=0.0, signames=None):
    ext, ident = new_id(rnd, ids)
    dlc = dlc or rnd.choice(DLCS)
    m = {"id": ident, "ext": ext, "name": names.new("M" if rnd.random() < 0.3 else ""), "dlc": dlc,
         "tx": rnd.choice(list(nodes)) if nodes and rnd.random() < 0.85 else "Vector__XXX", "sigs": []}
    if rnd.random() < empty:
        return m
    n = nsig if nsig is not None else rnd.choice([1, 1, 2, 3, 4, 5, 6, 8, 10, 12]) if rnd.random() < 0.98 else rnd.choice([24, 33, 40, 64, 65, 130])
    used = 0
    sn = signames or Names(rnd)
    for _ in range(n):
        ov = rnd.random() < overlap
        r = place(rnd, dlc, 0 if ov else used)
        if r is None:
            break
        s, mask = r
        used |= mask
        s["signed"] = rnd.random() < 0.4
        s["name"] = sn.new()
        scaling(rnd, s, kinds or ("simple", "int", "dec"), weights)
        s["unit"] = rnd.choice(["", "", "km/h", "V", "%", "degC", "1/min"])
        if rnd.random() < 0.6:
            s["min"], s["max"] = limits(rnd, s)
        s["recs"] = sorted(set(rnd.choice(list(nodes)) for _ in range(rnd.randint(1, 3) if rnd.random() < 0.9 else rnd.randint(4, 60)))) if nodes and rnd.random() < 0.85 else ["Vector__XXX"]
        if rnd.random() < 0.1:
            s["mux"] = rnd.choice(["M", "m0", "m1", "m13"])
        m["sigs"].append(s)
    rnd.shuffle(m["sigs"])
    return m


STD_IDS = [0, 1, 2, 0x7FF, 0x7FE, 0x100, 0x3FF, 0x400]
EXT_IDS = [0, 1, 0x7FF, 0x800, 0x1FFFFFFF, 0x1FFFFFFE, 0x18FEF100, 0x10000000, 0x18DA00F1]


def new_id(rnd, ids):
    while True:
        ext = rnd.random() < 0.4
        if ext:
            i = rnd.choice(EXT_IDS) if rnd.random() < 0.3 else rnd.randint(0, 0x1FFFFFFF)
        else:
            i = rnd.choice(STD_IDS) if rnd.random() < 0.3 else rnd.randint(0, 0x7FF)
        # a 29-bit number is used at most once in a network, whatever the frame format
        if i not in ids:
            ids.add(i)
            return ext, i


def network(rnd, nmsg=None, ver=True, nnodes=None, **kw):
    nn = Names(rnd, longs=False, cased=False)
    nodes = [nn.new() for _ in range(nnodes if nnodes is not None else rnd.randint(1, 4))]
    names, ids = Names(rnd), set()
    shared = rnd.random() < 0.3
    n = nmsg if nmsg is not None else rnd.choice([1, 1, 2, 3, 4, 5, 6, 8])
    msgs = []
    for _ in range(n):
        msgs.append(message(rnd, names, ids, nodes=nodes, **kw))
    if shared and len(msgs) > 1:
        # equally named signals in different messages
        pool = [s["name"] for m in msgs for s in m["sigs"]]
        for m in msgs:
            have = set(s["name"] for s in m["sigs"])
            for s in m["sigs"]:
                c = rnd.choice(pool)
                if rnd.random() < 0.5 and c.lower() not in set(h.lower() for h in have):
                    have.discard(s["name"])
                    s["name"] = c
                    have.add(c)
    v = rnd.choice(["", "1.0", "2.13", "0.7", "10.255", "65536.4294967295"]) if ver and rnd.random() < 0.7 else None
    return {"version": v, "nodes": nodes, "msgs": msgs}


def payloads(rnd, dlc, count, sigs=()):
    """Directed payloads first (all 0/1, walking bits), then random ones."""
    out = [bytes(dlc), b"\xff" * dlc]
    bits = list(range(dlc * 8))
    if len(bits) > count // 3:
        bits = sorted(rnd.sample(bits, max(1, count // 3)))
    for b in bits:
        p = bytearray(dlc)
        p[b >> 3] |= 1 << (b & 7)
        out.append(bytes(p))
        if len(out) < count * 2 // 3:
            out.append(bytes(x ^ 0xFF for x in p))
    while len(out) < count:
        c = rnd.random()
        if c < 0.15:
            out.append(bytes(rnd.choice([0, 0xFF, 0x80, 0x7F, 1]) for _ in range(dlc)))
        else:
            out.append(rnd.getrandbits(8 * dlc).to_bytes(dlc, "little"))
    return out


def raw_value(rnd, s):
    lo, hi = M.raw_range(s)
    c = rnd.random()
    if c < 0.12:
        return lo
    if c < 0.24:
        return hi
    if c < 0.3:
        return 0
    if c < 0.36:
        return min(1, hi)
    if c < 0.42 and lo < 0:
        return -1
    if c < 0.55:
        v = 1 << rnd.randint(0, s["len"] - 1)
        return v if v <= hi else v - (1 << s["len"])
    return rnd.randint(lo, hi)


# ------------------------------------------------------------------ shrinking
def _del(lst, i):
    return lst[:i] + lst[i + 1:]


def shrink_net(net):
    """Smaller networks, boldest first."""
    ms = net["msgs"]
    n = len(ms)
    if n > 2:
        for half in (ms[:n // 2], ms[n // 2:]):
            yield dict(net, msgs=half)
    for i in range(n):
        yield dict(net, msgs=_del(ms, i))
    for key in ("btx", "tail", "cm", "val", "cyc"):
        lst = net.get(key)
        if lst:
            yield {**net, key: []}
            if len(lst) > 1:
                for i in range(len(lst)):
                    yield {**net, key: _del(lst, i)}
    for i, m in enumerate(ms):
        ss = m["sigs"]

        def rep(**kw):
            return dict(net, msgs=ms[:i] + [dict(m, **kw)] + ms[i + 1:])
        if len(ss) > 2:
            yield rep(sigs=ss[:len(ss) // 2])
            yield rep(sigs=ss[len(ss) // 2:])
        for j in range(len(ss)):
            yield rep(sigs=_del(ss, j))
    for i, m in enumerate(ms):
        ss = m["sigs"]

        def rep(**kw):
            return dict(net, msgs=ms[:i] + [dict(m, **kw)] + ms[i + 1:])
        for d in (1, 2, 4, 8, m["dlc"] - 1):
            if 0 < d < m["dlc"] and all(M.fits(s, d) for s in ss):
                yield rep(dlc=d)
                break
        if m["ext"] or m["id"] > 64:
            k = 1
            while any(x["id"] == k for x in ms):
                k += 1
            yield rep(ext=False, id=k)
        if m.get("tx", "Vector__XXX") != "Vector__XXX":
            yield rep(tx="Vector__XXX")
        for j, s in enumerate(ss):
            def srep(**kw):
                return rep(sigs=ss[:j] + [dict(s, **kw)] + ss[j + 1:])
            if s["signed"]:
                yield srep(signed=False)
            if s.get("mux"):
                yield srep(mux="")
            if "min" in s:
                yield rep(sigs=ss[:j] + [{k: v for k, v in s.items() if k not in ("min", "max")}] + ss[j + 1:])
            if s.get("unit"):
                yield srep(unit="")
            if (s["f"], s["o"]) != ("1", "0"):
                yield srep(f="1", o="0")
                if s["o"] != "0":
                    yield srep(o="0")
                if s["f"] != "1":
                    yield srep(f="1")
            if s.get("recs") and s["recs"] != ["Vector__XXX"]:
                yield srep(recs=["Vector__XXX"])
            if s["len"] > 1 and not s["mot"]:
                for L in (1, s["len"] // 2, s["len"] - 1):
                    if 0 < L < s["len"]:
                        yield srep(len=L)
            if s["len"] > 1 and s["mot"]:
                yield srep(len=s["len"] - 1)
            if s["start"] >= 8:
                yield srep(start=s["start"] - 8)
            short = "S%d" % j
            if s["name"] != short and not any(x["name"] == short for x in ss):
                yield srep(name=short)
        short = "M%d" % i
        if m["name"] != short and not any(x["name"] == short for x in ms):
            yield rep(name=short)
    if net.get("version") is not None:
        yield dict(net, version=None)


def net_ok(net):
    """The network is inside the generator's domain (keeps shrinking honest)."""
    if not net["msgs"]:
        return False
    if len(set(m["id"] for m in net["msgs"])) != len(net["msgs"]):
        return False
    for m in net["msgs"]:
        for s in m["sigs"]:
            if not M.fits(s, m["dlc"]) or not scale_ok(s):
                return False
    return True


# ------------------------------------------------------------------ networks with all the trimmings
CMT = ["speed of the wheel", "0..100 %", "see doc 12/3", "A > B", "rolling", "counter (4 bit)", "x = y * 2", "it's fine", "état", "line 1"]
DSC = ["On", "Off", "not available", "Error 1", "12 V", "state-3", "SNA", "a_b", "Init", "1st", "max. value", "A:B", "in/out", "(reserved)", "50%", "On"]
METHODS = ["XOR8", "CRC8_SAE", "my_sum", "H2"]


def rich(rnd, **kw):
    """Network plus comments, value tables, cycle times, extra transmitters and the
    rolling / checksum markers, as DBC tail lines."""
    return decorate(rnd, network(rnd, **kw))


def decorate(rnd, net):
    tail, btx, meth = [], [], []
    for m in net["msgs"]:
        rid = M.raw_id(m)
        if rnd.random() < 0.4:
            tail.append(M.cyc_line(rid, rnd.choice([1, 10, 100, 65535])))
        if rnd.random() < 0.3:
            tail.append(M.cm_msg(rid, "\n".join(rnd.choice(CMT) for _ in range(rnd.randint(1, 3)))))
        if net["nodes"] and rnd.random() < 0.25:
            btx.append({"id": rid, "nodes": sorted(set(rnd.choice(net["nodes"]) for _ in range(rnd.randint(1, 2))))})
        marked = set()
        for s in m["sigs"]:
            c = rnd.random()
            t = rnd.choice(CMT)
            if c < 0.12 and "r" not in marked and not s["signed"] and s["len"] < 32:
                marked.add("r")
                tail.append(M.cm_sig(rid, s["name"], t + " <RollingCounter>"))
            elif c < 0.24 and "c" not in marked and s["len"] <= 8:
                marked.add("c")
                meth.append(rnd.choice(METHODS))
                tail.append(M.cm_sig(rid, s["name"], "%s <Checksum:%s:%d>" % (t, meth[-1], rnd.randint(0, 9))))
            elif c < 0.5:
                tail.append(M.cm_sig(rid, s["name"], "\n".join([t] + [rnd.choice(CMT) for _ in range(rnd.randint(0, 2))])))
            if rnd.random() < 0.3:
                lo, hi = M.raw_range(s)
                tail.append(M.val_line(rid, s["name"], [(rnd.randint(max(lo, -1000), min(hi, 1000)), rnd.choice(DSC)) for _ in range(rnd.randint(1, 5))]))
    rnd.shuffle(tail)
    net["tail"], net["btx"], net["methods"] = tail, btx, meth
    return net


def clean_tail(net):
    """Drops entries whose message or signal is gone (after shrinking)."""
    have = set("%d %s" % (M.raw_id(m), s["name"]) for m in net["msgs"] for s in m["sigs"])
    ids = set("%d" % M.raw_id(m) for m in net["msgs"])
    out = []
    for t in net.get("tail", []):
        w = t.split()
        if w[0] == "BA_":
            ok = w[3] in ids
        elif w[0] == "VAL_":
            ok = " ".join(w[1:3]) in have
        elif w[:2] == ["CM_", "SG_"]:
            ok = " ".join(w[2:4]) in have
        else:
            ok = w[2] in ids
        if ok:
            out.append(t)
    return {**net, "tail": out, "btx": [b for b in net.get("btx", []) if str(b["id"]) in ids]}
