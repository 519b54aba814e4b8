"""DBC model: plain-dict networks, their rendering as DBC text and the reference
semantics (bit layout, scaling) used as oracle.  Nothing here looks at /repo.

net  = {"version": str|None, "nodes": [str], "msgs": [msg], ...}
msg  = {"id": int (29/11 bit), "ext": bool, "name": str, "dlc": int, "tx": str, "sigs": [sig]}
sig  = {"name": str, "start": int, "len": int, "mot": bool, "signed": bool,
        "f": str, "o": str, "unit": str, "mux": ""|"M"|"mN", "recs": [str]}
extra sections: "btx": [[id,ext,[nodes]]], "cm": [...], "val": [...], "cyc": [...]
"""
from fractions import Fraction
from decimal import Decimal

TINY = Fraction(1, 10**9)


# ------------------------------------------------------------------ layout
def bit_positions(sig):
    """Frame bit numbers (byte*8 + bit) of the signal, least significant first."""
    n = sig["len"]
    if not sig["mot"]:
        return [sig["start"] + i for i in range(n)]
    pos, out = sig["start"], []
    for _ in range(n):
        out.append(pos)
        pos = pos + 15 if pos % 8 == 0 else pos - 1
    out.reverse()
    return out


def fits(sig, dlc):
    return all(0 <= b < dlc * 8 for b in bit_positions(sig))


def extract(sig, payload):
    v = 0
    for i, b in enumerate(bit_positions(sig)):
        if (payload[b >> 3] >> (b & 7)) & 1:
            v |= 1 << i
    if sig["signed"] and v >> (sig["len"] - 1) & 1:
        v -= 1 << sig["len"]
    return v


def insert_or(sig, value, payload):
    for i, b in enumerate(bit_positions(sig)):
        if (value >> i) & 1:
            payload[b >> 3] |= 1 << (b & 7)


def encode(m, vals, fill=0, skip=None):
    """Packed frame: the signals' bits hold the values (index 'skip': zero), all others the fill byte."""
    sig, own = bytearray(m["dlc"]), bytearray(m["dlc"])
    for i, (s, v) in enumerate(zip(m["sigs"], vals)):
        if i != skip:
            insert_or(s, v, sig)
        insert_or({**s, "signed": False}, (1 << s["len"]) - 1, own)
    return bytearray((fill & ~o & 255) | x for o, x in zip(own, sig))


def raw_range(sig):
    n = sig["len"]
    if sig["signed"]:
        return -(1 << (n - 1)), (1 << (n - 1)) - 1
    return 0, (1 << n) - 1


def type_bits(sig):
    """Width of the smallest standard integer holding the raw signal."""
    for w in (8, 16, 32, 64):
        if sig["len"] <= w:
            return w


# ------------------------------------------------------------------ scaling
def fo(sig):
    """(Factor, Offset) as exact Fractions after the documented 'too small' rule."""
    f, o = Fraction(Decimal(sig["f"])), Fraction(Decimal(sig["o"]))
    return f, o


def is_tiny(sig):
    f, o = float(sig["f"]), float(sig["o"])
    return (abs(f) < 1e-9 and f != 0) or (abs(o) < 1e-9 and o != 0)


def is_double(sig):
    if is_tiny(sig):
        return False
    t = sig["f"] + " " + sig["o"]
    return any(c in t for c in ".eE")


def is_simple(sig):
    if is_tiny(sig):
        return True
    return (not is_double(sig)) and fo(sig) == (1, 0)


def field(sig):
    return sig["name"] if is_simple(sig) else sig["name"] + "_ro"


def phys_field(sig):
    return None if is_simple(sig) else sig["name"] + "_phys"


# ------------------------------------------------------------------ rendering
def raw_id(m):
    return m["id"] | (0x80000000 if m["ext"] else 0)


def render_sig(s):
    mux = (" " + s["mux"]) if s.get("mux") else ""
    mn, mx = s.get("min", "0"), s.get("max", "0")
    recs = ",".join(s.get("recs") or ["Vector__XXX"])
    sep = s.get("recsep", " ")
    return ' SG_ %s%s : %d|%d@%d%s (%s,%s) [%s|%s] "%s"%s%s' % (
        s["name"], mux, s["start"], s["len"], 0 if s["mot"] else 1,
        "-" if s["signed"] else "+", s["f"], s["o"], mn, mx,
        s.get("unit", ""), sep, recs)


def render_msg(m):
    lines = ["BO_ %d %s: %d %s" % (m.get("rawid", raw_id(m)), m["name"], m["dlc"], m.get("tx", "Vector__XXX"))]
    for s in m["sigs"]:
        lines.append(render_sig(s))
    return "\n".join(lines) + "\n"


NS = "NS_ : \n\tNS_DESC_\n\tCM_\n\tBA_DEF_\n\tBA_\n\tVAL_\n\tCAT_DEF_\n\tBO_TX_BU_\n\tSIG_VALTYPE_\n\tSG_MUL_VAL_\n\nBS_:\n"


def render(net):
    out = []
    if net.get("version") is not None:
        out.append('VERSION "%s"\n\n' % net["version"])
    out.append("\n" + NS + "\n")
    out.append("BU_: " + " ".join(net.get("nodes", [])) + "\n\n")
    for m in net["msgs"]:
        out.append(render_msg(m) + "\n")
    for t in net.get("btx", []):
        out.append("BO_TX_BU_ %d : %s;\n" % (t["id"], ",".join(t["nodes"])))
    out.append("\n")
    for line in net.get("tail", []):
        out.append(line + "\n")
    return "".join(out)


def cm_sig(rid, sname, text):
    return 'CM_ SG_ %d %s "%s";' % (rid, sname, text)


def cm_msg(rid, text):
    return 'CM_ BO_ %d "%s";' % (rid, text)


def val_line(rid, sname, pairs):
    return "VAL_ %d %s %s ;" % (rid, sname, " ".join('%d "%s"' % (v, d) for v, d in pairs))


def cyc_line(rid, v):
    return 'BA_ "GenMsgCycleTime" BO_ %d %d;' % (rid, v)


def c_name(s):
    """Reference for identifier sanitising."""
    out = ""
    for ch in s:
        ok1 = ("a" <= ch <= "z") or ("A" <= ch <= "Z") or ch == "_"
        okn = ok1 or ("0" <= ch <= "9")
        if (okn if out else ok1):
            out += ch
        elif ch == " ":
            out += "_"
    return out
