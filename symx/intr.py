"""Value-level helpers for LLVM intrinsics, vectors and aggregates."""
import math, hashlib
import term as tm
from term import T, extract, concat_list, eq, ite, b_and, b_or, b_not
from codegen import Unsupported
from ir import bits

def agg_ins(x, e, ix):
    l = list(x)
    if len(ix) == 1:
        l[ix[0]] = e
    else:
        l[ix[0]] = agg_ins(l[ix[0]], e, ix[1:])
    return tuple(l)

def agg_ite(c, x, y, t):
    if type(c) is int:
        return x if c else y
    return tuple(ite(c, a, b, bits(et)) for a, b, et in zip(x, y, t[1]))

def vbin(op, x, y, w):
    f = tm.BIN[op]
    return tuple(f(a, b, w) for a, b in zip(x, y))

def vicmp(p, x, y, w):
    return tuple(tm.icmp(p, a, b, w) for a, b in zip(x, y))

def vselect(c, x, y, w):
    return tuple(ite(k, a, b, w) for k, a, b in zip(c, x, y))

def vcast(op, x, w0, w1):
    if op == "zext":
        return tuple(tm.zext(a, w0, w1) for a in x)
    if op == "sext":
        return tuple(tm.sext(a, w0, w1) for a in x)
    if op == "trunc":
        return tuple(extract(a, w1 - 1, 0) for a in x)
    if op in ("inttoptr", "ptrtoint"):
        return x
    raise Unsupported("vector cast " + op)

def vbitcast(x, t, to):
    def flat(v, ty):
        if ty[0] == "vec":
            w = bits(ty[2])
            return concat_list([(e, w) for e in reversed(v)]), w * ty[1]
        return v, bits(ty)
    v, n = flat(x, t)
    if to[0] == "vec":
        w = bits(to[2])
        return tuple(extract(v, (i + 1) * w - 1, i * w) for i in range(to[1]))
    return v

def vintr(name, w, args):
    if name.startswith("vector.reduce."):
        k = name.split(".")[2]
        r = args[0][0]
        for x in args[0][1:]:
            r = tm.BIN[k](r, x, w) if k in tm.BIN else intr(k, w, r, x)
        return r
    if name.startswith(("umin", "umax", "fshl", "fshr", "ctpop", "bswap", "ctlz", "cttz", "usub.sat", "uadd.sat", "smin", "smax")):
        cols = []
        for a in args:
            cols.append(a if isinstance(a, tuple) else (a,) * len(args[0]))
        return tuple(intr(name, w, *c) for c in zip(*cols))
    raise Unsupported("vector intrinsic " + name)

def intr(name, w, *a):
    k = name.split(".")[0]
    if k == "umin": return ite(tm.ult(a[1], a[0], w), a[1], a[0], w)
    if k == "umax": return ite(tm.ult(a[0], a[1], w), a[1], a[0], w)
    if k == "smin": return ite(tm.slt(a[1], a[0], w), a[1], a[0], w)
    if k == "smax": return ite(tm.slt(a[0], a[1], w), a[1], a[0], w)
    if k == "bswap": return tm.bswap(a[0], w)
    if k == "bitreverse": return tm.bitreverse(a[0], w)
    if k == "ctlz": return tm.ctlz(a[0], w)
    if k == "cttz": return tm.cttz(a[0], w)
    if k == "ctpop": return tm.ctpop(a[0], w)
    if k == "abs": return ite(extract(a[0], w - 1, w - 1), tm.sub(0, a[0], w), a[0], w)
    if k in ("fshl", "fshr"):
        s = a[2]
        if type(s) is not int:
            x = tm.concat(a[0], a[1], w, w)
            s2 = tm.zext(tm.urem(s, w, w), w, 2 * w)
            if k == "fshl":
                return extract(tm.shl(x, s2, 2 * w), 2 * w - 1, w)
            return extract(tm.lshr(x, s2, 2 * w), w - 1, 0)
        s %= w
        if s == 0:
            return a[0] if k == "fshl" else a[1]
        x = tm.concat(a[0], a[1], w, w)
        if k == "fshl":
            return extract(x, 2 * w - 1 - s, w - s)
        return extract(x, w - 1 + s, s)
    if "with.overflow" in name:
        op = name.split(".")[0]
        x, y = a
        if op[0] == "u":
            if op == "uadd":
                s = tm.add(tm.zext(x, w, w + 1), tm.zext(y, w, w + 1), w + 1)
                return (extract(s, w - 1, 0), extract(s, w, w))
            if op == "usub":
                return (tm.sub(x, y, w), tm.ult(x, y, w))
            nb = tm.umax_bits(x, w) + tm.umax_bits(y, w)
            if nb <= w:
                return (tm.mul(x, y, w), 0)
            s = tm.mul(tm.zext(x, w, 2 * w), tm.zext(y, w, 2 * w), 2 * w)
            return (extract(s, w - 1, 0), b_not(eq(extract(s, 2 * w - 1, w), 0, w)))
        xx, yy = tm.sext(x, w, 2 * w), tm.sext(y, w, 2 * w)
        s = {"sadd": tm.add, "ssub": tm.sub, "smul": tm.mul}[op](xx, yy, 2 * w)
        lo = extract(s, w - 1, 0)
        return (lo, b_not(eq(s, tm.sext(lo, w, 2 * w), 2 * w)))
    if ".sat" in name:
        op = name.split(".")[0]
        if op == "usub":
            return ite(tm.ult(a[0], a[1], w), 0, tm.sub(a[0], a[1], w), w)
        if op == "uadd":
            s = tm.add(a[0], a[1], w)
            return ite(tm.ult(s, a[0], w), tm.M(w), s, w)
    raise Unsupported("intrinsic " + name)

def t_ucmp(a, b, w, ow):
    return ite(tm.ult(a, b, w), tm.M(ow), ite(eq(a, b, w), 0, 1, ow), ow)

def t_scmp(a, b, w, ow):
    return ite(tm.slt(a, b, w), tm.M(ow), ite(eq(a, b, w), 0, 1, ow), ow)

def x_addcarry(c, a, b, w):
    s = tm.add(tm.add(tm.zext(a, w, w + 1), tm.zext(b, w, w + 1), w + 1), ite(eq(c, 0, 8), 0, 1, w + 1), w + 1)
    return (tm.zext(extract(s, w, w), 1, 8), extract(s, w - 1, 0))

def x_subborrow(c, a, b, w):
    s = tm.sub(tm.sub(tm.zext(a, w, w + 1), tm.zext(b, w, w + 1), w + 1), ite(eq(c, 0, 8), 0, 1, w + 1), w + 1)
    return (tm.zext(extract(s, w, w), 1, 8), extract(s, w - 1, 0))

def fcmp(p, a, b):
    if type(a) is T or type(b) is T:
        raise Unsupported("symbolic float")
    o = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}
    return 1 if o[p[1:]] else 0

def fcast(op, x, t, to):
    if type(x) is T:
        raise Unsupported("symbolic float")
    if op in ("uitofp",): return float(x)
    if op == "sitofp": return float(tm.sgn(x, bits(t)))
    if op in ("fptoui", "fptosi"): return int(x) & tm.M(bits(to))
    if op in ("fpext", "fptrunc"): return x
    if op == "bitcast":
        import struct
        if to[0] == "f64": return struct.unpack("<d", struct.pack("<Q", x))[0]
        if t[0] == "f64": return struct.unpack("<Q", struct.pack("<d", x))[0]
    raise Unsupported("float cast " + op)

def fintr(name, *a):
    if name.startswith("log2"): return math.log2(a[0])
    if name.startswith("ceil"): return float(math.ceil(a[0]))
    if name.startswith("floor"): return float(math.floor(a[0]))
    if name.startswith("sqrt"): return math.sqrt(a[0])
    if name.startswith("fptoui.sat"): return max(0, min(int(a[0]), tm.M(int(name.split(".i")[1].split(".")[0]))))
    raise Unsupported("float intrinsic " + name)

def fsel():
    raise Unsupported("symbolic float select")

def native_uf(fid, data, n):
    """The interpretation the native build of symenv uses outside the replay table (see symenv/src/lib.rs)."""
    h = 0xcbf29ce484222325
    M = (1 << 64) - 1
    for b in fid.to_bytes(4, "little") + data:
        h = ((h ^ b) * 0x100000001b3) & M
    out = b""
    ctr = 0
    while len(out) < n:
        x = (h + ctr * 0x9E3779B97F4A7C15) & M
        x ^= x >> 30; x = (x * 0xBF58476D1CE4E5B9) & M
        x ^= x >> 27; x = (x * 0x94D049BB133111EB) & M
        x ^= x >> 31
        out += x.to_bytes(8, "little")
        ctr += 1
    return out[:n]
mix = native_uf
