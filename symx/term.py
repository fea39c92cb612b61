"""Hash-consed bit-vector terms with a light simplifier, and their translation to z3.

A value is either a Python int (concrete, already masked to its width) or a T.
Width-1 values double as booleans.
"""
import sys
import numpy as np
import z3

sys.set_int_max_str_digits(0)

class T:
    __slots__ = ("op", "a", "w", "id", "zb", "zv", "ab", "av", "rg", "cl", "hv", "sp")
    def __repr__(self):
        return show(self)

def show(t, d=6):
    if isinstance(t, int):
        return hex(t)
    if d == 0:
        return "…"
    return "(%s:%d %s)" % (t.op, t.w, " ".join(show(x, d - 1) if isinstance(x, (T, int)) else str(x) for x in t.a))

HEAVY = frozenset(("pmod", "gexp", "inv", "urem", "udiv", "mul"))
_tab = {}
_n = 0

def mk(op, w, *a):
    global _n
    k = (op, w) + tuple((x.id, ) if isinstance(x, T) else x for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        _n += 1
        t.op, t.a, t.w, t.id, t.zb, t.zv, t.rg, t.cl = op, a, w, _n, None, None, None, 0
        t.ab = t.av = t.sp = None
        hv = op in HEAVY and not (op == "pmod" and a[0] >> 64)
        if not hv:
            for x in a:
                if type(x) is T and x.hv:
                    hv = True
                    break
        if not hv and op == "pmod":
            hv = any(x.hv for c, m in a[1] for x in m)
        t.hv = hv
        _tab[k] = t
    return t

def reset():
    """Forget every term (between harnesses)."""
    global _n
    _tab.clear()
    _folded.clear()

def rng(x):
    """(least, greatest) unsigned value, conservatively"""
    if type(x) is int:
        return (x, x)
    if x.rg is not None:
        return x.rg
    # iterative: ranges of children first
    stack = [x]
    while stack:
        t = stack[-1]
        if t.rg is not None:
            stack.pop()
            continue
        if t.op in ("var", "uf", "eq", "ult", "slt") or t.w == 1:
            t.rg = (0, M(t.w))
            stack.pop()
            continue
        pend = [c for c in t.a if type(c) is T and c.rg is None] if t.op not in ("pmod", "gexp", "inv", "bexp") else []
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        t.rg = _rng1(t)
    return x.rg

def trailing_zeros(x):
    """number of low bits that are zero for certain"""
    if type(x) is int:
        return (x & -x).bit_length() - 1 if x else 64
    if x.op == "concat":
        l, lw = x.a[1], x.a[2]
        t = trailing_zeros(l)
        return t if t < lw else lw + trailing_zeros(x.a[0])
    if x.op == "zext":
        return trailing_zeros(x.a[0])
    if x.op == "add":
        return min(trailing_zeros(x.a[0]), trailing_zeros(x.a[1]))
    return 0

def _r(x):
    return (x, x) if type(x) is int else x.rg

def _rng1(t):
    op, a, w = t.op, t.a, t.w
    top = (0, M(w))
    if op == "zext":
        return _r(a[0])
    if op == "concat":
        (hl, hh), (ll, lh), lw = _r(a[0]), _r(a[1]), a[2]
        return ((hl << lw) + ll, (hh << lw) + lh)
    if op == "extract":
        l, h = _r(a[0])
        if h >> (a[1] + 1) == 0:
            return (l >> a[2], h >> a[2])
        return top
    if op == "ite":
        p, q = _r(a[1]), _r(a[2])
        return (min(p[0], q[0]), max(p[1], q[1]))
    if op == "add":
        p, q = _r(a[0]), _r(a[1])
        if p[1] + q[1] <= M(w):
            return (p[0] + q[0], p[1] + q[1])
        return top
    if op == "mul":
        p, q = _r(a[0]), _r(a[1])
        if p[1] * q[1] <= M(w):
            return (p[0] * q[0], p[1] * q[1])
        return top
    if op == "sub":
        p, q = _r(a[0]), _r(a[1])
        if p[0] >= q[1]:
            return (p[0] - q[1], p[1] - q[0])
        return top
    if op == "pmod":
        return (0, a[0] - 1)
    if op == "inv":
        return 0, t.a[0] - 1
    if op == "gexp" or op == "bexp":
        return (1, a[0] - 1)
    if op == "urem":
        p, q = _r(a[0]), _r(a[1])
        if q[0] > 0:
            return (0, min(p[1], q[1] - 1))
        return (0, max(p[1], q[1]))
    if op == "udiv":
        p, q = _r(a[0]), _r(a[1])
        if q[0] > 0:
            return (p[0] // q[1], p[1] // q[0])
        return top
    if op == "and":
        p, q = _r(a[0]), _r(a[1])
        return (0, min(p[1], q[1]))
    if op in ("or", "xor"):
        p, q = _r(a[0]), _r(a[1])
        return (max(p[0], q[0]) if op == "or" else 0, (1 << max(p[1].bit_length(), q[1].bit_length())) - 1)
    if op == "lshr":
        p = _r(a[0])
        return (0, p[1])
    return top

CLMAX = 130

def leaves(x):
    """number of leaves when x is an if-then-else tree over constants, else 0"""
    return x.cl

def push(x, f, w):
    """apply f to every constant leaf of such a tree"""
    memo = {}
    def go(t):
        if type(t) is int:
            return f(t)
        r = memo.get(t.id)
        if r is None:
            r = memo[t.id] = ite(t.a[0], go(t.a[1]), go(t.a[2]), w)
        return r
    return go(x)

def var(name, w):
    return mk("var", w, name)

def M(w):
    return (1 << w) - 1

def is_c(x):
    return type(x) is int

def width(x):
    return x.w

# ---------------------------------------------------------------- extraction and concatenation

def extract(x, hi, lo, xw=None):
    w = hi - lo + 1
    if type(x) is int:
        return (x >> lo) & ((1 << w) - 1)
    if lo == 0 and w == x.w:
        return x
    op = x.op
    if op == "extract":
        b = x.a[2]
        return extract(x.a[0], hi + b, lo + b)
    if op == "concat":  # (hi part, lo part, width of the low part)
        h, l, lw = x.a
        if lo >= lw:
            return extract(h, hi - lw, lo - lw)
        if hi < lw:
            return extract(l, hi, lo)
        return concat(extract(h, hi - lw, 0), extract(l, lw - 1, lo), hi - lw + 1, lw - lo)
    if op == "zext":
        y = x.a[0]
        if lo >= y.w:
            return 0
        if hi < y.w:
            return extract(y, hi, lo)
        return zext(extract(y, y.w - 1, lo), y.w - lo, w)
    if op == "sext":
        y = x.a[0]
        if hi < y.w:
            return extract(y, hi, lo)
    if op == "ite":
        if x.cl:
            return push(x, lambda v: (v >> lo) & M(w), w)
        if (type(x.a[1]) is int or type(x.a[2]) is int):
            return ite(x.a[0], extract(x.a[1], hi, lo), extract(x.a[2], hi, lo), w)
    if op == "or" and lo == hi == x.w - 1:
        # the sign of x | -x: is x non-zero?
        for p, q in (x.a, x.a[::-1]):
            if type(q) is T and q.op == "sub" and type(q.a[0]) is int and q.a[0] == 0 and q.a[1] is p:
                return b_not(eq(p, 0, x.w))
    if op in ("and", "or", "xor"):
        p, q = x.a
        if type(q) is int or type(p) is int:
            return BIN[op](extract(p, hi, lo), extract(q, hi, lo), w)
    return mk("extract", w, x, hi, lo)

def concat(h, l, hw, lw):
    """h above l; widths given because either may be concrete."""
    if type(h) is int and type(l) is int:
        return (h << lw) | l
    w = hw + lw
    if type(h) is int and h == 0:
        return zext(l, lw, w)
    # merge neighbouring extracts of the same term
    if type(h) is T and type(l) is T:
        if h.op == "extract":
            # l itself, or top piece of l
            if l.op == "extract" and l.a[0] is h.a[0] and l.a[1] + 1 == h.a[2]:
                return extract(h.a[0], h.a[1], l.a[2])
            if l is h.a[0] and h.a[2] == l.w:
                pass
        if l.op == "concat":
            lh, ll, llw = l.a
            lhw = lw - llw
            if type(lh) is T and h.op == "extract" and lh.op == "extract" and lh.a[0] is h.a[0] and lh.a[1] + 1 == h.a[2]:
                return concat(extract(h.a[0], h.a[1], lh.a[2]), ll, hw + lhw, llw)
    # right-associate: concat(concat(a,b),l) -> concat(a, concat(b,l))
    if type(h) is T and h.op == "concat":
        a, b, bw = h.a
        return concat(a, concat(b, l, bw, lw), hw - bw, bw + lw)
    if type(h) is T and h.op == "zext":
        y = h.a[0]
        return zext(concat(y, l, y.w, lw), y.w + lw, w)
    if type(h) is int and type(l) is T and l.op == "concat" and type(l.a[0]) is int:
        lh, ll, llw = l.a
        return concat((h << (lw - llw)) | lh, ll, hw + lw - llw, llw)
    if type(h) is int and type(l) is T and l.op == "zext":
        y = l.a[0]
        return concat(h << (lw - y.w), y, w - y.w, y.w)
    return mk("concat", w, h, l, lw)

def concat_list(parts):
    """parts: [(value,width)] most significant first."""
    v, w = parts[-1]
    for x, xw in reversed(parts[:-1]):
        v = concat(x, v, xw, w)
        w += xw
    return v

def zext(x, w0, w):
    if type(x) is int or w == w0:
        return x
    if x.op == "zext":
        return mk("zext", w, x.a[0])
    if x.cl:
        return push(x, lambda v: v, w)
    return mk("zext", w, x)

def sext(x, w0, w):
    if type(x) is int:
        if x >> (w0 - 1):
            return x | (M(w) ^ M(w0))
        return x
    if w == w0:
        return x
    if x.op == "zext":
        return mk("zext", w, x.a[0])
    if x.op == "sext":
        return mk("sext", w, x.a[0])
    if w0 == 1:
        return ite(x, M(w), 0, w)
    return mk("sext", w, x)

def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x

def pieces(x, w):
    """Decompose into [(value,width)] least significant first, splitting concat and zext."""
    if type(x) is int:
        return [(x, w)]
    out = []
    stack = [(x, w)]
    while stack:
        y, yw = stack.pop()
        if type(y) is int:
            out.append((y, yw))
        elif y.op == "concat":
            h, l, lw = y.a
            stack.append((h, yw - lw))
            stack.append((l, lw))
        elif y.op == "zext":
            stack.append((0, yw - y.a[0].w))
            stack.append((y.a[0], y.a[0].w))
        else:
            out.append((y, yw))
    return out

def _structured(x):
    return type(x) is T and x.op in ("concat", "zext")

def _merge(f, x, y, w):
    """Apply a bitwise f piecewise; None when that does not help."""
    px, py = pieces(x, w), pieces(y, w)
    cuts = set()
    for p in (px, py):
        o = 0
        for v, vw in p:
            o += vw
            # concrete pieces may be cut anywhere
            cuts.add(o)
    cuts = sorted(cuts)
    res = []
    lo = 0
    simple = False
    for c in cuts:
        a = extract(x, c - 1, lo) if type(x) is T else (x >> lo) & M(c - lo)
        b = extract(y, c - 1, lo) if type(y) is T else (y >> lo) & M(c - lo)
        r = f(a, b, c - lo)
        if type(a) is int or type(b) is int:
            simple = True
        elif type(r) is T and r.op in ("and", "or", "xor"):
            return None
        res.append((r, c - lo))
        lo = c
    if not simple:
        return None
    return concat_list(res[::-1])

def _runs(c, w):
    """Bit runs of a constant: [(bit,len)] least significant first."""
    out = []
    i = 0
    while i < w:
        b = (c >> i) & 1
        j = i
        while j < w and ((c >> j) & 1) == b:
            j += 1
        out.append((b, j - i))
        i = j
    return out

# ---------------------------------------------------------------- bitwise

def and_(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return x & y
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y == M(w):
            return x
        rs = _runs(y, w)
        if len(rs) <= 3:
            out, lo = [], 0
            for b, n in rs:
                out.append((extract(x, lo + n - 1, lo) if b else 0, n))
                lo += n
            return concat_list(out[::-1])
    elif x is y:
        return x
    if w == 1 and type(x) is T and type(y) is T:
        if x.op == "not" and x.a[0] is y or y.op == "not" and y.a[0] is x:
            return 0
        r = _join(x, y)
        if r is not None:
            return r
    if w > 1 and (_structured(x) or _structured(y)):
        r = _merge(and_, x, y, w)
        if r is not None:
            return r
    if type(y) is T and y.id < x.id:
        x, y = y, x
    return mk("and", w, x, y)

def _adj(e, f):
    """e and f compare neighbouring pieces of the same two terms: the comparison of both pieces"""
    a, b, c, d = e.a[0], e.a[1], f.a[0], f.a[1]
    if type(b) is int or type(d) is int or a.op != "extract" or b.op != "extract" or c.op != "extract" or d.op != "extract":
        return None
    if a.a[0] is not c.a[0]:
        c, d = d, c
        if a.a[0] is not c.a[0]:
            return None
    if b.a[0] is not d.a[0]:
        return None
    if a.a[1] + 1 == c.a[2] and b.a[1] + 1 == d.a[2]:
        return eq(extract(a.a[0], c.a[1], a.a[2]), extract(b.a[0], d.a[1], b.a[2]), e.a[2] + f.a[2])
    if c.a[1] + 1 == a.a[2] and d.a[1] + 1 == b.a[2]:
        return eq(extract(a.a[0], a.a[1], c.a[2]), extract(b.a[0], b.a[1], d.a[2]), e.a[2] + f.a[2])
    return None

def _join(x, y):
    for p, q in ((x, y), (y, x)):
        if q.op != "eq":
            continue
        if p.op == "eq":
            return _adj(p, q)
        if p.op == "and":
            for i in (0, 1):
                if type(p.a[i]) is T and p.a[i].op == "eq":
                    r = _adj(p.a[i], q)
                    if r is not None:
                        return b_and(p.a[1 - i], r)
    return None

def or_(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return x | y
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if y == M(w):
            return y
    elif x is y:
        return x
    if w == 1 and type(x) is T and type(y) is T:
        if x.op == "not" and x.a[0] is y or y.op == "not" and y.a[0] is x:
            return 1
    if w > 1 and (_structured(x) or _structured(y)):
        r = _merge(or_, x, y, w)
        if r is not None:
            return r
    if type(y) is T and y.id < x.id:
        x, y = y, x
    return mk("or", w, x, y)

def xor_(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return x ^ y
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if y == M(w):
            return not_(x, w)
        if x.op == "xor" and type(x.a[1]) is int:
            return xor_(x.a[0], x.a[1] ^ y, w)
        if x.op == "xor" and type(x.a[0]) is int:
            return xor_(x.a[1], x.a[0] ^ y, w)
        if w > 1 and x.op == "not":
            return xor_(x.a[0], y ^ M(w), w)
    elif x is y:
        return 0
    else:
        for p, q in ((x, y), (y, x)):
            if p.op == "xor":
                if p.a[0] is q: return p.a[1]
                if p.a[1] is q: return p.a[0]
    if w > 1 and (_structured(x) or _structured(y)):
        r = _merge(xor_, x, y, w)
        if r is not None:
            return r
    if type(y) is T and y.id < x.id:
        x, y = y, x
    return mk("xor", w, x, y)

def not_(x, w):
    if type(x) is int:
        return x ^ M(w)
    if x.op == "not":
        return x.a[0]
    return mk("not", w, x)

def b_and(x, y):
    return and_(x, y, 1)

def b_or(x, y):
    return or_(x, y, 1)

def b_not(x):
    return not_(x, 1)

# ---------------------------------------------------------------- arithmetic

def add(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return (x + y) & M(w)
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if x.op == "add" and type(x.a[1]) is int:
            return add(x.a[0], (x.a[1] + y) & M(w), w)
        nb = (rng(x)[1] + y).bit_length()
        if nb < w:
            return zext(mk("add", nb, _low(x, nb), y), nb, w)
        return mk("add", w, x, y)
    nb = (rng(x)[1] + rng(y)[1]).bit_length()
    if nb < w:
        return zext(add(_low(x, nb), _low(y, nb), nb), nb, w)
    if y.id < x.id:
        x, y = y, x
    return mk("add", w, x, y)

def sub(x, y, w):
    if type(y) is int:
        if type(x) is int:
            return (x - y) & M(w)
        if y and rng(x)[0] >= y:
            nb = rng(x)[1].bit_length()
            if nb < w:
                return zext(sub(_low(x, nb), y, nb), nb, w)
            return mk("sub", w, x, y)
        return add(x, (-y) & M(w), w)
    if x is y:
        return 0
    if rng(x)[0] >= rng(y)[1]:
        nb = max(1, rng(x)[1].bit_length())
        if nb < w:
            return zext(sub(_low(x, nb), _low(y, nb), nb), nb, w)
    if type(x) is T and x.op == "add":
        if x.a[0] is y:
            return x.a[1]
        if x.a[1] is y:
            return x.a[0]
    return mk("sub", w, x, y)

def _pow2(y):
    return y > 0 and y & (y - 1) == 0

def mul(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return (x * y) & M(w)
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y == 1:
            return x
        if _pow2(y):
            return shl(x, y.bit_length() - 1, w)
    nb = umax_bits(x, w) + umax_bits(y, w)
    if nb < w:
        return zext(mul(_low(x, nb), _low(y, nb), nb), nb, w)
    if type(y) is int:
        return mk("mul", w, x, y)
    if y.id < x.id:
        x, y = y, x
    return mk("mul", w, x, y)

def shl(x, y, w):
    if type(y) is int:
        if y >= w:
            return 0
        if type(x) is int:
            return (x << y) & M(w)
        if y == 0:
            return x
        return concat(extract(x, w - 1 - y, 0), 0, w - y, y)
    return mk("shl", w, x, y)

def lshr(x, y, w):
    if type(y) is int:
        if y >= w:
            return 0
        if type(x) is int:
            return x >> y
        if y == 0:
            return x
        return zext(extract(x, w - 1, y), w - y, w)
    return mk("lshr", w, x, y)

def ashr(x, y, w):
    if type(y) is int:
        y = min(y, w - 1)
        if type(x) is int:
            return (sgn(x, w) >> y) & M(w)
        if y == 0:
            return x
        if x.op == "zext":
            return lshr(x, y, w)
        return sext(extract(x, w - 1, y), w - y, w)
    return mk("ashr", w, x, y)

def umax_bits(x, w):
    """Upper bound on the number of significant bits."""
    if type(x) is int:
        return x.bit_length()
    return min(w, rng(x)[1].bit_length())

def udiv(x, y, w):
    if type(x) is int and type(y) is int:
        return x // y if y else M(w)
    if type(y) is int:
        if y == 1:
            return x
        if rng(x)[1] < y:
            return 0
        if _pow2(y):
            return lshr(x, y.bit_length() - 1, w)
    nb = max(umax_bits(x, w), umax_bits(y, w), 1)
    if nb < w:
        return zext(udiv(_low(x, nb), _low(y, nb), nb), nb, w)
    return mk("udiv", w, x, y)

def _low(x, n):
    return extract(x, n - 1, 0) if type(x) is T else x

def urem(x, y, w):
    if type(x) is int and type(y) is int:
        return x % y if y else x
    if type(y) is int:
        if y == 1:
            return 0
        if rng(x)[1] < y:
            return x
        if _pow2(y):
            k = y.bit_length() - 1
            return zext(extract(x, k - 1, 0), k, w)
        if type(x) is T:
            return pmod(x, y, w)
    nb = max(umax_bits(x, w), umax_bits(y, w), 1)
    if nb < w:
        return zext(urem(_low(x, nb), _low(y, nb), nb), nb, w)
    return mk("urem", w, x, y)

# ---------------------------------------------------------------- arithmetic modulo a constant
#
# urem(x, n) with constant n is kept as a polynomial over atoms with coefficients modulo n ("pmod"), and
# exponentiation modulo a small prime m as gen^L with L a polynomial modulo m-1 ("gexp").  Both are ordinary
# terms for the solver; the normal form decides the ring identities that bit-blasting cannot.

SUBST = {}      # set by the engine for the running path: (modulus or 0, atom id) -> polynomial equal to the atom
ALIAS = {}      # set by the engine for the running path: id of x[k:0] -> x, where the path implies the rest of x is 0
PMAX = 80
PBIG = 24       # a residue with more terms than this is an atom of larger polynomials

def _padd(p, q, n, f=1):
    r = dict(p)
    for k, c in q.items():
        v = (r.get(k, 0) + f * c) % n
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r

def _pmul(p, q, n):
    r = {}
    for k1, c1 in p.items():
        for k2, c2 in q.items():
            k = tuple(sorted(k1 + k2, key=_tid))
            c = c1 * c2
            if len(k) > 1:
                k, c = _cancel(k, c, n) if n < WIDE else (_powers(k, n), c)
            v = (r.get(k, 0) + c) % n
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r

def _cancel(k, c, n):
    """drop atoms that meet their inverse (an inverse modulo n is only ever formed of a non-zero residue)"""
    for t in k:
        if t.op == "inv" and t.a[0] == n:
            p = to_poly(t.a[1], n)
            if len(p) == 1:
                (m, d), = p.items()
                l = list(k)
                l.remove(t)
                try:
                    for y in m:
                        l.remove(y)
                except ValueError:
                    continue
                return _cancel(tuple(l), c * pow(d, -1, n), n)
    return k, c

def _pscale(p, c, n):
    return p if c == 1 else _padd({}, p, n, c)

def _tid(t):
    return t.id

WIDE = 1 << 64      # moduli above are large primes (or one less): powers are atoms, no discrete logarithms

def bexp(n, base, p):
    """base^p modulo the large prime n, base (a number or term) known not to be zero, p a polynomial modulo n-1"""
    if not p or base == 1:
        return 1
    if type(base) is T and base.op == "bexp" and base.a[0] == n:
        return bexp(n, base.a[1], _pmul(to_poly(base.a[2], n - 1), p, n - 1))
    e = from_poly(p, n - 1, n.bit_length())
    if type(base) is int and type(e) is int:
        return pow(base, e, n)
    return mk("bexp", n.bit_length(), n, base, e)

def _powers(k, n):
    """one power for each base"""
    d, r = {}, []
    for t in k:
        if t.op == "bexp" and t.a[0] == n:
            b = t.a[1]
            d.setdefault(b if type(b) is int else -b.id, []).append(t)
        else:
            r.append(t)
    for l in d.values():
        if len(l) > 1:
            p = {}
            for t in l:
                p = _padd(p, to_poly(t.a[2], n - 1), n - 1)
            t = bexp(n, l[0].a[1], p)
            if t == 1:
                continue
            if type(t) is int:
                return k
            r.append(t)
        else:
            r.append(l[0])
    return tuple(sorted(r, key=_tid))

_bp = {}
def big_prime(n):
    if n not in _bp:
        _bp[n] = n > WIDE and all(pow(b, n - 1, n) == 1 for b in (2, 3))
    return _bp[n]

def powmod_big(b, e, n):
    """b^e mod n for a large prime n and b a residue known not to be zero; width of the result n.bit_length()"""
    el = to_poly(e, n - 1)
    if not el:
        return 1
    if type(b) is T:
        p = to_poly(b, n)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) > 1 and all(t.op == "bexp" and t.a[0] == n for t in m):
                q = {(): 1}
                for t in m:
                    x = bexp(n, t.a[1], _pmul(to_poly(t.a[2], n - 1), el, n - 1))
                    q = _pmul(q, to_poly(x, n), n)
                return from_poly(q, n, n.bit_length())
    return bexp(n, b, el)

def to_poly(x, n):
    if type(x) is int:
        c = x % n
        return {(): c} if c else {}
    op, a = x.op, x.a
    if op == "zext":
        return to_poly(a[0], n)
    if op == "add":
        if rng(a[0])[1] + rng(a[1])[1] <= M(x.w):
            return _padd(to_poly(a[0], n), to_poly(a[1], n), n)
    elif op == "sub":
        if rng(a[0])[0] >= rng(a[1])[1]:
            return _padd(to_poly(a[0], n), to_poly(a[1], n), n, -1)
    elif op == "mul":
        if rng(a[0])[1] * rng(a[1])[1] <= M(x.w):
            p, q = to_poly(a[0], n), to_poly(a[1], n)
            if len(p) * len(q) <= PMAX:
                return _pmul(p, q, n)
    elif op == "urem":
        if type(a[1]) is int and a[1] % n == 0:
            return to_poly(a[0], n)
    elif op == "pmod":
        if a[0] % n == 0 and len(a[1]) <= PBIG:
            r = {}
            for c, mono in a[1]:
                if c % n:
                    r[mono] = c % n
            return _resub(r, n) if SUBST else r
    elif op == "extract":
        if a[2] == 0 and (1 << (a[1] + 1)) % n == 0:
            return to_poly(a[0], n)
        if n >= WIDE and a[0].op in ("var", "uf"):
            return _leaf(x, n)
        y = ALIAS.get(x.id)
        if y is not None:
            return _padd(to_poly(y[0], n), {(): -y[1] % n} if y[1] % n else {}, n)
        if x.w > 8 and a[2] % 8 == 0 and a[0].op in ("var", "uf"):
            return _bytes(x, n)
        y = a[0]
        if a[2] == 0 and x.w >= 16 and y.op in ("add", "mul"):
            # the low part is the whole minus the carry
            (l1, h1), (l2, h2) = rng(y.a[0]), rng(y.a[1])
            if (h1 + h2 if y.op == "add" else h1 * h2) <= M(y.w):
                p = to_poly(y, n)
                if len(p) < PMAX and (y,) not in p:
                    return _padd(p, _leaf(extract(y, y.w - 1, a[1] + 1), n), n, -pow(2, a[1] + 1, n))
    elif op in ("var", "uf"):
        if x.w > 8 and n < WIDE:
            return _bytes(x, n)
    elif op == "concat":
        if n >= WIDE:
            # a number given by its bytes is one atom
            l, o = [], 0
            for v, vw in pieces(x, x.w):
                if v != 0:
                    l.append((v, o, vw))
                o += vw
            if len(l) == 1:
                return _pscale(to_poly(l[0][0], n), pow(2, l[0][1], n), n)
            return _leaf(_low(x, l[-1][1] + l[-1][2]), n)
        r, o = {}, 0
        for v, vw in pieces(x, x.w):
            r = _padd(r, to_poly(v, n), n, pow(2, o, n))
            o += vw
        return r
    return _leaf(x, n)

def _leaf(x, n):
    if SUBST:
        s = SUBST.get((n, x.id))
        if s is not None:
            return dict(s)
        s = SUBST.get((0, x.id))
        if s is not None:
            return {(): s % n} if s % n else {}
    return {(x,): 1}

def _resub(p, n):
    """apply the path's substitutions to a polynomial"""
    for mono in p:
        for t in mono:
            if (n, t.id) in SUBST or (0, t.id) in SUBST:
                break
        else:
            continue
        break
    else:
        return p
    r = {}
    for mono, c in p.items():
        q = {(): c}
        for t in mono:
            q = _pmul(q, _leaf(t, n), n)
        r = _padd(r, q, n)
    return _resub(r, n) if len(r) <= PMAX else r

def _bytes(x, n):
    r = {}
    for o in range(0, x.w, 8):
        c = pow(2, o, n)
        if c:
            r = _padd(r, _leaf(extract(x, min(o + 7, x.w - 1), o), n), n, c)
    return r

def pmod(x, n, w):
    """x mod n, as a term of width w"""
    if type(x) is int:
        return x % n
    return from_poly(to_poly(x, n), n, w, x)

def from_poly(p, n, w, orig=None):
    if not p:
        return 0
    if len(p) == 1:
        (mono, c), = p.items()
        if not mono:
            return c
        if len(mono) == 1 and c == 1 and rng(mono[0])[1] < n:
            t = mono[0]
            return _fit(t, w)
        if all(t.op == "gexp" and t.a[0] == n for t in mono):
            exp, log, gen = dlog(n)
            if c:
                l = {(): log[c]} if log[c] else {}
                for t in mono:
                    l = _padd(l, to_poly(t.a[1], n - 1), n - 1)
                return _fit(gexp(n, l), w)
    key = tuple(sorted(((c, m) for m, c in p.items()), key=lambda e: (len(e[1]), tuple(t.id for t in e[1]))))
    nb = max(1, (n - 1).bit_length())
    t = mk("pmod", nb, n, key)
    return _fit(t, w)

def _fit(t, w):
    if type(t) is int:
        return t
    if t.w < w:
        return zext(t, t.w, w)
    if t.w > w:
        return extract(t, w - 1, 0)
    return t

def gexp(m, l):
    """gen^l mod m, l a polynomial modulo m-1"""
    if not l:
        return 1
    if len(l) == 1 and () in l:
        return dlog(m)[0][l[()]]
    k = m.bit_length()
    return mk("gexp", k, m, from_poly(l, m - 1, k))

def powmod_nz(b, e, m):
    """b^e mod m for prime m and b a residue known not to be zero; width of the result m.bit_length()"""
    k = m.bit_length()
    exp, log, gen = dlog(m)
    el = to_poly(e, m - 1)
    if type(b) is int:
        return gexp(m, _pmul({(): log[b]} if log[b] else {}, el, m - 1))
    if b.op == "gexp" and b.a[0] == m:
        return gexp(m, _pmul(to_poly(b.a[1], m - 1), el, m - 1))
    l = mux(log, b, k, k)
    return gexp(m, _pmul(to_poly(l, m - 1), el, m - 1))

_pr = {}
def is_prime(n):
    if n not in _pr:
        _pr[n] = n > WIDE and big_prime(n) or n > 1 and n < 1 << 16 and all(n % d for d in range(2, int(n ** 0.5) + 1))
    return _pr[n]

_dl = {}
def dlog(m):
    """(powers of a generator, discrete logarithms, generator) of the multiplicative group modulo the prime m"""
    if m not in _dl:
        for g in range(2, m):
            e, seen = 1, {}
            for i in range(m - 1):
                if e in seen: break
                seen[e] = i
                e = e * g % m
            if len(seen) == m - 1:
                _dl[m] = ([pow(g, i, m) for i in range(m - 1)], [0] + [seen[x] for x in range(1, m)], g)
                break
    return _dl[m]

def mux(vals, idx, wi, wo):
    """vals[idx] as a balanced multiplexer tree (index beyond the table: 0)"""
    if type(idx) is int:
        return vals[idx] if idx < len(vals) else 0
    cur = list(vals) + [0] * ((1 << wi) - len(vals))
    for b in range(wi):
        c = extract(idx, b, b)
        cur = [ite(c, cur[i + 1], cur[i], wo) for i in range(0, len(cur), 2)]
    return cur[0]

def sdiv(x, y, w):
    if type(x) is int and type(y) is int:
        a, b = sgn(x, w), sgn(y, w)
        if b == 0:
            return M(w)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & M(w)
    return mk("sdiv", w, x, y)

def srem(x, y, w):
    if type(x) is int and type(y) is int:
        a, b = sgn(x, w), sgn(y, w)
        if b == 0:
            return x
        r = abs(a) % abs(b)
        return (r if a >= 0 else -r) & M(w)
    return mk("srem", w, x, y)

def _wrap(f):
    def g(x, y, w):
        if type(y) is int:
            if type(x) is T and x.cl:
                return push(x, lambda v: f(v, y, w), w)
        elif type(x) is int and y.cl:
            return push(y, lambda v: f(x, v, w), w)
        return f(x, y, w)
    return g
add, sub, mul, and_, or_, xor_ = map(_wrap, (add, sub, mul, and_, or_, xor_))
shl, lshr, ashr, udiv, urem, sdiv, srem = map(_wrap, (shl, lshr, ashr, udiv, urem, sdiv, srem))

BIN = {"add": add, "sub": sub, "mul": mul, "and": and_, "or": or_, "xor": xor_, "shl": shl, "lshr": lshr,
       "ashr": ashr, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem}

# ---------------------------------------------------------------- comparisons

PAIRS = {}      # (r, x, y): r was made of x == y for residues x and y
def lemmas():
    """under abstraction: what the pairs say about terms in use"""
    out = []
    for k, (r, x, y) in PAIRS.items():
        if k not in _lem and r.hv and all((t.av if t.hv else t.zv) is not None for t in (x, y)):
            _lem[k] = zbool(r) == (zbv(x, x.w) == zbv(y, y.w))
    return list(_lem.values())
_lem = {}
def eq(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return 1 if x == y else 0
        x, y = y, x
    if x is y:
        return 1
    if w == 1:
        if type(y) is int:
            return x if y else not_(x, 1)
    if w > 1:
        (a, b), (c, d) = rng(x), rng(y)
        if b < c or d < a:
            return 0
    if type(y) is int:
        op = x.op
        if x.cl:
            return push(x, lambda v: 1 if v == y else 0, 1)
        if op == "zext":
            k = x.a[0].w
            if y >> k:
                return 0
            return eq(x.a[0], y, k)
        if op == "ite":
            c, p, q = x.a
            if type(p) is int and type(q) is int:
                if p == y:
                    return 1 if q == y else c
                return b_not(c) if q == y else 0
            if type(p) is int and p != y:
                return b_and(b_not(c), eq(q, y, w))
            if type(q) is int and q != y:
                return b_and(c, eq(p, y, w))
        if op == "concat":
            h, l, lw = x.a
            return b_and(eq(h, y >> lw, w - lw), eq(l, y & M(lw), lw))
        if op == "add" and type(x.a[1]) is int:
            return eq(x.a[0], (y - x.a[1]) & M(w), w)
        if op == "not":
            return eq(x.a[0], y ^ M(w), w)
        if op == "xor" and type(x.a[1]) is int:
            return eq(x.a[0], y ^ x.a[1], w)
        if op == "xor" and y == 0:
            return eq(x.a[0], x.a[1], w)
        if op == "or" and y == 0:
            return b_and(eq(x.a[0], 0, w), eq(x.a[1], 0, w))
        if op == "and" and rng(x.a[0])[1] <= 1 and rng(x.a[1])[1] <= 1:
            r = b_and(eq(x.a[0], 1, w), eq(x.a[1], 1, w))
            return r if y == 1 else b_not(r) if y == 0 else 0
        if op == "sub" and y == 0:
            return eq(x.a[0], x.a[1], w)
        if op == "pmod" and y == 0 and x.a[0] >= WIDE and len(x.a[1]) == 1 and is_prime(x.a[0]):
            # a power of a non-zero base is not zero
            n, ((c, m),) = x.a
            if any(t.op == "bexp" and t.a[0] == n for t in m):
                m = tuple(t for t in m if t.op != "bexp" or t.a[0] != n)
                return eq(from_poly({m: c}, n, w), 0, w) if m else 0
        if op == "pmod" and y == 0 and is_prime(x.a[0]) and x.a[1][0][0] != 1:
            p = _monic({m: c for c, m in x.a[1]}, x.a[0])
            z = from_poly(p, x.a[0], w)
            if z is not x:
                return eq(z, 0, w)
        if op == "pmod" and y == 0 and len(x.a[1]) == 2:
            # the difference of two residues
            (c, m), (d, k) = x.a[1]
            if len(m) == len(k) == 1 and c + d == x.a[0] and c in (1, x.a[0] - 1) and rng(m[0])[1] < x.a[0] and rng(k[0])[1] < x.a[0]:
                u = max(m[0].w, k[0].w)
                return eq(zext(m[0], m[0].w, u), zext(k[0], k[0].w, u), u)
        if op == "pmod" and y == 0 and is_prime(x.a[0]):
            # a common factor is zero, or the cofactor is
            n, poly = x.a
            com = set(poly[0][1])
            for c, m in poly[1:]:
                com &= set(m)
            if com and (len(poly) > 1 or len(poly[0][1]) > 1):
                r, q = 0, []
                for c, m in poly:
                    m = list(m)
                    for t in com:
                        m.remove(t)
                    q.append((c, tuple(m)))
                for t in sorted(com, key=_tid):
                    r = b_or(r, eq(pmod(t, n, w), 0, w))
                return b_or(r, eq(from_poly({m: c for c, m in q}, n, w), 0, w))
        if op == "gexp":
            m = x.a[0]
            if not 0 < y < m:
                return 0
            k = (m - 2).bit_length()
            return eq(from_poly(_padd(to_poly(x.a[1], m - 1), {(): 1}, m - 1, -dlog(m)[1][y]) if dlog(m)[1][y] else to_poly(x.a[1], m - 1), m - 1, k), 0, k)
        if op == "pmod" and SUBST:
            p = to_poly(x, x.a[0])
            z = from_poly(p, x.a[0], w)
            if z is not x:
                return eq(z, y, w)
    else:
        if x.op == y.op == "add":
            for i in (0, 1):
                for j in (0, 1):
                    if x.a[i] is y.a[j] or type(x.a[i]) is int and x.a[i] == y.a[j]:
                        return eq(x.a[1 - i], y.a[1 - j], w)
        nx, ny = _modulus(x), _modulus(y)
        if nx and nx == ny:
            n = nx
            if x.op == "gexp" and y.op == "gexp" and nx == ny:
                k = (n - 2).bit_length()
                p = _padd(to_poly(x.a[1], n - 1), to_poly(y.a[1], n - 1), n - 1, -1)
                return eq(from_poly(_monic(p, n - 1), n - 1, k), 0, k)
            p = _padd(to_poly(x, n), to_poly(y, n), n, -1)
            if n >= WIDE:
                if not p:
                    return 1
                if len(p) == 1 and () in p:
                    return 0
                if y.id < x.id:
                    x, y = y, x
                return mk("eq", 1, x, y, w)
            r = eq(from_poly(_monic(p, n), n, w), 0, w)
            if type(r) is T:
                PAIRS[(r.id, x.id, y.id)] = (r, x, y)
            return r
        if x.op == "uf" and y.op == "uf" and x.a[0] == y.a[0] and x.a[0][-1] == "i":
            return eq(x.a[2], y.a[2], x.a[1]) if x.a[1] == y.a[1] else 0
        if x.op == "zext" and y.op == "zext" and x.a[0].w == y.a[0].w:
            return eq(x.a[0], y.a[0], x.a[0].w)
        if w >= 1024 and (x.op == "concat" or y.op == "concat"):
            r = _eq_pieces(x, y, w)
            if r is not None:
                return r
        if x.op == "concat" and y.op == "concat" and x.a[2] == y.a[2]:
            h = eq(x.a[0], y.a[0], w - x.a[2])
            if h == 0:
                return 0
            return b_and(h, eq(x.a[1], y.a[1], x.a[2]))
    if type(y) is T and y.id < x.id:
        x, y = y, x
    return mk("eq", 1, x, y, w)

def _eq_pieces(x, y, w):
    """equality of strings with residues of large moduli in them, piece by piece"""
    px, py = pieces(x, w), pieces(y, w)
    if not any(type(v) is T and v.op == "extract" and v.a[0].op in ("bexp", "pmod") for v, vw in px + py):
        return None
    cuts = set()
    for l in (px, py):
        o = 0
        for v, vw in l:
            o += vw
            cuts.add(o)
    r, lo = 1, 0
    for c in sorted(cuts):
        e = eq(extract(x, c - 1, lo), extract(y, c - 1, lo), c - lo)
        if type(e) is int and not e:
            return 0
        r = b_and(r, e)
        lo = c
    return r

def _modulus(t):
    return t.a[0] if t.op in ("pmod", "gexp", "bexp") else 0

def _monic(p, n):
    """scale a polynomial so that its first coefficient is 1 (n prime)"""
    if not p:
        return p
    m = min(p, key=lambda m: (len(m), tuple(t.id for t in m)))
    if not is_prime(n):
        return {m: n - c for m, c in p.items()} if n - p[m] < p[m] else p
    i = pow(p[m], -1, n)
    return {m: c * i % n for m, c in p.items()}

def ne(x, y, w):
    return b_not(eq(x, y, w))

def ult(x, y, w):
    if type(x) is int and type(y) is int:
        return 1 if x < y else 0
    if type(y) is int:
        if y == 0:
            return 0
        if y == 1:
            return eq(x, 0, w)
    if type(x) is int:
        if x == M(w):
            return 0
        if x == 0:
            return b_not(eq(y, 0, w))
    if x is y:
        return 0
    if type(y) is int:
        if type(x) is T and x.cl:
            return push(x, lambda v: 1 if v < y else 0, 1)
    elif type(x) is int and y.cl:
        return push(y, lambda v: 1 if x < v else 0, 1)
    (a, b), (c, d) = rng(x), rng(y)
    if b < c:
        return 1
    if a >= d:
        return 0
    nb = max(umax_bits(x, w), umax_bits(y, w), 1)
    if nb < w:
        return ult(_low(x, nb), _low(y, nb), nb)
    if type(x) is T and x.op == "ite" and type(y) is int and type(x.a[1]) is int and type(x.a[2]) is int:
        return ite(x.a[0], 1 if x.a[1] < y else 0, 1 if x.a[2] < y else 0, 1)
    return mk("ult", 1, x, y, w)

def slt(x, y, w):
    if type(x) is int and type(y) is int:
        return 1 if sgn(x, w) < sgn(y, w) else 0
    if x is y:
        return 0
    if umax_bits(x, w) < w and umax_bits(y, w) < w:
        return ult(x, y, w)
    if type(y) is int and y == 0:
        return extract(x, w - 1, w - 1)
    if type(x) is int and x == M(w):
        return b_not(extract(y, w - 1, w - 1))
    if type(x) is T and x.op == "ite" and type(y) is int and type(x.a[1]) is int and type(x.a[2]) is int:
        return ite(x.a[0], slt(x.a[1], y, w), slt(x.a[2], y, w), 1)
    return mk("slt", 1, x, y, w)

# ---------------------------------------------------------------- tabulation of predicates with a small support

SUPMAX = 8
LEAF = frozenset(("var", "uf", "pmod", "gexp", "inv", "bexp"))
ARITH = frozenset(("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sext", "ite", "not", "eq", "ult", "slt"))

def support(x):
    """the bits (leaf id, position) a term depends on; False when there are more than SUPMAX"""
    stack = [x]
    while stack:
        t = stack[-1]
        if t.sp is not None:
            stack.pop()
            continue
        if t.op in LEAF:
            t.sp = frozenset((t.id, i) for i in range(t.w)) if t.w <= SUPMAX else False
            stack.pop()
            continue
        if t.op == "extract" and t.a[0].op in LEAF:
            t.sp = frozenset((t.a[0].id, i) for i in range(t.a[2], t.a[1] + 1)) if t.w <= SUPMAX else False
            _leafs[t.a[0].id] = t.a[0]
            stack.pop()
            continue
        ch = [c for c in t.a if type(c) is T]
        if any(c.sp is False for c in ch):
            t.sp = False
            stack.pop()
            continue
        pend = [c for c in ch if c.sp is None]
        if pend:
            stack.append(pend[0])
            continue
        stack.pop()
        u = frozenset().union(*[c.sp for c in ch])
        t.sp = u if len(u) <= SUPMAX else False
    return x.sp
_leafs = {}

def table(x, sup):
    """values of x for every assignment of the bits in the list sup"""
    n = len(sup)
    idx = np.arange(1 << n, dtype=np.uint64)
    pos = {b: i for i, b in enumerate(sup)}
    one = np.uint64(1)
    memo = {}
    def bitcol(lid, i):
        return (idx >> np.uint64(pos[(lid, i)])) & one
    def u(v):
        return np.uint64(v)
    def go(t):
        if type(t) is int:
            return np.full(1 << n, t, dtype=np.uint64)
        r = memo.get(t.id)
        if r is not None:
            return r
        op, a, w = t.op, t.a, t.w
        if w > 64:
            raise OverflowError
        m = u(M(w))
        if op in LEAF:
            r = sum((bitcol(t.id, i) << u(i) for i in range(w)), np.zeros(1 << n, dtype=np.uint64))
        elif op == "extract":
            if a[0].op in LEAF:
                r = sum((bitcol(a[0].id, i) << u(i - a[2]) for i in range(a[2], a[1] + 1)), np.zeros(1 << n, dtype=np.uint64))
            else:
                r = (go(a[0]) >> u(a[2])) & m
        elif op == "concat":
            r = (go(a[0]) << u(a[2])) | go(a[1])
        elif op == "zext":
            r = go(a[0])
        elif op == "sext":
            v, k = go(a[0]), a[0].w
            r = np.where(v >> u(k - 1) & one == one, v | (m ^ u(M(k))), v)
        elif op == "ite":
            r = np.where(go(a[0]) == one, go(a[1]), go(a[2]))
        elif op == "not":
            r = go(a[0]) ^ m
        elif op == "eq":
            r = (go(a[0]) == go(a[1])).astype(np.uint64)
        elif op == "ult":
            r = (go(a[0]) < go(a[1])).astype(np.uint64)
        elif op == "slt":
            b = u(1 << (a[2] - 1))
            r = ((go(a[0]) ^ b) < (go(a[1]) ^ b)).astype(np.uint64)
        else:
            x, y = go(a[0]), go(a[1])
            if op == "add": r = (x + y) & m
            elif op == "sub": r = (x - y) & m
            elif op == "mul": r = (x * y) & m
            elif op == "and": r = x & y
            elif op == "or": r = x | y
            elif op == "xor": r = x ^ y
            elif op in ("shl", "lshr", "ashr") and type(a[1]) is int and a[1] < w:
                if op == "shl": r = (x << u(a[1])) & m
                elif op == "lshr": r = x >> u(a[1])
                else: r = (np.where(x >> u(w - 1) == one, (x | ~m), x).astype(np.int64) >> np.int64(a[1])).astype(np.uint64) & m
            else:
                raise OverflowError
        memo[t.id] = r
        return r
    return go(x)

_folded = {}
def fold(r):
    """a predicate of few bits that is constant is that constant"""
    if type(r) is int:
        return r
    op = r.op
    if op == "not":
        v = fold(r.a[0])
        return r if v is r.a[0] else not_(v, 1)
    if op not in ("eq", "ult", "slt", "extract", "and", "or") or r.w != 1 or r.sp is False:
        return r
    k = _folded.get(r.id)
    if k is not None:
        return k
    k = r
    if any(type(c) is T and (c.op in ARITH or c.op in ("zext", "concat")) for c in r.a) and support(r):
        try:
            v = table(r, sorted(r.sp))
            if (v == v[0]).all():
                k = int(v[0])
        except OverflowError:
            pass
    _folded[r.id] = k
    return k

_eq, _ult, _slt, _extract, _and, _or = eq, ult, slt, extract, and_, or_
def and_(x, y, w):
    r = _and(x, y, w)
    return fold(r) if w == 1 else r
def or_(x, y, w):
    r = _or(x, y, w)
    return fold(r) if w == 1 else r
BIN["and"], BIN["or"] = and_, or_
def eq(x, y, w):
    return fold(_eq(x, y, w))
def ult(x, y, w):
    return fold(_ult(x, y, w))
def slt(x, y, w):
    return fold(_slt(x, y, w))
def extract(x, hi, lo, xw=None):
    r = _extract(x, hi, lo)
    return fold(r) if hi == lo else r

def icmp(pred, x, y, w):
    if pred == "eq":
        return eq(x, y, w)
    if pred == "ne":
        return b_not(eq(x, y, w))
    if pred == "ult":
        return ult(x, y, w)
    if pred == "ugt":
        return ult(y, x, w)
    if pred == "ule":
        return b_not(ult(y, x, w))
    if pred == "uge":
        return b_not(ult(x, y, w))
    if pred == "slt":
        return slt(x, y, w)
    if pred == "sgt":
        return slt(y, x, w)
    if pred == "sle":
        return b_not(slt(y, x, w))
    if pred == "sge":
        return b_not(slt(x, y, w))
    raise Exception("icmp " + pred)

def ite(c, x, y, w):
    if type(c) is int:
        return x if c else y
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    if c.op == "not":
        return ite(c.a[0], y, x, w)
    if w == 1:
        if type(x) is int:
            return b_or(c, y) if x else b_and(b_not(c), y)
        if type(y) is int:
            return b_or(b_not(c), x) if y else b_and(c, x)
    if type(x) is T and x.op == "ite" and x.a[0] is c:
        x = x.a[1]
    if type(y) is T and y.op == "ite" and y.a[0] is c:
        y = y.a[2]
    t = mk("ite", w, c, x, y)
    if t.cl == 0 and w > 1:
        lx = 1 if type(x) is int else x.cl
        ly = 1 if type(y) is int else y.cl
        if lx and ly and lx + ly <= CLMAX:
            t.cl = lx + ly
    return t

def bswap(x, w):
    if type(x) is int:
        return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
    return concat_list([(extract(x, i + 7, i), 8) for i in range(0, w, 8)])

def bitreverse(x, w):
    if type(x) is int:
        return int(bin(x)[2:].rjust(w, "0")[::-1], 2)
    return concat_list([(extract(x, i, i), 1) for i in range(w)])

def ctlz(x, w):
    if type(x) is int:
        return w - x.bit_length()
    r = w
    for i in range(umax_bits(x, w)):  # the highest set bit wins, so it is tested last (outermost)
        r = ite(extract(x, i, i), w - 1 - i, r, w)
    return r

def cttz(x, w):
    if type(x) is int:
        return (x & -x).bit_length() - 1 if x else w
    r = w
    for i in reversed(range(umax_bits(x, w))):
        r = ite(extract(x, i, i), i, r, w)
    return r

def ctpop(x, w):
    if type(x) is int:
        return bin(x).count("1")
    r = 0
    for i in range(w):
        r = add(r, zext(extract(x, i, i), 1, w), w)
    return r

# ---------------------------------------------------------------- z3

_fn = {}

def uf_decl(name, *sorts):
    k = (name,) + sorts
    f = _fn.get(k)
    if f is None:
        f = z3.Function("%s_%s" % (name, "_".join(map(str, sorts))), *[z3.BitVecSort(s) for s in sorts])
        _fn[k] = f
    return f

ABS = False     # translate pmod, gexp, products and quotients as arbitrary values of their range

def zbool(t):
    if type(t) is int:
        return z3.BoolVal(bool(t))
    if ABS and t.hv:
        if t.ab is None:
            _trans(t)
            if t.ab is None:
                t.ab = t.av == 1
        return t.ab
    if t.zb is None:
        _trans(t)
        if t.zb is None:
            t.zb = t.zv == 1
    return t.zb

def zbv(t, w):
    if type(t) is int:
        return z3.BitVecVal(t, w)
    if ABS and t.hv:
        if t.av is None:
            _trans(t)
            if t.av is None:
                t.av = z3.If(t.ab, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return t.av
    if t.zv is None:
        _trans(t)
        if t.zv is None:
            t.zv = z3.If(t.zb, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return t.zv

def _done(t):
    if ABS and t.hv:
        return t.ab is not None or t.av is not None
    return t.zb is not None or t.zv is not None

def _trans(root):
    stack = [root]
    while stack:
        t = stack[-1]
        if _done(t):
            stack.pop()
            continue
        if ABS and t.op in HEAVY and t.op != "pmod":
            ch = ()
        elif t.op == "pmod":
            ch = [x for c, m in t.a[1] for x in m]
        elif t.op == "gexp":
            ch = (_gmux(t),)
        elif t.op == "inv":
            ch = (_imux(t),)
        elif t.op == "bexp":
            ch = t.a[1:]
        else:
            ch = t.a
        pend = [x for x in ch if type(x) is T and not _done(x)]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        if ABS and t.hv:
            if t.op in HEAVY:
                lo, hi = rng(t)
                if t.op == "pmod":
                    # an unknown function of the variables of the polynomial, one for each shape of it
                    ix, key = {}, [t.a[0], t.w]
                    for c, m in t.a[1]:
                        key.append((c, tuple(ix.setdefault(x, len(ix)) for x in m)))
                    vs = [zbv(x, x.w) for x in ix]
                    f = z3.Function("abs%s_%s" % (key, [x.size() for x in vs]), *[x.sort() for x in vs], z3.BitVecSort(t.w))
                    v = f(*vs)
                else:
                    v = z3.BitVec("abs%d" % t.id, t.w)
                if hi < M(t.w) or lo:
                    v = z3.If(z3.And(z3.ULE(lo, v), z3.ULE(v, hi)), v, z3.BitVecVal(lo, t.w))
                t.av = v
            else:
                b, v = t.zb, t.zv
                _trans1(t)
                t.ab, t.av = t.zb, t.zv
                t.zb, t.zv = b, v
        else:
            _trans1(t)

def _imux(t):
    q = t.a[0]
    return mux([0] + [pow(x, -1, q) for x in range(1, q)], t.a[1], t.w, t.w)

def inv(x, q):
    """the inverse of the residue x (known not to be zero) modulo the prime q"""
    return pow(x, -1, q) if type(x) is int else mk("inv", q.bit_length(), q, x)

def _gmux(t):
    return mux(dlog(t.a[0])[0], t.a[1], t.w, t.w)

_fn = {}
def _fun(name, key, vs, w):
    k = (name, key, tuple(v.size() for v in vs), w)
    f = _fn.get(k)
    if f is None:
        f = _fn[k] = z3.Function("%s%d" % (name, len(_fn)), *[v.sort() for v in vs], z3.BitVecSort(w))
    return f(*vs)

def _bounded(t, v):
    lo, hi = rng(t)
    return z3.If(z3.And(z3.ULE(lo, v), z3.ULE(v, hi)), v, z3.BitVecVal(lo, t.w))

def _trans1(t):
    op, a, w = t.op, t.a, t.w
    if op == "var":
        t.zv = z3.BitVec(a[0], w)
    elif op == "bexp":
        n, b, e = a
        vs = [zbv(b, n.bit_length()), zbv(e, n.bit_length())]
        t.zv = _bounded(t, _fun("bexp", (n,), vs, w))
    elif op == "pmod" and a[0] >= WIDE:
        # an unknown function of the atoms, one for each polynomial
        ix, key = {}, [a[0]]
        for c, m in a[1]:
            key.append((c, tuple(ix.setdefault(x, len(ix)) for x in m)))
        t.zv = _bounded(t, _fun("bmod", tuple(key), [zbv(x, x.w) for x in ix], w))
    elif op == "pmod":
        n, poly = a
        nb = max(2, n.bit_length())
        W = 2 * nb + len(poly).bit_length()
        def red(x):
            y = zbv(x, x.w)
            if x.w < W:
                y = z3.ZeroExt(W - x.w, y)
                return y if rng(x)[1] < n else z3.URem(y, z3.BitVecVal(n, W))
            if x.w > W:
                return z3.Extract(W - 1, 0, z3.URem(y, z3.BitVecVal(n, x.w)))
            return z3.URem(y, z3.BitVecVal(n, W))
        tot = None
        for c, mono in poly:
            v = None
            for x in mono:
                v = red(x) if v is None else z3.URem(v * red(x), z3.BitVecVal(n, W))
            if v is None:
                v = z3.BitVecVal(c, W)
            elif c != 1:
                v = v * z3.BitVecVal(c, W)
            tot = v if tot is None else tot + v
        t.zv = z3.Extract(w - 1, 0, z3.URem(tot, z3.BitVecVal(n, W)))
    elif op == "gexp":
        t.zv = zbv(_gmux(t), w)
    elif op == "inv":
        t.zv = zbv(_imux(t), w)
    elif op == "uf":  # (name, in_width, arg)
        f = uf_decl(a[0], a[1], w)
        t.zv = f(zbv(a[2], a[1]))
    elif op == "extract":
        t.zv = z3.Extract(a[1], a[2], zbv(a[0], None))
    elif op == "concat":
        t.zv = z3.Concat(zbv(a[0], w - a[2]), zbv(a[1], a[2]))
    elif op == "zext":
        t.zv = z3.ZeroExt(w - a[0].w, zbv(a[0], None))
    elif op == "sext":
        t.zv = z3.SignExt(w - a[0].w, zbv(a[0], None))
    elif op == "ite":
        if w == 1:
            t.zb = z3.If(zbool(a[0]), zbool(a[1]), zbool(a[2]))
        else:
            t.zv = z3.If(zbool(a[0]), zbv(a[1], w), zbv(a[2], w))
    elif op == "not":
        if w == 1:
            t.zb = z3.Not(zbool(a[0]))
        else:
            t.zv = ~zbv(a[0], w)
    elif op == "eq":
        if a[2] == 1:
            t.zb = zbool(a[0]) == zbool(a[1])
        else:
            t.zb = zbv(a[0], a[2]) == zbv(a[1], a[2])
    elif op == "ult":
        t.zb = z3.ULT(zbv(a[0], a[2]), zbv(a[1], a[2]))
    elif op == "slt":
        t.zb = zbv(a[0], a[2]) < zbv(a[1], a[2])
    elif w == 1 and op in ("and", "or", "xor"):
        x, y = zbool(a[0]), zbool(a[1])
        t.zb = z3.And(x, y) if op == "and" else z3.Or(x, y) if op == "or" else z3.Xor(x, y)
    else:
        x, y = zbv(a[0], w), zbv(a[1], w)
        if op == "add": r = x + y
        elif op == "sub": r = x - y
        elif op == "mul": r = x * y
        elif op == "and": r = x & y
        elif op == "or": r = x | y
        elif op == "xor": r = x ^ y
        elif op == "shl": r = x << y
        elif op == "lshr": r = z3.LShR(x, y)
        elif op == "ashr": r = x >> y
        elif op == "udiv": r = z3.UDiv(x, y)
        elif op == "urem": r = z3.URem(x, y)
        elif op == "sdiv": r = x / y
        elif op == "srem": r = z3.SRem(x, y)
        else: raise Exception("translate " + op)
        t.zv = r

def uf(name, in_w, arg, out_w):
    return mk("uf", out_w, name, in_w, arg)
