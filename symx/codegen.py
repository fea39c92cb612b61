"""LLVM IR function -> Python segments executed by the symbolic engine.

A basic block is cut into segments at calls that may fork or enter another function.  A segment is a Python
function (r, st) -> next segment; r is the register list of the current frame, st the symbolic state.
"""
import re
from ir import *
from ir import P
import term as tm

class Unsupported(Exception):
    pass

NORET_OK = re.compile(r"^llvm\.(lifetime|experimental\.noalias|assume|dbg|donothing|prefetch|invariant|sideeffect|stackrestore|x86\.sse2\.pause|pseudoprobe)")

class FuncCode:
    """A function, compiled lazily block by block."""
    def __init__(self, eng, name):
        self.eng = eng
        self.name = name
        self.f = eng.mod.parse_func(name)
        self.slots = {}
        self.idx = {l: i for i, l in enumerate(self.f.order)}
        self.parsed = {}
        self.seg = {}
        self.params = [self.slot(p[1]) for p in self.f.params]
        for p in self.f.params:
            if "byval" in p[2]:
                raise Unsupported("byval parameter in " + name)
        self.phis = {}
        # number every register up front so frames can be sized
        for l in self.f.order:
            for s in self.f.blocks[l]:
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = ', s)
                if m:
                    self.slot(m.group(1))
        self.n = len(self.slots)
        self.consts = {}
        self.entry_label = self.f.order[0]
    def slot(self, n):
        s = self.slots.get(n)
        if s is None:
            s = self.slots[n] = len(self.slots)
        return s
    def entry(self):
        return self.segment(self.entry_label, 0)
    def block(self, l):
        b = self.parsed.get(l)
        if b is None:
            b = self.parsed[l] = [parse_inst(self.eng.mod, s) for s in self.f.blocks[l]]
        return b
    def phi(self, l):
        r = self.phis.get(l)
        if r is None:
            r = []
            for ins in self.block(l):
                if ins["op"] != "phi":
                    break
                r.append(ins)
            self.phis[l] = r
        return r
    def segment(self, l, k):
        s = self.seg.get((l, k))
        if s is None:
            s = Gen(self, l, k).build()
            self.seg[(l, k)] = s
        return s

def parse_inst(mod, s):
    dbg = None
    m = re.search(r", !dbg (!\d+)", s)
    if m:
        dbg = m.group(1)
    # cut the metadata attachments
    c = re.search(r", ![a-zA-Z_.]+ (!|\{)", s)
    core = s[:c.start()] if c and '"' not in s[:c.start()].split("asm")[0][:0] else s
    res = None
    m = re.match(r'(%"[^"]*"|%[-\w.$]+) = ', core)
    if m:
        res = m.group(1)
        core = core[m.end():]
    p = P(mod, tokens(core))
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    I = {"op": op, "res": res, "dbg": dbg, "src": s}
    try:
        _parse(mod, p, op, I, core)
    except (ParseError, IndexError, KeyError, ValueError) as e:
        I["op"] = "unsupported"
        I["why"] = "%s: %s" % (e, s[:200])
    return I

BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "ptrtoaddr", "freeze"}

def _parse(mod, p, op, I, core):
    if op in BINOPS:
        p.flags()
        t = p.type()
        a = p.value(t); p.want(","); b = p.value(t)
        I.update(t=t, a=a, b=b)
    elif op in ("icmp", "fcmp"):
        p.flags()
        pred = p.next()
        t = p.type()
        a = p.value(t); p.want(","); b = p.value(t)
        I.update(pred=pred, t=t, a=a, b=b)
    elif op == "freeze":
        t, v = p.tv()
        I.update(t=t, a=v, to=t)
    elif op in CASTS:
        p.flags()
        t = p.type(); v = p.value(t); p.want("to"); t2 = p.type()
        I.update(t=t, a=v, to=t2)
    elif op == "load":
        at = p.eat("atomic")
        p.flags()
        t = p.type(); p.want(","); pt = p.type(); v = p.value(pt)
        I.update(t=t, a=v)
    elif op == "store":
        at = p.eat("atomic")
        p.flags()
        t = p.type(); v = p.value(t); p.want(","); pt = p.type(); q = p.value(pt)
        I.update(t=t, v=v, a=q)
    elif op == "alloca":
        t = p.type()
        n = ("c", 1)
        if p.eat(",") and p.peek() != "align" and p.peek() != "addrspace":
            nt = p.type(); n = p.value(nt)
        I.update(t=t, n=n)
    elif op == "getelementptr":
        p.flags()
        t = p.type(); p.want(",")
        ops = []
        while True:
            x = p.type(); ops.append((x, p.value(x)))
            if not p.eat(","):
                break
        I.update(t=t, ops=ops)
    elif op == "phi":
        p.flags()
        t = p.type()
        inc = {}
        while True:
            p.want("[")
            v = p.value(t); p.want(","); l = p.next(); p.want("]")
            inc[unq(l)] = v
            if not p.eat(","):
                break
        I.update(t=t, inc=inc)
    elif op == "select":
        p.flags()
        ct = p.type(); c = p.value(ct); p.want(",")
        t, a = p.tv(); p.want(","); t2, b = p.tv()
        I.update(t=t, c=c, ct=ct, a=a, b=b)
    elif op == "br":
        if p.peek() == "label":
            p.next(); I.update(op="jmp", to=unq(p.next()))
        else:
            t = p.type(); c = p.value(t); p.want(","); p.want("label"); x = unq(p.next()); p.want(","); p.want("label"); y = unq(p.next())
            I.update(c=c, x=x, y=y)
    elif op == "switch":
        t = p.type(); v = p.value(t); p.want(","); p.want("label"); d = unq(p.next()); p.want("[")
        cases = []
        while not p.eat("]"):
            ct = p.type(); cv = p.value(ct); p.want(","); p.want("label"); cases.append((cv[1] if cv[0] == "c" else 0, unq(p.next())))
        I.update(t=t, a=v, default=d, cases=cases)
    elif op == "ret":
        t = p.type()
        I.update(t=t, a=None if t == VOID else p.value(t))
    elif op in ("unreachable", "resume"):
        pass
    elif op in ("call", "invoke"):
        p.flags()
        while p.peek() in CC:
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == "(":   # varargs function type
            p.skip_paren()
        if p.peek() == "asm":
            I.update(op="asm", rt=rt)
            m = re.search(r'asm (?:sideeffect |alignstack |inteldialect |unwind )*"((?:[^"])*)", "([^"]*)"', core)
            I.update(text=m.group(1), cons=m.group(2))
            p.i = len(p.t)
            # arguments
            k = core.index("(", m.end())
            q = P(mod, tokens(core[k:])); q.want("(")
            args = []
            if not q.eat(")"):
                while True:
                    t = q.type(); q.attrs(); args.append((t, q.value(t)))
                    if q.eat(")"): break
                    q.want(",")
            I.update(args=args)
            return
        f = p.value(PTR)
        p.want("(")
        args = []
        if not p.eat(")"):
            while True:
                t = p.type()
                at = p.attrs()
                if t == META:
                    d = 0
                    # metadata operand: skip to , or ) at depth 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        x = p.next()
                        if x in "({": d += 1
                        if x in ")}": d -= 1
                    args.append((t, None))
                else:
                    args.append((t, p.value(t)))
                if p.eat(")"): break
                p.want(",")
        I.update(rt=rt, f=f, args=args)
        if op == "invoke":
            m = re.search(r'to label (%"[^"]*"|%[-\w.$]+) +unwind', core)
            I.update(to=unq(m.group(1)))
    elif op == "extractvalue":
        t, v = p.tv()
        ix = []
        while p.eat(","):
            ix.append(int(p.next()))
        I.update(t=t, a=v, ix=ix)
    elif op == "insertvalue":
        t, v = p.tv(); p.want(","); et, e = p.tv()
        ix = []
        while p.eat(","):
            ix.append(int(p.next()))
        I.update(t=t, a=v, et=et, e=e, ix=ix)
    elif op == "insertelement":
        t, v = p.tv(); p.want(","); et, e = p.tv(); p.want(","); it, i = p.tv()
        I.update(t=t, a=v, e=e, i=i)
    elif op == "extractelement":
        t, v = p.tv(); p.want(","); it, i = p.tv()
        I.update(t=t, a=v, i=i)
    elif op == "shufflevector":
        t, a = p.tv(); p.want(","); t2, b = p.tv(); p.want(","); mt, m_ = p.tv()
        I.update(t=t, a=a, b=b, mt=mt, m=m_)
    elif op == "atomicrmw":
        p.flags()
        k = p.next(); pt = p.type(); a = p.value(pt); p.want(","); t = p.type(); v = p.value(t)
        I.update(k=k, a=a, t=t, v=v)
    elif op == "cmpxchg":
        p.flags()
        pt = p.type(); a = p.value(pt); p.want(","); t = p.type(); c = p.value(t); p.want(","); t2 = p.type(); n = p.value(t2)
        I.update(a=a, t=t, c=c, n=n)
    elif op in ("fence", "landingpad"):
        pass
    elif op == "fneg":
        p.flags()
        t, v = p.tv()
        I.update(t=t, a=v)
    else:
        raise ParseError("instruction " + op)

def vec_bits(t):
    return t[2][1] if t[2][0] == "i" else 64

class Gen:
    def __init__(self, fc, l, k):
        self.fc, self.eng, self.l, self.k = fc, fc.eng, l, k
        self.out = []
        self.ns = {"tm": tm, "E": fc.eng, "FN": fc, "L": l}
        self.ns.update(fc.eng.ns)
        self.nk = 0
        self.dbgs = set()
    def const(self, v):
        self.nk += 1
        n = "K%d" % self.nk
        self.ns[n] = v
        return n
    def emit(self, s):
        self.out.append(s)
    # ---- operands
    def cval(self, t, v):
        """python constant for a constant operand"""
        k = v[0]
        if k == "c":
            return v[1]
        if k == "z":
            return zero(t)
        if k == "g":
            return self.eng.gaddr(v[1])
        if k == "agg":
            return tuple(self.cval(a, b) for a, b in v[1])
        if k == "s":
            return tuple(v[1])
        if k == "gep":
            return self.eng.cgep(v, self.cval)
        if k == "cast":
            x = self.cval(v[2], v[3])
            if v[1] == "trunc":
                return x & tm.M(bits(v[4]))
            return x
        if k == "cbin":
            return tm.BIN[v[1]](self.cval(v[2], v[3]), self.cval(v[2], v[4]), bits(v[2]))
        raise Unsupported("constant %r" % (v,))
    def val(self, t, v):
        """(python expression, is constant)"""
        if v[0] == "r":
            return "r[%d]" % self.fc.slot(v[1]), False
        c = self.cval(t, v)
        if isinstance(c, (int, float)):
            return ("%d" % c if isinstance(c, int) else self.const(c)), True
        return self.const(c), True
    def dst(self, I):
        return "r[%d]" % self.fc.slot(I["res"])
    # ---- edges
    def edge(self, to):
        """statements moving phi values, for the edge from this block to block `to`"""
        ph = self.fc.phi(to)
        if not ph:
            return []
        d, s = [], []
        for I in ph:
            v = I["inc"].get(self.l)
            if v is None:
                raise Unsupported("phi edge %s->%s" % (self.l, to))
            e, _ = self.val(I["t"], v)
            if e != self.dst(I):
                d.append(self.dst(I)); s.append(e)
        if not d:
            return []
        return ["%s = %s" % (", ".join(d), ", ".join(s))]
    def goto(self, to, ind=""):
        for s in self.edge(to):
            self.emit(ind + s)
        j = len(self.fc.phi(to))
        self.emit(ind + "return seg(FN, %r, %d)" % (to, j))
    def edge_fn(self, to):
        """a named segment that performs the edge"""
        nm = "edge%d" % self.nk
        self.nk += 1
        body = self.edge(to)
        src = "def %s(r, st):\n" % nm + "".join("  %s\n" % s for s in body) + "  return seg(FN, %r, %d)\n" % (to, len(self.fc.phi(to)))
        exec(src, self.ns)
        return nm
    def build(self):
        blk = self.fc.block(self.l)
        k = self.k
        # skip phis when entered through an edge
        while k < len(blk) and blk[k]["op"] == "phi":
            k += 1
        self.start = k
        while True:
            I = blk[k]
            if I["dbg"]:
                self.dbgs.add(I["dbg"])
            self.cur = k
            try:
                done = self.inst(I, k)
            except Unsupported as e:
                self.emit("return st.unsupported(%r)" % str(e))
                done = True
            if done:
                break
            k += 1
        cov = self.eng.new_cov(self.fc, self.dbgs)
        src = "def S(r, st):\n COV[%d] = 1\n" % cov + "".join(" " + s + "\n" for s in self.out)
        self.ns["COV"] = self.eng.cov
        try:
            exec(compile(src, "%s:%s" % (self.fc.name[-60:], self.l), "exec"), self.ns)
        except SyntaxError:
            print(src)
            raise
        f = self.ns["S"]
        return f
    # ---- instructions
    def ptr(self, t, v):
        """expression for a concrete pointer operand, emitting the concretisation guard"""
        e, c = self.val(t, v)
        if not c:
            self.emit("if type(%s) is not int: return st.conc(%d, FN, L, %d)" % (e, self.fc.slot(v[1]), self.cur))
        return e
    def inst(self, I, k):
        m = getattr(self, "i_" + I["op"], None)
        if m is None:
            if I["op"] in BINOPS:
                return self.binop(I)
            if I["op"] in CASTS:
                return self.cast(I)
            raise Unsupported(I.get("why") or I["op"])
        return m(I)
    def i_unsupported(self, I):
        raise Unsupported(I["why"])
    def i_phi(self, I):
        return False
    def binop(self, I):
        t, op = I["t"], I["op"]
        x, cx = self.val(t, I["a"]); y, cy = self.val(t, I["b"])
        d = self.dst(I)
        if t[0] == "vec":
            self.emit("%s = vbin(%r, %s, %s, %d)" % (d, op, x, y, vec_bits(t)))
            return
        if t[0] in ("f64", "f32"):
            o = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op]
            self.emit("%s = %s %s %s" % (d, x, o, y))
            return
        w = bits(t)
        mask = "0x%x" % tm.M(w)
        fast = {"add": "(%s + %s) & " + mask, "sub": "(%s - %s) & " + mask, "mul": "(%s * %s) & " + mask,
                "and": "%s & %s", "or": "%s | %s", "xor": "%s ^ %s"}.get(op)
        if op in ("shl", "lshr") and cy:
            fast = "(%s << %s) & " + mask if op == "shl" else "%s >> %s"
        slow = "t_%s(%s, %s, %d)" % (op, x, y, w)
        if op in ("udiv", "urem", "sdiv", "srem") and not cy:
            # a zero divisor is undefined: rustc guards it
            self.emit("%s = %s" % (d, slow))
            return
        if fast is None:
            self.emit("%s = %s" % (d, slow))
            return
        g = " and ".join(["type(%s) is int" % e for e, c in ((x, cx), (y, cy)) if not c]) or "True"
        self.emit("%s = %s if %s else %s" % (d, fast % (x, y), g, slow))
    def cast(self, I):
        op, t, to = I["op"], I["t"], I["to"]
        x, c = self.val(t, I["a"])
        d = self.dst(I)
        if op == "freeze":
            self.emit("%s = %s" % (d, x))
            return
        if t[0] == "vec" or to[0] == "vec":
            if op == "bitcast":
                self.emit("%s = vbitcast(%s, %r, %r)" % (d, x, t, to))
            else:
                self.emit("%s = vcast(%r, %s, %d, %d)" % (d, op, x, vec_bits(t), vec_bits(to)))
            return
        if t[0] in ("f64", "f32") or to[0] in ("f64", "f32"):
            self.emit("%s = fcast(%r, %s, %r, %r)" % (d, op, x, t, to))
            return
        w0, w1 = bits(t), bits(to)
        if op == "zext":
            self.emit("%s = %s if type(%s) is int else t_zext(%s, %d, %d)" % (d, x, x, x, w0, w1))
        elif op == "sext":
            self.emit("%s = t_sext(%s, %d, %d)" % (d, x, w0, w1))
        elif op == "trunc" or (op in ("ptrtoint", "inttoptr", "ptrtoaddr") and w1 < w0):
            self.emit("%s = %s & 0x%x if type(%s) is int else t_extract(%s, %d, 0)" % (d, x, tm.M(w1), x, x, w1 - 1))
        elif op in ("ptrtoint", "inttoptr", "bitcast", "ptrtoaddr"):
            if w1 > w0:
                self.emit("%s = t_zext(%s, %d, %d)" % (d, x, w0, w1))
            else:
                self.emit("%s = %s" % (d, x))
        else:
            raise Unsupported("cast " + op)
    def i_icmp(self, I):
        t = I["t"]
        x, cx = self.val(t, I["a"]); y, cy = self.val(t, I["b"])
        d = self.dst(I)
        if t[0] == "vec":
            self.emit("%s = vicmp(%r, %s, %s, %d)" % (d, I["pred"], x, y, vec_bits(t)))
            return
        w = bits(t)
        p = I["pred"]
        o = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}.get(p)
        slow = "t_icmp(%r, %s, %s, %d)" % (p, x, y, w)
        if o is None:
            self.emit("%s = %s" % (d, slow))
            return
        g = " and ".join(["type(%s) is int" % e for e, c in ((x, cx), (y, cy)) if not c]) or "True"
        self.emit("%s = (1 if %s %s %s else 0) if %s else %s" % (d, x, o, y, g, slow))
    def i_fcmp(self, I):
        x, _ = self.val(I["t"], I["a"]); y, _ = self.val(I["t"], I["b"])
        self.emit("%s = fcmp(%r, %s, %s)" % (self.dst(I), I["pred"], x, y))
    def i_fneg(self, I):
        x, _ = self.val(I["t"], I["a"])
        self.emit("%s = -%s" % (self.dst(I), x))
    def i_select(self, I):
        t = I["t"]
        c, cc = self.val(I["ct"], I["c"])
        x, _ = self.val(t, I["a"]); y, _ = self.val(t, I["b"])
        d = self.dst(I)
        if I["ct"][0] == "vec":
            self.emit("%s = vselect(%s, %s, %s, %d)" % (d, c, x, y, vec_bits(t)))
        elif t[0] in ("i", "p"):
            self.emit("%s = (%s if %s else %s) if type(%s) is int else t_ite(%s, %s, %s, %d)" % (d, x, c, y, c, c, x, y, bits(t)))
        elif t[0] in ("f32", "f64"):
            self.emit("%s = (%s if %s else %s) if type(%s) is int else fsel()" % (d, x, c, y, c))
        else:
            self.emit("%s = agg_ite(%s, %s, %s, %s)" % (d, c, x, y, self.const(t)))
    def i_alloca(self, I):
        n = I["n"]
        if n[0] != "c":
            raise Unsupported("dynamic alloca")
        self.emit("%s = st.alloca(%d)" % (self.dst(I), size(I["t"]) * n[1]))
    def i_load(self, I):
        t = I["t"]
        d = self.dst(I)
        e, c = self.val(PTR, I["a"])
        if t[0] in ("i", "p"):
            n = (bits(t) + 7) // 8
            if not c:
                self.emit("if type(%s) is not int:" % e)
                self.emit("  x = st.load_sym(%s, %d)" % (e, n))
                self.emit("  if x is None: return st.conc(%d, FN, L, %d)" % (self.fc.slot(I["a"][1]), self.cur))
                self.emit("else: x = st.load(%s, %d)" % (e, n))
            else:
                self.emit("x = st.load(%s, %d)" % (e, n))
            if bits(t) % 8:
                self.emit("x = x & 0x%x if type(x) is int else t_extract(x, %d, 0)" % (tm.M(bits(t)), bits(t) - 1))
            self.emit("%s = x" % d)
        else:
            e = self.ptr(PTR, I["a"])
            self.emit("%s = st.load_ty(%s, %s)" % (d, e, self.const(t)))
    def i_store(self, I):
        t = I["t"]
        v, _ = self.val(t, I["v"])
        e = self.ptr(PTR, I["a"])
        if t[0] in ("i", "p"):
            w = bits(t)
            if w % 8:
                v = "t_zext(%s, %d, %d)" % (v, w, (w + 7) // 8 * 8)
            self.emit("st.store(%s, %s, %d)" % (e, v, (w + 7) // 8))
        else:
            self.emit("st.store_ty(%s, %s, %s)" % (e, v, self.const(t)))
    def i_getelementptr(self, I):
        d = self.dst(I)
        t = I["t"]
        base, cb = self.val(*I["ops"][0])
        if I["ops"][0][0][0] == "vec":
            raise Unsupported("vector gep")
        off = 0
        terms = []
        cur = t
        for n, (it, iv) in enumerate(I["ops"][1:]):
            if n == 0:
                sc = size(cur)
            elif cur[0] == "s":
                ix = self.cval(it, iv)
                off += offsets(cur)[0][ix]
                cur = cur[1][ix]
                continue
            elif cur[0] in ("a", "vec"):
                cur = cur[2]
                sc = size(cur)
            else:
                raise Unsupported("gep type")
            if iv[0] == "r":
                w = bits(it)
                e, _ = self.val(it, iv)
                terms.append((e, w, sc))
            else:
                v = self.cval(it, iv)
                off += tm.sgn(v, bits(it)) * sc
        if not terms:
            if off == 0:
                self.emit("%s = %s" % (d, base))
            elif cb:
                self.emit("%s = (%s + %d) & 0xffffffffffffffff" % (d, base, off))
            else:
                self.emit("%s = (%s + %d) & 0xffffffffffffffff if type(%s) is int else t_add(%s, 0x%x, 64)" % (d, base, off, base, base, off & tm.M(64)))
            return
        x = "t_add(%s, 0x%x, 64)" % (base, off & tm.M(64)) if off else base
        if all(w == 64 for _, w, _ in terms):
            g = " and ".join("type(%s) is int" % e for e in ([] if cb else [base]) + [e for e, _, _ in terms])
            fast = "(%s + %d%s) & 0xffffffffffffffff" % (base, off, "".join(" + %s * %d" % (e, sc) for e, _, sc in terms))
            slow = x
            for e, w, sc in terms:
                slow = "t_add(%s, t_mul(%s, %d, 64), 64)" % (slow, e, sc)
            self.emit("%s = %s if %s else %s" % (d, fast, g, slow))
        else:
            slow = x
            for e, w, sc in terms:
                ee = e if w == 64 else "t_sext(%s, %d, 64)" % (e, w)
                slow = "t_add(%s, t_mul(%s, %d, 64), 64)" % (slow, ee, sc)
            self.emit("%s = %s" % (d, slow))
    def i_extractvalue(self, I):
        x, _ = self.val(I["t"], I["a"])
        self.emit("%s = %s%s" % (self.dst(I), x, "".join("[%d]" % i for i in I["ix"])))
    def i_insertvalue(self, I):
        x, _ = self.val(I["t"], I["a"]); e, _ = self.val(I["et"], I["e"])
        self.emit("%s = agg_ins(%s, %s, %s)" % (self.dst(I), x, e, tuple(I["ix"])))
    def i_insertelement(self, I):
        x, _ = self.val(I["t"], I["a"]); e, _ = self.val(I["t"][2], I["e"])
        i, c = self.val(("i", 64), I["i"])
        self.emit("%s = agg_ins(%s, %s, (%s,))" % (self.dst(I), x, e, i))
    def i_extractelement(self, I):
        x, _ = self.val(I["t"], I["a"]); i, _ = self.val(("i", 64), I["i"])
        self.emit("%s = %s[%s]" % (self.dst(I), x, i))
    def i_shufflevector(self, I):
        x, _ = self.val(I["t"], I["a"]); y, _ = self.val(I["t"], I["b"])
        mk = self.cval(I["mt"], I["m"])
        self.emit("q = tuple(%s) + tuple(%s); %s = tuple(q[i] for i in %s)" % (x, y, self.dst(I), tuple(mk)))
    def i_atomicrmw(self, I):
        e = self.ptr(PTR, I["a"])
        v, _ = self.val(I["t"], I["v"])
        w = bits(I["t"]); n = (w + 7) // 8
        self.emit("x = st.load(%s, %d)" % (e, n))
        k = I["k"]
        nv = {"xchg": v, "add": "t_add(x, %s, %d)" % (v, w), "sub": "t_sub(x, %s, %d)" % (v, w), "and": "t_and(x, %s, %d)" % (v, w),
              "or": "t_or(x, %s, %d)" % (v, w), "xor": "t_xor(x, %s, %d)" % (v, w)}.get(k)
        if nv is None:
            raise Unsupported("atomicrmw " + k)
        self.emit("st.store(%s, %s, %d)" % (e, nv, n))
        self.emit("%s = x" % self.dst(I))
    def i_cmpxchg(self, I):
        e = self.ptr(PTR, I["a"])
        c, _ = self.val(I["t"], I["c"]); v, _ = self.val(I["t"], I["n"])
        w = bits(I["t"]); n = (w + 7) // 8
        self.emit("x = st.load(%s, %d); q = t_eq(x, %s, %d)" % (e, n, c, w))
        self.emit("st.store(%s, t_ite(q, %s, x, %d), %d)" % (e, v, w, n))
        self.emit("%s = (x, q)" % self.dst(I))
    def i_fence(self, I):
        pass
    def i_landingpad(self, I):
        raise Unsupported("landingpad reached")
    def i_resume(self, I):
        raise Unsupported("resume reached")
    def i_asm(self, I):
        if I["text"].strip() in ("", "#") or "{0}" in I["text"] and False:
            outs = [c for c in I["cons"].split(",") if c.startswith("=")]
            if I["res"] and I["args"]:
                e, _ = self.val(*I["args"][0])
                self.emit("%s = %s" % (self.dst(I), e))
            elif I["res"]:
                raise Unsupported("asm output: " + I["src"][:200])
            return
        raise Unsupported("inline asm: " + I["src"][:200])
    # ---- terminators
    def i_jmp(self, I):
        self.goto(I["to"])
        return True
    def i_br(self, I):
        c, cc = self.val(("i", 1), I["c"])
        x, y = I["x"], I["y"]
        if not cc:
            self.emit("c = %s" % c)
            self.emit("if type(c) is not int: return st.fork(c, %s, %s)" % (self.edge_fn(x), self.edge_fn(y)))
            self.emit("if c:")
            self.goto(x, "  ")
            self.goto(y)
        else:
            self.goto(x if c != "0" else y)
        return True
    def i_switch(self, I):
        v, c = self.val(I["t"], I["a"])
        w = bits(I["t"])
        tab = {}
        for cv, l in I["cases"]:
            tab.setdefault(cv, l)
        edges = {}
        for l in set(tab.values()) | {I["default"]}:
            edges[l] = self.ns[self.edge_fn(l)]
        T = {cv: edges[l] for cv, l in tab.items()}
        n = self.const(T); dn = self.const(edges[I["default"]])
        self.emit("x = %s" % v)
        self.emit("if type(x) is int: return %s.get(x, %s)" % (n, dn))
        self.emit("return st.fork_switch(x, %d, %s, %s)" % (w, n, dn))
        return True
    def i_ret(self, I):
        if I["a"] is None:
            self.emit("return st.ret(None)")
        else:
            e, _ = self.val(I["t"], I["a"])
            self.emit("return st.ret(%s)" % e)
        return True
    def i_unreachable(self, I):
        self.emit("return st.unreachable(FN)")
        return True
    # ---- calls
    def i_invoke(self, I):
        return self.i_call(I)
    def after(self, I):
        """(label,index) where execution continues after this call"""
        return None
    def i_call(self, I):
        args = I["args"]
        f = I["f"]
        inv = I["op"] == "invoke"
        if inv:
            nxt = self.edge_fn(I["to"])
            nxt_expr = nxt
        else:
            nxt_expr = "seg(FN, L, %d)" % (self.cur + 1)
        slot = self.fc.slot(I["res"]) if I["res"] else -1
        if f[0] == "g":
            name = f[1][1:]
            if name.startswith("llvm."):
                r = self.intrinsic(name, I, args)
                if inv:
                    self.goto(I["to"])
                    return True
                return r
            h = self.eng.handler(name)
            if h is not None:
                kind, fn = h
                av = [self.val(t, v)[0] for t, v in args if v is not None]
                if kind in ("pure", "puresym"):     # value = fn(st, args...), every argument (of puresym: every pointer) concrete
                    for (t, v) in args:
                        if v is not None and t[0] in (("p", "i") if kind == "pure" else ("p",)):
                            self.ptr(t, v)
                    call = "%s(st, %s)" % (self.const(fn), ", ".join(av))
                    if slot >= 0:
                        self.emit("r[%d] = %s" % (slot, call))
                    else:
                        self.emit(call)
                    if inv:
                        self.goto(I["to"])
                        return True
                    return False
                # may fork or end the path: fn(st, r, slot, next, conc, args)
                for (t, v) in args:
                    if v is not None and t[0] in (("p", "i") if kind == "ctlc" else ("p",)):
                        self.ptr(t, v)
                self.emit("return %s(st, r, %d, %s, %s)" % (self.const(fn), slot, nxt_expr, "".join(a + ", " for a in av)[:-2] if av else "None"))
                return True
            if f[1][1:] not in self.eng.mod.funcs:
                raise Unsupported("external function " + name)
            av = [self.val(t, v)[0] for t, v in args if v is not None]
            self.emit("return st.call(CODE(%r), (%s), %d, %s)" % (name, "".join(a + ", " for a in av), slot, nxt_expr))
            return True
        # indirect
        e = self.ptr(PTR, f)
        av = [self.val(t, v)[0] for t, v in args if v is not None]
        self.emit("return st.icall(%s, (%s), %d, %s)" % (e, "".join(a + ", " for a in av), slot, nxt_expr))
        return True
    def intrinsic(self, name, I, args):
        if NORET_OK.match(name):
            return False
        d = self.dst(I) if I["res"] else None
        base = name[5:]
        if base.startswith(("memcpy", "memmove")):
            a = self.ptr(*args[0]); b = self.ptr(*args[1]); n = self.ptr(*args[2])
            self.emit("st.memcpy(%s, %s, %s)" % (a, b, n))
            return False
        if base.startswith("memset"):
            a = self.ptr(*args[0]); n = self.ptr(*args[2])
            v, _ = self.val(*args[1])
            self.emit("st.memset(%s, %s, %s)" % (a, v, n))
            return False
        if base == "trap" or base == "debugtrap" or base == "ubsantrap":
            self.emit("return st.panic('trap')")
            return True
        t = args[0][0] if args else None
        av = [self.val(tt, v)[0] for tt, v in args if v is not None]
        k = base.split(".")[0] if not base.startswith(("x86", "vector", "threadlocal", "is.constant")) else base
        if base.startswith("threadlocal.address") or base.startswith("ptrmask") and False:
            self.emit("%s = %s" % (d, av[0])); return False
        if base.startswith("is.constant"):
            self.emit("%s = 0" % d); return False
        if base.startswith(("launder", "strip", "expect", "ssa.copy")):
            self.emit("%s = %s" % (d, av[0])); return False
        if base.startswith("stacksave"):
            self.emit("%s = 0" % d); return False
        if k == "objectsize":
            self.emit("%s = 0x%x" % (d, tm.M(64))); return False
        if base.startswith("load.relative"):
            raise Unsupported(name)
        if t is not None and t[0] == "f64":
            self.emit("%s = fintr(%r, %s)" % (d, base, ", ".join(av))); return False
        w = bits(t) if t and t[0] in ("i", "p") else None
        if base.startswith("x86.addcarry"):
            self.emit("%s = x_addcarry(%s, %d)" % (d, ", ".join(av), 64 if base.endswith("64") else 32)); return False
        if base.startswith("x86.subborrow"):
            self.emit("%s = x_subborrow(%s, %d)" % (d, ", ".join(av), 64 if base.endswith("64") else 32)); return False
        if w is None and t and t[0] == "vec":
            self.emit("%s = vintr(%r, %d, (%s,))" % (d, base, vec_bits(t), ", ".join(av))); return False
        if k in ("umin", "umax", "smin", "smax", "fshl", "fshr", "ctlz", "cttz", "ctpop", "bswap", "bitreverse", "abs") or "with.overflow" in base or ".sat." in base:
            self.emit("%s = intr(%r, %d, %s)" % (d, base, w, ", ".join(av))); return False
        if k in ("ucmp", "scmp"):
            self.emit("%s = t_%s(%s, %d, %d)" % (d, k, ", ".join(av), w, bits(I["rt"]))); return False
        raise Unsupported("intrinsic " + name)

def zero(t):
    k = t[0]
    if k in ("i", "p", "v"):
        return 0
    if k in ("f32", "f64"):
        return 0.0
    if k in ("a", "vec"):
        return tuple(zero(t[2]) for _ in range(t[1]))
    if k == "s":
        return tuple(zero(x) for x in t[1])
    return 0
