"""Symbolic execution engine over LLVM IR: states, memory, forking, solver, environment intrinsics."""
import re, sys, time, math
import z3
import term as tm
from term import T, extract, concat_list, eq, ite, b_and, b_not, b_or
from ir import Module, size, offsets, bits, P
from codegen import FuncCode, Unsupported, zero
import intr as X

class MemError(Exception):
    pass

class PathEnd(Exception):
    pass

PANIC = re.compile(r"core9panicking|rust_begin_unwind|std9panicking|unwrap_failed|expect_failed|slice_\w*fail|handle_alloc_error|"
                   r"capacity_overflow|7raw_vec12handle_error|panic_cold|__rust_start_panic|10rust_panic|str16slice_error_fail|"
                   r"len_mismatch_fail|panic_fmt|panic_display|panic_bounds_check|panic_already|in_function_that_cannot_unwind|cell\d+panic_already")

class Obj:
    __slots__ = ("data", "sym", "ep")
    def __init__(self, data, sym, ep):
        self.data, self.sym, self.ep = data, sym, ep

class Engine:
    def __init__(self, path, opts=None, mod=None):
        self.mod = mod or Module(path)
        self.opts = dict(timeout_ms=60000, max_paths=20000, conc_limit=300, time_limit=800)
        self.opts.update(opts or {})
        self.code = {}
        self.cov = []
        self.covinfo = []
        self.gid = {}
        self.gname = {}
        self.gobjs = {}
        self.faddr = {}
        self.fname = {}
        self.nid = 1
        self.ep = 0
        self.handlers = {}
        self._hc = {}
        self.ns = {k: getattr(X, k) for k in dir(X) if not k.startswith("_")}
        self.ns["seg"] = FuncCode.segment
        self.ns["CODE"] = self.get_code
        for k in tm.BIN:
            self.ns["t_" + k] = tm.BIN[k]
        self.ns.update(t_zext=tm.zext, t_sext=tm.sext, t_extract=tm.extract, t_icmp=tm.icmp, t_ite=tm.ite, t_eq=tm.eq, int=int, type=type)
        install(self)
        self.stats = dict(paths=0, queries=0, solver_s=0.0, checks=0, checks_solver=0, checks_trivial=0, segs=0, forks=0, sat=0, unsat=0)
        self.saved = []
        self.reset_solver()
    # ---- code
    def get_code(self, name):
        c = self.code.get(name)
        if c is None:
            c = self.code[name] = FuncCode(self, name)
        return c
    def new_cov(self, fc, dbgs):
        self.cov.append(0)
        self.covinfo.append((fc.name, dbgs))
        return len(self.cov) - 1
    def handler(self, name):
        if name in self._hc:
            return self._hc[name]
        h = self.handlers.get(name)
        if h is None:
            m = re.match(r"_RNvCs\w+_7___rustc\d+_?(_?_?rust_\w+)$", name) or re.match(r"^_?(__rust_\w+|__rg_\w+|__rdl_\w+)$", name)
            if m:
                h = self.handlers.get(re.sub(r"^_*(rust|rg|rdl)_", "rust_", m.group(1)))
            if h is None and PANIC.search(name):
                nm = name
                h = ("ctl", lambda st, r, slot, nxt, *a: st.panic(nm, a))
            if h is None and UTF8.search(name):
                h = self.utf8(name)
        self._hc[name] = h
        return h
    def utf8(self, name):
        """core::str::from_utf8 of symbolic bytes: one decision, on validity (on error the details are 0)"""
        i = self.mod.funcs.get(name)
        if i is None or not UTF8_SIG.search(self.mod.lines[i[0]]):
            return None
        def f(st, r, slot, nxt, out, p, n):
            b = st.read_bytes(p, n)
            if n > 600 or all(type(x) is int for x in b):
                return st.call(self.get_code(name), (out, p, n), slot, nxt)
            def good(r, st):
                st.store(out, 0, 8), st.store(out + 8, p, 8), st.store(out + 16, n, 8)
                return nxt
            def bad(r, st):
                st.store(out, 1, 8), st.store(out + 8, 0, 8), st.store(out + 16, 0, 8)
                return nxt
            v = valid_utf8(b)
            if type(v) is int:
                return (good if v else bad)(r, st)
            return st.fork(v, good, bad)
        return ("ctlc", f)
    # ---- globals
    def newid(self):
        self.nid += 1
        return self.nid
    def gaddr(self, name):
        name = name[1:]
        if name in self.mod.funcs or name in self.handlers:
            a = self.faddr.get(name)
            if a is None:
                a = self.newid() << 32
                self.faddr[name] = a
                self.fname[a] = name
            return a
        i = self.gid.get(name)
        if i is None:
            if "@" + name not in self.mod.globals:
                # declared but undefined function or extern_weak
                a = self.faddr.get(name)
                if a is None:
                    a = self.newid() << 32
                    self.faddr[name] = a
                    self.fname[a] = name
                return a
            i = self.newid()
            self.gid[name] = i
            self.gname[i] = name
        return i << 32
    def gobj(self, i):
        o = self.gobjs.get(i)
        if o is None:
            n = self.gname.get(i)
            if n is None:
                raise MemError("access to unknown object %d" % i)
            o = self.gobjs[i] = self.init_global(n)
        return o
    def init_global(self, name):
        line = self.mod.globals["@" + name]
        line = re.sub(r", (align \d+|comdat.*|section .*|partition .*|!\w+ !\d+|!dbg.*)", "", line) if False else line
        from ir import tokens, LINK
        # cut the attachments after the initialiser: find by parsing
        p = P(self.mod, tokens(line))
        while True:
            x = p.peek()
            if x in ("global", "constant"):
                p.next()
                break
            p.next()
        t = p.type()
        v = p.value(t)
        data = bytearray(size(t))
        self.init_bytes(data, 0, t, v)
        return Obj(data, None, -1)
    def init_bytes(self, data, off, t, v):
        k = v[0]
        if k == "z":
            return
        if k == "s":
            data[off:off + len(v[1])] = v[1]
            return
        if k == "agg":
            if t[0] == "s":
                for o, (et, ev) in zip(offsets(t)[0], v[1]):
                    self.init_bytes(data, off + o, et, ev)
            else:
                n = size(t[2])
                for j, (et, ev) in enumerate(v[1]):
                    self.init_bytes(data, off + j * n, et, ev)
            return
        c = self.cconst(t, v)
        n = size(t)
        if isinstance(c, float):
            import struct
            data[off:off + n] = struct.pack("<d", c)
        else:
            data[off:off + n] = (c & tm.M(8 * n)).to_bytes(n, "little")
    def cconst(self, t, v):
        k = v[0]
        if k == "c":
            return v[1]
        if k == "z":
            return 0
        if k == "g":
            return self.gaddr(v[1])
        if k == "gep":
            return self.cgep(v, self.cconst)
        if k == "cast":
            return self.cconst(v[2], v[3])
        if k == "cbin":
            return tm.BIN[v[1]](self.cconst(v[2], v[3]), self.cconst(v[2], v[4]), bits(v[2]))
        raise Unsupported("constant %r" % (v,))
    def cgep(self, v, cval):
        _, t, ops = v
        a = cval(*ops[0])
        cur = t
        for n, (it, iv) in enumerate(ops[1:]):
            ix = tm.sgn(cval(it, iv), bits(it))
            if n == 0:
                a += ix * size(cur)
            elif cur[0] == "s":
                a += offsets(cur)[0][ix]
                cur = cur[1][ix]
            else:
                cur = cur[2]
                a += ix * size(cur)
        return a & tm.M(64)
    # ---- solver
    def second_solver(self):
        """re-decide the saved unsatisfiable queries with cvc5"""
        import subprocess
        out = dict(checked=0, agreed=0, unknown=0, disagreed=0)
        for pc, c, name in self.saved:
            s = z3.Solver()
            for x in pc:
                s.add(tm.zbool(x))
            s.add(tm.zbool(c))
            out["checked"] += 1
            try:
                p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000"], input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True, text=True, timeout=40)
                a = p.stdout.strip().splitlines()[-1:] or [""]
            except subprocess.TimeoutExpired:
                a = ["unknown"]
            if a[0] == "unsat":
                out["agreed"] += 1
            elif a[0] == "sat":
                out["disagreed"] += 1
                out["what"] = name
            else:
                out["unknown"] += 1
        return out
    def reset_solver(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.opts["timeout_ms"])
        self.stack = []
        self.asolver = z3.Solver()
        self.asolver.set("timeout", 3000)
        self.astack = []
    def sync(self, pc):
        s = self.stack
        n = 0
        m = min(len(s), len(pc))
        while n < m and s[n] is pc[n]:
            n += 1
        if len(s) > n:
            self.solver.pop(len(s) - n)
            del s[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(tm.zbool(c))
            s.append(c)
    def query(self, pc, c):
        """is pc and c satisfiable?  returns (verdict, model)"""
        t0 = time.time()
        self.stats["queries"] += 1
        if (type(c) is T and c.hv) or any(x.hv for x in pc):
            # first with products and residues abstracted to arbitrary values: an unsat answer is final
            tm.ABS = True
            try:
                a, s = self.astack, self.asolver
                n, m = 0, min(len(a), len(pc))
                while n < m and a[n] is pc[n]:
                    n += 1
                if len(a) > n:
                    s.pop(len(a) - n)
                    del a[n:]
                for x in pc[n:]:
                    s.push()
                    s.add(tm.zbool(x))
                    a.append(x)
                s.push()
                s.add(tm.zbool(c))
                for x in tm.lemmas():
                    s.add(x)
                r = s.check()
                s.pop()
                if r != z3.unsat and (r == z3.unknown or tm.lemmas()):
                    # a fresh, non-incremental solver often decides what the incremental core cannot
                    s = z3.SolverFor("QF_UFBV")
                    s.set("timeout", 20000)
                    for x in list(pc) + [c]:
                        s.add(tm.zbool(x))
                    for x in tm.lemmas():
                        s.add(x)
                    r = s.check()
                if self.opts.get("verbose") and time.time() - t0 > 1: print("abstract %.1f %s" % (time.time() - t0, r), file=sys.stderr)
            finally:
                tm.ABS = False
            if r == z3.unsat:
                self.stats["solver_s"] += time.time() - t0
                self.stats["unsat"] += 1
                return r, None
        self.sync(pc)
        self.solver.push()
        self.solver.add(tm.zbool(c) if type(c) is T else z3.BoolVal(bool(c)))
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            # a fresh, non-incremental solver often decides what the incremental core cannot
            s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "ackermannize_bv", "simplify", "bit-blast", "sat").solver() if False else z3.SolverFor("QF_UFBV")
            s2.set("timeout", self.opts["timeout_ms"] * 3)
            for a in self.solver.assertions():
                s2.add(a)
            r = s2.check()
            m = s2.model() if r == z3.sat else None
        self.solver.pop()
        dt = time.time() - t0
        self.stats["solver_s"] += dt
        if dt > self.opts.get("slow", 3) and self.opts.get("verbose"):
            print("PC", [tm.show(x, 6)[:1000] for x in pc[-12:]], file=sys.stderr)
            print("slow query %.1fs %s: %s" % (dt, r, tm.show(c, 5)[:300]), file=sys.stderr)
        if r == z3.sat:
            self.stats["sat"] += 1
        elif r == z3.unsat:
            self.stats["unsat"] += 1
        return r, m
    # ---- running
    def run(self, fname):
        """Explore every path of a harness.  Returns a result dictionary."""
        self.t0 = time.time()
        self.results = dict(violations=[], inconclusive=[], reached={}, assumes_killed=0, paths_done=0)
        st = State(self)
        fc = self.get_code(fname)
        st.r = [None] * fc.n
        st.seg = fc.entry()
        self.work = [st]
        while self.work:
            st = self.work.pop()
            self.stats["paths"] += 1
            if self.stats["paths"] > self.opts["max_paths"] or time.time() - self.t0 > self.opts["time_limit"]:
                self.results["inconclusive"].append("path or time budget exhausted after %d paths, %d pending" % (self.stats["paths"], len(self.work) + 1))
                break
            self.run_path(st)
            if self.results["violations"] and self.opts.get("stop_first", True):
                break
        self.results["stats"] = dict(self.stats)
        self.results["time_s"] = time.time() - self.t0
        self.last = st
        return self.results
    def run_path(self, st):
        seg = st.seg
        n = 0
        tm.ALIAS = st.alias
        tm.SUBST = st.subst
        try:
            while seg is not None:
                seg = seg(st.r, st)
                n += 1
                if n & 0x3fff == 0 and time.time() - self.t0 > self.opts["time_limit"]:
                    self.results["inconclusive"].append("time budget exhausted inside a path")
                    break
        except PathEnd:
            pass
        except MemError as e:
            st.violation("memory error: %s" % e, 1)
        except Unsupported as e:
            self.results["inconclusive"].append("unsupported: %s" % e)
        self.stats["segs"] += n

class State:
    def __init__(self, eng):
        self.eng = eng
        self.mem = {}
        self.frames = []
        self.allocas = []
        self.r = None
        self.seg = None
        self.pc = []
        self.pcs = set()
        self.model = None
        self.inputs = []     # [(kind, tag, value, width or n)]
        self.ufs = []
        self.nin = 0
        self.ep = 0
        self.trace = []
        self.alias = {}
        self.cvals = {}
        self.subst = {}
        eng.ep += 1
        self.ep = eng.ep
    def clone(self):
        s = State.__new__(State)
        e = self.eng
        s.eng = e
        s.mem = dict(self.mem)
        s.frames = [(list(r), a, b, c) for r, a, b, c in self.frames]
        s.allocas = list(self.allocas)
        s.r = list(self.r)
        s.pc = list(self.pc)
        s.pcs = set(self.pcs)
        s.model = self.model
        s.inputs = list(self.inputs)
        s.ufs = list(self.ufs)
        s.nin = self.nin
        s.trace = list(self.trace)
        s.alias = dict(self.alias)
        s.cvals = dict(self.cvals)
        s.subst = dict(self.subst)
        s.seg = None
        e.ep += 2
        s.ep = e.ep
        self.ep = e.ep - 1
        e.stats["forks"] += 1
        return s
    # ---- memory
    def new(self, n, zeroed=False):
        i = self.eng.newid()
        self.mem[i] = Obj(bytearray(n), None, self.ep)
        return i << 32
    def alloca(self, n):
        i = self.eng.newid()
        self.mem[i] = Obj(bytearray(n), None, self.ep)
        self.allocas.append(i)
        return i << 32
    def obj(self, a, n):
        i = a >> 32
        o = self.mem.get(i)
        if o is None:
            o = self.eng.gobj(i)
        off = a & 0xffffffff
        if off + n > len(o.data):
            raise MemError("out of bounds access of %d bytes at offset %d of a %d byte object" % (n, off, len(o.data)))
        return o, off
    def wobj(self, a, n):
        i = a >> 32
        o = self.mem.get(i)
        if o is None:
            o = self.eng.gobj(i)
        off = a & 0xffffffff
        if off + n > len(o.data):
            raise MemError("out of bounds write of %d bytes at offset %d of a %d byte object" % (n, off, len(o.data)))
        if o.ep != self.ep:
            o = Obj(bytearray(o.data), dict(o.sym) if o.sym else None, self.ep)
            self.mem[i] = o
        return o, off
    def load(self, a, n):
        o = self.mem.get(a >> 32)
        if o is None:
            o = self.eng.gobj(a >> 32)
        off = a & 0xffffffff
        e = off + n
        d = o.data
        if e > len(d):
            raise MemError("out of bounds load of %d bytes at offset %d of a %d byte object" % (n, off, len(d)))
        if not o.sym:
            return int.from_bytes(d[off:e], "little")
        return self.load_slow(o, off, n)
    def load_slow(self, o, off, n):
        sym, d = o.sym, o.data
        c0 = sym.get(off)
        if c0 is not None and c0[1] == 0 and c0[0].w == 8 * n:
            t = c0[0]
            ok = True
            for i in range(1, n):
                c = sym.get(off + i)
                if c is None or c[0] is not t or c[1] != i:
                    ok = False
                    break
            if ok:
                return t
        parts = []
        anysym = False
        for i in range(n - 1, -1, -1):
            c = sym.get(off + i)
            if c is None:
                parts.append((d[off + i], 8))
            else:
                anysym = True
                t, k = c
                parts.append((extract(t, 8 * k + 7, 8 * k), 8))
        if not anysym:
            return int.from_bytes(d[off:off + n], "little")
        return concat_list(parts)
    def store(self, a, v, n):
        i = a >> 32
        o = self.mem.get(i)
        off = a & 0xffffffff
        if o is None or o.ep != self.ep or off + n > len(o.data):
            o, off = self.wobj(a, n)
        if type(v) is int:
            o.data[off:off + n] = v.to_bytes(n, "little")
            if o.sym:
                s = o.sym
                for k in range(off, off + n):
                    s.pop(k, None)
        else:
            if o.sym is None:
                o.sym = {}
            s = o.sym
            if v.op == "concat" or v.op == "zext":
                # keep byte structure visible
                for k in range(n):
                    b = extract(v, 8 * k + 7, 8 * k)
                    if type(b) is int:
                        o.data[off + k] = b
                        s.pop(off + k, None)
                    else:
                        s[off + k] = (b, 0) if b.op != "extract" or b.a[2] % 8 else (b.a[0], b.a[2] // 8)
                return
            for k in range(n):
                s[off + k] = (v, k)
    def load_ty(self, a, t):
        k = t[0]
        if k in ("i", "p"):
            w = bits(t)
            x = self.load(a, (w + 7) // 8)
            if w % 8:
                x = extract(x, w - 1, 0) if type(x) is T else x & tm.M(w)
            return x
        if k == "f64":
            import struct
            x = self.load(a, 8)
            if type(x) is not int: raise Unsupported("symbolic double")
            return struct.unpack("<d", struct.pack("<Q", x))[0]
        if k == "s":
            return tuple(self.load_ty(a + o, x) for o, x in zip(offsets(t)[0], t[1]))
        if k == "vec" and t[2][0] == "i" and t[2][1] % 8:
            n = t[1] * t[2][1]
            x = self.load(a, (n + 7) // 8)
            return tuple(extract(x, (j + 1) * t[2][1] - 1, j * t[2][1]) for j in range(t[1]))
        n = size(t[2])
        return tuple(self.load_ty(a + j * n, t[2]) for j in range(t[1]))
    def store_ty(self, a, v, t):
        k = t[0]
        if k in ("i", "p"):
            w = bits(t)
            if w % 8:
                v = tm.zext(v, w, (w + 7) // 8 * 8)
            self.store(a, v, (w + 7) // 8)
        elif k == "f64":
            import struct
            self.store(a, struct.unpack("<Q", struct.pack("<d", v))[0], 8)
        elif k == "s":
            for o, x, e in zip(offsets(t)[0], t[1], v):
                self.store_ty(a + o, e, x)
        elif k == "vec" and t[2][0] == "i" and t[2][1] % 8:
            w = t[2][1]
            x = concat_list([(e, w) for e in reversed(v)])
            n = t[1] * w
            self.store(a, tm.zext(x, n, (n + 7) // 8 * 8), (n + 7) // 8)
        else:
            n = size(t[2])
            for j, e in enumerate(v):
                self.store_ty(a + j * n, e, t[2])
    def memcpy(self, d, s, n):
        if n == 0 or d == s:
            return
        so, soff = self.obj(s, n)
        data = bytes(so.data[soff:soff + n])
        cells = None
        if so.sym:
            sy = so.sym
            if len(sy) < n:
                cells = [(k - soff, c) for k, c in sy.items() if soff <= k < soff + n]
            else:
                cells = [(k, sy[soff + k]) for k in range(n) if soff + k in sy]
        do, doff = self.wobj(d, n)
        do.data[doff:doff + n] = data
        if do.sym:
            s2 = do.sym
            if len(s2) < n:
                for k in [k for k in s2 if doff <= k < doff + n]:
                    del s2[k]
            else:
                for k in range(doff, doff + n):
                    s2.pop(k, None)
        if cells:
            if do.sym is None:
                do.sym = {}
            s2 = do.sym
            for k, c in cells:
                s2[doff + k] = c
    def memset(self, d, v, n):
        if n == 0:
            return
        do, doff = self.wobj(d, n)
        if type(v) is int:
            do.data[doff:doff + n] = bytes([v]) * n
            if do.sym:
                for k in range(doff, doff + n):
                    do.sym.pop(k, None)
        else:
            for k in range(n):
                self.store(d + k, v, 1)
    def read_bytes(self, a, n):
        """list of byte values"""
        if n == 0:
            return []
        o, off = self.obj(a, n)
        if not o.sym:
            return list(o.data[off:off + n])
        out = []
        for k in range(off, off + n):
            c = o.sym.get(k)
            out.append(o.data[k] if c is None else extract(c[0], 8 * c[1] + 7, 8 * c[1]))
        return out
    def read_big(self, a, n):
        """the bytes at a as one little-endian term of width 8n"""
        b = self.read_bytes(a, n)
        return concat_list([(x, 8) for x in reversed(b)]) if b else 0
    def write_big(self, a, v, n):
        if n:
            self.store(a, v, n)
    def load_table(self, a, n):
        """load from base + x * stride for a short term x as a decision tree over the bits of x"""
        while a.op == "zext":
            a = a.a[0]
        base = 0
        if a.op == "add" and type(a.a[1]) is int:
            a, base = a.a
        sh = 0
        while True:
            if type(a) is not T:
                return None
            if a.op == "zext":
                a = a.a[0]
            elif a.op == "concat" and type(a.a[1]) is int and a.a[1] == 0:
                sh += a.a[2]
                a = a.a[0]
            else:
                break
        if a.w > 9 or sh > 6:
            return None
        lo, hi = tm.rng(a)
        try:
            leaves = [self.load(base + (i << sh), n) if lo <= i <= hi else None for i in range(1 << a.w)]
        except MemError:
            return None
        if all(type(x) is int for x in leaves if x is not None) is False and a.w > 6:
            return None
        for b in range(a.w):
            c = extract(a, b, b)
            nxt = []
            for i in range(0, len(leaves), 2):
                x, y = leaves[i], leaves[i + 1]
                nxt.append(y if x is None else x if y is None or x is y or (type(x) is int and x == y) else ite(c, y, x, 8 * n))
            leaves = nxt
        return leaves[0]
    def load_sym(self, a, n):
        """load through a symbolic address: all targets become an if-then-else; None asks for a fork instead"""
        m = self.load_table(a, n)
        if m is not None:
            return m
        lo, hi = tm.rng(a)
        vals = None
        if hi - lo < 64:
            # a small window: every address in it, provided all of them can be read
            tz = tm.trailing_zeros(a)
            lo = (lo + (1 << tz) - 1) >> tz << tz
            vals = list(range(lo, hi + 1, 1 << tz))
            try:
                for v in vals:
                    self.load(v, n)
            except MemError:
                vals = None
        if vals is None:
            vals = self.values(a, self.eng.opts["conc_limit"])
        if vals is None:
            return None
        res = None
        for v in vals:
            try:
                x = self.load(v, n)
            except MemError:
                return None
            res = x if res is None else ite(eq(a, v, 64), x, res, 8 * n)
        return res
    # ---- constraints
    def add(self, c):
        if type(c) is int:
            if not c:
                raise PathEnd()
            return
        if c.op == "and" and c.w == 1:
            self.add(c.a[0])
            self.add(c.a[1])
            return
        if c.op == "not" and type(c.a[0]) is T and c.a[0].op == "or":
            self.add(b_not(c.a[0].a[0]))
            self.add(b_not(c.a[0].a[1]))
            return
        if c.id in self.pcs:
            return
        self.pcs.add(c.id)
        self.pc.append(c)
        if self.model is not None and not self.holds(c):
            self.model = None
        self.learn(c)
    def learn(self, c):
        """notice residues (pmod, gexp terms) whose high bytes the new constraint fixes, and linear equations"""
        if c.op == "eq" and type(c.a[1]) is int:
            x, v = c.a[0], c.a[1]
            if x.op == "pmod" and tm.is_prime(x.a[0]):
                n = x.a[0]
                p = dict((m, k) for k, m in x.a[1])
                if v:
                    p = tm._padd(p, {(): v}, n, -1)
                p = tm._resub(p, n)
                lin = [m[0] for m in p if len(m) == 1]
                lin = [t for t in lin if t.op not in ("gexp", "bexp") and sum(1 for m in p if t in m) == 1]
                if lin:
                    t = max(lin, key=lambda t: t.id)
                    i = -pow(p[(t,)], -1, n)
                    self.subst[(n, t.id)] = {m: k * i % n for m, k in p.items() if m != (t,)}
            elif x.op in ("var", "uf", "extract"):
                self.subst[(0, x.id)] = v
                if x.op == "extract" and v == 0 and x.a[2] and x.a[1] == x.a[0].w - 1 and x.a[0].op in ("pmod", "bexp"):
                    self.alias.setdefault(extract(x.a[0], x.a[2] - 1, 0).id, (x.a[0], 0))
        atoms, seen, todo = [], set(), [c]
        while todo and len(seen) < 400:
            t = todo.pop()
            if type(t) is not T or t.id in seen:
                continue
            seen.add(t.id)
            if t.op in ("pmod", "gexp", "bexp"):
                if t.w > 8 and t.a[0] < tm.WIDE:
                    atoms.append(t)
            elif t.op not in ("uf", "var"):
                todo.extend(t.a)
        for t in atoms:
            j = (t.w - 1) // 8 * 8
            x = extract(t, j - 1, 0)
            if x.id in self.alias:
                continue
            top = extract(t, t.w - 1, j)
            if self.model is None or not self.holds(c):
                r, m = self.eng.query(self.pc, 1)
                if r != z3.sat:
                    return
                self.model = m
            v = self.model.eval(tm.zbv(top, top.w), model_completion=True).as_long()
            if self.eng.query(self.pc, b_not(eq(top, v, top.w)))[0] == z3.unsat:
                self.alias[x.id] = (t, v << j)
    def holds(self, c):
        v = self.model.eval(tm.zbool(c), model_completion=True)
        return z3.is_true(v)
    def known(self, c, memo=None):
        """is the condition or its negation on the path?  1, 0 or None"""
        if type(c) is int:
            return c
        if c.id in self.pcs:
            return 1
        if c.op == "not":
            k = self.known(c.a[0], memo)
            return None if k is None else 1 - k
        if tm.mk("not", 1, c).id in self.pcs:
            return 0
        if c.w == 1 and c.op in ("and", "or"):
            if memo is None:
                memo = {}
            if c.id in memo:
                return memo[c.id]
            z = 0 if c.op == "and" else 1
            x = self.known(c.a[0], memo)
            if x == z:
                r = z
            else:
                y = self.known(c.a[1], memo)
                r = z if y == z else 1 - z if x is not None and y is not None else None
            memo[c.id] = r
            return r
        return None
    def sat(self, c):
        """can c hold here?  True / False (raises on unknown)"""
        k = self.known(c)
        if k is not None:
            return bool(k)
        if self.model is not None and self.holds(c):
            return True
        r, m = self.eng.query(self.pc, c)
        if r == z3.unknown:
            raise Unsupported("solver gave no answer: " + tm.show(c, 4)[:200])
        if m is not None and self.model is None:
            self.model = m
        self.lastm = m
        return r == z3.sat
    def fork(self, c, ft, ff):
        self.lastm = None
        k = self.known(c)
        if k is not None:
            return ft if k else ff
        if c.hv:
            # decide the alternatives of a disjunction about residues one by one
            if c.op == "or":
                return self.fork(c.a[0], ft, lambda r, st: st.fork(c.a[1], ft, ff))
            if c.op == "not" and type(c.a[0]) is T and c.a[0].op == "or":
                return self.fork(c.a[0], ff, ft)
        nc = b_not(c)
        ct = self.sat(c)
        mt = self.lastm
        self.lastm = None
        cf = self.sat(nc)
        mf = self.lastm
        if ct and cf:
            o = self.clone()
            o.add(nc)
            if o.model is None: o.model = mf
            o.seg = ff
            self.eng.work.append(o)
            self.add(c)
            if self.model is None: self.model = mt
            return ft
        if ct:
            self.pcs.add(c.id)
            return ft
        if cf:
            self.pcs.add(nc.id)
            return ff
        raise PathEnd()
    def fork_switch(self, x, w, tab, default):
        alts = []
        rest = 1
        for v, f in tab.items():
            c = eq(x, v, w)
            rest = b_and(rest, b_not(c))
            alts.append((c, f))
        alts.append((rest, default))
        live = []
        for c, f in alts:
            if type(c) is int:
                if c: live.append((c, f))
            elif self.sat(c):
                live.append((c, f))
        if not live:
            raise PathEnd()
        for c, f in live[1:]:
            o = self.clone()
            o.add(c)
            o.seg = f
            self.eng.work.append(o)
        self.add(live[0][0])
        return live[0][1]
    def values(self, t, limit):
        """all feasible values of a term, or None when there are more than limit"""
        if type(t) is int:
            return [t]
        e = self.eng
        out = []
        e.sync(self.pc)
        s = e.solver
        s.push()
        try:
            while True:
                t0 = time.time()
                r = s.check()
                e.stats["queries"] += 1
                e.stats["solver_s"] += time.time() - t0
                if r == z3.unknown:
                    raise Unsupported("solver gave no answer while enumerating")
                if r == z3.unsat:
                    return out
                v = s.model().eval(tm.zbv(t, t.w), model_completion=True).as_long()
                out.append(v)
                if len(out) > limit:
                    return None
                s.add(tm.zbv(t, t.w) != v)
        finally:
            s.pop()
    def conc(self, slot, fn, l, k):
        t = self.r[slot]
        v = self.cvals.get(t.id)
        if v is not None:
            self.r[slot] = v
            return fn.segment(l, k)
        vals = self.values(t, self.eng.opts["conc_limit"])
        if vals is None:
            raise Unsupported("too many values for a symbolic address or size: %s" % tm.show(t, 5)[:300])
        if not vals:
            raise PathEnd()
        sg = fn.segment(l, k)
        for v in vals[1:]:
            o = self.clone()
            o.r[slot] = v
            o.cvals[t.id] = v
            o.add(eq(t, v, t.w))
            o.seg = sg
            self.eng.work.append(o)
        self.r[slot] = vals[0]
        self.cvals[t.id] = vals[0]
        self.add(eq(t, vals[0], t.w))
        return sg
    # ---- control
    def call(self, fc, args, slot, nxt):
        self.frames.append((self.r, slot, nxt, self.allocas))
        if len(self.frames) > 400:
            raise Unsupported("call depth")
        r = [None] * fc.n
        for s, a in zip(fc.params, args):
            r[s] = a
        self.r = r
        self.allocas = []
        return fc.entry()
    def icall(self, a, args, slot, nxt):
        n = self.eng.fname.get(a)
        if n is None:
            raise MemError("call through a bad function pointer 0x%x" % a)
        h = self.eng.handler(n)
        if h is not None:
            kind, fn = h
            if kind in ("pure", "puresym"):
                v = fn(self, *args)
                if slot >= 0:
                    self.r[slot] = v
                return nxt
            return fn(self, self.r, slot, nxt, *args)
        if n not in self.eng.mod.funcs:
            raise Unsupported("external function " + n)
        return self.call(self.eng.get_code(n), args, slot, nxt)
    def ret(self, v):
        m = self.mem
        for i in self.allocas:
            m.pop(i, None)
        if not self.frames:
            self.eng.results["paths_done"] += 1
            if self.eng.opts.get("on_done"):
                self.eng.opts["on_done"](self)
            return None
        self.r, slot, nxt, self.allocas = self.frames.pop()
        if slot >= 0:
            self.r[slot] = v
        return nxt
    def unreachable(self, fn):
        self.violation("unreachable code reached in " + fn.name, 1)
        return None
    def unsupported(self, why):
        raise Unsupported(why)
    def panic(self, name, args=()):
        msg = ""
        try:
            if len(args) >= 2 and type(args[0]) is int and type(args[1]) is int and 0 < args[1] < 300:
                b = self.read_bytes(args[0], args[1])
                if all(type(x) is int for x in b):
                    msg = bytes(b).decode("latin-1")
        except Exception:
            pass
        self.violation("panic: %s %s" % (msg, short(name)), 1)
        return None
    def violation(self, what, neg):
        """neg: condition (beyond the path condition) under which the property fails here"""
        r, m = (z3.sat, self.model) if neg == 1 and self.model is not None else self.eng.query(self.pc, neg)
        if r == z3.unknown:
            self.eng.results["inconclusive"].append("solver gave no answer for: " + what)
            return
        if r == z3.unsat:
            return
        self.eng.results["violations"].append(dict(what=what, tape=self.tape(m), stack=[short(n) for n in self.where()]))
    def where(self):
        return []
    def tape(self, m):
        ins = []
        ev = lambda t, w: m.eval(tm.zbv(t, w), model_completion=True).as_long() if type(t) is T else t
        for kind, tag, v, n in self.inputs:
            if kind == "in":
                ins.append(("in", tag, ev(v, 8 * n).to_bytes(n, "little").hex()))
            else:
                ins.append(("ch", tag, "%d" % v))
        ufs = []
        seen = set()
        for fid, arg, inl, out, outl in self.ufs:
            a, o = ev(arg, 8 * inl) if inl else 0, ev(out, 8 * outl)
            k = (fid, a, inl, outl)
            if k in seen: continue
            seen.add(k)
            ufs.append((fid, a.to_bytes(inl, "little").hex(), o.to_bytes(outl, "little").hex()))
        return dict(inputs=ins, ufs=ufs, trace=list(self.trace))

UTF8 = re.compile(r"4core3str8converts9from_utf8$")
UTF8_SIG = re.compile(r"^define [^(]*void @[^(]*\(ptr [^%]*sret\(\[24 x i8\]\)[^%]*%0, ptr [^%]*%1, i64 [^%]*%2\)")
def valid_utf8(b):
    """is the byte string well-formed UTF-8?  (the automaton of the standard, one bit per state)"""
    S, T1, T2, T3, E0, ED, F0, F4 = 1, 0, 0, 0, 0, 0, 0, 0
    def rng(x, lo, hi):
        return tm.ult(tm.BIN["sub"](x, lo, 8), hi - lo + 1, 8) if hi - lo < 255 else 1
    for x in b:
        cont = rng(x, 0x80, 0xbf)
        nS = b_or(b_and(S, rng(x, 0, 0x7f)), b_and(T1, cont))
        n1 = b_or(b_or(b_and(S, rng(x, 0xc2, 0xdf)), b_and(T2, cont)), b_or(b_and(E0, rng(x, 0xa0, 0xbf)), b_and(ED, rng(x, 0x80, 0x9f))))
        n2 = b_or(b_or(b_and(S, b_or(rng(x, 0xe1, 0xec), rng(x, 0xee, 0xef))), b_and(T3, cont)), b_or(b_and(F0, rng(x, 0x90, 0xbf)), b_and(F4, rng(x, 0x80, 0x8f))))
        n3 = b_and(S, rng(x, 0xf1, 0xf3))
        E0, ED, F0, F4 = (b_and(S, eq(x, k, 8)) for k in (0xe0, 0xed, 0xf0, 0xf4))
        S, T1, T2, T3 = nS, n1, n2, n3
    return S

def short(n):
    return re.sub(r"_R\w*?C?s?\w{0,14}_", "", n)[-90:]

# ---------------------------------------------------------------- environment

def install(E):
    H = E.handlers
    def alloc(st, n, align=8):
        if n > 1 << 24:
            raise Unsupported("allocation of %d bytes" % n)
        return st.new(n)
    def alloc0(st, n, align=8):
        return alloc(st, n)
    def dealloc(st, p, n=0, align=0):
        st.mem.pop(p >> 32, None)
        return None
    def realloc(st, p, old, align, new):
        q = alloc(st, new)
        st.memcpy(q, p, min(old, new))
        st.mem.pop(p >> 32, None)
        return q
    def crealloc(st, p, new):
        q = alloc(st, new)
        if p:
            o, _ = st.obj(p, 0)
            st.memcpy(q, p, min(len(o.data), new))
            st.mem.pop(p >> 32, None)
        return q
    def posix_memalign(st, out, al, n):
        st.store(out, alloc(st, n), 8)
        return 0
    H["rust_alloc"] = H["malloc"] = ("pure", alloc)
    H["rust_alloc_zeroed"] = ("pure", alloc0)
    H["calloc"] = ("pure", lambda st, a, b: alloc(st, a * b))
    H["rust_dealloc"] = H["free"] = ("pure", dealloc)
    H["rust_realloc"] = ("pure", realloc)
    H["realloc"] = ("pure", crealloc)
    H["posix_memalign"] = ("pure", posix_memalign)
    H["rust_no_alloc_shim_is_unstable"] = H["rust_no_alloc_shim_is_unstable_v2"] = ("pure", lambda st: 0)
    def bcmp(st, a, b, n):
        x, y = st.read_bytes(a, n), st.read_bytes(b, n)
        c = 1
        for p, q in zip(x, y):
            if type(p) is int and type(q) is int and p != q:
                return 1
        c = eq(st.read_big(a, n), st.read_big(b, n), 8 * n) if n else 1
        return ite(c, 0, 1, 32)
    def memcmp(st, a, b, n):
        x, y = list(st.read_bytes(a, n)), list(st.read_bytes(b, n))
        i = 0
        while i < n and eq(x[i], y[i], 8) == 1:
            i += 1
        x, y = x[i:], y[i:]
        while x and eq(x[-1], y[-1], 8) == 1:
            x.pop(), y.pop()
        if not x:
            return 0
        if eq(x[0], y[0], 8) == 0:      # decided by the first byte
            return ite(tm.ult(x[0], y[0], 8), tm.M(32), 1, 32)
        w = 8 * len(x)
        same = eq(concat_list([(v, 8) for v in reversed(x)]), concat_list([(v, 8) for v in reversed(y)]), w)
        p, q = concat_list([(v, 8) for v in x]), concat_list([(v, 8) for v in y])
        lo, hi = tm.M(32), 1
        if type(p) is T and type(q) is T and p.id > q.id:
            p, q, lo, hi = q, p, hi, lo     # one form for both orders of the arguments
        return ite(same, 0, ite(tm.ult(p, q, w), lo, hi, 32), 32)
    H["bcmp"] = ("pure", bcmp)
    H["memcmp"] = ("pure", memcmp)
    H["memcpy"] = H["memmove"] = ("pure", lambda st, d, s, n: (st.memcpy(d, s, n), d)[1])
    H["memset"] = ("pure", lambda st, d, v, n: (st.memset(d, v & 255, n), d)[1])
    def strlen(st, p):
        n = 0
        while True:
            b = st.load(p + n, 1)
            if type(b) is not int:
                raise Unsupported("strlen of symbolic bytes")
            if b == 0:
                return n
            n += 1
    H["strlen"] = ("pure", strlen)
    H["abort"] = ("ctl", lambda st, r, slot, nxt, *a: st.panic("abort"))
    H["__cxa_thread_atexit_impl"] = ("pure", lambda st, *a: 0)
    # ---- verification intrinsics (crate symenv)
    def s_input(st, p, n, tag, tl):
        nm = bytes(st.read_bytes(tag, tl)).decode() if tl else "in"
        k = st.nin
        st.nin += 1
        v = tm.var("in%d_%s" % (k, nm), 8 * n) if n else 0
        st.inputs.append(("in", nm, v, n))
        if n:
            pin = st.eng.opts.get("pin")
            if pin is not None:
                h = pin["inputs"][len(st.inputs) - 1][2] if len(st.inputs) <= len(pin["inputs"]) else X.mix(98, (len(st.inputs) - 1).to_bytes(8, "little"), n).hex()
                v = int.from_bytes(bytes.fromhex(h)[:n], "little")
            st.write_big(p, v, n)
    H["sym_input"] = ("pure", s_input)
    def s_choose(st, r, slot, nxt, lo, hi, tag, tl):
        nm = bytes(st.read_bytes(tag, tl)).decode() if tl else "ch"
        st.nin += 1
        pin = st.eng.opts.get("pin")
        if pin is not None:
            lo = hi = int(pin["inputs"][len(st.inputs)][2])
        ch = st.eng.opts.get("choices", {}).get(nm) if pin is None else None
        vals = list(range(lo, hi + 1))
        if ch is not None:
            vals = [v for v in vals if v in ch]
        if not vals:
            raise PathEnd()
        for v in reversed(vals[1:]):
            o = st.clone()
            o.r[slot] = v
            o.inputs.append(("ch", nm, v, 0))
            o.seg = nxt
            st.eng.work.append(o)
        r[slot] = vals[0]
        st.inputs.append(("ch", nm, vals[0], 0))
        return nxt
    H["sym_choose"] = ("ctl", s_choose)
    def s_assume(st, r, slot, nxt, c):
        if type(c) is int:
            if c & 1:
                return nxt
            st.eng.results["assumes_killed"] += 1
            return None
        if c.w != 1: c = b_not(eq(c, 0, c.w))
        if not st.sat(c):
            st.eng.results["assumes_killed"] += 1
            return None
        st.add(c)
        return nxt
    H["sym_assume"] = ("ctl", s_assume)
    def s_check(st, r, slot, nxt, c, msg, ml):
        e = st.eng
        e.stats["checks"] += 1
        if type(c) is T and c.w != 1: c = b_not(eq(c, 0, c.w))
        if e.opts.get("pin") is not None:
            st.trace.append("check %s" % (c & 1 if type(c) is int else "?"))
        if type(c) is int and c & 1:
            e.stats["checks_trivial"] += 1
            return nxt
        name = bytes(st.read_bytes(msg, ml)).decode()
        if type(c) is int:
            st.violation(name, 1)
            return None
        e.stats["checks_solver"] += 1
        nc = b_not(c)
        q, m = e.query(st.pc, nc)
        if q == z3.unknown:
            e.results["inconclusive"].append("solver gave no answer for check: " + name)
            return nxt
        if q == z3.sat:
            e.results["violations"].append(dict(what=name, tape=st.tape(m)))
            # keep going where it holds
            if not st.sat(c):
                return None
        elif len(e.saved) < e.opts.get("second", 0):
            e.saved.append((list(st.pc), nc, name))
        st.add(c)
        return nxt
    H["sym_check"] = ("ctl", s_check)
    def s_reach(st, r, slot, nxt, msg, ml):
        name = bytes(st.read_bytes(msg, ml)).decode()
        d = st.eng.results["reached"]
        if st.eng.opts.get("pin") is not None:
            st.trace.append("reach " + name)
        if name not in d:
            # the path condition must really be satisfiable
            q, m = st.eng.query(st.pc, 1)
            if q == z3.sat:
                d[name] = 1
                if st.eng.opts.get("keep_witness"):
                    st.eng.results.setdefault("witness", {})[name] = st.tape(m)
            elif q == z3.unknown:
                st.eng.results["inconclusive"].append("solver gave no answer for reachability of " + name)
        else:
            d[name] += 1
        return nxt
    H["sym_reach"] = ("ctl", s_reach)
    def s_unsup(st, r, slot, nxt, msg, ml):
        raise Unsupported("model capacity: " + bytes(st.read_bytes(msg, ml)).decode())
    H["sym_unsupported"] = ("ctl", s_unsup)
    def s_note(st, p, n):
        b = st.read_bytes(p, n)
        st.trace.append(bytes(x if type(x) is int else 63 for x in b).hex())
    H["sym_note"] = ("pure", s_note)
    def s_uf(st, fid, flags, ip, il, op, ol):
        arg = st.read_big(ip, il) if il else 0
        iw, ow = max(8 * il, 1), 8 * ol
        pin = st.eng.opts.get("pin")
        if pin is not None and type(arg) is int:
            a = arg.to_bytes(il, "little")
            out = pin["uf"].get((fid, a, ol)) or X.native_uf(fid, a, ol)
            st.trace.append("uf %d %s %s" % (fid, a.hex(), out.hex()))
            if flags & 1:
                pin["uf"][(fid + 1000, out, il)] = a
            st.write_big(op, int.from_bytes(out, "little"), ol)
            return
        res = tm.uf("uf%d%s" % (fid, "i" if flags & 1 else ""), iw, arg, ow)
        st.ufs.append((fid, arg, il, res, ol))
        if flags & 1:
            if il:
                st.add(eq(tm.uf("uf%d_inv%d" % (fid, iw), ow, res, iw), arg, iw))
            st.add(eq(tm.uf("uf%d_len" % fid, ow, res, 16), il, 16))
        st.write_big(op, res, ol)
    H["sym_uf"] = ("pure", s_uf)
    def s_inv(st, fid, ip, il, op, ol):
        """the inverse of an injective function: il bytes of f's output at ip, ol bytes of its input written to op"""
        arg = st.read_big(ip, il)
        pin = st.eng.opts.get("pin")
        if pin is not None and type(arg) is int:
            a = arg.to_bytes(il, "little")
            out = pin["uf"].get((fid + 1000, a, ol)) or X.native_uf(fid + 1000, a, ol)
            st.trace.append("inv %d %s %s" % (fid, a.hex(), out.hex()))
            st.write_big(op, int.from_bytes(out, "little"), ol)
            return
        if type(arg) is T and arg.op == "uf" and arg.a[0] == "uf%di" % fid and arg.a[1] == 8 * ol:
            res = arg.a[2]      # the inverse of an application
        else:
            res = tm.uf("uf%d_inv%d" % (fid, 8 * ol), 8 * il, arg, 8 * ol)
        st.ufs.append((fid + 1000, arg, il, res, ol))
        st.write_big(op, res, ol)
    H["sym_uf_inv"] = ("pure", s_inv)
    def s_ite(st, c, ap, bp, op, n):
        a, b = st.read_big(ap, n), st.read_big(bp, n)
        st.write_big(op, ite(c, a, b, 8 * n), n)
    def s_eq(st, ap, bp, n):
        if n == 0:
            return 1
        return tm.eq(st.read_big(ap, n), st.read_big(bp, n), 8 * n)
    H["sym_eq"] = ("pure", s_eq)
    def s_modpow(st, r, slot, nxt, b, ep, el, m):
        if type(m) is not int or m < 3 or m > 1024 or any(m % d == 0 for d in range(2, int(m ** 0.5) + 1)):
            raise Unsupported("modpow with a modulus that is not a small concrete prime")
        e = st.read_big(ep, 8 * el) if el else 0
        k = m.bit_length()
        bm = tm.pmod(b, m, k)
        z = eq(bm, 0, k)
        def done(nz):
            def f(r, st):
                if nz:
                    r[slot] = tm.zext(tm.powmod_nz(bm, e, m), k, 64)
                else:
                    def put(v):
                        def g(r, st):
                            r[slot] = v
                            return nxt
                        return g
                    c = eq(e, 0, max(1, 64 * el))
                    if type(c) is int:
                        r[slot] = c
                    else:
                        return st.fork(c, put(1), put(0))
                return nxt
            return f
        if type(z) is int:
            return done(not z)(r, st)
        return st.fork(z, done(False), done(True))
    H["sym_modpow"] = ("ctl", s_modpow)
    # big integers of several limbs (vendored num-bigint): whole-number terms instead of limb arithmetic
    UNHANDLED = tm.M(64)
    def limbs(hi):
        return max(1, (hi.bit_length() + 63) // 64)
    def put_big(st, r, slot, nxt, op, v, nonzero=False):
        """store a number, without the limbs that are zero for certain; the number of limbs is the result"""
        if type(v) is int:
            n = limbs(v) if v else 0
            st.write_big(op, v, 8 * n)
            r[slot] = n
            return nxt
        n = limbs(tm.rng(v)[1])
        v = tm._fit(v, 64 * n)
        def full(r, st):
            st.write_big(op, v, 8 * n)
            r[slot] = n
            return nxt
        def zero(r, st):
            r[slot] = 0
            return nxt
        if nonzero or tm.rng(v)[0] > 0:
            return full(r, st)
        z = eq(v, 0, 64 * n)
        if type(z) is int:
            return zero(r, st) if z else full(r, st)
        return fork_or(st, z, zero, full)
    def fork_or(st, c, ft, ff):
        """one path for each alternative of a disjunction"""
        if c.op == "or":
            return fork_or(st, c.a[0], ft, lambda r, st: fork_or(st, c.a[1], ft, ff)) if type(c.a[0]) is T and type(c.a[1]) is T else st.fork(c, ft, ff)
        return st.fork(c, ft, ff)
    def s_big(st, r, slot, nxt, o, ap, al, bp, bl, mp, ml, op):
        a = st.read_big(ap, 8 * al) if al else 0
        b = st.read_big(bp, 8 * bl) if bl else 0
        z = lambda v, w: v if type(v) is int else tm._fit(v, w)
        if o == 0:
            w = 64 * max(al, bl) + 64
            return put_big(st, r, slot, nxt, op, tm.add(z(a, w), z(b, w), w), True)
        if o == 1:
            w = 64 * max(al, bl)
            a, b = z(a, w), z(b, w)
            def less(r, st):
                r[slot] = UNHANDLED - 1
                return nxt
            def ok(r, st):
                return put_big(st, r, slot, nxt, op, tm.sub(a, b, w))
            c = tm.ult(a, b, w)
            if type(c) is int:
                return less(r, st) if c else ok(r, st)
            return st.fork(c, less, ok)
        if o == 2:
            w = 64 * (al + bl)
            return put_big(st, r, slot, nxt, op, tm.mul(z(a, w), z(b, w), w), True)
        if o == 3:
            if type(b) is not int or b == 0:
                raise Unsupported("remainder by a symbolic number of several limbs")
            if type(a) is int:
                return put_big(st, r, slot, nxt, op, a % b)
            if b >= tm.WIDE:
                return put_big(st, r, slot, nxt, op, tm.pmod(a, b, b.bit_length()))
            if b >= 1 << 16:
                raise Unsupported("remainder of a long symbolic number by a modulus of 16 to 64 bits")
            return put_big(st, r, slot, nxt, op, s_pmod(st, ap, 8 * al, b))
        # a^b mod m
        m = st.read_big(mp, 8 * ml)
        if type(m) is int and type(a) is int and type(b) is int:
            return put_big(st, r, slot, nxt, op, pow(a, b, m))
        if type(m) is not int or not tm.big_prime(m):
            raise Unsupported("modpow with a modulus that is not a concrete prime")
        k = m.bit_length()
        bm = a % m if type(a) is int else tm.pmod(a, m, k)
        def nz(r, st):
            return put_big(st, r, slot, nxt, op, tm.powmod_big(bm, b, m))
        def zero(r, st):
            return put_big(st, r, slot, nxt, op, 0 if bl else 1)
        c = eq(bm, 0, k)
        if type(c) is int:
            return zero(r, st) if c else nz(r, st)
        return fork_or(st, c, zero, nz)
    H["sym_big"] = ("ctl", s_big)
    def s_bigcmp(st, r, slot, nxt, ap, al, bp, bl):
        w = 64 * max(al, bl, 1)
        z = lambda v: v if type(v) is int else tm._fit(v, w)
        a, b = z(st.read_big(ap, 8 * al) if al else 0), z(st.read_big(bp, 8 * bl) if bl else 0)
        def put(v):
            def g(r, st):
                r[slot] = v
                return nxt
            return g
        c, e = tm.ult(a, b, w), eq(a, b, w)
        def ge(r, st):
            if type(e) is int:
                return put(1 if e else 2)(r, st)
            return st.fork(e, put(1), put(2))
        if type(c) is int:
            return put(0)(r, st) if c else ge(r, st)
        return st.fork(c, put(0), ge)
    H["sym_big_cmp"] = ("ctl", s_bigcmp)
    def s_bignorm(st, r, slot, nxt, p, n):
        """the number of limbs in use; a top limb that is not a constant is taken to be non-zero"""
        while n:
            t = st.read_big(p + 8 * (n - 1), 8)
            if type(t) is int and t == 0:
                n -= 1
                continue
            if type(t) is T and not t.hv:
                c = b_not(eq(t, 0, 64))
                if type(c) is T:
                    if not st.sat(c):
                        n -= 1
                        continue
                    st.add(c)
            break
        r[slot] = n
        return nxt
    H["sym_big_norm"] = ("ctl", s_bignorm)
    def s_bigtop(st, r, slot, nxt, t):
        """the number of bytes in use of the top limb; symbolic: all that can be, or one less"""
        if type(t) is int:
            r[slot] = (t.bit_length() + 7) // 8
            return nxt
        nb = (tm.umax_bits(t, 64) + 7) // 8
        hi, lo = extract(t, 8 * nb - 1, 8 * nb - 8), extract(t, 8 * nb - 9, 8 * nb - 16) if nb > 1 else 0
        def full(r, st):
            r[slot] = nb
            return nxt
        def short(r, st):
            c = b_not(eq(lo, 0, 8))
            if type(c) is int and not c or type(c) is T and not st.sat(c):
                return None
            st.add(c)
            r[slot] = nb - 1
            return nxt
        z = eq(hi, 0, 8)
        if type(z) is int:
            return short(r, st) if z else full(r, st)
        return st.fork(z, short, full)
    H["sym_big_top"] = ("ctl", s_bigtop)
    def s_pmod(st, p, n, q):
        x = st.read_big(p, n) if n else 0
        k = q.bit_length()
        if type(x) is not T:
            pin = st.eng.opts.get("pin")
            if pin is not None and pin["uf"]:
                # as the native environment does
                b = x.to_bytes(n, "little")
                for w in range(max(1, (x.bit_length() + 7) // 8), n + 1):
                    v = pin["uf"].get((3000, b[:w], 1))
                    if v:
                        return v[0] % q
            return x % q
        if len(tm.to_poly(x, q)) > 10:
            # the residue of a long string is left uninterpreted
            w = 8 * n
            while w > 8 and type(extract(x, w - 1, w - 8)) is int and extract(x, w - 1, w - 8) == 0:
                w -= 8
            x = extract(x, w - 1, 0)
            r = tm.uf("red%d" % q, w, x, 8)
            st.ufs.append((3000, x, w // 8, r, 1))
            x = r
        return tm.zext(tm.pmod(x, q, k), k, 64)
    H["sym_pmod"] = ("pure", s_pmod)
    def s_ring(st, op, a, b, q):
        """a op b modulo q for residues a, b"""
        k = q.bit_length()
        if type(a) is int and type(b) is int:
            return (a + b if op == 0 else a - b if op == 1 else a * b) % q
        pa, pb = tm.to_poly(a, q), tm.to_poly(b, q)
        if op == 2:
            if len(pa) * len(pb) <= tm.PMAX:
                p = tm._pmul(pa, pb, q)
            else:
                p = tm._pmul(tm.to_poly(tm.from_poly(pa, q, k), q), {(tm.from_poly(pb, q, k),): 1}, q)
        else:
            p = tm._padd(pa, pb, q, 1 if op == 0 else -1)
        return tm.zext(tm.from_poly(p, q, k), k, 64)
    H["sym_ring"] = ("puresym", s_ring)
    def s_inv_mod(st, r, slot, nxt, v, q):
        """v^-1 mod the prime q, 0 for 0"""
        if type(v) is int:
            r[slot] = pow(v, -1, q) if v % q else 0
            return nxt
        k = q.bit_length()
        x = tm.pmod(v, q, k)
        def nz(r, st):
            i = tm.inv(x, q)
            r[slot] = tm.zext(i, k, 64)
            return nxt
        def zero(r, st):
            r[slot] = 0
            return nxt
        z = eq(x, 0, k)
        if type(z) is int:
            return zero(r, st) if z else nz(r, st)
        return st.fork(z, zero, nz)
    H["sym_inv"] = ("ctl", s_inv_mod)
    def s_known(st, a, b, n):
        """are the two byte strings equal as terms?"""
        return 1 if st.read_bytes(a, n) == st.read_bytes(b, n) else 0
    H["sym_known_same"] = ("pure", s_known)
    H["sym_real"] = ("pure", lambda st: 0)

