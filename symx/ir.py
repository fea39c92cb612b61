"""Parser for textual LLVM IR as emitted by rustc (whole program, after fat LTO)."""
import re, mmap

TOK = re.compile(r'''
   c"(?:[^"])*"          |
   [%@]"(?:[^"])*"       |
   "(?:[^"])*"           |
   [%@][-\w.$]+          |
   !\w[\w.]* | !\d+ | !   |
   \#\d+                 |
   f?0x[0-9A-Fa-f]+ | 0x[KLMHR][0-9A-Fa-f]+ |
   -?\d+\.\d+(?:e[-+]?\d+)? | -?\d+ |
   [a-zA-Z_][\w.]*       |
   \.\.\.                |
   [()\[\]{}<>=,*:|]
''', re.X)

class ParseError(Exception):
    pass

VOID, PTR, FLT, DBL, META = ("v",), ("p",), ("f32",), ("f64",), ("meta",)

def bits(t):
    k = t[0]
    if k == "i":
        return t[1]
    if k == "p":
        return 64
    raise ParseError("bits of %r" % (t,))

def align(t):
    k = t[0]
    if k == "i":
        b = size(t)
        return 16 if b > 8 else b
    if k in ("p", "f64"):
        return 8
    if k == "f32":
        return 4
    if k == "a":
        return align(t[2])
    if k == "vec":
        return max(1, size(t))
    if k == "s":
        return 1 if t[2] or not t[1] else max(align(x) for x in t[1])
    raise ParseError("align of %r" % (t,))

def size(t):
    """allocation size in bytes"""
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        if n <= 1: return 1
        if n <= 2: return 2
        if n <= 4: return 4
        if n <= 8: return 8
        return (n + 15) // 16 * 16
    if k in ("p", "f64"):
        return 8
    if k == "f32":
        return 4
    if k == "a":
        return t[1] * size(t[2])
    if k == "vec":
        if t[2][0] == "i":
            return max(1, t[1] * t[2][1] // 8)
        return t[1] * size(t[2])
    if k == "s":
        if not t[1]:
            return 0
        offs, n = offsets(t)
        return n
    raise ParseError("size of %r" % (t,))

_off = {}
def offsets(t):
    r = _off.get(t)
    if r is None:
        o, offs = 0, []
        for x in t[1]:
            if not t[2]:
                a = align(x)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += size(x)
        if not t[2] and t[1]:
            a = max(align(x) for x in t[1])
            o = (o + a - 1) // a * a
        r = _off[t] = (offs, o)
    return r

FLAGS = {"inbounds", "nuw", "nsw", "nneg", "exact", "disjoint", "samesign", "nusw", "fast", "nnan", "ninf", "nsz", "arcp",
         "contract", "afn", "reassoc", "volatile", "tail", "musttail", "notail", "weak", "inrange"}
LINK = {"private", "internal", "external", "extern_weak", "weak", "weak_odr", "linkonce", "linkonce_odr", "common", "appending",
        "available_externally", "hidden", "protected", "default", "dso_local", "dso_preemptable", "unnamed_addr",
        "local_unnamed_addr", "thread_local", "dllexport", "dllimport", "externally_initialized"}
CC = {"fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "tailcc", "swiftcc"}
TYPED_ATTR = {"sret", "byval", "elementtype", "byref", "inalloca", "preallocated"}
PAREN_ATTR = {"dereferenceable", "dereferenceable_or_null", "captures", "range", "memory", "allocsize", "initializes",
              "nofpclass", "alignstack", "vscale_range", "dead_on_return", "align"} | TYPED_ATTR

def tokens(s):
    return TOK.findall(s)

class P:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False
    def want(self, x):
        y = self.next()
        if y != x:
            raise ParseError("expected %s got %s in %s" % (x, y, " ".join(self.t)[:300]))
    def type(self):
        x = self.next()
        c = x[0]
        if c == "i" and x[1:].isdigit():
            t = ("i", int(x[1:]))
        elif x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.i += 4
        elif x == "void":
            t = VOID
        elif x == "double":
            t = DBL
        elif x == "float":
            t = FLT
        elif x in ("label", "metadata", "token"):
            t = META
        elif x == "[":
            n = int(self.next()); self.want("x"); e = self.type(); self.want("]")
            t = ("a", n, e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = self._struct(True)
                self.want(">")
            else:
                n = int(self.next()); self.want("x"); e = self.type(); self.want(">")
                t = ("vec", n, e)
        elif x == "{":
            t = self._struct(False)
        elif x[0] == "%":
            t = self.m.named_type(x)
        else:
            raise ParseError("type %r in %s" % (x, " ".join(self.t)[:300]))
        return t
    def _struct(self, packed):
        fs = []
        if self.eat("}"):
            return ("s", (), packed)
        while True:
            fs.append(self.type())
            if self.eat("}"):
                return ("s", tuple(fs), packed)
            self.want(",")
    def attrs(self):
        """skip parameter / return attributes; returns set of names seen"""
        seen = {}
        while True:
            x = self.peek()
            if x is None:
                return seen
            if x == "align":
                self.i += 1
                if self.peek() == "(":
                    self.skip_paren()
                else:
                    self.next()
                continue
            if x in PAREN_ATTR:
                self.i += 1
                j = self.i
                if self.peek() == "(":
                    self.skip_paren()
                    seen[x] = self.t[j + 1:self.i - 1]
                continue
            if x[0] == '"':
                self.i += 1
                if self.eat("="):
                    self.next()
                continue
            if x[0] == "#":
                self.i += 1
                continue
            if x.isidentifier() and not TYPEWORD.match(x) and x not in VALWORD and x not in CC:
                self.i += 1
                seen[x] = True
                continue
            return seen
    def skip_paren(self):
        self.want("(")
        d = 1
        while d:
            x = self.next()
            if x == "(": d += 1
            elif x == ")": d -= 1
    def flags(self):
        f = []
        while self.peek() in FLAGS:
            f.append(self.next())
        return f
    def value(self, ty):
        """A value of the given type: ('r',name) | ('c',python const) | ('g',name)"""
        x = self.next()
        c = x[0]
        if c == "%":
            return ("r", x)
        if c == "@":
            return ("g", unq(x))
        if x in ("true", "false"):
            return ("c", 1 if x == "true" else 0)
        if x in ("null", "zeroinitializer", "undef", "poison", "none"):
            return ("z", x)
        if c.isdigit() or (c == "-" and len(x) > 1) or x.startswith("f0x"):
            if ty[0] in ("f64", "f32"):
                import struct
                if x.startswith("f0x"):
                    v = int(x[3:], 16)
                    return ("c", struct.unpack("<d", struct.pack("<Q", v))[0] if ty[0] == "f64" else struct.unpack("<f", struct.pack("<I", v))[0])
                if x.startswith("0x"):
                    return ("c", struct.unpack("<d", struct.pack("<Q", int(x, 16)))[0])
                return ("c", float(x))
            v = int(x, 0)
            return ("c", v & ((1 << bits(ty)) - 1))
        if c == "c" and len(x) > 1 and x[1] == '"':
            return ("s", cstr(x))
        if x in ("{", "[", "<"):
            if x == "<" and self.peek() == "{":
                self.next()
                v = self._elems("}")
                self.want(">")
                return ("agg", v)
            return ("agg", self._elems({"{": "}", "[": "]", "<": ">"}[x]))
        if x == "splat":
            self.want("(")
            t = self.type(); v = self.value(t)
            self.want(")")
            return ("agg", [(t, v)] * ty[1])
        if x in ("getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "add", "sub", "ptrtoaddr", "addrspacecast", "xor"):
            self.flags()
            while self.peek() != "(":
                self.next()
            self.want("(")
            if x == "getelementptr":
                st = self.type(); self.want(",")
                ops = []
                while True:
                    self.flags()
                    t = self.type(); ops.append((t, self.value(t)))
                    if self.eat(")"): break
                    self.want(",")
                return ("gep", st, ops)
            t = self.type(); v = self.value(t)
            if x in ("add", "sub", "xor"):
                self.want(","); t2 = self.type(); v2 = self.value(t2); self.want(")")
                return ("cbin", x, t, v, v2)
            self.want("to"); t2 = self.type(); self.want(")")
            return ("cast", x, t, v, t2)
        if x in ("dso_local_equivalent", "no_cfi"):
            return self.value(ty)
        raise ParseError("value %r in %s" % (x, " ".join(self.t)[:300]))
    def _elems(self, close):
        out = []
        if self.eat(close):
            return out
        while True:
            t = self.type(); v = self.value(t)
            out.append((t, v))
            if self.eat(close):
                return out
            self.want(",")
    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)

TYPEWORD = re.compile(r"^(i\d+|ptr|void|double|float|half|label|metadata|token)$")
VALWORD = {"true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint", "splat",
           "asm", "x", "to", "trunc", "sub", "add", "bitcast", "xor", "ptrtoaddr"}

def unq(x):
    return x[0] + x[2:-1] if len(x) > 1 and x[1] == '"' else x

_cs = re.compile(rb"\\([0-9A-Fa-f]{2}|\\)")
def cstr(x):
    b = x[2:-1].encode("latin-1", "replace") if all(ord(c) < 256 for c in x) else x[2:-1].encode("utf8")
    return _cs.sub(lambda m: b"\\" if m.group(1) == b"\\" else bytes([int(m.group(1), 16)]), b)

class Func:
    __slots__ = ("name", "lines", "params", "blocks", "order", "ret", "decl", "dbg", "comment")

class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}     # name -> list of body lines (lazily parsed)
        self.globals = {}   # name -> line
        self.types = {}
        self.meta = {}
        self._load(path)
    def _load(self, path):
        with open(path, encoding="latin-1") as f:
            text = f.read()
        lines = text.split("\n")
        self.attr_noret = set()
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]+"|[-\w.$]+)\(', l)
                self.funcs[unq("@" + m.group(1))[1:]] = (i, j)
                i = j
            elif l.startswith("@"):
                m = re.match(r'(@"[^"]+"|@[-\w.$]+) = ', l)
                self.globals[unq(m.group(1))] = l[m.end():]
            elif l.startswith("%"):
                m = re.match(r'(%"[^"]+"|%[-\w.$]+) = type (.*)', l)
                self.types[m.group(1)] = m.group(2)
            elif l.startswith("!") and " = " in l:
                k, v = l.split(" = ", 1)
                self.meta[k] = v
            i += 1
        self.lines = lines
    def named_type(self, x):
        v = self.types[x]
        if isinstance(v, str):
            if v.startswith("opaque"):
                v = ("s", (), False)
            else:
                v = P(self, tokens(v)).type()
            self.types[x] = v
        return v
    def parse_func(self, name):
        i, j = self.funcs[name]
        head = self.lines[i]
        m = re.search(r'@("[^"]+"|[-\w.$]+)\(', head)
        f = Func()
        f.name = name
        dm = re.search(r"!dbg (!\d+)", head)
        f.dbg = dm.group(1) if dm else None
        toks = tokens(head[m.end() - 1:])
        p = P(self, toks)
        p.want("(")
        params = []
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    p.want(")")
                    break
                t = p.type()
                at = p.attrs()
                nm = p.next() if p.peek() and p.peek()[0] == "%" else "%" + str(len(params))
                params.append((t, nm, at))
                if p.eat(")"): break
                p.want(",")
        f.params = params
        f.blocks, f.order = {}, []
        cur, lab = None, None
        k = i + 1
        while k < j:
            l = self.lines[k]
            k += 1
            s = l.strip()
            if not s or s[0] == ";" or s[0] == "#":
                continue
            if not l.startswith(" "):
                lm = re.match(r'("[^"]*"|[-\w.$]+):', l)
                if not lm:
                    raise ParseError("label? " + l)
                lab = "%" + lm.group(1)
                cur = []
                f.blocks[lab] = cur
                f.order.append(lab)
                continue
            if cur is None:
                # the unnamed entry block is numbered after the parameters
                lab = "%" + str(sum(1 for q in params if q[1][1:].isdigit()))
                cur = []
                f.blocks[lab] = cur
                f.order.append(lab)
            if s.startswith("switch") and s.endswith("["):
                while not self.lines[k].strip().startswith("]"):
                    s += " " + self.lines[k].strip()
                    k += 1
                s += " " + self.lines[k].strip()
                k += 1
            elif "landingpad" in s:
                while self.lines[k].strip().startswith(("cleanup", "catch", "filter")):
                    k += 1
            elif " invoke " in (" " + s) and not re.search(r"unwind label", s):
                while True:
                    s += " " + self.lines[k].strip()
                    k += 1
                    if "unwind label" in s:
                        break
            cur.append(s)
        return f
