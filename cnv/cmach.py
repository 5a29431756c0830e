"""Abstract machine for the C-style code of the parser driver (arrays, pointer arithmetic, malloc).  Memory consists of bounded
arrays and of records; a read of what was never written, an access outside an array, a use of released memory are events of
the evaluation.  Values may be unknown: a branch on an unknown value is taken both ways (explore())."""
import re
from .prog import AnalysisBroken


class Unknown:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "?" + self.name


class _Un:
    def __repr__(self):
        return "<uninitialised>"


UNINIT = _Un()


class Arr:
    """array object; el: element type"""
    __slots__ = ("a", "el", "freed", "name", "heap")

    def __init__(self, a, el, name="", heap=False):
        self.a, self.el, self.freed, self.name, self.heap = a, el, False, name, heap


class Obj:
    __slots__ = ("f", "cls", "name")

    def __init__(self, cls, f, name=""):
        self.cls, self.f, self.name = cls, f, name


class Str:
    """std::string"""
    __slots__ = ("s",)

    def __init__(self, s=()):
        self.s = list(s)


class Pt:
    """pointer to element i of a container (array, or field of a record, or a local)"""
    __slots__ = ("c", "i")

    def __init__(self, c, i):
        self.c, self.i = c, i

    def __eq__(self, o):
        return isinstance(o, Pt) and o.c is self.c and o.i == self.i

    def __hash__(self):
        return hash((id(self.c), self.i))

    def __repr__(self):
        return "&%s[%s]" % (getattr(self.c, "name", "?"), self.i)


class Raw:
    """untyped memory from malloc, before it is given a type"""
    __slots__ = ("size", "old", "zero")

    def __init__(self, size, old=None, zero=False):
        self.size, self.old, self.zero = size, old, zero


class Ch:
    """an arbitrary character of an interval; a comparison is decided when every character of the interval agrees.
    id: position in the text, so that two occurrences of one character are recognised as the same"""
    __slots__ = ("lo", "hi", "id")

    def __init__(self, lo, hi, id):
        self.lo, self.hi, self.id = lo, hi, id

    def _no(self):
        raise AnalysisBroken("the outcome differs within the characters %s" % self)

    def __lt__(self, n):
        return True if self.hi < n else False if self.lo >= n else self._no()

    def __ge__(self, n):
        return not self < n

    def __gt__(self, n):
        return True if self.lo > n else False if self.hi <= n else self._no()

    def __le__(self, n):
        return not self > n

    def __eq__(self, n):
        if isinstance(n, Ch):
            return True if (n.id, n.lo, n.hi) == (self.id, self.lo, self.hi) else False if n.hi < self.lo or n.lo > self.hi else self._no()
        if not isinstance(n, int):
            return False
        return False if n < self.lo or n > self.hi else True if self.lo == self.hi else self._no()

    def __ne__(self, n):
        return not self == n

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return "[%d..%d]" % (self.lo, self.hi) if self.lo < self.hi else "[%d]" % self.lo

    def wrap(self, t):
        n = 8 if t in ("char", "signed char", "unsigned char") else 0
        if n:
            a = wrap(self.lo, t)
            return self if a == self.lo and wrap(self.hi, t) == self.hi else Ch(a, wrap(self.hi, t), self.id) if wrap(self.hi, t) - a == self.hi - self.lo else self._no()
        if t in UNS and self.lo < 0:
            return Ch(wrap(self.lo, t), wrap(self.hi, t), self.id) if self.hi < 0 else self._no()
        if t == "bool":
            return int(self != 0)
        return self


class Fn:
    def __init__(self, fn):
        self.fn = fn


class Event(Exception):
    """a fault the evaluated code commits"""

    def __init__(self, kind, text, where):
        self.kind, self.text, self.where = kind, text, where


class Fuel(Exception):
    pass


class Thrown(Exception):
    """a C++ exception of the evaluated code"""


class _Break(Exception):
    pass


class _Cont(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


UNS = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "size_t": 64}
SIG = {"char": 8, "signed char": 8, "short": 16, "int": 32, "wchar_t": 32, "long": 64, "long long": 64}


def wrap(v, t):
    t = t.replace("const ", "").strip()
    if isinstance(v, Ch):
        return v.wrap(t)
    if not isinstance(v, int):
        return v
    if t == "bool":
        return int(bool(v))
    if t in UNS:
        return v & ((1 << UNS[t]) - 1)
    if t in SIG:
        n = SIG[t]
        v &= (1 << n) - 1
        return v - (1 << n) if v >> (n - 1) else v
    return v


class Machine:
    def __init__(self, prog, fuel=400000):
        self.p = prog
        self.fuel0 = self.fuel = fuel
        self.stubs = {}
        self.frames = []
        self.choices, self.ci = [], 0
        self.visited = set()
        self.line, self.fname = 0, "?"
        self.statics = {}
        self.heap = []

    # ---- types
    def size(self, t):
        t = t.replace("const ", "").strip()
        if t.endswith("*"):
            return 8
        if t in UNS:
            return UNS[t] // 8
        if t in SIG:
            return SIG[t] // 8
        if t == "bool":
            return 1
        if t in ("float",):
            return 4
        if t == "double":
            return 8
        r = self.p.records.get(t)
        if r:
            off, al = 0, 1
            for f in r["fields"]:
                s = self.size(f["t"])
                a = min(s, 8)
                al = max(al, a)
                off = (off + a - 1) // a * a + s
            return (off + al - 1) // al * al
        raise AnalysisBroken("size of %s" % t)

    def fresh(self, t, v):
        """a memory element of type t filled with v (UNINIT or 0)"""
        t0 = t.replace("const ", "").strip()
        r = self.p.records.get(t0)
        if r and not t0.endswith("*"):
            return Obj(t0, {f["n"]: self.fresh(f["t"], v) for f in r["fields"]}, t0)
        return v

    # ---- faults
    def fault(self, kind, text):
        raise Event(kind, text, (self.fname, self.line))

    def chk(self, c, i, what):
        if isinstance(c, Arr):
            if c.freed:
                self.fault("use-after-free", "%s of released memory %s" % (what, c.name))
            if not isinstance(i, int):
                self.undecided("index %s" % (i,))
            if not 0 <= i < len(c.a):
                self.fault("bounds", "%s of element %d of %s, which has %d" % (what, i, c.name, len(c.a)))

    def undecided(self, s):
        raise AnalysisBroken("%s:%s: %s" % (self.fname, self.line, s))

    def load(self, c, i):
        if isinstance(c, Arr):
            self.chk(c, i, "read")
            v = c.a[i]
        elif isinstance(c, Obj):
            v = c.f.get(i, UNINIT)
        else:
            v = c.get(i, UNINIT)
        if v is UNINIT:
            self.fault("uninitialised", "read of %s, which was never given a value" %
                       ("%s[%s]" % (c.name, i) if isinstance(c, Arr) else i))
        return v

    def store(self, c, i, v):
        if isinstance(c, Arr):
            self.chk(c, i, "write")
            c.a[i] = v
        elif isinstance(c, Obj):
            c.f[i] = v
        else:
            c[i] = v

    # ---- choice
    def choose(self, n):
        if self.ci < len(self.choices):
            r = self.choices[self.ci][0]
        else:
            r = 0
            self.choices.append([0, n])
        self.ci += 1
        return r

    def truth(self, v):
        if isinstance(v, Unknown):
            return bool(self.choose(2))
        if v is UNINIT:
            self.fault("uninitialised", "a branch depends on a value that was never set")
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Ch):
            return v != 0
        return True

    # ---- lvalues: (container, key)
    def lv(self, e):
        k = e["k"]
        if k == "Ref":
            if e.get("sl"):
                return (self.statics, e["d"])
            if e.get("g"):
                return ({"v": Unknown(e["n"])}, "v")
            fr = self.frames[-1][0]
            v = fr.get(e["d"])
            if isinstance(v, tuple) and v and v[0] == "alias":
                return v[1]
            return (fr, e["d"])
        if k == "Member":
            b = e["b"]
            o = self.rv(b) if e.get("arrow") else self.obj(b)
            o = self.deref_obj(o)
            return (o, e["m"])
        if k == "Sub":
            b = self.rv(e["b"])
            i = self.rv(e["i"])
            if not isinstance(b, Pt):
                if b == 0:
                    self.fault("null", "element of a null pointer")
                self.undecided("subscript of %s" % (b,))
            return self.offset(b, i)
        if k == "Un" and e["op"] == "*":
            b = self.rv(e["x"])
            if b == 0:
                self.fault("null", "dereference of a null pointer")
            if not isinstance(b, Pt):
                self.undecided("dereference of %s" % (b,))
            return (b.c, b.i)
        if k == "Un" and e["op"] in ("++", "--") and not e.get("post"):
            l = self.lv(e["x"])
            self.store(*l, self.add(self.load(*l), 1 if e["op"] == "++" else -1))
            return l
        if k == "Bin" and e["op"] == "=":
            l = None
            v = self.rv(e["y"])
            l = self.lv(e["x"])
            t = e["t"]
            self.store(*l, wrap(v, t))
            return l
        if k == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            l = self.lv(e["x"])
            v = self.arith(e["op"][:-1], self.load(*l), self.rv(e["y"]), e["t"])
            self.store(*l, wrap(v, e["t"]))
            return l
        if k == "Bin" and e["op"] == ",":
            self.rv(e["x"])
            return self.lv(e["y"])
        if k == "OpCall" and e.get("op") == "=" and e["a"]:
            self.rv(e)
            return self.lv(e["a"][0])
        if k == "Cast" and e["ck"] in ("NoOp", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase"):
            return self.lv(e["e"])
        if k in ("Temp",):
            return ({"v": self.rv(e["e"])}, "v")
        if k in ("MCall", "OpCall", "Call"):
            r = self.rv(e)
            if isinstance(r, Pt):
                return (r.c, r.i)
            return ({"v": r}, "v")
        if k == "Cond":
            return self.lv(e["x"] if self.truth(self.rv(e["c"])) else e["y"])
        if k == "Str":
            return ({"v": self.rv(e)}, "v")
        if k == "This":
            return ({"v": self.frames[-1][1]}, "v")
        self.undecided("lvalue %s" % k)

    def offset(self, b, i):
        if isinstance(b.c, Arr):
            if isinstance(i, Unknown):
                self.undecided("unknown index")
            return (b.c, b.i + i)
        if i == 0:
            return (b.c, b.i)
        self.fault("bounds", "element %s of a single object" % (i,))

    def obj(self, e):
        l = self.lv(e)
        c, i = l
        return self.load_raw(c, i)

    def load_raw(self, c, i):
        if isinstance(c, Arr):
            self.chk(c, i, "access")
            return c.a[i]
        return c.f.get(i, UNINIT) if isinstance(c, Obj) else c.get(i, UNINIT)

    def deref_obj(self, o):
        if isinstance(o, Pt):
            o = self.load_raw(o.c, o.i)
        if isinstance(o, Obj):
            return o
        if o == 0:
            self.fault("null", "member of a null pointer")
        if o is UNINIT:
            self.fault("uninitialised", "member of a pointer that was never set")
        self.undecided("member of %s" % (o,))

    # ---- rvalues
    def rv(self, e):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        if e.get("l"):
            self.line = e["l"]
        k = e["k"]
        if k == "Cast":
            ck, x = e["ck"], e["e"]
            if ck == "LValueToRValue":
                return self.load(*self.lv(x))
            if ck == "ArrayToPointerDecay":
                if x["k"] == "Str":
                    return self.rv(x)
                a = self.load_raw(*self.lv(x))
                if isinstance(a, Arr):
                    return Pt(a, 0)
                self.undecided("array %s" % (a,))
            v = self.rv(x) if ck not in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase") or x["k"] not in ("Ref", "Member", "Sub", "Temp") \
                else self.load_raw(*self.lv(x))
            if ck in ("IntegralToBoolean", "PointerToBoolean"):
                return v if isinstance(v, Unknown) else int(self.truth(v))
            if isinstance(v, Raw):
                return self.typed(v, e["t"])
            return wrap(v, e["t"]) if ck in ("IntegralCast", "BooleanToSignedIntegral") else v
        if k in ("Int", "Bool"):
            return int(e["v"])
        if k == "Null" or k == "Zero":
            return 0
        if k == "Float":
            return Unknown("real")
        if k == "Str":
            return Pt(Arr([ord(c) for c in e["v"]] + [0], "char", "a literal"), 0)
        if k == "This":
            return self.frames[-1][1]
        if k == "Un":
            return self.un(e)
        if k == "Bin":
            return self.bin(e)
        if k == "Cond":
            return self.rv(e["x"] if self.truth(self.rv(e["c"])) else e["y"])
        if k in ("Call", "MCall", "OpCall"):
            return self.callx(e)
        if k == "Ctor":
            if e.get("cls", "").startswith("std::basic_string"):
                a = [self.rv(x) if x["k"] not in ("Ref", "Member") else self.load_raw(*self.lv(x)) for x in e["a"]]
                a = [x for x in a if x is not None]
                return Str(a[0].s if a and isinstance(a[0], Str) else self.cstr(a[0]) if a and isinstance(a[0], Pt) else ())
            if e.get("elide") and e["a"]:
                return self.rv(e["a"][0])
            return self.construct(e)
        if k == "Temp":
            return self.rv(e["e"])
        if k == "FnRef":
            return Fn(e["fn"])
        if k == "EnumC":
            return e["v"]
        if k == "Lambda":
            fr, this = self.frames[-1]
            env = Env(fr)
            for c in e["caps"]:
                if "d" in c and not c.get("byref"):
                    dict.__setitem__(env, c["d"], clone(self.init(c.get("t", ""), c["init"]) if c.get("init") and "t" in c and c["d"] not in fr else self.unref(fr.get(c["d"], UNINIT))))
            return Closure(e, env, this)
        if k == "Init":
            return self.aggregate(e.get("t", ""), e)
        if k == "New":
            return self.new(e)
        if k == "StdInit" or k == "Default":
            return self.rv(e["e"])
        if k == "SizeOf" and "v" in e:
            return e["v"]
        if k == "Throw":
            raise Thrown()
        if k == "Delete":
            v = self.rv(e["e"])
            if isinstance(v, Pt):
                if isinstance(v.c, Arr) and v.c.freed:
                    self.fault("double-free", "object deleted twice")
                if isinstance(v.c, Arr):
                    v.c.freed = True
            return None
        if k in ("Ref", "Member", "Sub"):
            return self.load_raw(*self.lv(e))
        self.undecided("expression %s" % k)

    def un(self, e):
        op = e["op"]
        if op == "&":
            x = e["x"]
            if x["k"] == "FnRef":
                return Fn(x["fn"])
            return Pt(*self.lv(x))
        if op in ("++", "--"):
            if e.get("post"):
                l = self.lv(e["x"])
                v = self.load(*l)
                self.store(*l, wrap(self.add(v, 1 if op == "++" else -1), e["t"]))
                return v
            return self.load(*self.lv(e))
        if op == "*":
            return self.load_raw(*self.lv(e))
        v = self.rv(e["x"])
        if op == "!":
            return int(not self.truth(v))
        if isinstance(v, Unknown):
            return v
        if op == "-":
            return -v
        if op == "~":
            return ~v
        if op == "+":
            return v
        self.undecided("operator %s" % op)

    def add(self, v, n):
        if isinstance(v, Pt):
            if isinstance(n, Unknown):
                self.undecided("pointer moved by an unknown distance")
            return Pt(v.c, v.i + n) if isinstance(v.c, Arr) else Pt(v.c, v.i) if n == 0 else self.fault("bounds", "pointer beyond an object")
        if isinstance(v, Ch) or isinstance(n, Ch):
            self.undecided("arithmetic on a character")
        if isinstance(v, Unknown) or isinstance(n, Unknown):
            return Unknown("sum")
        if v is UNINIT:
            self.fault("uninitialised", "arithmetic on a value that was never set")
        return v + n

    def arith(self, op, a, b, t):
        if op == "+":
            if isinstance(b, Pt):
                a, b = b, a
            if a == 0 and isinstance(a, int) and t.endswith("*") and b == 0:
                return 0
            return self.add(a, b)
        if op == "-":
            if isinstance(a, Pt) and isinstance(b, Pt):
                if a.c is not b.c:
                    self.fault("bounds", "difference of pointers into different objects")
                return a.i - b.i
            if isinstance(b, Pt):
                self.undecided("difference")
            return self.add(a, -b if isinstance(b, int) else b)
        if op in ("==", "!="):
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                if a is b:
                    return int(op == "==")
                return Unknown("cmp")
            r = a is b or (type(a) == type(b) or isinstance(a, Ch) or isinstance(b, Ch)) and a == b
            return int(r if op == "==" else not r)
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                return Unknown("cmp")
            if isinstance(a, Ch) and isinstance(b, Ch):
                self.undecided("order of two characters")
            if isinstance(a, Pt) and isinstance(b, Pt) and a.c is b.c:
                a, b = a.i, b.i
            elif isinstance(a, Pt) or isinstance(b, Pt):
                if a == 0 or b == 0:
                    a, b = int(isinstance(a, Pt)), int(isinstance(b, Pt))
                else:
                    self.fault("bounds", "comparison of pointers into different objects")
            return int(a < b if op == "<" else a > b if op == ">" else a <= b if op == "<=" else a >= b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown("value")
        if not isinstance(a, int) or not isinstance(b, int):
            self.undecided("%s of %s and %s" % (op, a, b))
        if op == "*":
            return wrap(a * b, t)
        if op in ("/", "%"):
            if b == 0:
                self.fault("division", "division by zero")
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == "/" else a - b * q
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        if op == "<<":
            return wrap(a << b, t)
        if op == ">>":
            return a >> b
        self.undecided("operator %s" % op)

    def bin(self, e):
        op = e["op"]
        if op == ",":
            self.rv(e["x"])
            return self.rv(e["y"])
        if op == "&&":
            return int(self.truth(self.rv(e["y"]))) if self.truth(self.rv(e["x"])) else 0
        if op == "||":
            return 1 if self.truth(self.rv(e["x"])) else int(self.truth(self.rv(e["y"])))
        if op == "=" or (op.endswith("=") and op not in ("==", "!=", "<=", ">=")):
            return self.load_raw(*self.lv(e))
        a = self.rv(e["x"])
        b = self.rv(e["y"])
        for v in (a, b):
            if v is UNINIT:
                self.fault("uninitialised", "use of a value that was never set")
        return wrap(self.arith(op, a, b, e["t"]), e["t"])

    # ---- memory functions
    def typed(self, raw, t):
        t = t.replace("const ", "").strip()
        if not t.endswith("*"):
            return raw
        el = t[:-1].strip()
        if el == "void":
            return raw
        s = self.size(el)
        if not isinstance(raw.size, int):
            self.undecided("size of an allocation")
        n = raw.size // s
        a = Arr([self.fresh(el, 0 if raw.zero else UNINIT) for _ in range(n)], el, "the %s block" % el, True)
        self.heap.append(a)
        if raw.old is not None:
            o = raw.old.c
            for i in range(min(n, len(o.a))):
                a.a[i] = o.a[i]
            o.freed = True
        return Pt(a, 0)

    def free(self, v):
        if v == 0:
            return
        if not isinstance(v, Pt):
            self.undecided("free of %s" % (v,))
        if not isinstance(v.c, Arr) or not v.c.heap or v.i != 0:
            self.fault("free", "free of something that malloc did not return")
        if v.c.freed:
            self.fault("double-free", "memory released twice")
        v.c.freed = True

    def cstr(self, p):
        """characters of a C string"""
        out = []
        if p == 0:
            self.fault("null", "a null pointer is used as a string")
        i = p.i
        while True:
            v = self.load(p.c, i)
            if v == 0:
                return out
            out.append(v)
            i += 1

    def libcall(self, n, a, e):
        if n in ("malloc",):
            return Raw(a[0])
        if n == "calloc":
            return Raw(a[0] * a[1], zero=True) if isinstance(a[0], int) and isinstance(a[1], int) else self.undecided("size of an allocation")
        if n == "realloc":
            return Raw(a[1], a[0]) if isinstance(a[0], Pt) else Raw(a[1])
        if n == "free":
            return self.free(a[0])
        if n == "memset":
            p, v, s = a
            if p == 0:
                self.fault("null", "memset of a null pointer")
            if v != 0:
                self.undecided("memset with %s" % (v,))
            el = self.load_raw(p.c, p.i) if not isinstance(p.c, Arr) else None
            if isinstance(p.c, Arr):
                k = s // self.size(p.c.el)
                for i in range(k):
                    self.chk(p.c, p.i + i, "write")
                    p.c.a[p.i + i] = self.fresh(p.c.el, 0)
            elif isinstance(el, Obj):
                for f in el.f:
                    el.f[f] = 0
            else:
                self.store(p.c, p.i, 0)
            return p
        if n in ("memcpy", "memmove"):
            d, s, k = a
            if d == 0 or s == 0:
                self.fault("null", "%s with a null pointer" % n)
            if isinstance(s.c, Arr) and isinstance(d.c, Arr):
                k //= self.size(d.c.el)
                for i in range(k):
                    self.chk(s.c, s.i + i, "read")
                    self.chk(d.c, d.i + i, "write")
                if n == "memcpy" and s.c is d.c and abs(s.i - d.i) < k and k:
                    self.fault("bounds", "memcpy of overlapping areas")
                vs = [clone(x) for x in s.c.a[s.i:s.i + k]]
                d.c.a[d.i:d.i + k] = vs
            else:
                self.store(d.c, d.i, self.load_raw(s.c, s.i))
            return d
        if n in ("strdup", "wcsdup"):
            s = self.cstr(a[0]) if not isinstance(self.peek(a[0]), Opaque) else None
            if s is None:
                return self.opaque(self.peek(a[0]))
            r = Arr(s + [0], "char", "a copied string", True)
            self.heap.append(r)
            return Pt(r, 0)
        if n in ("strlen", "wcslen"):
            return len(self.cstr(a[0]))
        if n in ("strcmp", "wcscmp"):
            x, y = self.cstr(a[0]), self.cstr(a[1])
            return (x > y) - (x < y)
        if n in ("fprintf", "printf"):
            a = a[1:] if n == "fprintf" else a
            fmt = "".join(chr(c & 255) for c in self.cstr(a[0]))
            for i, c in enumerate(re.findall(r"%[-0-9.lzh]*([a-zA-Z])", fmt)):
                if c in "sS" and i + 1 < len(a) and not isinstance(self.peek(a[i + 1]), Opaque):
                    if a[i + 1] != 0:
                        self.cstr(a[i + 1])
                elif i + 1 < len(a) and a[i + 1] is UNINIT:
                    self.fault("uninitialised", "a value that was never set is printed")
            return 0
        if n in ("fflush", "setlocale", "fputc", "putchar", "fputs", "puts"):
            return 0
        if n in ("getchar", "getc", "fgetc"):
            return Unknown("input")
        if n in ("exit", "abort"):
            raise Event("exit", "the program ends", (self.fname, self.line))
        if n == "wcstombs":
            d, s, k = a
            cs = self.cstr(s)
            if any(not (c > 0 and c < 128) for c in cs if isinstance(c, (int, Ch))):
                return (1 << 64) - 1       # not representable in the initial ("C") locale
            if d == 0:
                return len(cs)
            for i, c in enumerate((cs + [0])[:k]):
                self.chk(d.c, d.i + i, "write")
                d.c.a[d.i + i] = c
            return len(cs)
        if n in ("move", "forward", "as_const", "launder") and len(a) == 1:
            return self.unref(a[0])
        if n in ("min", "max") and len(a) == 2:
            x, y = self.unref(a[0]), self.unref(a[1])
            if n == "max":
                return y if self.truth(self.arith("<", x, y, "bool")) else x
            return y if self.truth(self.arith("<", y, x, "bool")) else x
        if n in ("exchange", "swap") and isinstance(a[0], tuple):
            v = self.load_raw(*a[0][1])
            if n == "swap":
                w = self.load_raw(*a[1][1])
                self.store(*a[1][1], v)
                self.store(*a[0][1], w)
                return None
            self.store(*a[0][1], self.unref(a[1]))
            return v
        if n == "operator+" and len(a) == 2:
            return Str([y for x in map(self.unref, a) for y in (x.s if isinstance(x, Str) else self.cstr(x) if isinstance(x, Pt) else [x])])
        if n in ("operator==", "operator!=") and len(a) == 2 and any(isinstance(self.unref(x), Str) for x in a):
            x, y = [list(v.s) if isinstance(v, Str) else self.cstr(v) for v in map(self.unref, a)]
            return int((x == y) == (n == "operator=="))
        if n in ("strncmp", "memcmp") and isinstance(a[2], int):
            x, y = [], []
            for i in range(a[2]):
                x.append(self.load(a[0].c, a[0].i + i))
                y.append(self.load(a[1].c, a[1].i + i))
                if x[-1] != y[-1] or n == "strncmp" and x[-1] == 0:
                    break
            return (x > y) - (x < y)
        if n in ("strcpy", "strncpy", "strcat"):
            d = a[0]
            v = self.cstr(a[1])
            v = (v + [0] * (a[2] - len(v)))[:a[2]] if n == "strncpy" else v + [0]
            k = d.i + (len(self.cstr(d)) if n == "strcat" else 0)
            for i, x in enumerate(v):
                self.store(d.c, k + i, x)
            return d
        if n in ("isdigit", "isalpha", "isspace", "isalnum", "isupper", "islower", "tolower", "toupper", "isprint") and isinstance(a[0], int):
            c = chr(a[0]) if 0 <= a[0] < 128 else "\u00ff"
            if n in ("tolower", "toupper"):
                return ord(getattr(c, n[2:])()) if 0 <= a[0] < 128 else a[0]
            return int(c.isascii() and {"isspace": c in " \t\n\v\f\r", "isprint": 32 <= a[0] < 127}.get(n, getattr(c, n, lambda: False)()))
        self.undecided("call of %s" % n)

    def unref(self, v):
        return self.load_raw(*v[1]) if isinstance(v, tuple) and v and v[0] == "alias" else v

    def peek(self, p):
        if isinstance(p, Pt):
            v = p.c.a[p.i] if isinstance(p.c, Arr) and not p.c.freed and 0 <= p.i < len(p.c.a) else None
            return v
        return None

    def opaque(self, o):
        r = Arr([o], "char", "a token's text", True)
        self.heap.append(r)
        return Pt(r, 0)

    # ---- std::string
    def string(self, m, s, a):
        m = m.rsplit("::", 1)[-1]
        for c in s.s:
            if c is UNINIT:
                self.fault("uninitialised", "string content")
        if m in ("length", "size"):
            return len(s.s)
        if m == "empty":
            return int(not s.s)
        if m == "clear":
            s.s = []
            return None
        if m in ("append", "operator+="):
            x = a[0]
            if len(a) == 2 and isinstance(x, int):
                x = Str([a[1]] * x)
            elif len(a) == 2 and isinstance(x, Pt) and isinstance(a[1], int):
                x = Str([self.load(x.c, x.i + i) for i in range(a[1])])
            elif len(a) != 1:
                self.undecided("what is appended")
            s.s = s.s + (list(x.s) if isinstance(x, Str) else self.cstr(x) if isinstance(x, Pt) else [x])
            return Pt(Arr([s], "std::string"), 0)
        if m in ("assign", "operator="):
            x = a[0]
            if len(a) != 1:
                self.undecided("what is assigned")
            s.s = list(x.s) if isinstance(x, Str) else self.cstr(x) if isinstance(x, Pt) else [x]
            return Pt(Arr([s], "std::string"), 0)
        if m == "push_back":
            s.s = s.s + [a[0]]
            return None
        if m == "pop_back":
            if not s.s:
                self.fault("bounds", "last character of an empty string")
            s.s = s.s[:-1]
            return None
        if m == "front":
            if not s.s:
                self.fault("bounds", "first character of an empty string")
            return Pt(Arr(s.s, "char", "a string"), 0)
        if m in ("reserve", "shrink_to_fit"):
            return None
        if m == "resize" and isinstance(a[0], int):
            s.s = (s.s + [a[1] if len(a) > 1 else 0] * (a[0] - len(s.s)))[:a[0]]
            return None
        if m == "substr":
            b = a[0] if a else 0
            if not isinstance(b, int) or len(a) > 1 and not isinstance(a[1], int):
                self.undecided("part of a string")
            if b > len(s.s):
                raise Thrown()
            return Str(s.s[b:] if len(a) < 2 or a[1] < 0 else s.s[b:b + a[1]])
        if m == "erase" and all(isinstance(x, int) for x in a):
            b = a[0] if a else 0
            n = a[1] if len(a) > 1 and 0 <= a[1] < len(s.s) else len(s.s)
            s.s = s.s[:b] + s.s[b + n:]
            return Pt(Arr([s], "std::string"), 0)
        if m == "back":
            if not s.s:
                self.fault("bounds", "last character of an empty string")
            return Pt(Arr(s.s, "char", "a string"), len(s.s) - 1)
        if m in ("c_str", "data"):
            return Pt(Arr(list(s.s) + [0], "char", "a string"), 0)
        if m in ("operator[]", "at"):
            if not isinstance(a[0], int):
                self.undecided("string index")
            if not 0 <= a[0] <= len(s.s):
                self.fault("bounds", "character %d of a string of %d" % (a[0], len(s.s)))
            return Pt(Arr(s.s, "char", "a string"), a[0]) if a[0] < len(s.s) else Pt(Arr([0], "char", "a string"), 0)
        self.undecided("string method %s" % m)

    # ---- calls
    def arg(self, x, t=None):
        if t is not None and t.endswith("&"):
            l = self.lv(x)
            return ("alias", l)
        if x["k"] in ("Ref", "Member") and not t:
            return self.load_raw(*self.lv(x))
        return self.rv(x)

    def callx(self, e):
        fn = e.get("fn")
        this = None
        if e["k"] == "MCall" and "callee" in e:
            c = e["callee"]
            f = self.rv(c["y"])
            if isinstance(f, int) and f == 0:
                self.fault("null", "a member function is called through a null pointer")
            if not isinstance(f, Fn):
                self.undecided("member function pointer")
            fn, this = f.fn, self.rv(c["x"])
        elif e["k"] == "MCall":
            o = e["o"]
            if fn.get("cls", "").startswith("std::basic_string"):
                s = self.load_raw(*self.lv(o)) if not e.get("arrow") else self.rv(o)
                if isinstance(s, Pt):
                    s = self.load_raw(s.c, s.i)
                if not isinstance(s, Str):
                    self.undecided("string object")
                return self.string(fn["n"], s, [self.arg(x) for x in e["a"]])
            this = self.rv(o) if e.get("arrow") else self.load_raw(*self.lv(o))
            if isinstance(this, Closure):
                return self.invoke(this, [self.arg(x) for x in e["a"]])
            this = self.deref_obj(this)
            if this.cls.startswith(("std::unique_ptr", "std::shared_ptr")):
                return self.smart(this, fn["n"].rsplit("::", 1)[-1], [self.arg(x) for x in e["a"]])
        elif e["k"] == "OpCall" and fn.get("cls", "").startswith("std::basic_string"):
            s = self.load_raw(*self.lv(e["a"][0])) if e["a"][0]["k"] != "Temp" else self.rv(e["a"][0])
            if isinstance(s, Pt):
                s = self.load_raw(s.c, s.i)
            if not isinstance(s, Str):
                self.undecided("string object")
            return self.string(fn["n"], s, [self.arg(x) for x in e["a"][1:]])
        elif e["k"] == "OpCall" and e.get("op") in ("()", "=", "*", "->", "==", "!=", "[]") and e["a"] and not (fn and fn["n"] in self.stubs):
            x0 = e["a"][0]
            try:
                o = self.load_raw(*self.lv(x0))
            except AnalysisBroken:
                o = None
            if isinstance(o, Closure) and e["op"] == "()":
                ps = (o.node.get("ops") or [{"params": []}])[0]["params"]
                return self.invoke(o, [self.arg(x, q["t"]) for x, q in zip(e["a"][1:], ps)])
            if isinstance(o, Obj) and o.cls.startswith(("std::unique_ptr", "std::shared_ptr")):
                if e["op"] in ("==", "!="):
                    y = self.unref(self.arg(e["a"][1]))
                    y = y.f.get("$p", 0) if isinstance(y, Obj) else y
                    return int((o.f.get("$p", 0) == y) == (e["op"] == "=="))
                return self.smart(o, "operator" + e["op"], [self.arg(x) for x in e["a"][1:]])
            f = self.p.funcs.get(fn["u"]) if fn else None
            if e["op"] == "=" and isinstance(o, Obj) and (f is None or not f.get("body")):
                v = self.arg(e["a"][1])
                v = self.unref(v)
                if isinstance(v, Pt):
                    v = self.load_raw(v.c, v.i)
                if not isinstance(v, Obj):
                    self.undecided("assignment of %s" % (v,))
                o.f.update(clone(v).f)
                return Pt(*self.lv(x0))
            if f is not None and f.get("body") and isinstance(o, Obj) and fn.get("cls"):
                return self.call(f, o, [self.arg(x, q["t"]) for x, q in zip(e["a"][1:], f["params"])])
        if fn is None:
            self.undecided("indirect call")
        n = fn["n"]
        if n in self.stubs:
            return self.stubs[n](self, this, [self.arg(x) for x in e["a"]])
        f = self.p.funcs.get(fn["u"])
        if f is None or not f.get("body"):
            pt = fn.get("pt") or []
            b = n.replace("std::", "")
            ref = b in ("exchange", "swap")
            return self.libcall(b, [self.arg(x, q if ref and q.endswith("&") and not q.endswith("&&") else None) for x, q in zip(e["a"], list(pt) + [""] * len(e["a"]))], e)
        args = [self.arg(x, q["t"]) for x, q in zip(e["a"], f["params"])]
        return self.call(f, this, args)

    def construct(self, e):
        """an object made by a constructor call"""
        c = e.get("cls", "").replace("const ", "")
        a = e["a"]
        if c.startswith("std::unique_ptr") or c.startswith("std::shared_ptr"):
            v = self.rv(a[0]) if a else 0
            if isinstance(v, Obj):
                w = v.f.get("$p", 0)
                if c.startswith("std::unique_ptr"):
                    v.f["$p"] = 0
                v = w
            return Obj(c, {"$p": v}, c)
        if c.startswith("std::pair") and len(a) == 2:
            return Obj(c, {"first": self.init("", a[0]), "second": self.init("", a[1])}, c)
        g = self.p.funcs.get(e["fn"]["u"]) if e.get("fn") else None
        if len(a) == 1 and (g is None or not g.get("body") or (e.get("fn") or {}).get("cc") in ("copy", "move")):
            v = self.rv(a[0])
            if isinstance(v, Obj):
                return clone(v)
        r = self.p.records.get(c)
        if r is None:
            self.undecided("constructor of %s" % c)
        o = self.fresh(c, UNINIT)
        ts = {f["n"]: f for f in r["fields"]}
        if g is None:
            if a:
                self.undecided("constructor of %s" % c)
            return o
        args = [self.arg(x, q["t"]) for x, q in zip(a, g["params"])]
        self.frames.append(({q["d"]: x for q, x in zip(g["params"], args)}, o))
        self.visited.add(g["fn"]["u"])
        old = self.fname
        self.fname = g["fn"]["n"]
        try:
            for i in g.get("inits") or []:
                if i.get("base"):
                    self.undecided("constructor of a base class")
                o.f[i["m"]] = self.init(ts[i["m"]]["t"] if i["m"] in ts else "", i["e"])
            if g.get("body"):
                try:
                    self.st(g["body"])
                except _Ret:
                    pass
        finally:
            self.frames.pop()
            self.fname = old
        return o

    def new(self, e):
        t = e["t"]
        if e.get("place"):
            self.undecided("placement new")
        if "arr" in e:
            n = self.rv(e["arr"])
            if not isinstance(n, int):
                self.undecided("size of an allocation")
            a = Arr([self.space(t, 0 if e.get("init") else UNINIT) for _ in range(n)], t, "the %s block" % t)
        else:
            a = Arr([self.init(t, e["init"]) if e.get("init") is not None else self.space(t, UNINIT)], t, "a new %s" % t)
        return Pt(a, 0)

    def invoke(self, cl, args):
        op = (cl.node.get("ops") or [None])[0]
        if op is None or not op.get("body") or len(cl.node["ops"]) > 1:
            self.undecided("call of a lambda")
        env = Env(cl.env)
        for q, a in zip(op["params"], args):
            dict.__setitem__(env, q["d"], a)
        self.frames.append((env, cl.this))
        if len(self.frames) > 200:
            raise Fuel()
        try:
            self.st(op["body"])
            return None
        except _Ret as r:
            return r.v
        finally:
            self.frames.pop()

    def smart(self, o, m, a):
        """unique_ptr / shared_ptr"""
        p = o.f.get("$p", 0)
        if m in ("get", "operator->"):
            return p
        if m == "operator*":
            if p == 0:
                self.fault("null", "dereference of a null pointer")
            return p
        if m == "operator bool":
            return int(p != 0)
        if m == "release":
            o.f["$p"] = 0
            return p
        if m in ("reset", "operator="):
            v = self.unref(a[0]) if a else 0
            if isinstance(v, Obj):
                w = v.f.get("$p", 0)
                if o.cls.startswith("std::unique_ptr"):
                    v.f["$p"] = 0
                v = w
            if isinstance(p, Pt) and isinstance(p.c, Arr) and o.cls.startswith("std::unique_ptr"):
                p.c.freed = True
            o.f["$p"] = v
            return None
        self.undecided("method %s of a smart pointer" % m)

    def call(self, f, this, args):
        fr = {}
        for q, a in zip(f["params"], args):
            fr[q["d"]] = a
        self.frames.append((fr, this))
        if len(self.frames) > 200:
            raise Fuel()
        old = (self.fname, self.line)
        self.fname = f["fn"]["n"]
        self.visited.add(f["fn"]["u"])
        try:
            self.st(f["body"])
            return None
        except _Ret as r:
            return r.v
        finally:
            self.frames.pop()
            self.fname, self.line = old

    # ---- statements
    def st(self, s):
        if s is None:
            return
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        if s.get("l"):
            self.line = s["l"]
        k = s["k"]
        if k == "Block":
            for x in s["b"]:
                self.st(x)
        elif k == "Expr":
            e = s["e"]
            if e["k"] in ("Bin", "Un") and (e["op"] in ("++", "--") or e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=")):
                if e["op"] in ("++", "--") and e.get("post"):
                    self.rv(e)
                else:
                    self.lv(e)
            else:
                self.rv(e)
        elif k == "Decl":
            for v in s["v"]:
                self.declare(v)
        elif k == "If":
            if s.get("init"):
                self.st(s["init"])
            if s.get("cv"):
                self.st(s["cv"])
            self.st(s["x"] if self.truth(self.cond(s["c"])) else s.get("y"))
        elif k == "ForR":
            if s.get("init"):
                self.st(s["init"])
            self.each(s)
        elif k == "While":
            while True:
                if s.get("cv"):
                    self.st(s["cv"])
                if not self.truth(self.cond(s["c"])):
                    break
                try:
                    self.st(s["b"])
                except _Break:
                    break
                except _Cont:
                    pass
        elif k == "Do":
            while True:
                try:
                    self.st(s["b"])
                except _Break:
                    break
                except _Cont:
                    pass
                if not self.truth(self.cond(s["c"])):
                    break
        elif k == "For":
            self.st(s.get("init"))
            while s.get("c") is None or self.truth(self.cond(s["c"])):
                try:
                    self.st(s["b"])
                except _Break:
                    break
                except _Cont:
                    pass
                if s.get("inc") is not None:
                    self.st({"k": "Expr", "e": s["inc"]})
        elif k == "Switch":
            if s.get("init"):
                self.st(s["init"])
            self.switch(s)
        elif k == "Ret":
            raise _Ret(self.rv(s["e"]) if s.get("e") is not None else None)
        elif k == "Break":
            raise _Break()
        elif k == "Cont":
            raise _Cont()
        elif k == "Nop":
            pass
        elif k == "Try":
            n = len(self.frames)
            try:
                self.st(s["b"])
            except Thrown:
                del self.frames[n:]
                if not s.get("h"):
                    raise
                self.st(s["h"][0]["b"])
        elif k in ("Case", "Default"):
            self.st(s.get("s") or s.get("b"))
        else:
            self.undecided("statement %s" % k)

    def declare(self, v):
        fr = self.frames[-1][0]
        t = v.get("t", "")
        if v.get("sl"):
            if v["d"] not in self.statics:
                self.statics[v["d"]] = self.init(t, v["init"]) if v.get("init") is not None else self.space(t, 0)
            x = self.statics[v["d"]]
        elif v.get("init") is None:
            x = fr[v["d"]] = self.space(t, UNINIT)
        elif t.endswith("&"):
            l = self.lv(v["init"])
            fr[v["d"]] = ("alias", l)
            x = self.load_raw(*l)
        else:
            x = fr[v["d"]] = self.init(t, v["init"])
        if "binds" in v:
            self.bind(v["binds"], x)

    def bind(self, binds, x):
        fr = self.frames[-1][0]
        for i, b in enumerate(binds):
            if isinstance(x, Obj):
                fs = list(x.f)
                fr[b["d"]] = ("alias", (x, b["field"] if b.get("field") in x.f else fs[i]))
            elif isinstance(x, Arr):
                fr[b["d"]] = ("alias", (x, i))
            else:
                self.undecided("structured binding of %s" % (x,))

    def space(self, t, v):
        t0 = t.replace("const ", "").strip()
        m = re.match(r"^(.*?) ?((?:\[\d+\])+)$", t0)
        if m:
            dims = [int(x) for x in re.findall(r"\d+", m.group(2))]

            def go(d):
                if d == len(dims):
                    return self.fresh(m.group(1), v)
                return Arr([go(d + 1) for _ in range(dims[d])], m.group(1), "an array")
            return go(0)
        if t0.startswith("std::basic_string") or t0 == "std::string":
            return Str()
        return self.fresh(t0, v)

    def init(self, t, e):
        """value of an object of type t initialised with e"""
        while e["k"] in ("Temp", "StdInit", "Default") or e["k"] == "Cast" and e["ck"] == "NoOp" and e["e"]["k"] in ("Init", "Temp", "Ctor"):
            e = e["e"]
        if e["k"] == "Init":
            return self.aggregate(t, e)
        if e["k"] == "Zero":
            return self.space(t, 0)
        if e["k"] == "Str" and "[" in t:
            a = self.rv(e).c
            n = re.search(r"\[(\d+)\]", t)
            while n and len(a.a) < int(n.group(1)):
                a.a.append(0)
            return a
        v = self.rv(e)
        if isinstance(v, Raw):
            v = self.typed(v, t)
        return clone(v)

    def aggregate(self, t, e):
        t0 = t.replace("const ", "").strip()
        m = re.match(r"^(.*?) ?\[(\d*)\]((?:\[\d+\])*)$", t0)
        if m:
            el = m.group(1) + m.group(3)
            a = [self.init(el, x) for x in e["e"]]
            n = int(m.group(2) or e.get("n") or len(a))
            while len(a) < n:
                a.append(self.space(el, 0))
            return Arr(a, el, "an array")
        r = self.p.records.get(t0)
        if r and e.get("fields") is not None:
            ts = {f["n"]: f["t"] for f in r["fields"]}
            o = self.space(t0, 0)
            for n, x in zip(e["fields"], e["e"]):
                o.f[n] = self.init(ts.get(n, ""), x)
            return o
        if t0.startswith("std::pair") and len(e["e"]) == 2:
            return Obj(t0, {"first": self.init("", e["e"][0]), "second": self.init("", e["e"][1])})
        if len(e["e"]) == 1:
            return self.init(t, e["e"][0])
        if not e["e"]:
            return self.space(t, 0)
        self.undecided("initialiser of %s" % t)

    def each(self, s):
        """range-based for over an array, a text or a list of values"""
        r = s["r"]
        while r["k"] in ("Temp", "StdInit") or r["k"] == "Cast" and r["ck"] in ("NoOp", "ArrayToPointerDecay"):
            r = r["e"]
        c = self.aggregate("[]", r) if r["k"] == "Init" else self.load_raw(*self.lv(r))
        if isinstance(c, Pt):
            c = c.c if isinstance(c.c, Arr) and r["k"] == "Str" else self.load_raw(c.c, c.i)
        if isinstance(c, Str):
            c = Arr(c.s, "char", "a string")
        if not isinstance(c, Arr):
            self.undecided("range %s" % (c,))
        v = s["v"]
        for i in range(len(c.a)):
            if i >= len(c.a):
                break
            fr = self.frames[-1][0]
            if v.get("t", "").endswith("&"):
                fr[v["d"]] = ("alias", (c, i))
                x = c.a[i]
            else:
                x = fr[v["d"]] = clone(self.load_raw(c, i))
            if "binds" in v:
                self.bind(v["binds"], x)
            try:
                self.st(s["b"])
            except _Break:
                break
            except _Cont:
                pass

    def cond(self, c):
        return self.rv(c) if c["k"] not in ("Decl",) else self.undecided("declaration in a condition")

    def switch(self, s):
        v = self.rv(s["c"])
        body = s["b"]["b"] if s["b"] and s["b"]["k"] == "Block" else [s["b"]]
        at = None
        for i, x in enumerate(body):
            y = x
            while y is not None and y["k"] in ("Case", "Default"):
                if y["k"] == "Case":
                    if "v" not in y:
                        self.undecided("case label")
                    cv = y["v"]
                    if isinstance(v, Unknown):
                        if self.choose(2):
                            at = i
                    elif cv == v:
                        at = i
                y = y.get("s")
            if at is not None:
                break
        if at is None:
            for i, x in enumerate(body):
                y = x
                while y is not None and y["k"] in ("Case", "Default"):
                    if y["k"] == "Default":
                        at = i
                    y = y.get("s")
        if at is None:
            return
        try:
            for x in body[at:]:
                self.st(x)
        except _Break:
            pass


def clone(v):
    """copy of a value; records and arrays are values"""
    if isinstance(v, Obj):
        return v if v.cls.startswith("std::") and "pair" not in v.cls else Obj(v.cls, {k: clone(x) for k, x in v.f.items()}, v.name)
    if isinstance(v, Arr):
        return Arr([clone(x) for x in v.a], v.el, v.name)
    if isinstance(v, Str):
        return Str(v.s)
    return v


class Closure:
    """a lambda: the names it can refer to and the object it was made in"""

    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class Env(dict):
    """variables of a lambda's body: its own, then those of the function around it (by reference)"""

    def __init__(self, up):
        dict.__init__(self)
        self.up = up

    def get(self, k, d=None):
        return dict.get(self, k) if k in self.keys() else self.up.get(k, d)

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.up

    def __setitem__(self, k, v):
        if not dict.__contains__(self, k) and k in self.up:
            self.up[k] = v
        else:
            dict.__setitem__(self, k, v)


class Opaque:
    """text that is not looked at"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "«%s»" % (self.name,)


def table(v, el="const int"):
    """constant table as memory"""
    if isinstance(v, list):
        return Arr([table(x) for x in v], el, "a table")
    if isinstance(v, str):
        return Pt(Arr([ord(c) for c in v] + [0], "char", "a literal"), 0)
    return 0 if v is None else int(v)


def explore(m, f, limit=4000):
    """f() under every outcome of the branches on unknown values; yields its results"""
    m.choices = []
    n = 0
    while True:
        n += 1
        if n > limit:
            raise AnalysisBroken("too many paths")
        m.ci = 0
        m.fuel = m.fuel0
        yield f()
        while m.choices and m.choices[-1][0] + 1 >= m.choices[-1][1]:
            m.choices.pop()
        if not m.choices:
            return
        m.choices[-1][0] += 1
