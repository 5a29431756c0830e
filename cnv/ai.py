"""Flow-sensitive, interprocedural abstract interpreter over the exported AST.

Domain: constants, named unknowns (with intervals), value-numbered terms, an abstract heap of typed
cells with an allocation typestate (live/freed).  Undecided branches evaluate both sides and *join*
the states; undecided loops are iterated to a widened fixpoint.  Calls are inlined on the abstract
state (recursion and selected callees are replaced by summaries given by the rule)."""
import re
import struct

from .values import *
from . import lib

MAXDEPTH = 40
NULLCELL = -1    # the object a null pointer would point to: every access is an error


class Dead(Exception):
    """no normal completion of the expression being evaluated"""


class TooBig(Exception):
    pass


class Issue:
    def __init__(self, kind, where, msg, definite, stack):
        self.kind, self.where, self.msg, self.definite, self.stack = kind, where, msg, definite, stack

    def __repr__(self):
        return "%s%s at %s: %s" % ("" if self.definite else "possible ", self.kind, self.where, self.msg)


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.env = {}
        self.rets = []      # (value, snapshot)
        self.locals = []    # (declaration, cell) of objects to destroy
        self.nrvo = set()
        self.loops = []     # stack of {'brk':[], 'cnt':[]}
        self.line = 0


def strip_type(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&") or t.endswith("*"):
            t = t[:-1].strip()
        if t.endswith("*const"):
            t = t[:-6].strip()
        if t.startswith("const "):
            t = t[6:]
        if t.endswith(" const"):
            t = t[:-6].strip()
        if t.startswith("volatile "):
            t = t[9:]
        if o == t:
            return t


def unref(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return uncv(t)


def uncv(t):
    t = t.strip()
    if not t.endswith("*"):
        while t.startswith("const ") or t.startswith("volatile "):
            t = t.split(" ", 1)[1]
    if t.endswith("const") and not t.endswith("_const"):
        t = t[:-5].strip()
    return t


def is_ref(t):
    return t.rstrip().endswith("&")


def is_ptr(t):
    t = uncv(unref(t))
    return t.endswith("*")


def pointee(t):
    t = uncv(unref(t))
    return uncv(t[:-1]) if t.endswith("*") else t


WIDTH = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
         "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
         "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
         "unsigned long long": (64, False), "wchar_t": (32, True), "char32_t": (32, False), "char16_t": (16, False)}
FLOATS = {"float", "double", "long double"}


def int_info(t):
    return WIDTH.get(uncv(unref(t)))


def fits(v, w):
    """every value the unknown can take is representable in the integer type (bits, signed)"""
    lo, hi = interval(v)
    if lo is None or hi is None:
        return False
    n, sgn = w
    return (lo >= -2 ** (n - 1) and hi < 2 ** (n - 1)) if sgn else (lo >= 0 and hi < 2 ** n)


def wrap(v, t):
    w = int_info(t)
    if w is None or isinstance(v, bool) and w[0] == 1:
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        v = int(v)
    n, s = w
    if n == 1:
        return bool(v)
    v &= (1 << n) - 1
    if s and v >> (n - 1):
        v -= 1 << n
    return v


def extremum(k, a, b):
    """value that is a where the comparison k holds and b elsewhere, as max/min; None when it is neither"""
    if isinstance(a, bool) or isinstance(b, bool) or len(k.args) != 2:
        return None
    from . import poly
    try:
        x, y, p, q = (poly.norm(v) for v in (a, b) + tuple(k.args))
        d, e = (x - y), (p - q)
        if not d.n or set(d.d) != {()} or set(e.d) != {()} or set(d.n) != set(e.n):
            return None
        m = next(iter(d.n))
        r = (e.n[m] / e.d[()]) / (d.n[m] / d.d[()])
        if not (e - d * poly.num(r)) == poly.num(0):
            return None
    except (poly.NotPoly, ZeroDivisionError, OverflowError, ValueError):
        return None
    big = (k.op in (">", ">=")) == (r > 0)
    v = [a, b]
    return lib.minmax(None, "max" if big else "min", v[0], v[1])


class AI:
    def __init__(self, prog, stubs=None, globals_=None, sym_globals=True):
        self.p = prog
        self.stubs = dict(stubs or {})
        self.heap = {}
        self.ctype = {}
        self.name = {}
        self.freed = {}
        self.borrowed = set()
        self.facts = {}
        self.globals = {}
        self.gover = dict(globals_ or {})
        self.sym_globals = sym_globals
        self.frames = []
        self.issues = []
        self.next = 1
        self.tries = []
        self.lazy = {}
        self.steps = 0
        self.visited = set()      # functions inlined
        self.unknown_calls = set()
        self.imprecise = []       # reasons for precision loss
        self.on_delete = None
        self.on_call = None
        self.phi_reads = None
        self._disc = ()
        self.mute = 0
        self.uid = 0
        self.loop_hint = None
        self.thrown = []
        self.dyn = set()
        self.dyn_class = {}
        self.fmt_log = []
        self.ext_log = []
        self.pylog = None       # calls into the Python binding library, when recorded
        self.py_hook = None
        self.put_type = ""
        self.iter_views = {}
        self.syms_distinct = True
        self.key_eq = None
        self.round_float = False    # concrete numbers: conversions to float round
        self.local_dtors = set()    # classes whose local objects are destroyed at the end of the function

    # ------------------------------------------------------------------ state
    def snap(self):
        return (dict(self.heap), dict(self.freed), dict(self.facts))

    def restore(self, s):
        self.heap, self.freed, self.facts = dict(s[0]), dict(s[1]), dict(s[2])

    def join(self, a, b):
        """join two snapshots into the current state"""
        ha, hb = a[0], b[0]
        h = dict(ha)
        self.heap = h
        newcells = []
        for c, vb in hb.items():
            if c in ha:
                va = ha[c]
                if va is not vb and not same(va, vb):
                    newcells.append((c, va, vb))
            else:
                h[c] = vb
        self._ha, self._hb = ha, hb
        self._disc = [(k, v) for k, v in a[2].items() if isinstance(k, App) and k.op in ("<", ">", "<=", ">=") and b[2].get(k) == (not v)] if a[2] and b[2] else ()
        for c, va, vb in newcells:
            h[c] = self.join_content(va, vb, ha, hb)
        fr = {}
        for c in set(a[1]) | set(b[1]):
            x, y = a[1].get(c), b[1].get(c)
            # a cell allocated in one branch only keeps its typestate
            k = c[1] if isinstance(c, tuple) else c
            if x is None and k not in ha:
                fr[c] = y
            elif y is None and k not in hb:
                fr[c] = x
            else:
                fr[c] = x if x == y else "maybe"
        self.freed = fr
        self.facts = {k: v for k, v in a[2].items() if b[2].get(k) == v}

    def join_content(self, va, vb, ha, hb):
        if isinstance(va, Struct) and isinstance(vb, Struct) and va.cls == vb.cls and \
                [k for k, _ in va.fields] == [k for k, _ in vb.fields]:
            f = []
            for (k, ca), (_, cb) in zip(va.fields, vb.fields):
                f.append((k, self.join_cells(ca, cb, ha, hb)))
            return Struct(va.cls, tuple(f))
        if isinstance(va, Cont) and isinstance(vb, Cont) and va.kind == vb.kind and len(va.cells) == len(vb.cells) \
                and same(va.meta, vb.meta):
            return Cont(va.kind, tuple(self.join_cells(x, y, ha, hb) for x, y in zip(va.cells, vb.cells)), va.meta)
        if isinstance(va, (Struct, Cont, Alt)) or isinstance(vb, (Struct, Cont, Alt)):
            s = set()
            for v in (va, vb):
                s |= set(v.alts) if isinstance(v, Alt) else {v}
            if len(s) > 8:
                return Top("too many shapes")
            return Alt(frozenset(s))
        if isinstance(va, (Tie,)) or isinstance(vb, (Tie,)):
            return Top("join of ties")
        return self.merge(va, vb)

    def merge(self, va, vb):
        """either value; the larger (smaller) of the two when the paths are told apart by comparing them"""
        if self._disc and isinstance(va, (int, float, App, Sym)) and isinstance(vb, (int, float, App, Sym)):
            for k, pol in self._disc:
                r = extremum(k, va if pol else vb, vb if pol else va)
                if r is not None:
                    return r
        return phi([va, vb])

    def join_cells(self, ca, cb, ha, hb):
        if ca == cb:
            return ca
        n = self.new_cell(self.ctype.get(ca, ""), None, "join")
        va, vb = ha.get(ca, UNINIT), hb.get(cb, UNINIT)
        self.heap[n] = va if same(va, vb) else self.join_content(va, vb, ha, hb)
        return n

    def join_many(self, items, own=False):
        """items: [(value, snap)] -> joined value; leaves joined state current (own: the snapshots are not used again)"""
        v, s = items[0]
        if own:
            self.heap, self.freed, self.facts = s
        else:
            self.restore(s)
        for v2, s2 in items[1:]:
            cur = self.snap()
            self.join(cur, s2)
            v = self.join_value(v, v2, cur[0], s2[0])
            self._disc = ()
        return v

    def join_value(self, a, b, ha=None, hb=None):
        ha = self.heap if ha is None else ha
        hb = self.heap if hb is None else hb
        if isinstance(a, LV) and isinstance(b, LV):
            if a.cells == b.cells:
                return a
            if len(a.cells) == 1 and len(b.cells) == 1:
                ca, cb = a.cells[0], b.cells[0]
                if self.name.get(ca, "").startswith("tmp") and self.name.get(cb, "").startswith("tmp"):
                    return LV(self.join_cells(ca, cb, ha, hb))
            return LV(*dict.fromkeys(a.cells + b.cells))
        if isinstance(a, LV):
            a = self.rv(a)
        if isinstance(b, LV):
            b = self.rv(b)
        if a is None and b is None:
            return None
        if isinstance(a, (Struct, Cont, Alt)) or isinstance(b, (Struct, Cont, Alt)):
            return self.join_content(a, b, ha, hb)
        return self.merge(a, b)

    def collect(self, roots):
        """forget the cells that nothing reachable from the roots refers to"""
        seen, todo = set(), [Ptr(c) for c in roots]
        while todo:
            x = todo.pop()
            cs = (x.cell,) if isinstance(x, Ptr) else x.cells if isinstance(x, (Cont, LV)) else [c for _, c in x.fields] if isinstance(x, Struct) else \
                (x.cont,) if isinstance(x, Iter) else ()
            if isinstance(x, Alt):
                todo += list(x.alts)
            elif isinstance(x, Phi):
                todo += list(x.vals)
            elif isinstance(x, Closure):
                cs = list(cs) + [c for _, c in x.caps] + ([x.this] if isinstance(x.this, int) else [])
            for c in cs:
                if c not in seen:
                    seen.add(c)
                    todo.append(self.heap.get(c))
        self.heap = {c: v for c, v in self.heap.items() if c in seen}

    # ------------------------------------------------------------------ cells
    def new_cell(self, t, v, name=""):
        c = self.next
        self.next += 1
        self.heap[c] = v
        self.ctype[c] = t
        self.name[c] = name
        return c

    def fresh(self, base):
        self.uid += 1
        return "%s#%d" % (base, self.uid)

    def issue(self, kind, msg, definite=True):
        if self.mute:
            return
        fr = self.frames[-1] if self.frames else None
        where = "%s:%s" % (fr.fn["file"] if fr else "?", fr.line if fr else 0)
        st = [f.fn["fn"]["n"] for f in self.frames]
        if not any(i.kind == kind and i.where == where and i.msg == msg for i in self.issues):
            self.issues.append(Issue(kind, where, msg, definite, st))

    def lose(self, why):
        fr = self.frames[-1] if self.frames else None
        self.imprecise.append("%s (%s:%s)" % (why, fr.fn["file"] if fr else "?", fr.line if fr else 0))
        return Top(why)

    def rv(self, x):
        """content of an lvalue, or the value itself"""
        if not isinstance(x, LV):
            return x
        if len(x.cells) == 1:
            return self.read(x.cells[0])
        vs = [self.read(c) for c in x.cells]
        v = vs[0]
        for w in vs[1:]:
            v = v if same(v, w) else self.join_content(v, w, self.heap, self.heap)
        return v

    def read(self, c):
        if c == NULLCELL:
            self.issue("null-deref", "null pointer dereferenced")
            raise Dead()
        st = self.freed.get(c)
        if st:
            self.issue("use-after-free", "read of %s after it was deleted" % self.desc(c), st == "yes")
        v = self.heap.get(c)
        if v is None and c in self.heap:
            v = self.heap[c] = self.lazy_init(c)
        if self.phi_reads is not None and isinstance(v, Phi):
            self.phi_reads.add(c)
        return v if v is not None else UNINIT

    def desc(self, c):
        return "%s (%s)" % (self.name.get(c) or "object", self.ctype.get(c))

    def write(self, lv, v):
        if len(lv.cells) == 1:
            c = lv.cells[0]
            if c == NULLCELL:
                self.issue("null-deref", "null pointer dereferenced")
                raise Dead()
            st = self.freed.get(c)
            if st:
                self.issue("use-after-free", "write to %s after it was deleted" % self.desc(c), st == "yes")
            self.heap[c] = v
        else:
            for c in lv.cells:
                o = self.heap.get(c)
                self.heap[c] = self.join_content(o, v, self.heap, self.heap) if not same(o, v) else v

    # ------------------------------------------------------------------ objects
    def all_fields(self, cls):
        """(name, type) of every field incl. bases; smart-pointer bases contribute '$p'"""
        out = []
        r = self.p.records.get(cls)
        if not r:
            return out
        for b in r["bases"]:
            if b in self.p.records:
                out += self.all_fields(b)
            elif b.startswith("std::shared_ptr<") or b.startswith("std::unique_ptr<"):
                out.append(("$p", b[b.index("<") + 1:b.rindex(">")].strip() + " *"))
            elif b.startswith("std::"):
                out.append(("$base", b))
        for f in r["fields"]:
            out.append((f["n"], f["t"]))
        return out

    def alloc(self, t, name="", zero=False):
        """a default-initialised object of type t (scalars uninitialised)"""
        t = uncv(t)
        c = self.new_cell(t, None, name)
        self.heap[c] = self.default_content(t, name, zero)
        return c

    def default_content(self, t, name="", zero=False):
        t = uncv(t)
        if t in self.p.records:
            fs = []
            for (n, ft) in self.all_fields(t):
                if is_ref(ft):
                    fs.append((n, 0))
                else:
                    fs.append((n, self.alloc(ft, (name + "." if name else "") + n, zero)))
            return Struct(t, tuple(fs))
        d = lib.default_std(self, t, name)
        if d is not None:
            return d
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m and int(m.group(2)) <= 64:
            return Cont("array", tuple(self.alloc(m.group(1).strip(), name + "[%d]" % i, zero) for i in range(int(m.group(2)))))
        if name.endswith("$p"):
            return NULL
        if zero:
            if is_ptr(t):
                return NULL
            if t in FLOATS:
                return 0.0
            if t == "bool":
                return False
            if t in WIDTH or t in self.p.enums:
                return 0
        return UNINIT

    def field(self, c, f):
        v = self.read(c)
        if isinstance(v, Struct):
            return v.get(f)
        return None

    def fget(self, c, f):
        """content of field f of the object in cell c"""
        fc = self.field(c, f)
        return None if fc is None else self.heap.get(fc)

    def lazy_obj(self, t, tag, seed=None):
        """an object of unknown content: every field is a named unknown (created on demand)"""
        t = uncv(t)
        c = self.new_cell(t, None, str(tag))
        self.lazy[c] = (t, tag)
        self.heap[c] = self.lazy_content(t, tag)
        return c

    def lazy_content(self, t, tag):
        t = uncv(t)
        if t in self.p.records:
            fs = []
            for (n, ft) in self.all_fields(t):
                cc = self.new_cell(uncv(unref(ft)), None, "%s.%s" % (tag, n))
                self.lazy[cc] = (uncv(unref(ft)), "%s.%s" % (tag, n))
                fs.append((n, cc))
            return Struct(t, tuple(fs))
        d = lib.lazy_std(self, t, tag)
        if d is not None:
            return d
        if is_ptr(t):
            return Sym("%s" % tag, kind="ptr:" + pointee(t))
        return Sym("%s" % tag)

    def lazy_init(self, c):
        if c in self.lazy:
            t, tag = self.lazy[c]
            return self.lazy_content(t, tag)
        return UNINIT

    def copy_obj(self, src, name=""):
        """memberwise copy of the value in cell src into a new cell"""
        c = self.new_cell(self.ctype.get(src, ""), None, name or "tmp")
        self.heap[c] = self.copy_content(self.read(src))
        return c

    def copy_content(self, v):
        if isinstance(v, Struct):
            fs = []
            for n, fc in v.fields:
                r = self.p.records.get(v.cls)
                isref = False
                if r:
                    for f in r["fields"]:
                        if f["n"] == n and is_ref(f["t"]):
                            isref = True
                fs.append((n, fc if isref or fc == 0 else self.copy_obj(fc, self.name.get(fc, ""))))
            return Struct(v.cls, tuple(fs))
        if isinstance(v, Cont):
            return Cont(v.kind, tuple(self.copy_obj(x, self.name.get(x, "")) for x in v.cells), v.meta)
        return v

    def assign_obj(self, dst, src):
        """memberwise assignment dst = src, keeping dst's identity"""
        v = self.read(src)
        d = self.heap.get(dst)
        st = self.freed.get(dst)
        if st:
            self.issue("use-after-free", "write to %s after it was deleted" % self.desc(dst), st == "yes")
        if isinstance(v, Struct) and isinstance(d, Struct):
            for n, fc in v.fields:
                dc = d.get(n)
                if dc:
                    self.assign_obj(dc, fc)
            return
        self.heap[dst] = self.copy_content(v)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, LV):
            v = self.rv(v)
        if v is NULL:
            return False
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if isinstance(v, (Ptr, FnPtr, Closure, Iter, str)):
            return True
        if isinstance(v, Phi):
            ts = {self.truth(x) for x in alts(v)}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(v, App):
            k = self.facts.get(v)
            if k is not None:
                return k
            if v.op == "!":
                t = self.truth(v.args[0])
                return None if t is None else not t
            if v.op in ("&&", "||"):
                ts = [self.truth(a) for a in v.args]
                if v.op == "&&":
                    return False if False in ts else (True if all(t is True for t in ts) else None)
                return True if True in ts else (False if all(t is False for t in ts) else None)
            neg = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}.get(v.op)
            if neg:
                k = self.facts.get(App(neg, v.args))
                if k is not None:
                    return not k
        if isinstance(v, Sym):
            k = self.facts.get(v)
            if k is not None:
                return k
            if v.kind.startswith("obj") or v.kind in ("numstr", "str"):
                return True
        return None

    def assume(self, v, pol):
        """record what a decided branch teaches; returns False if contradictory"""
        if isinstance(v, App):
            if v.op == "!":
                return self.assume(v.args[0], not pol)
            if v.op == "&&" and pol or v.op == "||" and not pol:
                for a in v.args:
                    self.assume(a, pol)
            self.facts[v] = pol
        elif isinstance(v, Sym):
            self.facts[v] = pol
        return True

    def pure_expr(self, e):
        if isinstance(e, dict):
            k = e.get("k")
            if k in ("New", "Delete", "Lambda", "Throw"):
                return False
            if k == "Bin" and (e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=")):
                return False
            if k == "Un" and e["op"] in ("++", "--"):
                return False
            if k in ("Call", "MCall"):
                n = e.get("fn", {}).get("n", "")
                if not (e.get("fn", {}).get("rt") and n.split("::")[-1] in lib.PURE):
                    return False
            if k == "OpCall" and e["op"] not in ("==", "!=", "<", ">", "<=", ">=", "*", "->", "[]", "-", "+"):
                return False
            return all(self.pure_expr(v) for v in e.values())
        if isinstance(e, list):
            return all(self.pure_expr(v) for v in e)
        return True

    def eval_cond(self, e):
        """-> (value, truth or None, refinement{cell:(then,else)} )"""
        save = self.phi_reads
        self.phi_reads = set()
        v = self.rv(self.ev(e))
        t = self.truth(v)
        reads, self.phi_reads = self.phi_reads, save
        if save is not None:
            save |= reads
        ref = {}
        if t is None and reads and len(reads) <= 2 and self.pure_expr(e):
            self.mute += 1
            try:
                for c in reads:
                    old = self.heap[c]
                    th, el = [], []
                    for a in alts(old):
                        self.heap[c] = a
                        try:
                            ta = self.truth(self.rv(self.ev(e)))
                        except Dead:
                            ta = None
                        if ta is not False:
                            th.append(a)
                        if ta is not True:
                            el.append(a)
                    self.heap[c] = old
                    ref[c] = (th, el)
            finally:
                self.mute -= 1
            for c, (th, el) in ref.items():
                if not th:
                    t = False
                elif not el:
                    t = True
        return v, t, ref

    def apply_ref(self, ref, side):
        for c, pr in ref.items():
            l = pr[side]
            if l:
                self.heap[c] = phi(l)

    def branch(self, cond, fa, fb):
        """evaluate fa/fb according to cond expr; each returns a value (or raises Dead). Joins."""
        v, t, ref = self.eval_cond(cond)
        if t is True:
            return fa()
        if t is False:
            return fb()
        s0 = self.snap()
        res = []
        self.apply_ref(ref, 0)
        self.assume(v, True)
        try:
            res.append((fa(), self.snap()))
        except Dead:
            pass
        self.restore(s0)
        self.apply_ref(ref, 1)
        self.assume(v, False)
        try:
            res.append((fb(), self.snap()))
        except Dead:
            pass
        if not res:
            raise Dead()
        return self.join_many(res)

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        """True if normal completion is possible"""
        if s is None:
            return True
        self.steps += 1
        if self.steps > 400000:
            raise TooBig()
        fr = self.frames[-1]
        if s.get("l"):
            fr.line = s["l"]
        k = s["k"]
        try:
            return getattr(self, "s_" + k)(s, fr)
        except Dead:
            return False

    def s_Block(self, s, fr):
        for x in s["b"]:
            if not self.exec(x):
                return False
        return True

    def s_Nop(self, s, fr):
        return True

    def s_Expr(self, s, fr):
        self.ev(s["e"])
        return True

    def s_Decl(self, s, fr):
        for v in s["v"]:
            self.declare(v, fr)
        return True

    def declare(self, v, fr):
        t = v["t"]
        if v.get("sl"):
            key = ("sl", fr.fn["fn"]["u"], v["n"])
            if key in self.globals:
                fr.env[v["d"]] = self.globals[key]
                return
        init = v.get("init")
        if is_ref(t):
            x = self.ev(init)
            if not isinstance(x, LV):
                x = LV(self.new_cell(unref(t), x, "tmp"))
            fr.env[v["d"]] = x if len(x.cells) > 1 else x.cells[0]
        elif init is None:
            fr.env[v["d"]] = self.alloc(t, v["n"])
        else:
            c = self.init_object(t, init, v["n"])
            fr.env[v["d"]] = c
            if self.local_dtors and uncv(t) in self.local_dtors and not v.get("sl"):
                fr.locals.append((v["d"], c))
        if v.get("sl"):
            self.globals[key] = fr.env[v["d"]]
        if "binds" in v:
            self.bind(v, fr)

    def bind(self, v, fr):
        c = fr.env[v["d"]]
        if isinstance(c, LV):
            c = c.cells[0]
        con = self.read(c)
        for i, b in enumerate(v["binds"]):
            fc = None
            if isinstance(con, Struct):
                if b.get("field"):
                    fc = con.get(b["field"])
                if fc is None and i < len(con.fields):
                    fc = con.fields[i][1]
            elif isinstance(con, Cont) and i < len(con.cells):
                fc = con.cells[i]
            if fc is None:
                fc = self.new_cell("", self.lose("structured binding"), b["n"])
            fr.env[b["d"]] = fc

    def init_object(self, t, init, name, cell=None):
        """evaluate an initialiser into a fresh cell of type t"""
        x = self.ev(init)
        if isinstance(x, LV):
            # class prvalue or Init list temp: adopt the temporary
            c = x.cells[0]
            if len(x.cells) == 1 and self.name.get(c, "").startswith("tmp") and cell is None:
                self.name[c] = name
                return c
            n = self.new_cell(uncv(t), None, name) if cell is None else cell
            self.heap[n] = self.copy_content(self.rv(x))
            return n
        n = self.new_cell(uncv(t), x, name) if cell is None else cell
        self.heap[n] = x
        return n

    def s_If(self, s, fr):
        if s.get("init") and not self.exec(s["init"]):
            return False
        if s.get("cv") and not self.exec(s["cv"]):
            return False
        v, t, ref = self.eval_cond(s["c"])
        if t is True:
            return self.exec(s["x"])
        if t is False:
            return self.exec(s["y"])
        s0 = self.snap()
        self.apply_ref(ref, 0)
        self.assume(v, True)
        n1 = self.exec(s["x"])
        s1 = self.snap()
        self.restore(s0)
        self.apply_ref(ref, 1)
        self.assume(v, False)
        n2 = self.exec(s["y"])
        if n1 and n2:
            self.join(s1, self.snap())
            self._disc = ()
            return True
        if n1:
            self.restore(s1)
            return True
        return n2

    def loop(self, cond, inc, body, fr, first=True):
        """generic while loop; cond/inc callables or None"""
        it = 0
        exits = []
        lp = {"brk": [], "cnt": []}
        fr.loops.append(lp)
        alive = True
        stable = None
        try:
            while True:
                it += 1
                if it > 400:
                    raise TooBig()
                if first and cond is not None:
                    v, t, ref = cond()
                    if t is False:
                        break
                    if t is None:
                        # undecided: record the exit, keep iterating to a (widened) fixpoint
                        s0 = self.snap()
                        self.apply_ref(ref, 1)
                        self.assume(v, False)
                        exits.append((None, self.snap()))
                        self.restore(s0)
                        self.apply_ref(ref, 0)
                        stable = (stable or 0) + 1
                        if stable > 3:
                            self.lose("loop bound not decided")
                            alive = False
                            break
                        self.assume(v, True)
                first = True
                ok = body()
                states = ([(None, self.snap())] if ok else []) + lp["cnt"]
                lp["cnt"] = []
                if not states:
                    alive = False
                    break
                self.join_many(states)
                if inc is not None:
                    try:
                        inc()
                    except Dead:
                        alive = False
                        break
        finally:
            fr.loops.pop()
        outs = ([(None, self.snap())] if alive else []) + exits + lp["brk"]
        if not outs:
            return False
        self.join_many(outs)
        return True

    def s_For(self, s, fr):
        if s.get("init") and not self.exec(s["init"]):
            return False
        c = (lambda: self.eval_cond(s["c"])) if s.get("c") else None
        i = (lambda: self.ev(s["inc"])) if s.get("inc") else None
        return self.loop(c, i, lambda: self.exec(s["b"]), fr)

    def s_While(self, s, fr):
        def c():
            if s.get("cv"):
                self.exec(s["cv"])
            return self.eval_cond(s["c"])
        return self.loop(c, None, lambda: self.exec(s["b"]), fr)

    def s_Do(self, s, fr):
        return self.loop(lambda: self.eval_cond(s["c"]), None, lambda: self.exec(s["b"]), fr, first=False)

    def s_ForR(self, s, fr):
        if s.get("init") and not self.exec(s["init"]):
            return False
        r = self.ev(s["r"])
        con = self.rv(r)
        v = s["v"]
        if isinstance(con, Struct):
            cells = self.user_range(r, con)
            if cells is not None:
                return self.each(cells, v, s, fr)
            if self.p.by_name.get(con.cls + "::begin") and self.p.by_name.get(con.cls + "::end"):
                return self.iterate(r, con, v, s, fr)
        if isinstance(con, Alt):
            pass
        if isinstance(con, Cont):
            cell = r.cells[0]
            idx = [0]
            lp = {"brk": [], "cnt": []}
            # iterate over the live container (elements appended during the loop are not seen: UB anyway)
            return self.each(list(con.cells), v, s, fr)
        self.lose("range of unknown shape")
        # unknown range: zero or more iterations with an unknown element
        s0 = self.snap()
        el = self.new_cell(uncv(unref(v["t"])), Sym(self.fresh("elem")), "tmp")
        res = [(None, s0)]
        fr.loops.append({"brk": [], "cnt": []})
        fr.env[v["d"]] = el
        ok = self.exec(s["b"])
        lp = fr.loops.pop()
        if ok:
            res.append((None, self.snap()))
        res += lp["cnt"] + lp["brk"]
        self.join_many(res)
        return True

    def user_range(self, r, con):
        """elements of a repo class with begin()/end(); uses a registered element view"""
        f = lib.RANGE_VIEWS.get(con.cls)
        return f(self, r.cells[0], con) if f else None

    def meth(self, o, cls, name, args, nparams=None):
        """call a repo member by name (operators of iterator classes)"""
        for k in [cls] + self.p.bases(cls):
            for g in self.p.by_name.get(k + "::" + name, []):
                if nparams is None or len(g["params"]) == nparams:
                    return self.method(o, g["fn"], args, None)
        return self.lose("no %s::%s" % (cls, name))

    def iterate(self, r, con, v, s, fr):
        """range-for over a repo class with begin()/end()"""
        tmp = lambda x: x if isinstance(x, LV) else LV(self.new_cell("", x, "tmp"))
        b = tmp(self.meth(r, con.cls, "begin", []))
        e = tmp(self.meth(r, con.cls, "end", []))
        bc = self.rv(b)
        if isinstance(bc, Iter) and isinstance(self.rv(e), Iter):
            cells = lib.range_cells(self, b, e)
            if cells is not None:
                return self.each(cells, v, s, fr)
        if not isinstance(bc, Struct):
            self.lose("iterator of unknown class")
            return True
        cls = bc.cls

        def cond():
            x = self.rv(self.meth(b, cls, "operator!=", [e]))
            return x, self.truth(x), {}

        def body():
            x = self.meth(b, cls, "operator*", [])
            if is_ref(v["t"]) and isinstance(x, LV):
                fr.env[v["d"]] = x if len(x.cells) > 1 else x.cells[0]
            else:
                n = self.new_cell(uncv(unref(v["t"])), None, v["n"])
                self.heap[n] = self.copy_content(self.rv(x))
                fr.env[v["d"]] = n
            return self.exec(s["b"])
        return self.loop(cond, lambda: self.meth(b, cls, "operator++", [], 0), body, fr)

    def each(self, cells, v, s, fr):
        lp = {"brk": [], "cnt": []}
        fr.loops.append(lp)
        alive = True
        try:
            for c in cells:
                if is_ref(v["t"]):
                    fr.env[v["d"]] = c
                else:
                    fr.env[v["d"]] = self.copy_obj(c, v["n"])
                if "binds" in v:
                    self.bind(v, fr)
                ok = self.exec(s["b"])
                states = ([(None, self.snap())] if ok else []) + lp["cnt"]
                lp["cnt"] = []
                if not states:
                    alive = False
                    break
                self.join_many(states)
        finally:
            fr.loops.pop()
        outs = ([(None, self.snap())] if alive else []) + lp["brk"]
        if not outs:
            return False
        self.join_many(outs)
        return True

    def s_Ret(self, s, fr):
        v = None
        if s.get("e") is not None:
            if fr.locals:
                x = s["e"]
                while x.get("k") in ("Cast", "Temp", "Ctor") and (x.get("e") or x.get("a")):
                    x = x.get("e") or x["a"][0]
                if x.get("k") == "Ref":
                    fr.nrvo.add(x["d"])
            v = self.ev(s["e"])
            if isinstance(v, LV) and not is_ref(fr.fn["rt"]):
                # returned by value
                if len(v.cells) == 1 and self.name.get(v.cells[0], "").startswith("tmp"):
                    pass
                else:
                    n = self.new_cell(uncv(fr.fn["rt"]), None, "tmp")
                    self.heap[n] = self.copy_content(self.rv(v))
                    v = LV(n)
        fr.rets.append((v, self.snap()))
        return False

    def s_Break(self, s, fr):
        fr.loops[-1]["brk"].append((None, self.snap()))
        return False

    def s_Cont(self, s, fr):
        for l in reversed(fr.loops):
            if "cnt" in l:
                l["cnt"].append((None, self.snap()))
                break
        return False

    def s_Label(self, s, fr):
        return self.exec(s["s"])

    def s_Case(self, s, fr):
        return self.exec(s["s"])

    s_Default = s_Case

    def s_Switch(self, s, fr):
        if s.get("init") and not self.exec(s["init"]):
            return False
        cv = self.rv(self.ev(s["c"]))
        body = s["b"]["b"] if s["b"]["k"] == "Block" else [s["b"]]
        # flatten case labels
        flat = []

        def fl(st):
            if st is not None and st["k"] in ("Case", "Default"):
                flat.append(("label", st.get("v") if st["k"] == "Case" else "default"))
                fl(st["s"])
            else:
                flat.append(("stmt", st))
        for st in body:
            fl(st)
        labels = [(i, x[1]) for i, x in enumerate(flat) if x[0] == "label"]
        consts = [l for _, l in labels if l != "default"]
        targets = []
        dfl = [i for i, l in labels if l == "default"]
        for v in alts(cv):
            if isinstance(v, (int, bool)):
                m = [i for i, l in labels if l != "default" and l == int(v)]
                targets.append((v, m[0] if m else (dfl[0] if dfl else None)))
            else:
                for i, l in labels:
                    targets.append((App("==", (v, l)) if l != "default" else None, i))
                if not dfl:
                    targets.append((None, None))
        s0 = self.snap()
        outs = []
        for v, tgt in targets:
            self.restore(s0)
            if isinstance(v, App):
                self.assume(v, True)
            if tgt is None:
                outs.append((None, self.snap()))
                continue
            lp = {"brk": []}
            fr.loops.append(lp)
            ok = True
            for kind, st in flat[tgt:]:
                if kind == "stmt" and not self.exec(st):
                    ok = False
                    break
            fr.loops.pop()
            if ok:
                outs.append((None, self.snap()))
            outs += lp["brk"]
        if not outs:
            return False
        self.join_many(outs)
        return True

    def s_Try(self, s, fr):
        rec = []
        self.tries.append(rec)
        depth = len(self.frames)
        try:
            ok = self.exec(s["b"])
        finally:
            self.tries.pop()
        outs = [(None, self.snap())] if ok else []
        for (val, st) in rec:
            self.restore(st)
            h = next((hh for hh in s["h"] if lib.catches(self, hh["t"], val)), None)
            if h is None:
                (self.tries[-1] if self.tries else self.thrown).append((val, self.snap()))
                continue
            if h.get("v"):
                fr.env[h["v"]["d"]] = self.new_cell(unref(h["v"]["t"]), val[1] if isinstance(val, tuple) else val, h["v"]["n"])
            if self.exec(h["b"]):
                outs.append((None, self.snap()))
        if not outs:
            return False
        self.join_many(outs)
        return True

    def throw(self, val):
        if self.tries:
            self.tries[-1].append((val, self.snap()))
        else:
            self.thrown.append((val, self.snap()))
        raise Dead()

    def s_UnkS(self, s, fr):
        self.lose("statement " + s.get("sc", ""))
        return True

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None:
            return None
        if e.get("l") and self.frames:
            self.frames[-1].line = e["l"]
        return getattr(self, "e_" + e["k"])(e)

    def e_Int(self, e):
        return e["v"]

    def e_Float(self, e):
        return float(e["v"])

    def e_Bool(self, e):
        return e["v"]

    def e_Str(self, e):
        return e["v"]

    def e_Null(self, e):
        return NULL

    def e_EnumC(self, e):
        return e["v"]

    def e_This(self, e):
        return Ptr(self.frames[-1].this)

    def e_Temp(self, e):
        x = self.ev(e["e"])
        if isinstance(x, LV):
            return x
        return LV(self.new_cell(unref(e["t"]), x, "tmp"))

    def e_FnRef(self, e):
        return FnPtr(e["fn"]["u"], e["fn"]["n"])

    def e_Ref(self, e):
        if e.get("g"):
            return LV(self.global_cell(e["qn"], e["t"]))
        for fr in reversed(self.frames):
            if e["d"] in fr.env:
                c = fr.env[e["d"]]
                return c if isinstance(c, LV) else LV(c)
            break
        fr = self.frames[-1]
        # static local referenced before declaration or captured constant
        c = self.new_cell(e["t"], self.lose("unbound variable " + e["n"]), e["n"])
        fr.env[e["d"]] = c
        return LV(c)

    def global_cell(self, qn, t):
        if qn in self.globals:
            return self.globals[qn]
        if qn in self.gover:
            v = self.gover[qn]
            if isinstance(v, LV):
                self.globals[qn] = v.cells[0]
            else:
                self.globals[qn] = self.new_cell(uncv(t), v, qn)
            return self.globals[qn]
        vs = self.p.vars.get(qn)
        if not vs:
            c = self.globals[qn] = self.lazy_obj(t, qn) if uncv(t) in self.p.records else self.new_cell(uncv(t), Sym(qn), qn)
            return c
        v = [x for x in vs if x.get("init") is not None] or vs
        v = v[0]
        const = v["const"] or v["t"].startswith("const ")
        if not const and self.sym_globals:
            c = self.globals[qn] = self.lazy_obj(v["t"], qn) if uncv(v["t"]) in self.p.records else self.new_cell(uncv(v["t"]), lib.lazy_or_sym(self, v["t"], qn), qn)
            return c
        self.globals[qn] = None
        self.frames.append(Frame({"fn": {"n": "<init>", "u": ""}, "file": v["file"], "rt": "void"}, None))
        try:
            if v.get("init") is None:
                c = self.alloc(v["t"], qn)
            else:
                c = self.init_object(v["t"], v["init"], qn)
        finally:
            self.frames.pop()
        self.globals[qn] = c
        self.name[c] = qn
        return c

    def deref(self, v, t=None):
        """pointer value -> LV"""
        cells = []
        al = alts(v)
        for x in al:
            if isinstance(x, Ptr):
                cells.append(x.cell)
            elif isinstance(x, Iter):
                lv = lib.iter_deref(self, x)
                cells += list(lv.cells)
            elif x is NULL:
                self.issue("null-deref", "null pointer dereferenced", len(al) == 1)
            elif x is UNINIT:
                self.issue("uninit", "uninitialised pointer dereferenced", len(al) == 1)
            elif isinstance(x, (Sym, App)):
                key = ("deref", x)
                if key not in self.lazy:
                    pt = x.kind[4:] if isinstance(x, Sym) and x.kind.startswith("ptr:") else (t or "")
                    self.lazy[key] = self.lazy_obj(pt, "*%s" % (x.name if isinstance(x, Sym) else self.show(x)))
                c = self.lazy[key]
                if c not in self.heap:
                    self.heap[c] = None
                cells.append(c)
            elif isinstance(x, str):
                c = self.new_cell("char", x[:1], "tmp")
                cells.append(c)
            else:
                c = self.new_cell(t or "", self.lose("dereference of %s" % (x,)), "tmp")
                cells.append(c)
        if not cells:
            raise Dead()
        return LV(*dict.fromkeys(cells))

    def e_Member(self, e):
        if e.get("static"):
            if e["b"] is not None and e["b"]["k"] != "This":
                self.ev(e["b"])
            return LV(self.global_cell(e["qn"], e["t"]))
        if "fn" in e:
            return FnPtr(e["fn"]["u"], e["fn"]["n"])
        b = self.ev(e["b"])
        if e["arrow"]:
            b = self.deref(self.rv(b) if isinstance(b, LV) else b, e.get("cls"))
        if not isinstance(b, LV):
            b = LV(self.new_cell("", b, "tmp"))
        cells = []
        for c in b.cells:
            v = self.read(c)
            for a in (v.alts if isinstance(v, Alt) else [v]):
                fc = a.get(e["m"]) if isinstance(a, Struct) else None
                if fc is None and isinstance(a, Struct) and e["m"] in ("first", "second"):
                    fc = a.fields[0 if e["m"] == "first" else 1][1]
                if fc is None:
                    if isinstance(a, (Sym, App)):
                        key = ("field", a, e["m"])
                        if key not in self.lazy:
                            self.lazy[key] = self.lazy_obj(unref(e["t"]), "%s.%s" % (self.show(a), e["m"]))
                        fc = self.lazy[key]
                        if fc not in self.heap:
                            self.heap[fc] = None
                    elif isinstance(a, Top) or a is UNINIT:
                        fc = self.new_cell(e["t"], Top("field of unknown object"), "tmp")
                    else:
                        fc = self.new_cell(e["t"], self.lose("field %s of %s" % (e["m"], type(a).__name__)), "tmp")
                if fc == 0:
                    self.issue("uninit", "reference member %s used before binding" % e["m"])
                    fc = self.new_cell(e["t"], Top("unbound reference"), "tmp")
                cells.append(fc)
        return LV(*dict.fromkeys(cells))

    def show(self, v):
        if isinstance(v, Sym):
            return str(v.name)
        if isinstance(v, App):
            return "%s(%s)" % (v.op, ",".join(self.show(a) for a in v.args))
        return repr(v)

    def e_Sub(self, e):
        b = self.ev(e["b"])
        i = self.rv(self.ev(e["i"]))
        base = self.rv(b) if isinstance(b, LV) and not isinstance(self.rv(b), Cont) else b
        cont = None
        off = 0
        if isinstance(base, LV):
            cont = base.cells[0]
        elif isinstance(base, Iter):
            cont, off = base.cont, base.idx
        elif isinstance(base, Ptr) and isinstance(self.heap.get(base.cell), Cont):
            cont = base.cell
        if cont is not None:
            return self.index(cont, i, off)
        if isinstance(base, (Sym, App)):
            key = ("sub", base, vkey(i))
            if key not in self.lazy:
                self.lazy[key] = self.lazy_obj(unref(e["t"]), "%s[%s]" % (self.show(base), self.show(i)))
            c = self.lazy[key]
            if c not in self.heap:
                self.heap[c] = None
            return LV(c)
        if isinstance(base, str) and isinstance(i, int) and not isinstance(i, bool):
            ch = ord(base[i]) if 0 <= i < len(base) else 0
            return LV(self.new_cell("char", ch, "tmp"))
        return LV(self.new_cell(unref(e["t"]), self.lose("subscript"), "tmp"))

    def index(self, cont, i, off=0):
        con = self.read(cont)
        if not isinstance(con, Cont):
            return LV(self.new_cell("", self.lose("subscript of unknown container"), "tmp"))
        cells = []
        for x in alts(i):
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, int):
                k = x + off
                if 0 <= k < len(con.cells):
                    cells.append(con.cells[k])
                else:
                    self.issue("out-of-bounds", "index %d of %s with %d element(s)" % (k, self.name.get(cont) or "array", len(con.cells)), len(alts(i)) == 1)
            else:
                lo, hi = interval(x)
                if con.cells:
                    cells += list(con.cells)
                if lo is None or hi is None or lo < 0 or hi >= len(con.cells):
                    self.imprecise.append("index not decided")
        if not cells:
            raise Dead()
        return LV(*dict.fromkeys(cells))

    def e_Cast(self, e):
        ck = e["ck"]
        t = e["t"]
        if ck == "LValueToRValue" and e["e"]["k"] == "Cond" and uncv(t) in FLOATS:
            c = e["e"]
            return self.branch(c["c"], lambda: self.rv(self.ev(c["x"])), lambda: self.rv(self.ev(c["y"])))
        x = self.ev(e["e"])
        if ck == "LValueToRValue":
            if isinstance(x, LV):
                v = self.rv(x)
                if v is UNINIT:
                    self.issue("uninit", "read of uninitialised %s" % self.desc(x.cells[0]), True)
                    return Top("uninitialised")
                if isinstance(v, Phi) and any(a is UNINIT for a in alts(v)):
                    self.issue("uninit", "read of possibly uninitialised %s" % self.desc(x.cells[0]), False)
                if isinstance(v, Struct):
                    return x
                return v
            return x
        if ck in ("IntegralCast", "FloatingToIntegral", "IntegralToFloating", "FloatingCast",
                  "IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "BooleanToSignedIntegral"):
            return self.conv(self.rv(x), ck, e["ft"], t)
        if ck == "NullToPointer":
            return NULL
        if ck == "ArrayToPointerDecay":
            if isinstance(x, LV):
                v = self.rv(x)
                if isinstance(v, Cont):
                    return Iter(x.cells[0], 0)
                if isinstance(v, str):
                    return v
                return Ptr(x.cells[0])
            return x
        if ck in ("BitCast", "LValueBitCast", "BaseToDerived", "Dynamic", "DerivedToBase", "UncheckedDerivedToBase"):
            if ck in ("BitCast", "BaseToDerived", "LValueBitCast"):
                self.check_cast(x, e)
            return x
        if ck == "ToVoid":
            return None
        if ck in ("PointerToIntegral",):
            v = self.rv(x)
            return App("addr", (v,)) if not isinstance(v, (Phi, Top, FnPtr)) else v
        if ck == "IntegralToPointer":
            v = self.rv(x)
            if isinstance(v, App) and v.op == "addr":
                return v.args[0]
            if v == 0 and not isinstance(v, (FnPtr,)):
                return NULL
            return v
        return x

    def compat(self, dyn, want):
        dyn, want = uncv(dyn), uncv(want)
        if not dyn or not want or want in ("void", "char", "unsigned char"):
            return True
        n = lambda s: re.sub(r"\bconst\b", "", re.sub(r"[\w:]+(<[^<>]*>)? ?\*", "void *", s)).replace(" ", "")
        if n(dyn) == n(want):
            return True
        if self.p.is_a(dyn, want):
            return True
        return False

    def check_cast(self, x, e):
        t, ft = e["t"], e["ft"]
        if e["ck"] in ("BaseToDerived", "LValueBitCast") or isinstance(x, LV):
            want = uncv(unref(t)) if not is_ptr(t) else pointee(t)
        else:
            want = pointee(t)
        if e["ck"] == "BitCast" and not (pointee(ft) == "void" or want in self.p.records):
            return
        cells = []
        if isinstance(x, LV) and not is_ptr(t):
            cells = list(x.cells)
        else:
            for v in alts(self.rv(x)):
                if isinstance(v, Ptr):
                    cells.append(v.cell)
        for c in cells:
            d = self.ctype.get(c, "")
            if c in self.lazy and self.p.is_a(want, d):
                continue
            if d and not self.compat(d, want):
                self.issue("type-confusion", "%s is reinterpreted as %s" % (self.desc(c), want), len(cells) == 1)

    def conv(self, v, ck, ft, t):
        if isinstance(v, Phi):
            return phi([self.conv(a, ck, ft, t) for a in alts(v)])
        if isinstance(v, Top):
            return v
        if ck == "PointerToBoolean":
            tr = self.truth(v)
            return tr if tr is not None else App("nonnull", (v,))
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            if isinstance(v, (int, float)):
                return bool(v)
            if isinstance(v, App) and v.op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "nonnull"):
                return v
            lo, hi = interval(v)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return True
            return App("!=", (v, 0))
        if isinstance(v, (bool, int, float)):
            if ck in ("IntegralToFloating", "FloatingCast") and self.round_float and uncv(t) == "float":
                try:
                    return struct.unpack("f", struct.pack("f", v))[0]
                except OverflowError:
                    return Top("float overflow")
            if ck == "IntegralToFloating":
                return float(v)
            if ck == "FloatingToIntegral":
                if v != v or v in (float("inf"), float("-inf")):
                    return Top("inf")
                return wrap(int(v), t)
            if ck == "FloatingCast":
                return float(v)
            return wrap(v, t)
        if ck == "FloatingCast" or ck == "IntegralToFloating":
            return v
        if ck == "FloatingToIntegral":
            r, w = App("int", (v,)), int_info(t)
            if w and not fits(v, w):
                if w[0] < 32:
                    return App("cast:" + uncv(t), (r,))
                lo = interval(v)[0]
                if not w[1] and (lo is None or lo < 0):
                    return App("uint", (v,))
            return r
        a, b = int_info(ft), int_info(t)
        if uncv(ft) in self.p.enums or uncv(t) in self.p.enums:
            return v
        if a and b:
            if isinstance(v, App) and v.op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||", "!"):
                return v
            if b[0] < a[0]:
                if fits(v, b):
                    return v
                if isinstance(v, App) and v.op.startswith("cast:") and (int_info(v.op[5:]) or (99,))[0] <= b[0]:
                    return v     # already narrowed at least as far
                return App("cast:" + uncv(t), (v,))
            if b[0] == a[0] or b[0] > a[0]:
                # same or wider: value preserving up to sign; injective either way
                if isinstance(v, App) and v.op == "cast:" + uncv(t):
                    return v
                return v
        return v

    # ---- operators
    def e_Un(self, e):
        op = e["op"]
        if op == "&":
            mt = re.search(r"(\S+)::\*$", e.get("t", ""))
            if mt and e["x"]["k"] == "Ref":
                return App("memptr", (mt.group(1), e["x"]["n"]))
            x = self.ev(e["x"])
            if isinstance(x, LV):
                return phi([Ptr(c) for c in x.cells]) if len(x.cells) > 1 else Ptr(x.cells[0])
            return x
        if op == "*":
            x = self.ev(e["x"])
            v = self.rv(x)
            if v is NULL:       # binding a reference is not yet an access
                return LV(NULLCELL)
            return self.deref(v, uncv(unref(e["t"])))
        if op in ("++", "--"):
            x = self.ev(e["x"])
            old = self.rv(x)
            new = self.arith("+" if op == "++" else "-", old, 1, e["t"])
            self.write(x, new)
            return old if e["post"] else x
        v = self.rv(self.ev(e["x"]))
        if op == "!":
            t = self.truth(v)
            return (not t) if t is not None else self.bnot(v)
        if op == "-":
            if isinstance(v, (int, float)):
                return wrap(-v, e["t"]) if int_info(e["t"]) else -v
            if isinstance(v, (Phi,)):
                return phi([-a if isinstance(a, (int, float)) else App("neg", (a,)) for a in alts(v)])
            if isinstance(v, Top):
                return v
            if isinstance(v, App) and v.op == "neg":
                return v.args[0]
            return App("neg", (v,))
        if op == "+":
            return v
        if op == "~":
            return wrap(~v, e["t"]) if isinstance(v, int) else App("~", (v,))
        return self.lose("unary " + op)

    def bnot(self, v):
        if isinstance(v, App):
            neg = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}.get(v.op)
            if v.op == "!":
                return v.args[0]
            if neg in ("==", "!="):
                return App(neg, v.args)
        if isinstance(v, (Top, Phi)):
            return v
        return App("!", (v,))

    def arith(self, op, a, b, t):
        if isinstance(a, Phi) or isinstance(b, Phi):
            if len(alts(a)) * len(alts(b)) <= 24:
                return phi([self.arith(op, x, y, t) for x in alts(a) for y in alts(b)])
            return Top("phi arithmetic")
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if a is UNINIT or b is UNINIT:
            return Top("uninitialised")
        if isinstance(a, Iter) and isinstance(b, (int, bool)):
            return Iter(a.cont, a.idx + (int(b) if op == "+" else -int(b)))
        if isinstance(b, Iter) and isinstance(a, int) and op == "+":
            return Iter(b.cont, b.idx + a)
        if isinstance(a, Iter) and isinstance(b, Iter) and op == "-":
            return a.idx - b.idx
        if isinstance(a, str) and isinstance(b, int) and op == "+" and b >= 0:
            return a[b:]
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            ii = int_info(t)
            try:
                if op == "+":
                    r = a + b
                elif op == "-":
                    r = a - b
                elif op == "*":
                    r = a * b
                elif op == "/":
                    if ii:
                        if b == 0:
                            self.issue("div-zero", "division by zero")
                            raise Dead()
                        r = abs(int(a)) // abs(int(b)) * (1 if (a >= 0) == (b >= 0) else -1)
                    else:
                        r = a / b if b else float("inf")
                elif op == "%":
                    if b == 0:
                        self.issue("div-zero", "division by zero")
                        raise Dead()
                    r = abs(int(a)) % abs(int(b)) * (1 if a >= 0 else -1)
                elif op == "&":
                    r = int(a) & int(b)
                elif op == "|":
                    r = int(a) | int(b)
                elif op == "^":
                    r = int(a) ^ int(b)
                elif op == "<<":
                    r = int(a) << int(b)
                elif op == ">>":
                    r = int(a) >> int(b)
                else:
                    return Top(op)
            except OverflowError:
                return Top("overflow")
            return wrap(r, t) if ii else r
        if op in ("+", "*", "&", "|", "^") and repr(vkey(b)) < repr(vkey(a)):
            a, b = b, a
        if op == "+" and (same(a, 0) or same(b, 0)):
            return b if same(a, 0) else a
        if op == "-" and same(b, 0):
            return a
        if op == "*" and (same(a, 1) or same(b, 1)):
            return b if same(a, 1) else a
        if op == "/" and int_info(t):
            op = "idiv"
        return App(op, (a, b))

    def compare(self, op, a, b):
        if isinstance(a, Phi) or isinstance(b, Phi):
            if len(alts(a)) * len(alts(b)) > 64:
                return Top("phi compare")
            return phi([self.compare(op, x, y) for x in alts(a) for y in alts(b)])
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("compare")
        if isinstance(a, bool) and isinstance(b, int) and not isinstance(b, bool):
            a = int(a)
        if isinstance(b, bool) and isinstance(a, int) and not isinstance(a, bool):
            b = int(b)
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num) or isinstance(a, str) and isinstance(b, str):
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if isinstance(a, Iter) and isinstance(b, Iter) and a.cont == b.cont:
            a, b = a.idx, b.idx
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if op in ("==", "!=") and isinstance(a, Iter) and isinstance(b, Iter):
            return op == "!="
        if same(a, b):
            return op in ("==", "<=", ">=")
        if op in ("==", "!="):
            pt = (Ptr, FnPtr, Closure)
            if (a is NULL and isinstance(b, pt)) or (b is NULL and isinstance(a, pt)) or \
                    (isinstance(a, Ptr) and isinstance(b, Ptr)) or (isinstance(a, FnPtr) and isinstance(b, FnPtr)) or \
                    (a is NULL and isinstance(b, (str, Iter))) or (b is NULL and isinstance(a, (str, Iter))):
                return op == "!="
            if (isinstance(a, Sym) and a.kind.startswith("obj") or isinstance(b, Sym) and b.kind.startswith("obj")) and (a is NULL or b is NULL):
                return op == "!="
            if isinstance(a, FnPtr) and same(b, 0) or isinstance(b, FnPtr) and same(a, 0):
                return op == "!="
        la, ha = interval(a)
        lb, hb = interval(b)
        lt = ha is not None and lb is not None and ha < lb
        gt = la is not None and hb is not None and la > hb
        le = ha is not None and lb is not None and ha <= lb
        ge = la is not None and hb is not None and la >= hb
        if op == "<":
            if lt:
                return True
            if ge:
                return False
        elif op == ">":
            if gt:
                return True
            if le:
                return False
        elif op == "<=":
            if le:
                return True
            if gt:
                return False
        elif op == ">=":
            if ge:
                return True
            if lt:
                return False
        elif lt or gt:
            return op == "!="
        if a is UNINIT or b is UNINIT:
            return Top("uninitialised")
        # canonical atoms: only ==, !=, <, >=  with ordered operands for ==
        if op in ("==", "!=") and repr(vkey(b)) < repr(vkey(a)):
            a, b = b, a
        if op == ">":
            op, a, b = "<", b, a
        elif op == "<=":
            op, a, b = ">=", b, a
        at = App(op, (a, b))
        t = self.truth(at)
        return at if t is None else t

    def logic(self, op, a, b):
        ta, tb = self.truth(a), self.truth(b)
        if op == "&&":
            if ta is False or tb is False:
                return False
            if ta is True:
                return tb if tb is not None else b
            if tb is True:
                return a
        else:
            if ta is True or tb is True:
                return True
            if ta is False:
                return tb if tb is not None else b
            if tb is False:
                return a
        if isinstance(a, (Top, Phi)) or isinstance(b, (Top, Phi)):
            return phi([True, False])
        l = []
        for x in (a, b):
            for y in (x.args if isinstance(x, App) and x.op == op else (x,)):
                if y not in l:
                    l.append(y)
        l.sort(key=repr)
        return App(op, tuple(l))

    def e_Bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            v, t, ref = self.eval_cond(e["x"])
            if t is not None:
                if t == (op == "||"):
                    return t
                r = self.rv(self.ev(e["y"]))
                tr = self.truth(r)
                return tr if tr is not None else r
            s0 = self.snap()
            self.apply_ref(ref, 0 if op == "&&" else 1)
            self.assume(v, op == "&&")
            try:
                y = self.rv(self.ev(e["y"]))
            except Dead:
                self.restore(s0)
                self.assume(v, op != "&&")
                return op == "||"
            s1 = self.snap()
            if self.pure_expr(e["y"]):
                for c in s1[0]:
                    if c not in s0[0]:
                        s0[0][c] = s1[0][c]
                self.restore(s0)
            else:
                self.join(s0, s1)
                self._disc = ()
            return self.logic(op, v, y)
        if op == ",":
            self.ev(e["x"])
            return self.ev(e["y"])
        if op == "=":
            # right operand first (C++17)
            y = self.ev(e["y"])
            x = self.ev(e["x"])
            if isinstance(y, LV):
                if isinstance(self.rv(y), Struct) and isinstance(x, LV) and len(x.cells) == 1:
                    self.assign_obj(x.cells[0], y.cells[0])
                    return x
                y = self.rv(y)
            if isinstance(x, LV):
                self.write(x, y)
                return x
            return self.lose("assignment to non-lvalue")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.rv(self.ev(e["x"])), self.rv(self.ev(e["y"]))
            return self.compare(op, a, b)
        if len(op) > 1 and op.endswith("="):
            y = self.rv(self.ev(e["y"]))
            x = self.ev(e["x"])
            ct = e.get("ct") or e["t"]
            cur = self.rv(x)
            if e.get("cl") and int_info(e["t"]) is None and int_info(e["cl"]):
                pass
            r = self.arith(op[:-1], cur, y, ct)
            if isinstance(r, (int, float)):
                if int_info(e["t"]):
                    r = wrap(int(r), e["t"])
            elif int_info(e["t"]) and uncv(ct) in FLOATS:
                r = App("int", (r,)) if not isinstance(r, (Top, Phi)) else r
            self.write(x, r)
            return x
        a, b = self.rv(self.ev(e["x"])), self.rv(self.ev(e["y"]))
        return self.arith(op, a, b, e["t"])

    def e_Cond(self, e):
        r = self.branch(e["c"], lambda: self.ev(e["x"]), lambda: self.ev(e["y"]))
        return r

    def e_Elvis(self, e):
        v = self.rv(self.ev(e["c"]))
        t = self.truth(v)
        if t is True:
            return v
        y = self.rv(self.ev(e["y"]))
        return y if t is False else phi([v, y])

    def e_Zero(self, e):
        t = uncv(e["t"])
        if is_ptr(t):
            return NULL
        if t in FLOATS:
            return 0.0
        if t == "bool":
            return False
        if int_info(t) or t in self.p.enums:
            return 0
        return LV(self.alloc(t, "tmp", zero=True))

    def e_Init(self, e):
        t = uncv(e["t"])
        if e.get("fields") is not None and t in self.p.records:
            c = self.alloc(t, "tmp")
            st = self.heap[c]
            for n, x in zip(e["fields"], e["e"]):
                fc = st.get(n)
                if fc:
                    v = self.ev(x)
                    self.heap[fc] = self.copy_content(self.rv(v))
            return LV(c)
        m = re.match(r"^std::array<", t)
        if m:
            return self.ev(e["e"][0]) if e["e"] else LV(self.new_cell(t, Cont("array", ()), "tmp"))
        if len(e["e"]) == 1 and not re.search(r"\[\d*\]$", t) and "n" not in e and not t.startswith("std::"):
            return self.ev(e["e"][0])
        if e.get("fields") is not None and not re.search(r"\[\d+\]$", t):
            cells = []
            for n, x in zip(e["fields"], e["e"]):
                cells.append((n, self.init_object("", x, n)))
            return LV(self.new_cell(t, Struct(t, tuple(cells)), "tmp"))
        cells = []
        et = re.sub(r"\s*\[\d*\]$", "", t)
        for x in e["e"]:
            cells.append(self.init_object(et, x, "el"))
        for _ in range(len(e["e"]), min(e.get("n", 0), 4096)):
            cells.append(self.alloc(et, "el", zero=True))
        return LV(self.new_cell(t, Cont("array", tuple(cells)), "tmp"))

    def e_StdInit(self, e):
        x = self.ev(e["e"])
        v = self.rv(x)
        if isinstance(v, Iter):
            v = self.heap.get(v.cont)
        if isinstance(v, Cont):
            return LV(self.new_cell(e["t"], Cont("init", v.cells), "tmp"))
        return LV(self.new_cell(e["t"], self.lose("initializer_list"), "tmp"))

    def e_Lambda(self, e):
        fr = self.frames[-1]
        caps = []
        for c in e["caps"]:
            if c.get("this"):
                continue
            if "d" not in c:
                continue
            src = fr.env.get(c["d"])
            if c.get("byref"):
                caps.append((c["d"], src))
            else:
                if src is None:
                    caps.append((c["d"], self.new_cell("", self.lose("capture"), c["n"])))
                else:
                    s = src.cells[0] if isinstance(src, LV) else src
                    caps.append((c["d"], self.copy_obj(s, c["n"])))
        return LV(self.new_cell(e["cls"], Closure(e, tuple(caps), fr.this), "tmp"))

    def e_Throw(self, e):
        v = None
        if e.get("e"):
            x = self.ev(e["e"])
            v = (x.cells and self.ctype.get(x.cells[0]), self.rv(x)) if isinstance(x, LV) else ("", x)
        self.throw(v)

    def e_Unk(self, e):
        for c in e["ch"]:
            self.ev(c)
        return self.lose("expression " + e["sc"])

    def e_InhCtor(self, e):
        return None

    # ---- allocation
    def e_New(self, e):
        t = uncv(e["t"])
        nm = "new@%s" % (self.frames[-1].line if self.frames else 0)
        if e.get("at") and "arr" not in e:
            # construction in given storage: the object there becomes the new one
            p = self.rv(self.ev(e["at"]))
            c = self.init_object(t, e["init"], nm) if e.get("init") is not None else self.alloc(t, nm)
            if not isinstance(p, Ptr) or c not in self.heap:
                return self.lose("construction in storage that is not known")
            self.heap[p.cell] = self.heap[c]
            self.freed.pop(p.cell, None)
            return p
        if "arr" in e:
            n = self.rv(self.ev(e["arr"])) if e["arr"] else 0
            c = self.new_cell(t, Cont("array", tuple(self.alloc(t, "el") for _ in range(n if isinstance(n, int) and n < 64 else 0))), nm)
            self.dyn.add(c)
            return Ptr(c)
        if e.get("init") is None:
            c = self.alloc(t, nm)
        else:
            c = self.init_object(t, e["init"], "tmp")
            if not self.name.get(c, "").startswith("tmp") and not self.name.get(c, "") == "tmp":
                c = self.copy_obj(c, nm)
            self.name[c] = nm
        self.ctype[c] = t
        self.dyn.add(c)
        return Ptr(c)

    def adopt(self, v, t=""):
        """a smart pointer takes charge of what the raw pointer v (of type t) points at"""
        al = alts(v)
        for p in al:
            if not isinstance(p, Ptr):
                continue
            c, one = p.cell, len(al) == 1
            k = ("own", c)
            if self.freed.get(k):
                self.issue("double-own", "%s put in charge of a second smart pointer" % self.desc(c), self.freed[k] == "yes" and one)
            elif self.freed.get(c):
                self.issue("use-after-free", "%s put in charge of a smart pointer after it was deleted" % self.desc(c), self.freed[c] == "yes" and one)
            elif c not in self.dyn and c not in self.lazy and c not in self.borrowed:
                self.issue("bad-own", "%s, which no new-expression produced, put in charge of a smart pointer" % self.desc(c), one)
            dt, ct = uncv(t).rstrip("*").strip(), self.ctype.get(c, "")
            if dt in self.p.records and ct in self.p.records and dt != ct:
                if not self.compat(ct, dt):
                    self.issue("type-confusion", "%s owned as %s" % (self.desc(c), dt), one)
                elif not self.p.records[dt]["vdtor"]:
                    self.issue("nonvirtual-own", "%s owned through %s, whose destructor is not virtual" % (self.desc(c), dt), one)
            self.freed[k] = "yes" if one else "maybe"

    def e_Delete(self, e):
        x = self.ev(e["e"])
        v = self.rv(x)
        al = alts(v)
        for p in al:
            if p is NULL:
                continue
            if isinstance(p, (Ptr,)):
                c = p.cell
                st = self.freed.get(c)
                if st:
                    self.issue("double-free", "%s deleted twice" % self.desc(c), st == "yes" and len(al) == 1)
                if self.freed.get(("own", c)):
                    self.issue("delete-owned", "%s deleted although a smart pointer owns it" % self.desc(c), self.freed[("own", c)] == "yes" and len(al) == 1)
                if c not in self.dyn:
                    self.issue("bad-free", "delete of %s, which no new-expression produced" % self.desc(c), len(al) == 1)
                dt, ct = uncv(e["dt"]), self.ctype.get(c, "")
                if dt and ct and dt != ct and not self.compat(ct, dt):
                    self.issue("type-confusion", "%s deleted as %s" % (self.desc(c), dt), len(al) == 1)
                elif dt in self.p.records and ct in self.p.records and dt != ct and not self.p.records[dt]["vdtor"]:
                    self.issue("nonvirtual-delete", "%s deleted through %s, whose destructor is not virtual" % (self.desc(c), dt), len(al) == 1)
                if self.on_delete:
                    self.on_delete(self, c)
                self.freed[c] = "yes" if len(al) == 1 else "maybe"
            elif isinstance(p, Top):
                pass
            else:
                if self.on_delete:
                    self.on_delete(self, p)
                key = ("deref", p)
                if key in self.lazy:
                    self.freed[self.lazy[key]] = "yes"
        return None

    # ---- construction
    def e_Ctor(self, e):
        cls = e["cls"]
        t = uncv(e["t"])
        fn = e["fn"]
        # arrays of class type
        if re.search(r"\[\d+\]$", t):
            return LV(self.alloc(t, "tmp"))
        if t in self.p.records or cls in self.p.records:
            key = t if t in self.p.records else cls
            args = [self.ev(a) for a in e["a"]]
            return LV(self.construct(key, fn, args, e))
        args = [self.ev(a) for a in e["a"]]
        if self.pylog is not None and cls.startswith("pybind11::"):
            return LV(self.new_cell(t, self.py(fn, None, args, e), "tmp"))
        r = lib.std_ctor(self, t, cls, fn, args, e)
        if r is not None:
            return r
        c = self.new_cell(t, App("ctor:" + cls, tuple(self.pure(a) for a in args)), "tmp")
        return LV(c)

    def py(self, fn, this, args, e):
        """records a call into pybind11; its value is known by the number of the record"""
        o = self.rv(this) if isinstance(this, LV) else None
        if self.py_hook is not None:
            r = self.py_hook(self, fn, this, args)
            if r is not None:
                return r
        self.pylog.append({"n": fn["n"], "this": o, "args": args, "e": e, "fn": fn,
                           "at": (self.frames[-1].fn.get("file", "?"), (e or {}).get("l", 0), self.frames[-1].fn["fn"]["n"]) if self.frames else ("?", 0, "?")})
        rt = fn.get("rt", "").rstrip()
        if isinstance(this, LV) and rt.endswith("&") and "class_" in fn["n"] or isinstance(this, LV) and "::value" in fn["n"]:
            return this
        return App("py", (len(self.pylog) - 1,))

    def pure(self, a):
        v = self.rv(a)
        if isinstance(v, (Struct, Cont, Alt)):
            if isinstance(a, LV):
                return Ptr(a.cells[0])
            return Top("aggregate")
        return v

    def construct(self, cls, fn, args, e=None, cell=None):
        f = self.p.funcs.get(fn["u"])
        stub = self.stubs.get(fn["n"])
        if fn.get("cc") in ("copy", "move") and (f is None or f.get("implicit")) and args and isinstance(args[0], LV):
            src = args[0].cells[0]
            c = self.new_cell(cls, None, "tmp") if cell is None else cell
            v = self.copy_content(self.rv(args[0]))
            if isinstance(v, Struct) and v.cls != cls:
                # slicing
                keep = {n for n, _ in self.all_fields(cls)}
                v = Struct(cls, tuple((n, x) for n, x in v.fields if n in keep))
            self.heap[c] = v
            return c
        c = self.alloc(cls, "tmp") if cell is None else cell
        self.dyn_class[c] = cls
        if stub is not None:
            r = stub(self, fn, c, args, e)
            if r is not NotImplemented:
                return c
        if f is None:
            # implicit default constructor that was not materialised: run member initialisers
            if fn.get("inh") and args:
                self.init_shared(c, args[0], fn, len(args))
            else:
                self.default_members(c, cls)
            return c
        if fn.get("inh") and args:
            self.init_shared(c, args[0], fn, len(args))
            return c
        self.run_ctor(f, c, args)
        return c

    def init_shared(self, c, a, fn=None, n=1):
        v = self.rv(a)
        pc = self.field(c, "$p")
        if pc:
            if isinstance(v, Struct) and v.get("$p"):
                v = self.heap.get(v.get("$p"))
            elif fn is not None and n == 1:
                self.adopt(v, (fn.get("pt") or [""])[0])
            self.heap[pc] = v

    def default_members(self, c, cls):
        r = self.p.records.get(cls)
        if not r:
            return
        for b in r["bases"]:
            self.default_members(c, b)
        st = self.heap[c]
        for f in r["fields"]:
            if f.get("init") is not None and isinstance(st, Struct) and st.get(f["n"]):
                self.frames.append(Frame({"fn": {"n": cls, "u": ""}, "file": r["file"], "rt": "void"}, c))
                try:
                    if self.is_table(f["init"]):
                        self.heap[st.get(f["n"])] = Top("table " + f["n"])
                        continue
                    v = self.ev(f["init"])
                    self.heap[st.get(f["n"])] = self.copy_content(self.rv(v))
                finally:
                    self.frames.pop()

    @staticmethod
    def is_table(e):
        while e is not None and e["k"] in ("Cast", "Temp"):
            e = e["e"]
        return e is not None and e["k"] == "Init" and len(e["e"]) > 32

    def run_ctor(self, f, c, args):
        fr = self.push(f, c, args)
        self.visited.add(f["fn"]["u"])
        try:
            # member initialisers in order of the exporter (declaration order)
            for i in f.get("inits", []):
                fr.line = i.get("l") or fr.line
                e = i["e"]
                if i.get("deleg") or i.get("base"):
                    self.init_sub(c, i, e, fr)
                else:
                    self.init_member(c, i["m"], e)
            ok = self.exec(f.get("body"))
            outs = ([(None, self.snap())] if ok else []) + fr.rets
        finally:
            self.frames.pop()
        if not outs:
            raise Dead()
        self.join_many(outs)

    def init_sub(self, c, i, e, fr):
        if e is None:
            return
        if e["k"] == "Ctor":
            args = [self.ev(a) for a in e["a"]]
            cls = e["cls"]
            fn = e["fn"]
            if cls in self.p.records:
                g = self.p.funcs.get(fn["u"])
                if fn.get("cc") in ("copy", "move") and (g is None or g.get("implicit")) and isinstance(args[0], LV):
                    src = self.rv(args[0])
                    dst = self.heap[c]
                    keep = {n for n, _ in self.all_fields(cls)}
                    if not isinstance(src, Struct):
                        if src is not UNINIT:
                            self.lose("copy of an unknown %s" % cls)
                        src = Struct(cls, ())
                    for n, x in src.fields:
                        if n in keep and dst.get(n):
                            self.heap[dst.get(n)] = self.copy_content(self.heap.get(x))
                    return
                stub = self.stubs.get(fn["n"])
                if stub is not None and stub(self, fn, c, args, e) is not NotImplemented:
                    return
                if g is None:
                    self.default_members(c, cls)
                else:
                    self.run_ctor(g, c, args)
            elif cls.startswith("std::shared_ptr") or cls.startswith("std::__shared_ptr"):
                if args:
                    self.init_shared(c, args[0], fn, len(args))
            return
        if e["k"] == "InhCtor":
            g_args = [fr.env[p["d"]] for p in fr.fn["params"]]
            if g_args:
                self.init_shared(c, LV(g_args[0]) if not isinstance(g_args[0], LV) else g_args[0], fr.fn["fn"], len(g_args))
            return
        self.ev(e)

    def init_member(self, c, m, e):
        st = self.heap[c]
        fc = st.get(m) if isinstance(st, Struct) else None
        if fc is None:
            self.ev(e)
            return
        rec = self.p.records.get(st.cls)
        ft = dict(self.all_fields(st.cls)).get(m, "")
        if e is None:
            return
        if self.is_table(e):
            self.heap[fc] = Top("table " + m)
            return
        x = self.ev(e)
        if is_ref(ft):
            if isinstance(x, LV):
                self.heap[c] = Struct(st.cls, tuple((n, x.cells[0] if n == m else k) for n, k in st.fields))
            return
        v = self.rv(x)
        self.heap[fc] = self.copy_content(v)

    # ---- calls
    def push(self, f, this, args):
        if len(self.frames) > MAXDEPTH:
            raise TooBig()
        fr = Frame(f, this)
        fr.line = f.get("l", 0)
        for i, p in enumerate(f["params"]):
            if i < len(args):
                a = args[i]
            elif p.get("def") is not None:
                a = self.ev(p["def"])
            else:
                a = Top("missing argument")
            t = p["t"]
            if is_ref(t):
                if not isinstance(a, LV):
                    a = LV(self.new_cell(unref(t), a, "tmp"))
                fr.env[p["d"]] = a if len(a.cells) > 1 else a.cells[0]
            else:
                if isinstance(a, LV):
                    v = self.rv(a)
                    if len(a.cells) == 1 and self.name.get(a.cells[0], "").startswith("tmp"):
                        fr.env[p["d"]] = a.cells[0]
                        self.name[a.cells[0]] = p["n"] or "arg"
                    else:
                        n = self.new_cell(uncv(t), None, p["n"])
                        self.heap[n] = self.copy_content(v)
                        fr.env[p["d"]] = n
                else:
                    fr.env[p["d"]] = self.new_cell(uncv(t), a, p["n"])
        self.frames.append(fr)
        return fr

    def destroy_locals(self, fr, outs):
        """every way out of the function runs the destructors of its locals (a returned local is the result itself)"""
        res = []
        for v, s in outs:
            self.heap, self.freed, self.facts = s
            for d, c in reversed(fr.locals):
                if isinstance(v, LV) and c in v.cells or d in fr.nrvo or self.heap.get(c) is None:
                    continue
                g = self.p.by_name.get(self.ctype[c] + "::~" + self.ctype[c].split("::")[-1])
                if g and g[0].get("body") and not self.freed.get(c):
                    self.call(g[0], c, [])
                    self.freed[c] = "yes"
            res.append((v, (self.heap, self.freed, self.facts)))
        return res

    def call(self, f, this, args):
        """inline a repo function"""
        self.visited.add(f["fn"]["u"])
        fr = self.push(f, this, args)
        try:
            ok = self.exec(f.get("body"))
            if fr.locals:
                outs = self.destroy_locals(fr, ([(None, self.snap())] if ok else []) + fr.rets)
                if not outs:
                    raise Dead()
                return self.join_many(outs, True)
            if ok and not fr.rets:
                return None
            outs = ([(None, self.snap())] if ok else []) + fr.rets
        finally:
            self.frames.pop()
        if not outs:
            raise Dead()
        return self.join_many(outs, True)

    def call_closure(self, cl, args, argtypes=None):
        node = cl.node
        ops = node["ops"]
        if not ops:
            return self.lose("generic lambda without instantiation")
        op = ops[0]
        f = {"fn": {"n": "<lambda>", "u": ""}, "file": self.frames[-1].fn["file"] if self.frames else "?",
             "params": op["params"], "rt": op["rt"], "body": op.get("body"), "l": node.get("l", 0)}
        fr = self.push(f, cl.this, args)
        for d, c in cl.caps:
            fr.env[d] = c
        try:
            ok = self.exec(f["body"])
            if ok and not fr.rets:
                return None
            outs = ([(None, self.snap())] if ok else []) + fr.rets
        finally:
            self.frames.pop()
        if not outs:
            raise Dead()
        return self.join_many(outs, True)

    def call_value(self, callee, args):
        """call a function pointer / closure / functor value"""
        v = self.rv(callee)
        res = []
        al = alts(v)
        s0 = self.snap()
        for x in al:
            self.restore(s0)
            try:
                if isinstance(x, FnPtr):
                    f = self.p.funcs.get(x.usr)
                    stub = self.stubs.get(x.name)
                    if stub is not None:
                        res.append((stub(self, {"n": x.name, "u": x.usr}, None, args, None), self.snap()))
                    elif f is None:
                        r = lib.std_call(self, {"n": x.name, "u": x.usr, "rt": ""}, args, {"at": []})
                        res.append((r, self.snap()))
                    else:
                        res.append((self.call(f, None, args), self.snap()))
                elif isinstance(x, Closure):
                    res.append((self.call_closure(x, args), self.snap()))
                elif isinstance(x, Struct):
                    f = [g for g in self.p.by_name.get(x.cls + "::operator()", [])]
                    if f:
                        c = callee.cells[0] if isinstance(callee, LV) else None
                        res.append((self.call(f[0], c, args), self.snap()))
                    else:
                        res.append((self.lose("functor " + x.cls), self.snap()))
                elif isinstance(x, App) and x.op.startswith("ctor:std::"):
                    res.append((lib.functor(self, x, args), self.snap()))
                else:
                    res.append((self.lose("indirect call"), self.snap()))
            except Dead:
                pass
        if not res:
            raise Dead()
        return self.join_many(res)

    def e_Call(self, e):
        fn = e.get("fn")
        if fn is None:
            cal = self.ev(e["callee"])
            args = [self.ev(a) for a in e["a"]]
            return self.call_value(cal, args)
        args = [self.ev(a) for a in e["a"]]
        return self.dispatch(fn, None, args, e)

    def dispatch(self, fn, this, args, e):
        if self.on_call:
            self.on_call(self, fn, this, args, e)
        stub = self.stubs.get(fn["n"])
        if stub is not None:
            r = stub(self, fn, this, args, e)
            if r is not NotImplemented:
                return r
        f = self.p.funcs.get(fn["u"])
        if f is not None:
            return self.call(f, this, args)
        if self.pylog is not None and fn["n"].startswith(("pybind11::", "PyErr_")):
            return self.py(fn, LV(this) if this is not None else None, args, e)
        if this is None or fn.get("st"):
            return lib.std_call(self, fn, args, e)
        return NotImplemented

    def virtual(self, fn, c):
        """most-derived override for the dynamic class of cell c"""
        if not fn.get("virt"):
            return fn
        v = self.heap.get(c)
        dyn = v.cls if isinstance(v, Struct) else None
        base = fn["n"].split("::")[-1]
        if dyn:
            for k in [dyn] + self.p.bases(dyn):
                for g in self.p.by_name.get(k + "::" + base, []):
                    return g["fn"]
        return fn

    def e_MCall(self, e):
        if "callee" in e:
            cal = self.ev(e["callee"])
            args = [self.ev(a) for a in e["a"]]
            return self.call_value(cal, args)
        o = self.ev(e["o"])
        if e["arrow"]:
            o = self.deref(self.rv(o), e["fn"].get("cls"))
        if not isinstance(o, LV):
            o = LV(self.new_cell(unref(e.get("ot", "")), o, "tmp"))
        args = [self.ev(a) for a in e["a"]]
        return self.method(o, e["fn"], args, e)

    def method(self, o, fn, args, e):
        cells = o.cells
        if len(cells) > 1:
            s0 = self.snap()
            res = []
            for c in cells:
                self.restore(s0)
                try:
                    res.append((self.method(LV(c), fn, args, e), self.snap()))
                except Dead:
                    pass
            if not res:
                raise Dead()
            return self.join_many(res)
        c = cells[0]
        st = self.freed.get(c)
        if st:
            self.issue("use-after-free", "call on %s after it was deleted" % self.desc(c), st == "yes")
        if not (e and e.get("qualcall")):
            fn = self.virtual(fn, c)
        r = self.dispatch(fn, c, args, e)
        if r is not NotImplemented:
            return r
        return lib.std_method(self, c, fn, args, e)

    def e_OpCall(self, e):
        fn = e.get("fn")
        op = e["op"]
        if fn is None:
            return self.lose("unresolved operator " + op)
        # user-defined operators of the repo
        f = self.p.funcs.get(fn["u"])
        if op == "=":
            y = self.ev(e["a"][1])
            x = self.ev(e["a"][0])
            args = [x, y]
        else:
            args = [self.ev(a) for a in e["a"]]
        if f is not None or fn["n"] in self.stubs:
            if fn.get("cls") and not fn.get("st"):
                o = args[0]
                if not isinstance(o, LV):
                    o = LV(self.new_cell("", o, "tmp"))
                return self.method(o, fn, args[1:], e)
            return self.dispatch(fn, None, args, e)
        if self.pylog is not None and fn["n"].startswith("pybind11::"):
            return self.py(fn, args[0] if isinstance(args[0], LV) else None, args, e)
        return lib.std_op(self, op, fn, args, e)
