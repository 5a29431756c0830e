"""Execution environment of the abstract interpreter for this code base: hash stub, iterator views, value builders."""
from .values import *
from .ai import AI, Frame, Dead, TooBig
from . import lib
from .prog import AnalysisBroken

ATOM_T = "TERM::Term"


def flat(ai, v, depth=0):
    """hash input -> tuple of scalar values, in iteration order (sets sorted: order is a runtime matter)"""
    if depth > 4:
        return (Top("hash"),)
    if isinstance(v, Cont):
        out = []
        for c in v.cells:
            out += flat(ai, ai.read(c), depth + 1)
        return (Sym(("unordered",) + tuple(sorted(map(repr, out)))),) if v.kind in ("set", "mset") else tuple(out)
    if isinstance(v, (Struct, Alt)):
        return (Top("hash"),)
    return (v,)


def hash_stub(ai, fn, this, args, e):
    vs = flat(ai, ai.rv(args[0]))
    if any(isinstance(v, (Top, Phi)) for v in vs):
        return Top("hash")
    return App("hash", vs)


def find_iter(ai, v, depth=0):
    """the standard iterator wrapped in a repo iterator object"""
    if depth > 4:
        return None
    if isinstance(v, Iter):
        return v
    if isinstance(v, Ptr):
        return find_iter(ai, ai.heap.get(v.cell), depth + 1)
    if isinstance(v, Struct):
        for _, c in v.fields:
            r = find_iter(ai, ai.heap.get(c), depth + 1)
            if r is not None:
                return r
    return None


def iter_view(ai, b, e):
    """cells from b to e (an iterator, or a number of elements)"""
    if isinstance(e, int):
        x = find_iter(ai, b)
        con = ai.read(x.cont) if isinstance(x, Iter) else None
        return list(con.cells[x.idx:x.idx + e]) if isinstance(con, Cont) else None
    x, y = find_iter(ai, b), find_iter(ai, e)
    if isinstance(x, Iter) and isinstance(y, Iter) and x.cont == y.cont:
        con = ai.read(x.cont)
        if isinstance(con, Cont):
            return list(con.cells[x.idx:y.idx])
    return None


def same_term(ai, a, b, depth=0):
    """True / False / None: the same structure, with the same variables"""
    if a == b:
        return True
    va, vb = ai.heap.get(a), ai.heap.get(b)
    if not isinstance(va, Struct) or not isinstance(vb, Struct) or depth > 40:
        return None
    tt = ai.p.enum("TERM::TermType")
    ta, tb = get(ai, a, "type"), get(ai, b, "type")
    if not isinstance(ta, int) or not isinstance(tb, int):
        return None
    if ta != tb:
        return False
    sub = lambda x, f: pointee_cell(ai, get(ai, x, f))

    def both(x, y):
        return None if x is None or y is None else same_term(ai, x, y, depth + 1)

    def num(f):
        x, y = get(ai, a, f), get(ai, b, f)
        return x == y if isinstance(x, int) and isinstance(y, int) else None
    if ta == tt["STATEMENT"]:
        rs = [num("copula")]
        for f in ("subject", "predicate"):
            if False in rs:
                return False
            rs.append(both(sub(a, f), sub(b, f)))
        return False if False in rs else None if None in rs else True
    if ta == tt["COMPOUND"]:
        rs = [num("connector")]
        if rs[0] is False:
            return False
        ps = []
        for x in (a, b):
            tc = sub(x, "terms")
            comm = get(ai, tc, "_is_commutative") if tc is not None else None
            con = get(ai, tc, "terms_unordered" if comm is True else "terms_ordered") if comm in (True, False) else None
            if not isinstance(con, Cont):
                return None
            ps.append((comm, [pointee_cell(ai, ai.read(c)) for c in con.cells]))
        if ps[0][0] is not ps[1][0]:
            return None
        if len(ps[0][1]) != len(ps[1][1]):
            return False
        if not ps[0][0]:
            for x, y in zip(ps[0][1], ps[1][1]):
                rs.append(both(x, y))
                if rs[-1] is False:
                    return False
            return None if None in rs else True
        left = list(ps[1][1])
        for x in ps[0][1]:
            r = [both(x, y) for y in left]
            if True in r:
                left.pop(r.index(True))
            else:
                return None if None in r else False
        return True if rs[0] else None
    if va.cls != vb.cls:        # the kinds of atoms have different hash values
        return False
    if va.cls.startswith("VARIABLE::"):
        r = num("prefix")
        if r is not True:
            return r
        for q, f in (("is_ivar", "_vars_independent"), ("is_dvar", "_vars_dependent"), ("is_qvar", "_vars_query")):
            if get(ai, a, q) is True:
                ids = []
                for x in (a, b):
                    con = get(ai, x, f + ".indices")
                    if not isinstance(con, Cont) or len(con.cells) != 1:
                        return None
                    v = ai.read(con.cells[0])
                    v = lib.unwrap_ptr(ai, v) if isinstance(v, Struct) else v
                    v = ai.read(v.cell) if isinstance(v, Ptr) else v
                    if not isinstance(v, int):
                        return None
                    ids.append(v)
                return ids[0] == ids[1]
        return None
    if va.cls.startswith("INTERVAL::"):
        x, y = get(ai, a, "interval"), get(ai, b, "interval")
        return lib.content_equal(ai, x, y)
    return lib.content_equal(ai, get(ai, a, "hash_value"), get(ai, b, "hash_value"))


def term_key_eq(ai, a, b):
    """elements of term sets: equality of terms, which P13 establishes to be that of their structures"""
    va, vb = ai.heap.get(a), ai.heap.get(b)
    if isinstance(va, Struct) and isinstance(vb, Struct) and va.get("$p") and vb.get("$p") and \
            (va.cls.startswith("TERM::p") or vb.cls.startswith("TERM::p") or va.cls.startswith("COMPOUND::p") or vb.cls.startswith("COMPOUND::p")):
        pa, pb = ai.heap.get(va.get("$p")), ai.heap.get(vb.get("$p"))
        if isinstance(pa, Ptr) and isinstance(pb, Ptr):
            return same_term(ai, pa.cell, pb.cell)
        if pa is NULL or pb is NULL:
            return pa is pb
    return NotImplemented


def mk(prog, stubs=None, globals_=None, **kw):
    ai = AI(prog, stubs, globals_, **kw)
    for n in prog.by_name:
        if n == "UTILS::Hash::operator()":
            ai.stubs.setdefault(n, hash_stub)
    for n, r in prog.records.items():
        if any(g in prog.by_name for g in (n + "::operator*",)) and (n + "::operator++") in prog.by_name:
            ai.iter_views[n] = iter_view
    ai.key_eq = term_key_eq
    return ai


# ---------------------------------------------------------------- builders
def new_obj(ai, cls, args, pick=None):
    """run the constructor of class cls on args; -> cell (dynamic storage)"""
    last = cls.split("::")[-1]
    cands = [f for f in ai.p.by_name.get(cls + "::" + last, []) if pick is None or pick(f)]
    cands = [f for f in cands if f["fn"].get("cc") not in ("copy", "move")] if pick is None else cands
    cands = [f for f in cands if len(f["params"]) >= len(args) and all(p.get("def") is not None for p in f["params"][len(args):])]
    if not cands:
        raise AnalysisBroken("no constructor of %s takes %d argument(s)" % (cls, len(args)))
    c = ai.construct(cls, cands[0]["fn"], args)
    ai.ctype[c] = cls
    ai.dyn.add(c)
    ai.name[c] = "new " + cls
    return c


def sptr(ai, cls, cell, interp=NULL, name="tmp"):
    """a smart pointer object of class cls (TERM::pTerm, std::shared_ptr<X>...) owning cell"""
    p = Ptr(cell) if cell is not None else NULL
    if cell is not None:
        ai.freed[("own", cell)] = "yes"
    if cls in ai.p.records:
        c = ai.alloc(cls, name)
        ai.default_members(c, cls)
        ai.heap[ai.field(c, "$p")] = p
        fi = ai.field(c, "_interpreter")
        if fi:
            ai.heap[fi] = interp
        return c
    return lib.mk_sptr(ai, cls, p).cells[0]


def box(ai, cls, cell):
    """new pTerm(term) -> Ptr to a heap handle"""
    h = sptr(ai, cls, cell, name="box")
    ai.dyn.add(h)
    ai.ctype[h] = cls
    return Ptr(h)


def atom(ai, name):
    """an atomic term as the code itself builds it; its fields that are unknown at analysis time are named"""
    c = new_obj(ai, "TERM::Term", [])
    ai.name[c] = name
    ai.heap[ai.field(c, "hash_value")] = Sym("hash(%s)" % name)
    return c


def vec(ai, vals, t="std::vector<void *>", kind="vector"):
    cells = tuple(ai.new_cell("void *", v, "arg%d" % i) for i, v in enumerate(vals))
    return ai.new_cell(t, Cont(kind, cells), "args")


def pointee_cell(ai, v):
    """Ptr / handle content -> cell it points to (None if not a single known object)"""
    v = lib.unwrap_ptr(ai, v) if isinstance(v, Struct) else v
    return v.cell if isinstance(v, Ptr) else None


def get(ai, cell, path):
    """follow a path of fields, dereferencing handles; -> content"""
    v = ai.heap.get(cell)
    for f in path.split("."):
        if isinstance(v, (Struct,)) and v.get(f) is None and v.get("$p") is not None or isinstance(v, Ptr):
            c = pointee_cell(ai, v)
            if c is None:
                return None
            v = ai.heap.get(c)
        if not isinstance(v, Struct):
            return None
        fc = v.get(f)
        if not fc:
            return None
        v = ai.heap.get(fc)
        if v is None:
            v = ai.read(fc)
    return v


def call(ai, name, this, args, pick=None):
    fs = ai.p.fns(name)
    if pick:
        fs = [f for f in fs if pick(f)]
    if not fs:
        raise AnalysisBroken("function %s not found" % name)
    return ai.call(fs[0], this, args)


class Outcome:
    """result of one abstract evaluation"""
    def __init__(self):
        self.value = None
        self.dead = False        # no normal completion
        self.big = False
        self.crash = None


def run(ai, thunk):
    o = Outcome()
    try:
        o.value = thunk()
    except Dead:
        o.dead = True
    except TooBig:
        o.big = True
    return o
