"""Abstract values: constants, named unknowns with intervals, value-numbered terms, pointers, joins."""
from typing import NamedTuple, Any, Tuple, Optional


class Sym(NamedTuple):
    """an unknown runtime value, named by where it comes from; [lo,hi] bounds numbers"""
    name: Any
    lo: Optional[float] = None
    hi: Optional[float] = None
    kind: str = ""


class App(NamedTuple):
    op: str
    args: Tuple


class Ptr(NamedTuple):
    cell: int


class Iter(NamedTuple):
    cont: int
    idx: int


class FnPtr(NamedTuple):
    usr: str
    name: str


class Closure:
    __slots__ = ("node", "caps", "this")

    def __init__(self, node, caps, this):
        self.node, self.caps, self.this = node, caps, this

    def __repr__(self):
        return "<lambda@%s>" % self.node.get("l")


class Tie:
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = cells


class _Null:
    def __repr__(self):
        return "null"


class _Uninit:
    def __repr__(self):
        return "uninit"


NULL = _Null()
UNINIT = _Uninit()


class Phi(NamedTuple):
    vals: frozenset


class Top(NamedTuple):
    why: str


class Struct(NamedTuple):
    cls: str
    fields: Tuple  # ((name, cell), ...)

    def get(self, n):
        for k, c in self.fields:
            if k == n:
                return c
        return None


class Cont(NamedTuple):
    kind: str
    cells: Tuple
    meta: Any = None


class Alt(NamedTuple):
    """a container (or struct) whose shape differs between joined paths"""
    alts: frozenset


class LV:
    """an lvalue / class prvalue: one or more possible cells"""
    __slots__ = ("cells",)

    def __init__(self, *cells):
        self.cells = tuple(cells)

    def __repr__(self):
        return "LV%s" % (self.cells,)


PHI_MAX = 24


def vkey(v):
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, float) and not isinstance(v, int):
        return ("f", v)
    return v


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, bool) or isinstance(b, bool):
            return False
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        return False
    try:
        return a == b
    except Exception:
        return False


def alts(v):
    return list(v.vals) if isinstance(v, Phi) else [v]


def phi(vals):
    out = []
    for v in vals:
        for x in alts(v):
            if isinstance(x, Top):
                return x
            if not any(same(x, y) for y in out):
                out.append(x)
    if len(out) == 1:
        return out[0]
    if len(out) > PHI_MAX:
        return Top("too many alternatives")
    return PhiL(out)


class PhiL(Phi):
    """Phi over possibly unhashable-equal members; frozenset by identity-safe wrapper"""
    def __new__(cls, items):
        return Phi(_FS(items))


class _FS(frozenset):
    """frozenset that keeps bool/int apart"""
    def __new__(cls, items):
        o = frozenset.__new__(cls, [(type(i) is bool, i) for i in items])
        return o

    def __iter__(self):
        return (i for _, i in sorted(frozenset.__iter__(self), key=repr))


def has_top(v):
    return any(isinstance(x, Top) for x in alts(v))


def interval(v):
    if isinstance(v, bool):
        return (int(v), int(v))
    if isinstance(v, (int, float)):
        return (v, v)
    if isinstance(v, Sym):
        return (v.lo, v.hi)
    if isinstance(v, App):
        if v.op == "neg":
            lo, hi = interval(v.args[0])
            return (None if hi is None else -hi, None if lo is None else -lo)
        if v.op in ("+",):
            lo, hi = 0, 0
            for a in v.args:
                l, h = interval(a)
                lo = None if (lo is None or l is None) else lo + l
                hi = None if (hi is None or h is None) else hi + h
            return (lo, hi)
        if v.op in ("num:real", "float", "double", "cast:float", "cast:double") and len(v.args) == 1:
            return interval(v.args[0])
        if v.op in ("max", "min"):
            iv = [interval(a) for a in v.args]
            f = max if v.op == "max" else min
            los, his = [i[0] for i in iv], [i[1] for i in iv]
            known = lambda xs: [x for x in xs if x is not None]
            if v.op == "max":
                return (max(known(los)) if known(los) else None, None if None in his else max(his))
            return (None if None in los else min(los), min(known(his)) if known(his) else None)
        if v.op == "size":
            return (0, None)
        if v.op in ("abs", "fabs"):
            lo, hi = interval(v.args[0])
            if lo is None or hi is None:
                return (0, None)
            return (0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
        if v.op in ("-", "*", "/") and len(v.args) == 2:
            # real arithmetic only: integers may wrap or truncate
            (a, b), (c, d) = interval(v.args[0]), interval(v.args[1])
            if None in (a, b, c, d) or not any(isinstance(x, float) for x in (a, b, c, d)):
                return (None, None)
            if v.op == "-":
                return (a - d, b - c)
            if v.op == "/":
                if c <= 0 <= d:
                    return (None, None)
                q = (a / c, a / d, b / c, b / d)
            else:
                q = (a * c, a * d, b * c, b * d)
            return (min(q), max(q))
    return (None, None)
