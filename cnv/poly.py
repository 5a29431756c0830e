"""Normal form of the arithmetic terms the analysis derives: quotients of polynomials with rational coefficients.
Two formulas are the same function of their unknowns iff their normal forms agree."""
from fractions import Fraction
from .values import *

TRANSPARENT = {"num:real", "num:int", "float", "double", "cast:float", "cast:double", "cast:long double"}


class NotPoly(Exception):
    pass


def frac(x):
    return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = dict(m)
            for v, e in n:
                k[v] = k.get(v, 0) + e
            k = tuple(sorted(k.items(), key=repr))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


ONE = {(): Fraction(1)}


class Q:
    """num/den"""
    def __init__(self, n, d=None):
        self.n, self.d = n, d or ONE

    def __add__(self, o):
        return Q(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __sub__(self, o):
        return Q(padd(pmul(self.n, o.d), pmul(o.n, self.d), -1), pmul(self.d, o.d))

    def __mul__(self, o):
        return Q(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        if not o.n:
            raise NotPoly("division by zero")
        return Q(pmul(self.n, o.d), pmul(self.d, o.n))

    def __eq__(self, o):
        return padd(pmul(self.n, o.d), pmul(o.n, self.d), -1) == {}

    def __hash__(self):
        return 0

    def canon(self):
        """a hashable canonical key (only for quotients without common-factor ambiguity: den normalised when constant)"""
        if set(self.d) == {()}:
            c = self.d[()]
            return ("poly", tuple(sorted(((m, x / c) for m, x in self.n.items()), key=repr)))
        return ("quot", tuple(sorted(self.n.items(), key=repr)), tuple(sorted(self.d.items(), key=repr)))

    def __repr__(self):
        def s(p):
            return " + ".join("*".join(([str(c)] if c != 1 or not m else []) + ["%s%s" % (v if isinstance(v, str) else str(v), "^%d" % e if e != 1 else "")
                                                                              for v, e in m]) for m, c in sorted(p.items(), key=repr)) or "0"
        return s(self.n) if set(self.d) == {()} and self.d[()] == 1 else "(%s)/(%s)" % (s(self.n), s(self.d))


def var(n):
    return Q({((n, 1),): Fraction(1)})


def num(x):
    f = frac(x)
    return Q({(): f} if f else {})


def norm(v, names=None):
    """abstract value -> Q ; max/min become opaque variables over normalised arguments"""
    if isinstance(v, bool):
        return num(int(v))
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, Sym):
        return var(str(v.name))
    if isinstance(v, App):
        if v.op in TRANSPARENT and len(v.args) == 1:
            return norm(v.args[0])
        if v.op == "neg":
            return num(0) - norm(v.args[0])
        if v.op in ("+", "*"):
            r = norm(v.args[0])
            for a in v.args[1:]:
                r = r + norm(a) if v.op == "+" else r * norm(a)
            return r
        if v.op == "-" and len(v.args) == 2:
            return norm(v.args[0]) - norm(v.args[1])
        if v.op == "/":
            return norm(v.args[0]) / norm(v.args[1])
        if v.op in ("max", "min"):
            ks = sorted((norm(a).canon() for a in v.args), key=repr)
            return var((v.op,) + tuple(ks))
        if v.op in ("abs", "fabs"):
            return absq(norm(v.args[0]))
        if v.op in ("int", "uint", "idiv") or v.op.startswith("cast:"):
            return var((v.op.replace("cast:", ""),) + tuple(norm(a).canon() for a in v.args))
    raise NotPoly(repr(v)[:120])


def absq(q):
    """|q| = |-q|"""
    a, b = q.canon(), (num(0) - q).canon()
    return var(("abs", min(a, b, key=repr)))


def maxq(*qs):
    return var(("max",) + tuple(sorted((q.canon() for q in qs), key=repr)))


def fnq(name, *qs):
    return var((name,) + tuple(q.canon() for q in qs))
