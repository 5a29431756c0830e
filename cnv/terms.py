"""Walking analysed term objects in the abstract heap: structure, recorded facts, variable indices."""
from .env import get, pointee_cell
from .values import *
from . import lib
from .lang import Unknown, CONNECTOR_NAME, COPULA_NAME


class TV:
    """one term object of the abstract heap"""
    __slots__ = ("cell", "kind", "op", "subs", "comm", "var")

    def __init__(self, cell, kind, op=None, subs=(), comm=None, var=None):
        self.cell, self.kind, self.op, self.subs, self.comm, self.var = cell, kind, op, subs, comm, var

    def walk(self, path=()):
        yield path, self
        for i, s in enumerate(self.subs):
            yield from s.walk(path + (i,))


class TermReader:
    def __init__(self, prog):
        self.p = prog
        self.tt = prog.enum("TERM::TermType")
        cn, pn = prog.enum("CONNECTOR::Connector"), prog.enum("COPULA::Copula")
        self.conn = {cn[n]: s for s, n in CONNECTOR_NAME.items() if n in cn}
        self.cop = {pn[n]: s for s, n in COPULA_NAME.items() if n in pn}

    def read(self, ai, cell, depth=0):
        if cell is None or depth > 60:
            raise Unknown("term object")
        v = ai.heap.get(cell)
        if not isinstance(v, Struct):
            raise Unknown("term object %s" % (v,))
        ty = get(ai, cell, "type")
        if ty == self.tt["STATEMENT"]:
            c = get(ai, cell, "copula")
            if not isinstance(c, int):
                raise Unknown("copula")
            return TV(cell, "st", self.cop.get(c, "copula#%s" % c), tuple(
                self.read(ai, pointee_cell(ai, get(ai, cell, f)), depth + 1) for f in ("subject", "predicate")))
        if ty == self.tt["COMPOUND"]:
            c = get(ai, cell, "connector")
            if not isinstance(c, int):
                raise Unknown("connector")
            tc = pointee_cell(ai, get(ai, cell, "terms"))
            cells, comm = self.components(ai, tc)
            return TV(cell, "cmp", self.conn.get(c, "connector#%s" % c), tuple(
                self.read(ai, pointee_cell(ai, ai.read(x)), depth + 1) for x in cells), comm)
        if ty != self.tt["ATOM"]:
            raise Unknown("type of term %s" % (ty,))
        cls = v.cls
        if cls == "VARIABLE::Variable":
            return TV(cell, "var", get(ai, cell, "prefix"))
        if cls == "INTERVAL::Interval":
            return TV(cell, "iv")
        if cls == "OPERATION::Operation":
            return TV(cell, "op")
        return TV(cell, "atom")

    def components(self, ai, tc):
        """cells of the handles held by a Terms object in iteration order, and its tag"""
        if tc is None:
            raise Unknown("components")
        comm = get(ai, tc, "_is_commutative")
        if comm not in (True, False):
            raise Unknown("tag of components")
        con = get(ai, tc, "terms_unordered" if comm is True else "terms_ordered")
        if not isinstance(con, Cont):
            raise Unknown("components %s" % (con,))
        return con.cells, comm

    def indices(self, ai, cell, field):
        """(index-object cell, identity cells, positions) of one kind of variables of a term"""
        ic = pointee_cell(ai, get(ai, cell, field))
        if ic is None:
            raise Unknown("index object")
        con, pos = get(ai, ic, "indices"), get(ai, ic, "positions")
        if not isinstance(con, Cont) or not isinstance(pos, Cont):
            raise Unknown("indices")
        ids = []
        for x in con.cells:
            c = pointee_cell(ai, ai.read(x))
            if c is None:
                raise Unknown("identity of a variable")
            ids.append(c)
        ps = []
        for x in pos.cells:
            q = ai.read(x)
            if not isinstance(q, Cont):
                raise Unknown("position")
            t = tuple(ai.read(y) for y in q.cells)
            if not all(isinstance(i, int) for i in t):
                raise Unknown("position")
            ps.append(t)
        return ic, tuple(ids), tuple(ps)


INDEX = {"ivar": "_vars_independent", "dvar": "_vars_dependent", "qvar": "_vars_query"}
PREFIX = {"ivar": "$", "dvar": "#", "qvar": "?"}


def varkind(prog, tv):
    e = prog.enum("VARIABLE::VarPrefix")
    names = {v: n for n, v in e.items()}
    return {"Independent": "ivar", "Dependent": "dvar", "Qeury": "qvar", "Query": "qvar"}.get(names.get(tv.op))


def describe(tv):
    if tv.kind == "st":
        return "<%s %s %s>" % (describe(tv.subs[0]), tv.op, describe(tv.subs[1]))
    if tv.kind == "cmp":
        return "(%s, %s)" % (tv.op, ", ".join(describe(x) for x in tv.subs))
    return tv.kind


# ---- term shapes with variables at every position, used by several rules
def var_shapes(tier="quick"):
    from .lang import A, V, MULTI
    a, b, c = A("A"), A("B"), A("C")
    out = []
    kinds = "$#?"

    def wrap(x, y, tag):
        return [("st %s" % tag, ("st", "-->", x, y, "<")), ("eq %s" % tag, ("st", "<=>", x, y, "(")),
                ("prod %s" % tag, ("pre", "*", [x, b, y])), ("conj %s" % tag, ("pre", "&&", [x, y])),
                ("seq %s" % tag, ("pre", "&/", [x, y])), ("set %s" % tag, ("set", "{", [x, y])),
                ("iset %s" % tag, ("set", "[", [x, y])), ("img %s" % tag, ("img", "/", [x, y])),
                ("diff %s" % tag, ("diff", "-", x, y, "pre")), ("neg %s" % tag, ("neg", ("st", "==>", x, y, "<"), "pre")),
                ("op %s" % tag, ("opst", "new", "o", [x, y])), ("int %s" % tag, ("pre", "|", [x, y]))]
    for k in kinds:
        out.append(("negated " + k, ("neg", V(k, "x"), "pre")))
        out += wrap(V(k, "x"), a, k + "A") + wrap(a, V(k, "x"), "A" + k)
        for j in kinds:
            out += wrap(V(k, "x"), V(j, "y"), k + j)
        out += wrap(V(k, "x"), V(k, "x"), k + "=" + k)
    deep = lambda k, j, l: ("st", "==>", ("st", "-->", V(k, "x"), a, "<"), ("pre", "&&", [("st", "-->", V(j, "y"), b, "<"),
                            ("st", "-->", ("pre", "*", [a, V(l, "z")]), V(k, "x"), "<")]), "<")
    for k in kinds:
        for j in kinds:
            for l in kinds:
                out.append(("deep %s%s%s" % (k, j, l), deep(k, j, l)))
                out.append(("deep2 %s%s%s" % (k, j, l), ("pre", "&/", [("opst", "old", "o", [V(k, "x"), a]), ("neg", ("set", "[", [V(j, "y"), c]), "pre"),
                                                         ("st", "<->", V(l, "z"), ("img", "\\", [V(k, "x"), V(j, "y")]), "(")])))
    return out
