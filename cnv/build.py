"""Builds abstract term objects by running the program's own constructors (no parser involved)."""
from .env import *
from .lang import CONNECTOR_NAME, COPULA_NAME
from .values import *


class Builder:
    """denotation (as in lang.den) -> cell of a term object; equal denotations without variables are one object"""
    def __init__(self, prog, **kw):
        self.p = prog
        self.ai = mk(prog, **kw)
        self.con, self.cop = prog.enum("CONNECTOR::Connector"), prog.enum("COPULA::Copula")
        self.pre = prog.enum("VARIABLE::VarPrefix")
        self.memo = {}
        self.names = {}
        self.vars = {}

    def handle(self, cell):
        return sptr(self.ai, "TERM::pTerm", cell)

    def handles(self, cells, kind="vector", t=None):
        ai = self.ai
        return ai.new_cell(t or "std::%s<TERM::pTerm>" % kind, Cont("list" if kind == "list" else "vector", tuple(self.handle(c) for c in cells)), "terms")

    def ctor(self, kind):
        """the constructor of compounds taking this kind of collection"""
        want = {"vector": ("std::vector<TERM::pTerm> &",), "list": ("std::list<TERM::pTerm> &",), "init": ("std::initializer_list<TERM::pTerm>",),
                "terms": ("TERM::pTerms", "std::shared_ptr<TERM::Terms>"), "one": ("TERM::pTerm",)}[kind]

        def pick(f):
            ps = f["params"]
            return len(ps) >= 2 and ps[0]["t"].endswith("Connector") and ps[1]["t"] in want
        fs = [f for f in self.p.fns("COMPOUND::Compound::Compound") if pick(f)]
        return fs[0] if fs else None

    def compound(self, c, parts, kind="vector", is_input=False):
        ai = self.ai
        f = self.ctor(kind)
        if f is None:
            raise AnalysisBroken("no constructor of compounds from a %s" % kind)
        k = self.con[CONNECTOR_NAME[c]]
        if kind == "terms":
            tf = [g for g in self.p.by_name.get("TERM::Terms::Terms", []) if len(g["params"]) == 2 and g["params"][0]["t"].startswith("std::vector<")]
            if not tf:
                raise AnalysisBroken("no constructor of component collections from a vector")
            t = new_obj(ai, "TERM::Terms", [LV(self.handles(parts)), c in COMM], pick=lambda g: g is tf[0])
            arg = LV(sptr(ai, "std::shared_ptr<TERM::Terms>", t))
        elif kind == "one":
            arg = LV(self.handle(parts[0]))
        else:
            arg = LV(self.handles(parts, "list" if kind == "list" else "vector", "std::initializer_list<TERM::pTerm>" if kind == "init" else None))
        return new_obj(ai, "COMPOUND::Compound", [k, arg, is_input], pick=lambda g: g is f)

    def statement(self, c, a, b):
        ai = self.ai
        fs = [f for f in self.p.fns("STATEMENT::Statement::Statement") if len(f["params"]) >= 3 and "Copula" in f["params"][1]["t"]]
        if not fs:
            raise AnalysisBroken("constructor of statements not found")
        return new_obj(ai, "STATEMENT::Statement", [LV(self.handle(a)), self.cop[COPULA_NAME[c]], LV(self.handle(b))], pick=lambda f: f is fs[0])

    def build(self, d):
        if d in self.memo:
            return self.memo[d]
        k = d[0]
        if k == "atom":
            if d[2]:
                c = new_obj(self.ai, "OPERATION::Operation", [])
            else:
                c = atom(self.ai, d[1])
        elif k == "()":
            ps = list(d[2]) if not isinstance(d[2], frozenset) else sorted(d[2], key=repr)
            c = self.compound(d[1], [self.build(x) for x in ps])
        elif k == "<>":
            c = self.statement(d[1], self.build(d[2]), self.build(d[3]))
        elif k == "var":
            c = self.variable(d[1], d[2])
        else:
            raise ValueError(k)
        self.memo[d] = c
        self.names[c] = d
        return c

    def variable(self, kind, ident):
        """a variable with the identity number `ident`"""
        name = {"$": "Independent", "#": "Dependent", "?": "Qeury"}[kind]
        return new_obj(self.ai, "VARIABLE::Variable", [self.pre.get(name, self.pre.get("Query")), "v%s" % (ident,)])

    def back(self, tv):
        """term view -> denotation, by the identity of atoms"""
        if tv.kind == "st":
            return ("<>", tv.op, self.back(tv.subs[0]), self.back(tv.subs[1]))
        if tv.kind == "cmp":
            ps = [self.back(x) for x in tv.subs]
            if tv.comm:
                if len(set(ps)) != len(ps):
                    return ("()", tv.op, ("duplicated", tuple(ps)))
                return ("()", tv.op, frozenset(ps))
            return ("()", tv.op, tuple(ps))
        if tv.kind == "var" and tv.cell not in self.names:      # a copy: variables of a kind are not told apart here
            k = next((k for k, n in (("$", "Independent"), ("#", "Dependent"), ("?", "Qeury")) if self.pre.get(n, self.pre.get("Query")) == tv.op), None)
            return next((d for d in self.memo if d[0] == "var" and d[1] == k), ("var", k, "?"))
        return self.names.get(tv.cell, ("atom", "?%d" % tv.cell, False))


COMM = {"&&", "||", "&|", "|", "&", "[", "{"}
