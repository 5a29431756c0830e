"""Scenario analysis: the abstract state after the front end has processed *any* sentence of a given syntactic shape.

A scenario is a sequence of terminals of the grammar (words and numbers are opaque).  The parser tables of the current
source prescribe its syntax tree; the analysis then evaluates, on the abstract domain, the program's own entry point from
the point where that tree has been built: tree walk, grammar actions, constructors."""
from .values import *
from .env import *
from . import grammar
from .prog import AnalysisBroken

RANGE = {"priority": (0.0, 1.0), "quality": (0.0, 1.0), "frequency": (0.0, 1.0), "durability": (0.0, 1.0),
         "confidence": (0.0, 1.0), "k_evidence": (1.0, None), "integer": (None, None)}


class Scen:
    def __init__(self, prog, tables, names=(), glob=None, **kw):
        self.p, self.t = prog, tables
        ai = self.ai = mk(prog, **kw)
        for n, vs in prog.vars.items():      # configuration values are arbitrary within their documented range
            if n.startswith("CONFIG::") and not vs[0]["const"]:
                t0 = vs[0]["t"]
                ai.gover[n] = Sym(n, 0.0, 1.0) if t0 in ("float", "double") and n not in ("CONFIG::k", "CONFIG::complexity_unit") \
                    else Sym(n) if t0 == "bool" else Sym(n, 0, None)
        ai.gover.update(glob or {})
        ic = ai.alloc("INTERPRETER::Interpreter", "interpreter")
        ai.default_members(ic, "INTERPRETER::Interpreter")
        ai.gover["INTERPRETER::interpreter"] = LV(ic)
        self.interp = ic
        self.roots = [ic]
        self.issues0 = 0
        try:
            self.parser = new_obj(ai, "NARSESEPARSER::NarseseParser", [])
        except Dead:
            raise AnalysisBroken("parser constructor has no normal completion")
        self.issues0 = len(ai.issues)
        self.ast_nodes = []
        self.pending = None
        ai.stubs["_parser::parse"] = self.stub_parse
        ai.stubs["_parser::ast_free"] = self.stub_free

    # the table-driven engine: builds the tree
    def stub_parse(self, ai, fn, this, args, e):
        ai.heap[ai.field(this, "ast")] = self.pending
        return 0

    def stub_free(self, ai, fn, this, args, e):
        todo = [ai.rv(args[0])] if args else []
        while todo:
            v = todo.pop()
            if isinstance(v, Ptr) and v.cell in ai.heap:
                c = v.cell
                if ai.freed.get(c):
                    ai.issue("double-free", "%s freed twice" % ai.desc(c), ai.freed[c] == "yes")
                    continue
                if not isinstance(ai.heap[c], Struct):
                    continue
                todo += [ai.heap.get(ai.field(c, f)) for f in ("child", "next")]
                ai.freed[c] = "yes"
        return NULL

    def token(self, tok):
        if isinstance(tok, grammar.N) and tok.lit is not None:
            return tok.lit
        if isinstance(tok, grammar.N):
            lo, hi = RANGE.get(tok.kind, (None, None))
            if tok.lo is not None or tok.hi is not None:
                lo, hi = tok.lo, tok.hi
            return Sym(tok.name, lo, hi, "numstr")
        return str(tok)

    def build(self, nodes, parent=NULL):
        """list of grammar.Node -> pointer to the first _AST cell"""
        ai = self.ai
        first, prev = NULL, None
        for n in nodes:
            c = ai.alloc("_AST", "ast:" + n.emit, zero=True)
            ai.dyn.add(c)
            self.ast_nodes.append(c)
            ai.heap[ai.field(c, "emit")] = n.emit
            ai.heap[ai.field(c, "token")] = NULL if n.token is None else self.token(n.token)
            for f in ("parent", "child", "prev", "next"):
                ai.heap[ai.field(c, f)] = NULL
            if n.children:
                ai.heap[ai.field(c, "child")] = self.build(n.children, Ptr(c))
            if prev is None:
                first = Ptr(c)
            else:
                ai.heap[ai.field(prev, "next")] = Ptr(c)
                ai.heap[ai.field(c, "prev")] = Ptr(prev)
            prev = c
        return first

    def feed(self, seq):
        """evaluate parse_task on the scenario; -> Outcome whose value is the task cell (or None)"""
        ai = self.ai
        self.pending = self.build(grammar.parse(self.t, seq)) if seq is not None else NULL
        s = ai.new_cell("std::string", "<input>", "input")
        fs = [f for f in self.p.fns("NARSESEPARSER::NarseseParser::parse_task") if "string" in f["params"][0]["t"]]
        if not fs:
            raise AnalysisBroken("entry point parse_task(std::string) not found")
        o = run(ai, lambda: ai.call(fs[0], self.parser, [LV(s)]))
        o.task = None if o.value is None else pointee_cell(ai, ai.rv(o.value))
        o.isnull = False
        if o.value is not None:
            v = ai.rv(o.value)
            v = lib.unwrap_ptr(ai, v) if isinstance(v, Struct) else v
            o.isnull = v is NULL
        return o

    def get(self, cell, path):
        return get(self.ai, cell, path)

    # ---- reading results
    def term(self, cell, depth=0):
        """the structure of a term object, as a nested tuple"""
        ai = self.ai
        if cell is None or depth > 12:
            return "?"
        v = ai.heap.get(cell)
        if not isinstance(v, Struct):
            return "?"
        ty = get(ai, cell, "type")
        tt = self.p.enum("TERM::TermType")
        if ty == tt["STATEMENT"]:
            return ("<>", get(ai, cell, "copula"), self.term(self.ptr(cell, "subject"), depth + 1),
                    self.term(self.ptr(cell, "predicate"), depth + 1))
        if ty == tt["COMPOUND"]:
            tc = self.ptr(cell, "terms")
            if tc is None:
                return ("()", get(ai, cell, "connector"), None)
            comm = get(ai, tc, "_is_commutative")
            con = get(ai, tc, "terms_unordered" if comm is True else "terms_ordered")
            if comm not in (True, False) or not isinstance(con, Cont):
                return ("()", get(ai, cell, "connector"), "?")
            parts = [self.term(pointee_cell(ai, ai.read(x)), depth + 1) for x in con.cells]
            return ("()", get(ai, cell, "connector"), comm, tuple(sorted(parts, key=repr)) if comm else tuple(parts))
        if get(ai, cell, "is_var") is True:
            k = "".join(q for q, f in (("$", "is_ivar"), ("#", "is_dvar"), ("?", "is_qvar")) if get(ai, cell, f) is True)
            ix = {"$": "_vars_independent", "#": "_vars_dependent", "?": "_vars_query"}.get(k)
            i = get(ai, cell, ix + ".indices") if ix else None
            i = self.ints(i)
            return ("var", k, i)
        if get(ai, cell, "is_interval") is True:
            return ("interval", get(ai, cell, "interval"))
        return ("atom", self.name_of(cell), get(ai, cell, "is_operation"))

    def ints(self, con):
        ai = self.ai
        if not isinstance(con, Cont):
            return None
        out = []
        for x in con.cells:
            v = ai.read(x)
            v = lib.unwrap_ptr(ai, v) if isinstance(v, Struct) else v
            out.append(ai.read(v.cell) if isinstance(v, Ptr) else v)
        return tuple(out)

    def ptr(self, cell, f):
        return pointee_cell(self.ai, get(self.ai, cell, f))

    def name_of(self, cell):
        """name under which the interpreter knows the atom"""
        ai = self.ai
        h = get(ai, cell, "hash_value")
        d = get(ai, self.interp, "dictionary")
        if isinstance(d, Cont):
            for pc in d.cells:
                k, v = self.pair(pc)
                if same(k, h) or self.narrowed(k, h):
                    return v
        return None

    @staticmethod
    def narrowed(k, h):
        return isinstance(k, App) and h in k.args

    def pair(self, pc):
        ai = self.ai
        v = ai.heap[pc]
        if isinstance(v, Struct):
            return ai.read(v.get("first")), ai.read(v.get("second"))
        if isinstance(v, Cont):
            return ai.read(v.cells[0]), ai.read(v.cells[1])
        return None, None
