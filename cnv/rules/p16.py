"""Symbol table.  (1) Every sequence of table operations over two entries, evaluated abstractly and compared step by step with
a table that keeps one record per entry: lookups by key and by name, counts, results and released objects agree.  (2) Sentences
that share names are analysed one after the other: one object per name, distinct objects for distinct names, and the table
lists exactly the names in use.  (3) The handle of an atom gives the entry back exactly when it is the last user."""
import itertools
from ..env import *
from ..env import run as erun
from ..harness import *
from ..scen import Scen
from ..terms import TermReader

I = "INTERPRETER::Interpreter::"
K = {1: 5, 2: (1 << 32) + 5, 3: (1 << 63) + 5}
NM = {1: "alpha", 2: "beta", 3: "^alpha"}


class Table:
    """the table under analysis beside its specification"""
    def __init__(self, ctx):
        self.ctx = ctx
        ai = self.ai = mk(ctx.p)
        self.c = ai.alloc("INTERPRETER::Interpreter", "table")
        ai.default_members(self.c, "INTERPRETER::Interpreter")
        self.spec = {}      # i -> [box cell, count]
        self.boxes = []
        self.released = {}

    def name(self, i):
        return self.ai.new_cell("std::string", NM[i], "name")

    def call(self, f, *args):
        o = erun(self.ai, lambda: call(self.ai, I + f, self.c, list(args)))
        if o.dead or o.big:
            raise Dead()
        return self.ai.rv(o.value) if o.value is not None else None

    def step(self, op, i):
        """-> None or what is wrong with the result of the operation"""
        ai, sp = self.ai, self.spec
        if op == "put":
            if i in sp:
                b = sp[i][0]
                sp[i][1] += 1
            else:
                b = box(ai, "TERM::pTerm", atom(ai, "t%d" % i)).cell
                self.boxes.append(b)
                sp[i] = [b, 1]
            self.call("put", K[i], LV(self.name(i)), Ptr(b))
            return None
        if op == "reset":
            for b, _ in sp.values():
                self.released[b] = 1
            sp.clear()
            self.call("reset")
            return None
        if op in ("remove", "byname"):
            want = i in sp
            r = self.call("remove", K[i]) if op == "remove" else self.call("remove_by_name", LV(self.name(i)))
            if i in sp:
                self.released[sp.pop(i)[0]] = 1
        else:
            want = i in sp
            r = self.call("erase", K[i])
            if i in sp:
                sp[i][1] -= 1
                if sp[i][1] == 0:
                    self.released[sp.pop(i)[0]] = 1
        return None if r == want or not isinstance(r, (bool, int)) else "%s(%s) returns %s" % (op, NM[i], r)

    def compare(self):
        ai = self.ai
        for i in K:
            there = i in self.spec
            for what, got in (("key of", self.call("check", K[i])), ("name", self.call("check_by_name", LV(self.name(i))))):
                if got not in (True, False):
                    raise Unknown("lookup")
                if bool(got) != there:
                    return "%s %s is %s in the table" % (what, NM[i], "not" if there else "still")
            n = self.call("check_count", K[i])
            if not isinstance(n, int):
                raise Unknown("count")
            if n != (self.spec[i][1] if there else 0):
                return "count of %s is %s" % (NM[i], n)
            if there:
                g = self.call("get", K[i])
                if g != NM[i]:
                    return "name of the key of %s is %s" % (NM[i], g)
                k = self.call("get_by_name", LV(self.name(i)))
                if k != K[i]:
                    return "key of %s is %s, entered as %s" % (NM[i], k, K[i])
                o = self.call("get_object", K[i])
                if not (isinstance(o, Ptr) and o.cell == self.spec[i][0]):
                    return "object of %s is %s" % (NM[i], o)
        for b in self.boxes:
            if bool(self.ai.freed.get(b)) != bool(self.released.get(b)):
                return "object %s was %sreleased" % (ai.desc(b), "not " if self.released.get(b) else "")
        bad = [x for x in ai.issues if x.definite]
        if bad:
            return str(bad[0])
        return None


OPS = [("put", 1), ("put", 2), ("remove", 1), ("remove", 2), ("byname", 1), ("erase", 1), ("erase", 2), ("reset", 0), ("byname", 3), ("put", 3)]


def run(ctx):
    n = 3 if ctx.tier == "quick" else 4
    seqs = [s for k in range(1, n + 1) for s in itertools.product(OPS, repeat=k)]
    pre = [("put", 1), ("put", 2), ("put", 3)]
    seqs += [tuple(pre) + s for s in itertools.product(OPS, repeat=2 if n == 3 else 3)]
    seqs += [(("put", 1), ("put", 1), ("put", 2)) + s for s in itertools.product(OPS, repeat=2)]
    ch = [seqs[i:i + 30] for i in range(0, len(seqs), 30)]
    ctx.par(ch, lambda c: [sequence(ctx, s) for s in c])
    ctx.par(list(interning(ctx)), lambda j: intern(ctx, *j))
    created(ctx)
    release(ctx)


def sequence(ctx, s):
    key = "table/" + " ".join("%s%s" % (o, i or "") for o, i in s)
    ctx.count("sequences")
    T = Table(ctx)
    try:
        for j, (o, i) in enumerate(s):
            w = ctx.site(I + {"byname": "remove_by_name"}.get(o, o))
            e = T.step(o, i) or T.compare()
            if T.ai.imprecise or T.ai.unknown_calls:
                ctx.ob(key, None, "imprecise: %s" % (list(T.ai.imprecise) + list(T.ai.unknown_calls))[:2], w)
                return
            if e:
                ctx.ob("table/" + " ".join("%s%s" % (o, i or "") for o, i in s[:j + 1]), False, e, w)
                return
    except AnalysisBroken:
        raise
    except Dead:
        ctx.ob(key, None if T.ai.imprecise or T.ai.unknown_calls else False, "%s%s does not complete" % (o, i), w)
        return
    except Exception as x:
        ctx.ob(key, None, "not determined: %s" % x, w)
        return
    ctx.used(T.ai)
    ctx.ob(key, True, "table agrees after every step", w)


def interning(ctx):
    a, b, q, o, p = A("A"), A("B"), ("q", "\"A\""), ("op", "A"), ("op", "B")
    st = lambda x, y: ("st", "-->", x, y, "<")
    opn = lambda n, *x: ("opst", "new", n, list(x))
    opo = lambda n, *x: ("opst", "old", n, list(x))
    S = {"st": st(a, b), "same": st(a, a), "quoted": st(a, q), "op": opn("A", a), "op2": opo("A", b), "op3": opo("B", a), "ops": st(opn("A", b), b),
         "cmp": ("pre", "*", [a, b, a]), "set": ("set", "{", [b, a]), "atom": a, "opterm": st(a, o), "opterm2": ("pre", "*", [o, p, a])}
    for x in S:
        yield [(x, S[x])],
    for x, y in itertools.permutations(S, 2):
        yield [(x, S[x]), (y, S[y])],
    if ctx.tier != "quick":
        for x, y, z in itertools.permutations(S, 3):
            yield [(x, S[x]), (y, S[y]), (z, S[z])],


def leaves(d):
    if d[0] == "atom":
        yield d[1]
    elif d[0] == "<>":
        yield from leaves(d[2])
        yield from leaves(d[3])
    elif d[0] == "()":
        for x in (sorted(d[2], key=repr) if isinstance(d[2], frozenset) else d[2]):
            yield from leaves(x)


def objects(d, tv, out):
    """name -> objects, along a term that has the written structure (operands of sets are left out when ambiguous)"""
    if d[0] == "atom":
        out.setdefault(d[1], set()).add(tv.cell)
    elif d[0] == "<>" and tv.kind == "st":
        objects(d[2], tv.subs[0], out)
        objects(d[3], tv.subs[1], out)
    elif d[0] == "()" and tv.kind == "cmp":
        if isinstance(d[2], frozenset):
            out.setdefault(("set",) + tuple(sorted(leaves(d))), set()).update(x.cell for x in tv.subs)
        else:
            for x, y in zip(d[2], tv.subs):
                objects(x, y, out)


def intern(ctx, seqs):
    key = "intern/" + "+".join(n for n, _ in seqs)
    sc = None
    out = {}
    names = set()
    rd = TermReader(ctx.p)
    for n, t in seqs:
        r = feed(ctx, toks(t) + ["."], sc=sc)
        sc = r.sc
        w = ctx.site("NARSESEPARSER::atom_term")
        if fails(ctx, key, r, w):
            return
        d = den(t)
        names |= set(leaves(d))
        try:
            objects(d, rd.read(sc.ai, r.ptr("sentence.term")), out)
        except Unknown as x:
            ctx.ob(key, None, "term not determined: %s" % x, w, r.name)
            return
    if sc.ai.imprecise or sc.ai.unknown_calls:
        ctx.ob(key, None, "imprecise: %s" % (list(sc.ai.imprecise) + list(sc.ai.unknown_calls))[:2], w)
        return
    sets = {k: v for k, v in out.items() if isinstance(k, tuple)}
    plain = {k: v for k, v in out.items() if isinstance(k, str)}
    bad = None
    for n, cs in plain.items():
        if len(cs) != 1:
            bad = "%s denotes %d objects" % (n, len(cs))
    cells = [next(iter(c)) for c in plain.values()]
    if bad is None and len(set(cells)) != len(cells):
        bad = "distinct names denote one object"
    for k, v in sets.items():
        w2 = {next(iter(plain[n])) for n in k[1:] if n in plain}
        if bad is None and all(n in plain for n in k[1:]) and v != w2:
            bad = "a name denotes another object inside a set"
    ctx.ob(key, bad is None, bad or "one object per name", w, " ".join(text(toks(t)) for _, t in seqs))
    d = get(sc.ai, sc.interp, "dictionary")
    known = {}
    if isinstance(d, Cont):
        for pc in d.cells:
            k, v = sc.pair(pc)
            known.setdefault(v, []).append(k)
        ok = set(known) == names and all(len(x) == 1 for x in known.values())
        ctx.ob(key + "/listed", ok if all(isinstance(x, str) for x in known) else None,
               "the table lists %s, in use are %s" % (sorted(map(str, known)), sorted(names)), w)


def created(ctx):
    """atoms made by name from a program (or Python) are the atoms of sentences"""
    w = ctx.site("TERM::Term::create")
    fs = [f for f in ctx.p.fns("TERM::Term::create") if f["params"] and "char" in f["params"][0]["t"]]
    if not fs:
        ctx.note("Term::create(name) not found")
        return
    for order in ("parse-create", "create-parse", "create-create"):
        sc = Scen(ctx.p, ctx.tables)
        ai = sc.ai
        cells = []

        def mkone():
            o = erun(ai, lambda: ai.call(fs[0], None, ["A", NULL]))
            return None if o.value is None else pointee_cell(ai, ai.rv(o.value))

        def other():
            o = erun(ai, lambda: ai.call(fs[0], None, ["B", NULL]))
            return None if o.value is None else pointee_cell(ai, ai.rv(o.value))

        def parse():
            r = feed(ctx, toks(("st", "-->", A("A"), A("B"), "<")) + ["."], sc=sc)
            return r.ptr("sentence.term.subject") if r.known else None
        try:
            cells = {"parse-create": lambda: [parse(), mkone(), other()], "create-parse": lambda: [mkone(), parse(), other()],
                     "create-create": lambda: [mkone(), mkone(), other()]}[order]()
        except Exception as x:
            ctx.ob("create/" + order, None, "analysis gave up: %s" % x, w)
            continue
        ctx.used(ai)
        if None in cells or ai.imprecise or ai.unknown_calls:
            ctx.ob("create/" + order, None, "not determined", w)
            continue
        ctx.ob("create/" + order, cells[0] == cells[1] and cells[2] != cells[0], "objects %s" % [ai.desc(c) for c in cells], w)


def release(ctx):
    """destruction of a handle of an atom: the entry goes with its last user, not before"""
    w = ctx.site("TERM::pTerm::~pTerm")
    ds = ctx.p.fns("TERM::pTerm::~pTerm")
    if not ds:
        ctx.note("pTerm has no destructor of its own")
        return
    for n in (2, 3, 4, 7):
        for kind in ("atom", "operation", "no-table"):
            T = Table(ctx)
            ai = T.ai
            key = "release/%s/%d users" % (kind, n)
            try:
                T.step("put", 1)
                t = new_obj(ai, "OPERATION::Operation", []) if kind == "operation" else atom(ai, "t")
                ai.heap[ai.field(t, "hash_value")] = K[2]
                b = box(ai, "TERM::pTerm", t).cell
                T.boxes.append(b)
                ai.heap[ai.field(b, "_interpreter")] = Ptr(T.c)
                T.call("put", K[2], LV(T.name(2)), Ptr(b))
                T.spec[2] = [b, 1]
                h = sptr(ai, "TERM::pTerm", t, NULL if kind == "no-table" else Ptr(T.c), "last handle")
                cnt = [n]
                for nm in counters(ctx.p):
                    ai.stubs[nm] = lambda ai, fn, this, args, e: cnt[0]
                o = erun(ai, lambda: ai.call(ds[0], h, []))
                if o.dead or o.big:
                    raise Unknown("destruction does not complete")
                there = T.call("check", K[2])
                ctx.used(ai)
                want = not (n == 2 and kind != "no-table")
                if not want:
                    T.spec.pop(2)
                    T.released[b] = 1
                e = T.compare()
                if ai.imprecise or ai.unknown_calls:
                    raise Unknown("imprecise: %s" % (list(ai.imprecise) + list(ai.unknown_calls))[:2])
                ctx.ob(key, e is None, e or "entry %s" % ("kept" if want else "given back"), w)
            except AnalysisBroken:
                raise
            except Exception as x:
                ctx.ob(key, None, "not determined: %s" % x, w)


def counters(p):
    from .p04 import walk
    out = set()
    for f in p.fns("TERM::pTerm::~pTerm"):
        for x in walk(f.get("body")):
            if x.get("fn") and x["fn"]["n"].endswith("::use_count"):
                out.add(x["fn"]["n"])
    return out
