"""Variable indices describe the variables of a term position by position.  (1) For every object inside the analysed term
of every shape with variables, and for every kind, the recorded identity objects and positions are compared with the
variables found by walking the object's structure.  (2) The normal form is evaluated for every order type of up to four
identities and compared with the numbering by first occurrence, which is the renaming-invariant one.  (3) After every
short sequence of index operations on a small tree of indices, the cached normal form and hash of every node are those
of its current identities."""
import itertools
from ..harness import *
from ..consts import big_shapes, sizes
from ..terms import *
from ..env import *
from . import p05

W = {"st": "STATEMENT::Statement::Statement", "cmp": "COMPOUND::Compound::Compound", "var": "VARIABLE::Variable::Variable"}
IV = "INDEXVAR::IndexVar"


def first_occurrence(xs):
    m = {}
    return tuple(m.setdefault(x, len(m)) for x in xs)


def occurrences(p, ai, tv, kind, rd):
    """[(identity cell, position)] of the variables of a kind, left to right"""
    if tv.kind == "var":
        if varkind(p, tv) != kind:
            return []
        _, ids, _ = rd.indices(ai, tv.cell, INDEX[kind])
        return [(ids[0] if ids else None, ())]
    out = []
    for i, s in enumerate(tv.subs):
        out += [(c, (i,) + q) for c, q in occurrences(p, ai, s, kind, rd)]
    return out


def compare(ctx, rd, ai, tv, base, scenario):
    for path, t in tv.walk():
        key = "%s%s" % (base, "".join("/%d" % i for i in path))
        w = W.get(t.kind, "TERM::Term::_init_indexvars")
        bad, und = [], []
        n = 0
        for k, f in INDEX.items():
            try:
                want = occurrences(ctx.p, ai, t, k, rd)
                ic, ids, pos = rd.indices(ai, t.cell, f)
            except Unknown as x:
                und.append("%s: %s" % (k, x))
                continue
            n += len(want)
            if len(ids) != len(want):
                bad.append("%d %s recorded, the structure has %d" % (len(ids), k, len(want)))
            elif pos != tuple(q for _, q in want):
                bad.append("%s recorded at %s, found at %s" % (k, list(pos), [q for _, q in want]))
            elif ids != tuple(c for c, _ in want):
                bad.append("%s: the identity objects are not those of the parts" % k)
            else:
                nf = pointee_cell(ai, get(ai, ic, "_indices_normalized"))
                if nf is not None:
                    con = ai.heap.get(nf)
                    vals = [ai.read(c) for c in ids]
                    if isinstance(con, Cont) and all(isinstance(x, int) for x in vals):
                        got = tuple(ai.read(c) for c in con.cells)
                        if got != first_occurrence(vals):
                            bad.append("%s: cached normal form %s of %s" % (k, list(got), vals))
        if bad:
            ctx.ob(key, False, "%s: %s" % (describe(t), "; ".join(bad)), w, scenario)
        elif und:
            ctx.ob(key, None, "; ".join(und), w, scenario)
        else:
            ctx.ob(key, True, "%s: %d variables" % (describe(t), n), w, scenario)


def parsed(ctx, rd, name, s):
    r = feed(ctx, toks(s) + ["."])
    if r.fail or r.why:
        ctx.ob(name, None, "no term to look at (%s)" % (r.fail or r.why), "TERM::Term::_init_indexvars", r.name)
        return
    try:
        tv = rd.read(r.ai, r.ptr("sentence.term"))
    except Unknown as x:
        ctx.ob(name, None, "term not determined: %s" % x, "TERM::Term::_init_indexvars", r.name)
        return
    compare(ctx, rd, r.ai, tv, name, r.name)


# ---- (2) and (3): index objects on their own
def node(ai, vals=()):
    r = call(ai, IV + "::create", None, [])
    h = r.cells[0] if isinstance(r, LV) else ai.new_cell("std::shared_ptr<INDEXVAR::IndexVar>", r, "index")
    c = pointee_cell(ai, ai.rv(LV(h)))
    for v in vals:
        call(ai, IV + "::add", c, [v, LV(vec(ai, [], "std::vector<int>"))])
    return h, c


def ints(ai, con):
    if not isinstance(con, Cont):
        return None
    out = []
    for x in con.cells:
        v = ai.read(x)
        if isinstance(v, Struct):
            p = pointee_cell(ai, v)
            v = ai.read(p) if p is not None else None
        if not isinstance(v, int):
            return None
        out.append(v)
    return tuple(out)


def raw(ai, c, vals):
    """an index object holding the given identities, as the code lays them out"""
    cells = []
    for v in vals:
        p = lib.mk_sptr(ai, "std::shared_ptr<int>", Ptr(ai.new_cell("int", v, "identity")))
        cells.append(p.cells[0])
    f = ai.field(c, "indices")
    ai.heap[f] = Cont("vector", tuple(cells))


def order_types(n):
    """one representative per weak ordering of n numbers"""
    seen = set()
    for t in itertools.product(range(n), repeat=n):
        r = sorted(set(t))
        k = tuple(r.index(x) for x in t)
        if k not in seen:
            seen.add(k)
            yield k


def normal(ctx, t):
    w = IV + "::normalize"
    key = "normal form of %s" % (list(t),)
    ai = mk(ctx.p)
    try:
        _, c = node(ai)
        raw(ai, c, [3 + 2 * x for x in t])
        r = call(ai, IV + "::indices_normalized", c, [])
        p = pointee_cell(ai, ai.rv(r))
        got = ints(ai, ai.heap.get(p))
    except (Dead, TooBig):
        got = None
    ctx.used(ai)
    if got is None or ai.imprecise or ai.unknown_calls:
        ctx.ob(key, None, "normal form not determined %s" % (list(ai.imprecise)[:2],), w)
    else:
        ctx.ob(key, got == first_occurrence(t), "identities ordered like %s: normal form %s, by first occurrence %s"
               % (list(t), list(got), list(first_occurrence(t))), w)


OPS = ["query father", "query son", "add father", "add son", "remove son", "build", "rebuild", "connect", "connect+positions"]


def history(ctx, seq):
    """a father with one part; then the operations; then both nodes' caches must be those of their identities"""
    key = "history: " + ", ".join(seq)
    w = IV + "::build"
    ai = mk(ctx.p)
    try:
        fh, f = node(ai)
        sh, s = node(ai, [7])
        _, third = node(ai, [4])
        th = _
        call(ai, IV + "::connect", None, [LV(fh), LV(sh), False])
        call(ai, IV + "::build", f, [False])
        nodes = [("the whole", f), ("its part", s)]
        empty = False
        for i, op in enumerate(seq):
            pos = lambda *x: LV(vec(ai, list(x), "std::vector<int>"))
            if op == "query father":
                call(ai, IV + "::indices_normalized", f, [])
                call(ai, IV + "::__hash__", f, [])
            elif op == "query son":
                call(ai, IV + "::indices_normalized", s, [])
                call(ai, IV + "::__hash__", s, [])
            elif op == "add father":
                call(ai, IV + "::add", f, [20 - i, pos(0)])
            elif op == "add son":
                call(ai, IV + "::add", s, [30 - i, pos()])
            elif op == "remove son":
                call(ai, IV + "::remove", f, [pos(0)])
            elif op in ("build", "rebuild"):
                call(ai, IV + "::" + op, f, [False] if op == "build" else [])
            elif op.startswith("connect"):
                h2, n2 = node(ai, [9, 4 + i])
                raw(ai, n2, [9, 4 + i])
                call(ai, IV + "::connect", None, [LV(fh), LV(h2), op.endswith("positions")])
        out = []
        for nm, c in nodes:
            ids = ints(ai, get(ai, c, "indices"))
            hashed = get(ai, c, "_is_hashed")
            old = get(ai, c, "_hash_value")
            r = call(ai, IV + "::indices_normalized", c, [])
            got = ints(ai, ai.heap.get(pointee_cell(ai, ai.rv(r))))
            ai.heap[ai.field(c, "_is_hashed")] = False
            nf = ai.field(c, "_indices_normalized")
            ai.heap[nf] = lib.mk_sptr(ai, "std::shared_ptr<std::vector<int>>", NULL) and ai.heap[lib.mk_sptr(ai, "std::shared_ptr<std::vector<int>>", NULL).cells[0]]
            fresh = ai.rv(call(ai, IV + "::__hash__", c, []))
            if ids is None or got is None or hashed not in (True, False) or isinstance(fresh, Top):
                out.append((nm, None, "not determined"))
            elif got != first_occurrence(ids):
                out.append((nm, False, "%s has identities %s but the normal form %s" % (nm, list(ids), list(got))))
            elif hashed and not (same(old, fresh) or isinstance(old, App) and old.args and same(old.args[0], fresh)):
                out.append((nm, None if isinstance(old, (Top, Phi)) else False, "%s has a cached hash %s, its identities hash to %s" % (nm, old, fresh)))
            else:
                out.append((nm, True, ""))
    except (Dead, TooBig):
        ctx.ob(key, None, "no result", w)
        return
    ctx.used(ai)
    if ai.imprecise or ai.unknown_calls:
        ctx.ob(key, None, "imprecise: %s" % (list(ai.imprecise)[:2] + list(ai.unknown_calls)[:2]), w)
        return
    for nm, ok, d in out:
        if ok is not True:
            ctx.ob("%s (%s)" % (key, nm), ok, d, w)
            return
    ctx.ob(key, True, "caches agree with identities in both nodes", w)


def run(ctx):
    rd = TermReader(ctx.p)
    items = [("parse", x) for x in var_shapes(ctx.tier) + p05.shapes(ctx.tier) + p05.operands() + big_shapes(ctx)]
    items += [("normal", t) for n in range(0, 5) for t in order_types(n)]
    for n in (0, 1, 2, 3) if ctx.tier == "quick" else (0, 1, 2, 3, 4):
        items += [("history", x) for x in itertools.product(OPS, repeat=n)]
    ctx.par(items, lambda x: parsed(ctx, rd, *x[1]) if x[0] == "parse" else normal(ctx, x[1]) if x[0] == "normal" else history(ctx, x[1]))
