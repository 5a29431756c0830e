"""Cloning: for every term shape the clone computed by Term::clone is compared, object by object, with the original in
the abstract heap: same structure, equal facts and variable numbers, and no object that contains a variable, no
components container, no index object and no identity object shared between the two (other than parts without variables)."""
from ..harness import *
from ..consts import big_shapes, sizes
from ..terms import *
from ..env import *
from ..env import run as evaluate
from . import p05, p11, p24

FIELDS = p11.FLAGS + ["complexity", "hash_value", "is_hashed", "type", "copula", "connector", "is_closed", "is_commutative", "name", "prefix", "interval", "is_mental_operation"]
WHERE = {"st": "STATEMENT::Statement::Statement", "cmp": "COMPOUND::Compound::Compound", "var": "VARIABLE::Variable::Variable"}


def has_var(t):
    return t.kind == "var" or any(has_var(s) for s in t.subs)


def index_cells(rd, ai, t, acc):
    """index objects of all var-containing sub-terms, by kind that occurs there"""
    for _, s in t.walk():
        for k, f in INDEX.items():
            if p24.occurrences(rd.p, ai, s, k, rd):
                ic = pointee_cell(ai, get(ai, s.cell, f))
                acc.setdefault(ic, (s, k))
    return acc


def successors(ai, ic, depth=0):
    con = get(ai, ic, "successors")
    if not isinstance(con, Cont) or depth > 60:
        return
    for x in con.cells:
        c = pointee_cell(ai, ai.read(x))
        if c is not None:
            yield c
            yield from successors(ai, c, depth + 1)


def pair(ctx, ai, rd, o, c, path, bad, und):
    """original and clone, node by node"""
    at = "at %s: " % ("/".join(map(str, path)) or "the top")
    if (o.kind, o.op, o.comm, len(o.subs)) != (c.kind, c.op, c.comm, len(c.subs)):
        bad.append((o, at + "the original is %s, the clone %s" % (describe(o), describe(c))))
        return
    for f in FIELDS:
        x, y = get(ai, o.cell, f), get(ai, c.cell, f)
        if x is None and y is None:
            continue
        if isinstance(x, (Top, Phi, Alt)) or isinstance(y, (Top, Phi, Alt)):
            if not (isinstance(x, Top) and x is y):
                und.append(f)
        elif not same(x, y):
            bad.append((o, at + "%s is %s in the original, %s in the clone" % (f, x, y)))
    for k, f in INDEX.items():
        a, b = rd.indices(ai, o.cell, f), rd.indices(ai, c.cell, f)
        va, vb = [ai.read(x) for x in a[1]], [ai.read(x) for x in b[1]]
        if va != vb:
            bad.append((o, at + "%s are %s in the original, %s in the clone" % (k, va, vb)))
        elif a[2] != b[2]:
            bad.append((o, at + "%s are at %s in the original, at %s in the clone" % (k, list(a[2]), list(b[2]))))
    if has_var(o):
        if o.cell == c.cell:
            bad.append((o, at + "%s contains a variable and is shared with the original" % describe(o)))
        elif o.kind == "cmp" and pointee_cell(ai, get(ai, o.cell, "terms")) == pointee_cell(ai, get(ai, c.cell, "terms")):
            bad.append((o, at + "the components container is shared with the original"))
    for i, (x, y) in enumerate(zip(o.subs, c.subs)):
        pair(ctx, ai, rd, x, y, path + (i,), bad, und)


def cloned(ctx, rd, name, s):
    r = feed(ctx, toks(s) + ["."])
    w = "TERM::Term::clone"
    if r.fail or r.why:
        ctx.ob(name, None, "no term to clone (%s)" % (r.fail or r.why), w, r.name)
        return
    ai = r.ai
    try:
        o = rd.read(ai, r.ptr("sentence.term"))
        before = p24_state(ai, rd, o)
        h = sptr(ai, "TERM::pTerm", o.cell, name="original")
        res = evaluate(ai, lambda: call(ai, "TERM::Term::clone", None, [LV(h)]))
        if res.dead or res.big or ai.imprecise or ai.unknown_calls:
            # cloning fails for a term of the language: decided only when the evaluation was exact
            exact = res.dead and not (ai.imprecise or ai.unknown_calls)
            ctx.ob(name, False if exact else None, "cloning %s does not complete" % describe(o), w, r.name)
            return
        v = ai.rv(res.value)
        c = rd.read(ai, pointee_cell(ai, v))
        ctx.used(ai)
        bad, und = [], []
        pair(ctx, ai, rd, o, c, (), bad, und)
        ids = lambda t: {x for _, u in t.walk() for f in INDEX.values() for x in rd.indices(ai, u.cell, f)[1]}
        if ids(o) & ids(c):
            bad.append((o, "a variable's identity object is shared with the original"))
        io, ic = index_cells(rd, ai, o, {}), index_cells(rd, ai, c, {})
        for x in set(io) & set(ic):
            bad.append((io[x][0], "the index of the %s is shared with the original" % io[x][1]))
        for x, (t, k) in ic.items():
            for y in successors(ai, x):
                if y in io:
                    bad.append((t, "the index of the %s of the clone is built from parts of the original" % k))
                    break
        if p24_state(ai, rd, o) != before:
            bad.append((o, "cloning changed the original"))
    except Unknown as x:
        ctx.ob(name, None, "not determined: %s" % x, w, r.name)
        return
    if bad:
        t, d = bad[0]
        ctx.ob(name, False, "clone of %s: %s" % (describe(o), d), WHERE.get(t.kind, w), r.name)
    elif und:
        ctx.ob(name, None, "not determined: %s" % ", ".join(sorted(set(und))), w, r.name)
    else:
        ctx.ob(name, True, "clone of %s: %d objects compared" % (describe(o), len(list(o.walk()))), w, r.name)


def p24_state(ai, rd, o):
    return [(u.cell, u.op, u.comm, [(rd.indices(ai, u.cell, f)[1:], [ai.read(x) for x in rd.indices(ai, u.cell, f)[1]]) for f in INDEX.values()],
             [get(ai, u.cell, f) for f in FIELDS]) for _, u in o.walk()]


def run(ctx):
    rd = TermReader(ctx.p)
    ctx.par(var_shapes(ctx.tier) + p05.shapes(ctx.tier) + p05.operands() + big_shapes(ctx), lambda x: cloned(ctx, rd, *x))
