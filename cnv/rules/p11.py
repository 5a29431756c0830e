"""Recorded facts agree with the structure.  For every term object inside the analysed term of every sentence shape, the
recorded complexity, variable flags, higher-order, operation and commutativity flags are compared with the values
recomputed from the object's own structure (its kind, copula or connector, and sub-objects).  The same is done for terms
built by the constructors directly, with and without cloning of their parts, and for interval arithmetic."""
from ..harness import *
from ..consts import big_shapes, sizes
from ..terms import *
from ..env import *
from ..env import run as evaluate
from . import p05

HIGHER = {"==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"}
COMM_COP = {"<->", "<=>", "<|>"}
FLAGS = ["is_var", "is_ivar", "is_dvar", "is_qvar", "has_var", "has_ivar", "has_dvar", "has_qvar", "is_interval", "is_operation", "is_higher_order"]
WHERE = {"st": "STATEMENT::Statement::Statement", "cmp": "COMPOUND::Compound::Compound", "var": "VARIABLE::Variable::Variable",
         "iv": "INTERVAL::Interval::Interval", "op": "OPERATION::Operation::Operation", "atom": "TERM::Term::Term"}


def facts(p, tv):
    """facts of a term object computed from its structure"""
    f = {x: False for x in FLAGS}
    subs = [facts(p, s) for s in tv.subs]
    for x in FLAGS[4:8]:
        f[x] = any(s[x] for s in subs)
    f["complexity"] = 1
    if tv.kind == "st":
        f["complexity"] += sum(s["complexity"] for s in subs)
        f["is_higher_order"] = tv.op in HIGHER
        f["is_commutative"] = tv.op in COMM_COP
        f["is_operation"] = tv.subs[1].kind == "op" and tv.subs[0].kind == "cmp" and tv.subs[0].op == "*"
    elif tv.kind == "cmp":
        f["complexity"] = sum(s["complexity"] for s in subs)
        f["is_commutative"] = tv.op in COMMUTATIVE
        f["$tag"] = tv.op in COMMUTATIVE
    elif tv.kind == "var":
        k = varkind(p, tv)
        f["is_var"] = f["has_var"] = True
        f["is_" + str(k)] = f["has_" + str(k)] = True
    elif tv.kind == "iv":
        f["is_interval"] = True
    elif tv.kind == "op":
        f["is_operation"] = True
    return f


def compare(ctx, ai, tv, base, scenario):
    """one obligation per object: all its facts"""
    for path, t in tv.walk():
        want = facts(ctx.p, t)
        key = "%s%s" % (base, "".join("/%d" % i for i in path))
        bad, und = [], []
        for k, w in sorted(want.items()):
            g = t.comm if k == "$tag" else get(ai, t.cell, k)
            if isinstance(g, (Top, Phi, Alt)) or g is None:
                und.append(k)
            elif isinstance(w, bool) and g is not w or not isinstance(w, bool) and not (isinstance(g, int) and g == w):
                bad.append("%s is %s, the structure has %s" % ({"$tag": "unordered components"}.get(k, k), g, w))
        w = WHERE[t.kind]
        if bad:
            ctx.ob(key, False, "%s: %s" % (describe(t), "; ".join(bad)), w, scenario)
        elif und:
            ctx.ob(key, None, "not determined: " + ", ".join(und), w, scenario)
        else:
            ctx.ob(key, True, "%s: complexity %d and %d flags" % (describe(t), want["complexity"], len(want) - 1), w, scenario)


def parsed(ctx, rd, name, s):
    r = feed(ctx, toks(s) + ["."])
    if r.fail or r.why:
        ctx.ob(name, None, "no term to look at (%s)" % (r.fail or r.why), "COMPOUND::Compound::Compound", r.name)
        return
    try:
        tv = rd.read(r.ai, r.ptr("sentence.term"))
    except Unknown as x:
        ctx.ob(name, None, "term not determined: %s" % x, "COMPOUND::Compound::Compound", r.name)
        return
    compare(ctx, r.ai, tv, name, r.name)
    if not tv.subs:
        return
    ai = r.ai
    h = sptr(ai, "TERM::pTerm", tv.cell, name="original")
    res = evaluate(ai, lambda: call(ai, "TERM::Term::clone", None, [LV(h)]))
    if res.dead or res.big or res.value is None:
        return          # P12 judges whether cloning completes
    c = pointee_cell(ai, ai.rv(res.value))
    if c == tv.cell:
        return
    try:
        tv = rd.read(ai, c)
    except Unknown as x:
        ctx.ob(name + " clone", None, "clone not determined: %s" % x, "TERM::Term::clone", r.name)
        return
    compare(ctx, ai, tv, name + " clone", r.name)


def intervals(ctx):
    """an interval's hash is a fact of its number: arithmetic must leave the hash of the number it now is"""
    for op in ("+=", "+"):
        ai = mk(ctx.p)
        key = "interval operator" + op
        w = "INTERVAL::Interval::operator" + op
        if w not in ctx.p.by_name:
            continue
        try:
            a, b = (new_obj(ai, "INTERVAL::Interval", [Sym(n, None, None)]) for n in "ab")
            r = call(ai, w, a, [LV(b)])
            c = a if op == "+=" else (r.cells[0] if isinstance(r, LV) else pointee_cell(ai, r))
            v = get(ai, c, "interval")
            d = new_obj(ai, "INTERVAL::Interval", [v])
        except (Dead, TooBig) as x:
            ctx.ob(key, None, "no result", w)
            continue
        h, g = get(ai, d, "hash_value"), get(ai, c, "hash_value")
        ctx.used(ai)
        q = quantity(v)
        from ..poly import var
        ok = None if q is None else q == var("a") + var("b")
        ctx.ob(key + " number", ok, "the number is %s" % (q,), w)
        if isinstance(h, Top) or isinstance(g, Top):
            ctx.ob(key + " hash", None, "hash not determined", w)
        else:
            ctx.ob(key + " hash", same(h, g), "hash %s of the interval, %s of its number" % (g, h), w)


def run(ctx):
    rd = TermReader(ctx.p)
    items = [(n, s) for n, s in p05.shapes(ctx.tier)] + var_shapes(ctx.tier) + p05.operands() + big_shapes(ctx)
    # terms whose parts are operations, executions or higher order, at every position
    o = ("op", "o")
    parts = [("operation", o), ("execution", ("opst", "new", "o", [A("A")])), ("implication", ("st", "==>", A("A"), A("B"), "<")), ("interval", ("iv", "N"))]
    for n, x in parts:
        for c in COPULAS:
            items += [("%s as subject of %s" % (n, c), ("st", c, x, A("B"), "<")), ("%s as predicate of %s" % (n, c), ("st", c, A("B"), x, "<"))]
            items.append(("product %s %s" % (c, n), ("st", c, ("pre", "*", [A("A"), A("B")]), x, "<")))
        for k in MULTI + ["*"]:
            items += [("%s first in %s" % (n, k), ("pre", k, [x, A("B")])), ("%s last in %s" % (n, k), ("pre", k, [A("B"), x]))]
            items.append(("%s predicate of %s" % (n, k), ("st", "-->", ("pre", k, [A("A"), A("B")]), x, "<")))
        items += [("%s negated" % n, ("neg", x, "pre")), ("%s in set" % n, ("set", "{", [x])), ("%s in image" % n, ("img", "/", [x, A("B")])),
                  ("%s in difference" % n, ("diff", "~", A("A"), x, "pre"))]
    intervals(ctx)
    ctx.par(items, lambda x: parsed(ctx, rd, x[0], x[1]))
