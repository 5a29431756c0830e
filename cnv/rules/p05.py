"""Terms denote what was written.  For every production of the term language (each copula, connector, spelling, arity
1..4, nesting) the structure of the analysed term - kinds, copula or connector, operands and their order - is compared
with the denotation of the written form in the reference semantics."""
import itertools
from ..harness import *
from ..consts import big_shapes, sizes


def shapes(tier):
    a, b, c, d = A("A"), A("B"), A("C"), A("D")
    out = [("atom", a), ("op", ("op", "o")), ("interval", ("iv", "N"))]
    for cop in COPULAS:
        for sty in "<(":
            out.append(("statement " + cop + sty, ("st", cop, a, b, sty)))
            out.append(("nested " + cop + sty, ("st", cop, ("st", "-->", a, b, "<"), ("pre", "*", [c, d]), sty)))
            out.append(("nested2 " + cop + sty, ("st", cop, ("pre", "&&", [a, b]), ("st", "<->", c, d, "("), sty)))
            out.append(("var " + cop + sty, ("st", cop, V("$", "x"), ("img", "/", [a, V("#", "y")]), sty)))
        # sugar nested in sugar
        out.append(("set operands " + cop, ("st", cop, ("set", "[", [a]), ("set", "{", [b]), "<")))
        out.append(("set operands2 " + cop, ("st", cop, ("inf", "*", [a, b]), ("neg", b, "pre"), "(")))
    for k in MULTI:
        for n in (2, 3, 4):
            ps = [a, b, c, d][:n]
            out.append(("prefix %s %d" % (k, n), ("pre", k, ps)))
            out.append(("infix %s %d" % (k, n), ("inf", k, ps)))
        out.append(("prefix %s statements" % k, ("pre", k, [("st", "-->", a, b, "<"), ("st", "-->", c, d, "<"), V("#", "x")])))
        out.append(("infix %s statements" % k, ("inf", k, [("st", "-->", a, b, "<"), ("st", "-->", c, d, "("), V("#", "x")])))
    for n in (1, 2, 3, 4):
        ps = [b, a, d, c][:n]
        out.append(("product prefix %d" % n, ("pre", "*", ps)))
        if n > 1:
            out.append(("product infix %d" % n, ("inf", "*", ps)))
            out.append(("product bare %d" % n, ("prod", ps)))
        for s in "{[":
            out.append(("set %s %d" % (s, n), ("set", s, ps)))
        for s in "/\\":
            out.append(("image %s %d" % (s, n), ("img", s, ps)))
        out.append(("operation new %d" % n, ("opst", "new", "o", ps)))
        out.append(("operation old %d" % n, ("opst", "old", "o", ps)))
    for s in "-~":
        for st in ("pre", "inf"):
            out.append(("difference %s %s" % (s, st), ("diff", s, b, a, st)))
            out.append(("difference %s %s of sets" % (s, st), ("diff", s, ("set", "{" if s == "-" else "[", [a, b]), ("pre", "*", [b, c]), st)))
    for st in ("pre", "bare"):
        out.append(("negation " + st, ("neg", a, st)))
        out.append(("negation %s statement" % st, ("neg", ("st", "-->", a, b, "<"), st)))
        out.append(("negation %s negation" % st, ("neg", ("neg", a, "pre"), st)))
    prim = [("set", "{", [a]), ("set", "[", [b, c]), ("neg", a, "pre"), ("img", "/", [a, b]), ("inf", "*", [a, b]), ("diff", "-", a, b, "inf"),
            ("st", "==>", a, b, "<"), ("opst", "new", "o", [a]), ("op", "o"), ("iv", "N"), V("?", "q"), ("pre", "&/", [a, b])]
    for i, p in enumerate(prim):
        out.append(("subject of statement %d" % i, ("st", "-->", p, d, "<")))
        out.append(("predicate of statement %d" % i, ("st", "==>", d, p, "(")))
        out.append(("in product %d" % i, ("pre", "*", [d, p])))
        out.append(("in operation %d" % i, ("opst", "old", "o", [d, p])))
        out.append(("in image %d" % i, ("img", "\\", [p, d])))
        out.append(("in difference %d" % i, ("diff", "~", p, d, "pre")))
    S = lambda k, *xs: ("set", k, list(xs))
    for k in "|&":
        for st in ("pre", "inf"):
            for o in "{[":
                c = "{" if o == "[" else "["
                out += [("%s %s merge %s %d" % (k, st, o, i), (st, k, ps)) for i, ps in enumerate([
                    [S(o, a, b), S(o, b, c_)] for c_ in (A("C"),)] + [
                    [S(o, a, b), S(o, a, b)], [S(o, a), S(o, b)], [S(o, a, b), S(o, b), S(o, b, A("C"))], [S(o, a, b), S(c, b, A("C"))],
                    [S(o, a, b), d, S(o, b, A("C"))], [S(o, a), S(o, b), S(c, d)], [S(o, a), ("pre", k, [S(o, b), d])]])]
    for k in MULTI + ["*"]:
        for j in MULTI + ["*"]:
            out.append(("prefix %s of %s" % (k, j), ("pre", k, [("pre", j, [a, b]), A("C")])))
            out.append(("infix %s of %s" % (k, j), ("inf", k, [A("C"), ("pre", j, [a, b]), ("pre", j, [b, d])])))
    for s in "{[":
        for t in "{[":
            out.append(("set %s of %s" % (s, t), S(s, S(t, a, b), A("C"))))
            out.append(("set %s of %s only" % (s, t), S(s, S(t, a))))
            out.append(("set %s of %ss" % (s, t), S(s, S(t, a, b), S(t, b, d))))
    if tier == "thorough":
        for (i, p), (j, q) in itertools.product(enumerate(prim), enumerate(prim)):
            out.append(("pair statement %d %d" % (i, j), ("st", "<=>", p, q, "<")))
            out.append(("pair product %d %d" % (i, j), ("inf", "*", [p, q])))
            out.append(("pair image %d %d" % (i, j), ("img", "/", [p, q])))
            out.append(("pair conj %d %d" % (i, j), ("pre", "&/", [p, q])))
    return out


def operands():
    """every copula and connector over every kind of operand, on each side; normalisation that joins or drops operands of
    every kind"""
    a, b, d = A("A"), A("B"), A("D")
    st = ("st", "-->", a, b, "<")
    kinds = [("$", V("$", "x")), ("#", V("#", "x")), ("?", V("?", "x")), ("quoted", ("q", "\"A B\"")), ("op", ("op", "o")), ("interval", ("iv", "N")),
             ("statement", st), ("equivalence", ("st", "<=>", a, V("#", "y"), "<")), ("operation", ("opst", "old", "p", [a, V("$", "y")])), ("ext set", ("set", "{", [a, V("?", "y")])), ("int set", ("set", "[", [V("$", "y")])),
             ("product", ("pre", "*", [a, b])), ("image", ("img", "/", [a, V("#", "y")])), ("negation", ("neg", a, "pre")), ("conjunction", ("pre", "&&", [a, V("$", "y")])),
             ("sequence", ("pre", "&/", [a, ("iv", "M")])), ("difference", ("diff", "-", a, b, "inf"))]
    out = []
    for kn, k in kinds:
        for cop in COPULAS:
            out.append(("statement %s %s left" % (cop, kn), ("st", cop, k, d, "<")))
            out.append(("statement %s %s right" % (cop, kn), ("st", cop, d, k, "<")))
            out.append(("statement %s %s both" % (cop, kn), ("st", cop, k, k, "(")))
        for c in MULTI:
            out.append(("prefix %s %s first" % (c, kn), ("pre", c, [k, d])))
            out.append(("infix %s %s last" % (c, kn), ("inf", c, [d, a, k])))
            out.append(("prefix %s %s twice" % (c, kn), ("pre", c, [k, d, k])))
            if c != "*":
                out.append(("prefix %s %s only twice" % (c, kn), ("pre", c, [k, k])))
        for c in "-~":
            out.append(("difference %s %s left" % (c, kn), ("diff", c, k, d, "pre")))
            out.append(("difference %s %s right" % (c, kn), ("diff", c, d, k, "inf")))
        for c in "/\\":
            out.append(("image %s %s first" % (c, kn), ("img", c, [k, d])))
            out.append(("image %s %s last" % (c, kn), ("img", c, [d, a, k])))
        for c in "{[":
            out.append(("set %s %s" % (c, kn), ("set", c, [d, k])))
            out.append(("set %s %s alone" % (c, kn), ("set", c, [k])))
        out += [("product %s" % kn, ("inf", "*", [k, d])), ("product bare %s" % kn, ("prod", [d, k])), ("negation bare %s" % kn, ("neg", k, "bare")),
                ("negation %s" % kn, ("neg", k, "pre")), ("operation old %s" % kn, ("opst", "old", "o", [k, d])), ("operation new %s" % kn, ("opst", "new", "o", [d, k]))]
        out += dropping(kn, k)
    return out


def dropping(kn, k):
    """compounds whose normal form joins sets and keeps or drops one of their elements"""
    a, b, d = A("A"), A("B"), A("D")
    S = lambda c, *xs: ("set", c, list(xs))
    out = []
    for c in "&|":
        for o in "{[":
            for i, ps in enumerate([[S(o, a, k), S(o, a, b)], [S(o, a, b), S(o, a, k)], [S(o, a, k), S(o, k, b)], [S(o, a, k), S(o, a, b), S(o, a, d)],
                                    [S(o, a, k), ("pre", c, [S(o, a, b), d])], [("pre", c, [d, S(o, a, k)]), S(o, b, a)]]):
                out.append(("prefix %s %s %s joined %d" % (c, o, kn, i), ("pre", c, ps)))
    for c, o in (("-", "{"), ("~", "["), ("-", "["), ("~", "{")):
        for i, (x, y) in enumerate([(S(o, a, k), S(o, k)), (S(o, a, k), S(o, a)), (S(o, k, a, b), S(o, k, b)), (S(o, a, b), S(o, a, k))]):
            out.append(("difference %s %s %s dropped %d" % (c, o, kn, i), ("diff", c, x, y, "pre")))
    return out


WHERE = {"statement": "NARSESEPARSER::statement", "prefix": "NARSESEPARSER::multi_prefix", "infix": "NARSESEPARSER::multi_infix",
         "operation": "NARSESEPARSER::statement_operation1", "set": "NARSESEPARSER::set", "negation": "NARSESEPARSER::negation",
         "difference": "NARSESEPARSER::single_prefix", "image": "NARSESEPARSER::int_image", "product": "NARSESEPARSER::multi_prefix_product",
         "atom": "NARSESEPARSER::atom_term", "op": "NARSESEPARSER::operation", "interval": "NARSESEPARSER::interval"}


def run(ctx):
    rd = Reader(ctx.p)
    ctx.par(shapes(ctx.tier) + operands() + big_shapes(ctx), lambda x: check(ctx, rd, x[0], x[1], WHERE.get(x[0].split()[0], "NARSESEPARSER::statement")))


def check(ctx, rd, name, s, w):
    r = feed(ctx, toks(s) + ["."])
    if fails(ctx, name, r, w):
        return
    try:
        got = r.term(rd)
    except Unknown as x:
        ctx.ob(name, None, "term not determined: %s" % x, w, r.name)
        return
    ctx.ob(name, match(den(s), got, {}) is not None, "denotes %s, analysed %s" % (show(den(s)), show(got)), w, r.name)
