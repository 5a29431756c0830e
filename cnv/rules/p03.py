"""Operator attributes.  For every connector and copula the accessor functions return the attributes the logic gives it, and an
operand count is accepted exactly when the connector admits it.  The accessors are evaluated abstractly per operator; operand
counts are partitioned into 0, 1, 2 and 'three or more' (one symbolic count)."""
from ..env import mk, call, run as erun, AnalysisBroken
from ..values import Sym
from ..lang import CONNECTOR_NAME, COPULA_NAME

YES = {
    "CONNECTOR::is_commutative": "Conjunction Disjunction ParallelEvents IntensionalIntersection ExtensionalIntersection IntensionalSet ExtensionalSet",
    "CONNECTOR::is_reducible": "Conjunction Disjunction ParallelEvents SequentialEvents IntensionalIntersection ExtensionalIntersection IntensionalSet ExtensionalSet",
    "CONNECTOR::is_temporal": "ParallelEvents SequentialEvents",
    "COPULA::is_commutative": "Similarity Equivalence ConcurrentEquivalence",
    "COPULA::is_higher_order": "Implication PredictiveImplication ConcurrentImplication RetrospectiveImplication Equivalence PredictiveEquivalence ConcurrentEquivalence",
    "COPULA::is_temporal": "PredictiveImplication ConcurrentImplication RetrospectiveImplication PredictiveEquivalence ConcurrentEquivalence",
}
ONE = "Negation"
TWO = "ExtensionalDifference IntensionalDifference"
MANY = "Conjunction Disjunction Product ParallelEvents SequentialEvents IntensionalIntersection ExtensionalIntersection IntensionalImage ExtensionalImage"
# lists and sets have any positive number of components
MAPS = {
    "COPULA::symmetrize": {"Inheritance": "Similarity", "Similarity": "Similarity", "Implication": "Equivalence", "Equivalence": "Equivalence",
                           "PredictiveImplication": "PredictiveEquivalence", "PredictiveEquivalence": "PredictiveEquivalence",
                           "ConcurrentImplication": "ConcurrentEquivalence", "ConcurrentEquivalence": "ConcurrentEquivalence"},
    "COPULA::reverse": {"PredictiveImplication": "RetrospectiveImplication", "RetrospectiveImplication": "PredictiveImplication",
                        "ConcurrentImplication": "ConcurrentImplication", "ConcurrentEquivalence": "ConcurrentEquivalence"},
}


def admits(n, k):
    if n in ONE.split():
        return k == 1
    if n in TWO.split():
        return k == 2
    if n in MANY.split():
        return k >= 2
    return k >= 1


def ask(ctx, fn, args):
    ai = mk(ctx.p)
    try:
        o = erun(ai, lambda: call(ai, fn, None, args))
    except AnalysisBroken:
        return "gone", ai
    except Exception as x:
        return "analysis gave up: %s" % x, ai
    ctx.used(ai)
    if o.big or ai.imprecise or ai.unknown_calls:
        return "not determined", ai
    if o.dead:
        return "no result", ai
    return ai.rv(o.value), ai


def truth_of(ctx, key, fn, args, want, what):
    v, ai = ask(ctx, fn, args)
    if any(i.kind == "out-of-bounds" and i.definite for i in ai.issues):
        return ctx.ob(key, False, "%s: the table has no entry for it" % what, fn)
    if v == "gone":
        return ctx.ob(key, None, "%s no longer exists" % fn, fn)
    ok = (v == want) if isinstance(v, (bool, int)) else None
    return ctx.ob(key, ok, "%s is %s" % (what, v), fn)


def attributes(ctx):
    cn = {k: v for k, v in ctx.p.enum("CONNECTOR::Connector").items() if v >= 0}
    cp = {k: v for k, v in ctx.p.enum("COPULA::Copula").items() if v >= 0}
    for fn, yes in YES.items():
        ops = cn if fn.startswith("CONN") else cp
        names = CONNECTOR_NAME.values() if ops is cn else COPULA_NAME.values()
        for n in names:
            if n not in ops:
                ctx.ob("%s/%s" % (fn, n), None, "operator %s is not declared" % n)
                continue
            truth_of(ctx, "%s/%s" % (fn, n), fn, [ops[n]], n in yes.split(), "%s(%s)" % (fn, n))
    for n in CONNECTOR_NAME.values():
        if n not in cn:
            continue
        for k in (0, 1, 2, 3, 4, "many"):
            v = Sym("n", 5, None) if k == "many" else k
            truth_of(ctx, "check_valid/%s/%s" % (n, k), "CONNECTOR::check_valid", [cn[n], v], admits(n, 5 if k == "many" else k),
                     "%s of %s operand(s) valid" % (n, k))
    inv = {v: k for k, v in ctx.p.enum("COPULA::Copula").items()}
    for fn, m in MAPS.items():
        for n in COPULA_NAME.values():
            if n not in cp:
                continue
            v, ai = ask(ctx, fn, [cp[n]])
            key = "%s/%s" % (fn, n)
            if any(i.kind == "out-of-bounds" and i.definite for i in ai.issues):
                ctx.ob(key, False, "%s(%s): the table has no entry for it" % (fn, n), fn)
            elif isinstance(v, int):
                ctx.ob(key, inv.get(v) == m.get(n, "None"), "%s(%s) is %s" % (fn, n, inv.get(v, v)), fn)
            else:
                ctx.ob(key, None, "%s(%s) is %s" % (fn, n, v), fn)


def laws(ctx):
    """the counterparts are consistent with the other attributes"""
    cp = {k: v for k, v in ctx.p.enum("COPULA::Copula").items() if v >= 0}
    get = lambda f, x: ask(ctx, "COPULA::" + f, [x])[0]
    for n, c in cp.items():
        r, s = get("reverse", c), get("symmetrize", c)
        if isinstance(r, int) and r >= 0:
            ctx.ob("law/reverse-involution/%s" % n, get("reverse", r) == c, "reversing %s twice" % n, "COPULA::reverse")
        if isinstance(s, int) and s >= 0:
            ctx.ob("law/symmetric-idempotent/%s" % n, get("symmetrize", s) == s, "symmetrizing %s twice" % n, "COPULA::symmetrize")
            for a in ("is_higher_order", "is_temporal"):
                x, y = get(a, c), get(a, s)
                ctx.ob("law/symmetric-%s/%s" % (a, n), None if not isinstance(x, bool) or not isinstance(y, bool) else x == y,
                       "%s of %s and its symmetric counterpart" % (a, n), "COPULA::symmetrize")


def run(ctx):
    attributes(ctx)
    laws(ctx)
