"""Normalisation of compounds.  For every connector, every tuple of operand kinds (atoms, sets of both kinds with and without
common elements, nested compounds of the same connector, products, images, differences, negations, statements), in every order, and every
way of passing the operands, the constructor is evaluated abstractly and the resulting connector and components compared with
the documented normal form."""
import itertools
from ..build import Builder
from ..lang import comp, show, CONNECTOR_NAME, FLATTEN, Unknown
from ..terms import TermReader
from ..env import Dead, TooBig
from ..prog import AnalysisBroken
from ..env import pointee_cell

at = lambda n: ("atom", n, False)
a, b, c, d = (at(x) for x in "abcd")
CONN = [k for k in CONNECTOR_NAME if k != "#"]


def pool(k):
    out = [("a", a), ("b", b), ("{a,b}", comp("{", [a, b])), ("{b,c}", comp("{", [b, c])), ("{d}", comp("{", [d])), ("[a,b]", comp("[", [a, b])),
           ("[b,c]", comp("[", [b, c])), ("a*b", comp("*", [a, b])), ("--a", comp("--", [a])), ("a-->b", ("<>", "-->", a, b))]
    x, y, z = ("var", "$", "x"), ("var", "#", "y"), ("var", "?", "z")
    out += [("$x", x), ("{a,#y}", comp("{", [a, y])), ("[#y,b]", comp("[", [y, b])), ("{?z}", comp("{", [z])), ("op", ("<>", "-->", comp("*", [x, a]), ("atom", "^o", True)))]
    if k in FLATTEN and k not in "{[":
        out += [("(K,a,$x)", comp(k, [a, x])), ("(K,#y,?z)", comp(k, [y, z]))]
    if k in FLATTEN and k not in "{[":
        out += [("(K,a,b)", comp(k, [a, b])), ("(K,c,b)", comp(k, [c, b]))]
    else:
        out += [("/a,b", comp("/", [a, b])), ("a-b", comp("-", [a, b]))]
    return out


def tuples(k, tier):
    for t in all_tuples(k, tier):       # one variable in two operands is a matter of identities (P24), not of this property
        if not {"$x", "(K,a,$x)"} <= {n for n, _ in t}:
            yield t


def all_tuples(k, tier):
    ps = pool(k)
    for x in ps:
        yield (x,)
    yield from itertools.product(ps, repeat=2)
    small = [p for p in ps if p[0] in ("a", "{a,b}", "{b,c}", "[a,b]", "(K,c,b)", "/a,b")]
    if k in FLATTEN or tier != "quick":
        yield from itertools.product(small if tier == "quick" else ps, repeat=3)
    if tier != "quick" and k in FLATTEN:
        yield from itertools.product(small, repeat=4)


def run(ctx):
    jobs = []
    for k in CONN:
        ts = list(tuples(k, ctx.tier))
        for i in range(0, len(ts), 40):
            jobs.append((k, "vector", ts[i:i + 40]))
        for kind in ("list", "init", "terms"):
            jobs.append((k, kind, [t for t in ts if len(t) <= 2][::7 if ctx.tier == "quick" else 2]))
        jobs.append((k, "one", [t for t in ts if len(t) == 1]))
        jobs.append((k, "input", [t for t in ts if len(t) <= 2][::9]))
    ctx.par(jobs, lambda j: check(ctx, *j))


def check(ctx, k, kind, ts):
    rd = TermReader(ctx.p)
    w = ctx.site("COMPOUND::Compound::Compound")
    for t in ts:
        B = Builder(ctx.p)
        key = "%s/%s/%s" % (CONNECTOR_NAME[k], kind, ", ".join(n for n, _ in t).replace("K", k))
        exp = comp(k, [x for _, x in t])
        ctx.count("constructions")
        try:
            ops = [B.build(x) for _, x in t]
            n0 = len(B.ai.issues)
            cell = B.compound(k, ops, "vector" if kind == "input" else kind, kind == "input")
            got = B.back(rd.read(B.ai, cell))
        except AnalysisBroken as x:
            if kind != "vector":
                ctx.note(str(x))
                return
            raise
        except Dead:
            ctx.ob(key, None if B.ai.imprecise or B.ai.unknown_calls else False, "construction does not complete: %s" % [str(i) for i in B.ai.issues[:2]], w)
            continue
        except (TooBig, Unknown) as x:
            ctx.ob(key, None, "not determined: %s" % x, w)
            continue
        except Exception as x:
            ctx.ob(key, None, "analysis gave up: %s: %s" % (type(x).__name__, x), w)
            continue
        ctx.used(B.ai)
        if B.ai.imprecise or B.ai.unknown_calls:
            ctx.ob(key, True if got == exp else None, "imprecise: %s" % (list(B.ai.imprecise) + list(B.ai.unknown_calls))[:2], w)
            continue
        ctx.ob(key, got == exp, "%s of %s is %s, documented %s" % (k, ", ".join(show(x) for _, x in t), show_(got), show(exp)), w)


def show_(d):
    try:
        return show(d)
    except Exception:
        return repr(d)
