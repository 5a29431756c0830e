"""Narsese sentences as abstract syntax: the terminals a term is written with, and the term it denotes.

The second half is the reference semantics the rules compare the code with.  It is written from the language definition
(narsese.par, the doc comments of the compound normalisation, NAL), not from the implementation."""
from .grammar import W, Q, N
from .values import *

COPULAS = ["-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"]
COPULA_NAME = dict(zip(COPULAS, ["Inheritance", "Similarity", "Instance", "Property", "InstanceProperty", "Implication",
                                 "PredictiveImplication", "ConcurrentImplication", "RetrospectiveImplication",
                                 "Equivalence", "PredictiveEquivalence", "ConcurrentEquivalence"]))
CONNECTOR_NAME = {"&&": "Conjunction", "||": "Disjunction", "*": "Product", "&|": "ParallelEvents", "&/": "SequentialEvents",
                  "|": "IntensionalIntersection", "&": "ExtensionalIntersection", "-": "ExtensionalDifference",
                  "~": "IntensionalDifference", "--": "Negation", "[": "IntensionalSet", "{": "ExtensionalSet",
                  "\\": "IntensionalImage", "/": "ExtensionalImage", "#": "List"}
COMMUTATIVE = {"&&", "||", "&|", "|", "&", "[", "{"}
FLATTEN = {"&&", "||", "&|", "&/", "|", "&", "[", "{"}        # reducible
PUNCT = {".": "Judgement", "?": "Question", "!": "Goal", "@": "Quest"}
INFIX = ["*", "||", "&&", "&/", "&|", "|", "&"]
MULTI = ["&&", "||", "&|", "&/", "|", "&"]
VARKIND = {"$": "ivar", "#": "dvar", "?": "qvar"}


# ---- surface syntax ---------------------------------------------------------------------------
def A(n):
    return ("a", n)


def V(k, n):
    return ("v", k, n)


def sep(parts, s=","):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(s)
        out += toks(p)
    return out


def toks(s):
    k = s[0]
    if k == "a":
        return [W(s[1])]
    if k == "q":
        return [Q(s[1])]
    if k == "v":
        return [s[1], W(s[2])]
    if k == "op":
        return ["^", W(s[1])]
    if k == "iv":
        return ["+", N("integer", s[1])]
    if k == "st":
        o, c = ("<", ">") if s[4] == "<" else ("(", ")")
        return [o] + toks(s[2]) + [s[1]] + toks(s[3]) + [c]
    if k == "opst":     # (^o, a, b)  or  o(a, b)
        if s[1] == "old":
            return ["(", "^", W(s[2])] + ([","] + sep(s[3]) if s[3] else []) + [")"]
        return [W(s[2]), "("] + sep(s[3]) + [")"]
    if k == "set":
        return [s[1]] + sep(s[2]) + ["}" if s[1] == "{" else "]"]
    if k == "neg":
        return ["--"] + toks(s[1]) if s[2] == "bare" else ["(", "--", ","] + toks(s[1]) + [")"]
    if k == "img":
        return ["(", s[1], ","] + sep(s[2]) + [")"]
    if k == "pre":
        return ["(", s[1], ","] + sep(s[2]) + [")"]
    if k == "inf":
        return ["("] + sep(s[2], s[1]) + [")"]
    if k == "prod":     # (A, B): product, new notation
        return ["("] + sep(s[1]) + [")"]
    if k == "diff":
        return ["(", s[1], ","] + toks(s[2]) + [","] + toks(s[3]) + [")"] if s[4] == "pre" else \
            ["("] + toks(s[2]) + [s[1]] + toks(s[3]) + [")"]
    raise ValueError(k)


def text(seq):
    return " ".join('"%s"' % x if isinstance(x, Q) else str(x) for x in seq)


# ---- denotation -------------------------------------------------------------------------------
def den(s):
    """the term a spelling denotes: ("<>",copula,s,p) ("()",connector,parts|frozenset) ("var",k,name) ("interval",n) ("atom",name,is_op)"""
    k = s[0]
    if k in ("a", "q"):
        return ("atom", s[1], False)
    if k == "v":
        return ("var", s[1], s[2])
    if k == "op":
        return ("atom", "^" + s[1], True)
    if k == "iv":
        return ("interval", s[1])
    if k == "st":
        c, a, b = s[1], den(s[2]), den(s[3])
        if c in ("{--", "{-]"):
            a = comp("{", [a])
        if c in ("--]", "{-]"):
            b = comp("[", [b])
        return ("<>", "-->" if c in ("{--", "--]", "{-]") else c, a, b)
    if k == "opst":
        return ("<>", "-->", comp("*", [den(x) for x in s[3]]), ("atom", "^" + s[2], True))
    if k == "set":
        return comp(s[1], [den(x) for x in s[2]])
    if k == "neg":
        return comp("--", [den(s[1])])
    if k in ("img", "pre", "inf"):
        return comp(s[1], [den(x) for x in s[2]])
    if k == "prod":
        return comp("*", [den(x) for x in s[1]])
    if k == "diff":
        return comp(s[1], [den(s[2]), den(s[3])])
    raise ValueError(k)


def comp(c, parts):
    """the compound in normal form"""
    if c not in FLATTEN:
        return ("()", c, tuple(parts))
    flat = []
    for p in parts:
        if p[0] == "()" and p[1] == c:
            flat += list(p[2]) if c not in COMMUTATIVE else sorted(p[2], key=repr)
        else:
            flat.append(p)
    if c not in COMMUTATIVE:
        return ("()", c, tuple(flat))
    out = frozenset(flat)
    # intersections of sets are sets: extensional sets unite under | and intersect under &, intensional sets dually
    if c in ("&", "|"):
        for sc in ("{", "["):
            sets = [p for p in out if p[0] == "()" and p[1] == sc]
            if not sets:
                continue
            unite = (c == "|") == (sc == "{")
            m = frozenset.union(*[s[2] for s in sets]) if unite else frozenset.intersection(*[s[2] for s in sets])
            if m:      # an empty intersection is not a term: left as it is
                out = (out - set(sets)) | {("()", sc, m)}
        if len(out) == 1:
            x = next(iter(out))
            if x[0] == "()" and x[1] in ("{", "["):
                return x
    return ("()", c, out)


def show(d):
    k = d[0]
    if k == "atom":
        return str(d[1])
    if k == "var":
        return "%s%s" % (d[1], d[2])
    if k == "interval":
        return "+%s" % (d[1],)
    if k == "<>":
        return "<%s %s %s>" % (show(d[2]), d[1], show(d[3]))
    if k == "()":
        ps = d[2] if isinstance(d[2], (tuple, list)) else sorted(d[2], key=repr) if d[2] is not None else []
        ps = ", ".join(show(x) for x in ps)
        return "{%s}" % ps if d[1] == "{" else "[%s]" % ps if d[1] == "[" else "(%s, %s)" % (d[1], ps)
    return str(d)


# ---- reading the analysed term and comparing ---------------------------------------------------
class Reader:
    """abstract term (Scen.term) -> denotation with concrete names, or None where the analysis does not know"""
    def __init__(self, prog):
        cn, pn = prog.enum("CONNECTOR::Connector"), prog.enum("COPULA::Copula")
        self.conn = {cn[n]: s for s, n in CONNECTOR_NAME.items() if n in cn}
        self.cop = {pn[n]: s for s, n in COPULA_NAME.items() if n in pn}

    def read(self, t):
        if not isinstance(t, tuple):
            raise Unknown(str(t))
        k = t[0]
        if k == "<>":
            if not isinstance(t[1], int):
                raise Unknown("copula")
            return ("<>", self.cop.get(t[1], "copula#%s" % t[1]), self.read(t[2]), self.read(t[3]))
        if k == "()":
            if len(t) < 4 or not isinstance(t[1], int):
                raise Unknown("compound")
            ps = [self.read(x) for x in t[3]]
            return ("()", self.conn.get(t[1], "connector#%s" % t[1]), ps if t[2] else tuple(ps))
        if k == "var":
            i = t[2]
            if not isinstance(i, tuple):
                raise Unknown("variable index")
            return ("var", t[1], i)
        if k == "interval":
            return ("interval", t[1])
        if k == "atom":
            n = t[1]
            if n is not None and not isinstance(n, str):
                raise Unknown("atom name")
            return ("atom", n, t[2])
        raise Unknown(k)


class Unknown(Exception):
    pass


def num_name(v):
    """the number token an abstract number was read from"""
    while isinstance(v, App) and v.op in ("num:real", "num:int", "float", "double", "int", "cast:int", "cast:float", "cast:double", "cast:long", "cast:short") and len(v.args) == 1:
        v = v.args[0]
    return v.name if isinstance(v, Sym) else v


def match(exp, got, env):
    """does the analysed term equal the expected one, up to the naming of variables?  env: bijection per kind (mutated copy returned)"""
    if exp[0] != got[0]:
        return None
    k = exp[0]
    if k == "atom":
        return env if exp[1] == got[1] and bool(exp[2]) == (got[2] is True) else None
    if k == "interval":
        return env if exp[1] == num_name(got[1]) else None
    if k == "var":
        if exp[1] != got[1] or len(got[2]) != 1:
            return None
        f, b = (k, exp[1], exp[2]), ("ix", exp[1], repr(got[2][0]))
        if env.get(f, b) != b or env.get(b, f) != f:
            return None
        env = dict(env)
        env[f], env[b] = b, f
        return env
    if k == "<>":
        if exp[1] != got[1]:
            return None
        env = match(exp[2], got[2], env)
        return None if env is None else match(exp[3], got[3], env)
    if k == "()":
        if exp[1] != got[1] or len(exp[2]) != len(got[2]):
            return None
        if isinstance(exp[2], frozenset) != isinstance(got[2], list):
            return None
        if not isinstance(exp[2], frozenset):
            for x, y in zip(exp[2], got[2]):
                env = match(x, y, env)
                if env is None:
                    return None
            return env
        return perm(sorted(exp[2], key=repr), list(got[2]), env)
    return None


def perm(xs, ys, env):
    if not xs:
        return env
    for i, y in enumerate(ys):
        e = match(xs[0], y, env)
        if e is not None:
            r = perm(xs[1:], ys[:i] + ys[i + 1:], e)
            if r is not None:
                return r
    return None
