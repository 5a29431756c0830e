"""Symbols.  For every operator, the written symbol, the internal constant chosen by analysing it, the entry of the rendering
table and the Python enumeration denote the same operator; no two operators of a kind share a symbol; every operator has a
Python name and every Python name is an operator."""
from ..harness import *
from ..env import mk, run as erun
from ..pymod import Module
from ..values import *

TENSE_SYM = {"Past": ":\\:", "Present": ":|:", "Future": ":/:", "Eternal": ":-:"}
VAR_SYM = {"Independent": "$", "Dependent": "#", "Qeury": "?", "Query": "?"}


def table(ctx, name):
    """the strings of a constant table, as the program's own initialiser computes them"""
    if name not in ctx.p.vars:
        return None
    ai = mk(ctx.p)
    try:
        c = erun(ai, lambda: LV(ai.global_cell(name, ctx.p.vars[name][0]["t"])))
        v = ai.rv(c.value)
        if not isinstance(v, Cont):
            return None
        out = [ai.read(x) for x in v.cells]
        return out if all(isinstance(x, str) for x in out) else None
    except Exception:
        return None


def run(ctx):
    kinds = [("copula", "COPULA::Copula", "COPULA::Repr", {n: s for s, n in COPULA_NAME.items()}),
             ("connector", "CONNECTOR::Connector", "CONNECTOR::Repr", {n: s for s, n in CONNECTOR_NAME.items()}),
             ("punctuation", "SENTENCE::PUNCTUATION::Punctuation", "SENTENCE::PUNCTUATION::Repr", {n: s for s, n in PUNCT.items()}),
             ("tense", "TENSE::Tense", "TENSE::Repr", TENSE_SYM),
             ("variable", "VARIABLE::VarPrefix", "VARIABLE::Repr", VAR_SYM)]
    mod = Module(ctx.p)
    ctx.used(mod.ai)
    for kind, en, rep, sym in kinds:
        ops = {k: v for k, v in ctx.p.enum(en).items() if v >= 0}
        where = (ctx.p.enums[en].get("file", "?"), ctx.p.enums[en].get("l", 0), en)
        t = table(ctx, rep)
        wt = (ctx.p.vars[rep][0].get("file", "?"), ctx.p.vars[rep][0].get("l", 0), rep) if rep in ctx.p.vars else where
        vals = list(ops.values())
        ctx.ob("%s/distinct-constants" % kind, len(set(vals)) == len(vals), "operators of a kind have different constants", where)
        for n, s in sym.items():
            if n not in ops:
                continue
            if t is None:
                ctx.ob("%s/%s/rendered" % (kind, n), None, "table %s not determined" % rep, wt)
            else:
                got = t[ops[n]] if ops[n] < len(t) else None
                ctx.ob("%s/%s/rendered" % (kind, n), got == s, "%s is rendered %r, written %r" % (n, got, s), wt)
        if t is not None:
            ctx.ob("%s/distinct-symbols" % kind, len(set(t)) == len(t), "no two operators of a kind share a symbol", wt)
        if kind in ("copula", "connector", "punctuation"):
            python(ctx, mod, kind, en, ops, sym, where)
    written(ctx)


def python(ctx, mod, kind, en, ops, sym, where):
    es = mod.enums(en)
    if not mod.exact and not es:
        ctx.ob("%s/python" % kind, None, "bindings not determined")
        return
    ctx.ob("%s/python" % kind, len(es) == 1, "%d Python enumeration(s) of %s" % (len(es), en), where)
    seen = {}
    for e in es:
        for b in mod.of(e):
            if b.kind != "value":
                continue
            n, v = b.args[0], b.args[1]
            if not isinstance(n, str) or not isinstance(v, int):
                ctx.ob("%s/python/%s" % (kind, n), None, "binding of %s not determined" % (n,), b.at)
                continue
            ctx.count("python_values")
            back = [k for k, x in ops.items() if x == v]
            ctx.ob("%s/python/%s" % (kind, n), n in back, "Python name %s denotes %s" % (n, back or v), b.at)
            ctx.ob("%s/python/%s/once" % (kind, n), n not in seen, "Python name %s is defined once" % n, b.at)
            seen[n] = v
            if len(b.args) > 2 and isinstance(b.args[2], str) and n in sym and b.args[2] in sym.values():
                ctx.ob("%s/python/%s/doc" % (kind, n), b.args[2] == sym[n], "Python documents %s as %r" % (n, b.args[2]), b.at)
    for n in ops:
        if n in sym and es:
            ctx.ob("%s/python/%s/defined" % (kind, n), True if n in seen else (None if not mod.exact else False),
                   "%s has a Python name" % n, es[0].at)


def written(ctx):
    """the constant the analysis of each written symbol yields"""
    cop, con = ctx.p.enum("COPULA::Copula"), ctx.p.enum("CONNECTOR::Connector")
    icop, icon = {v: k for k, v in cop.items()}, {v: k for k, v in con.items()}
    a, b, c = A("A"), A("B"), A("C")

    def one(key, t, path, inv, want, punct=".", tense="none"):
        r = feed(ctx, sentence(t, punct, tense))
        w = ctx.site(ACT[PUNCT[punct]])
        if fails(ctx, key, r, w):
            return
        v = r.get(path)
        ctx.ob(key, None if not isinstance(v, int) else inv.get(v) == want, "%s is analysed as %s" % (text(r.seq), inv.get(v, v)), w, r.name)

    for s, n in COPULA_NAME.items():
        for br in "<(":
            want = "Inheritance" if n in ("Instance", "Property", "InstanceProperty") else n
            one("written/copula/%s/%s" % (n, br), ("st", s, a, b, br), "sentence.term.copula", icop, want)
    for s in CONNECTOR_NAME:
        n = CONNECTOR_NAME[s]
        ts = []
        if s in MULTI + ["*"]:
            ts += [("prefix", ("pre", s, [a, b]))]
        if s in INFIX:
            ts += [("infix", ("inf", s, [a, b]))]
        if s in "-~":
            ts += [("prefix", ("diff", s, a, b, "pre")), ("infix", ("diff", s, a, b, "inf"))]
        if s == "--":
            ts += [("bare", ("neg", a, "bare")), ("prefix", ("neg", a, "pre"))]
        if s in "[{":
            ts += [("set", ("set", s, [a, b]))]
        if s in "/\\":
            ts += [("image", ("img", s, [a, b]))]
        for k, t in ts:
            one("written/connector/%s/%s" % (n, k), t, "sentence.term.connector", icon, n)
    one("written/connector/Product/new", ("prod", [a, b]), "sentence.term.connector", icon, "Product")
    ip = {v: k for k, v in ctx.p.enum("SENTENCE::PUNCTUATION::Punctuation").items()}
    for p, n in PUNCT.items():
        one("written/punctuation/%s" % n, AB, "sentence.punct", ip, n, p)
    vp = {v: k for k, v in ctx.p.enum("VARIABLE::VarPrefix").items()}
    want = {"$": "Independent", "#": "Dependent", "?": "Qeury"}
    for k in "$#?":
        one("written/variable/%s" % k, ("st", "-->", V(k, "x"), b, "<"), "sentence.term.subject.prefix", vp, want[k] if want[k] in vp.values() else "Query")
