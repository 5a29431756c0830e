"""Sentence kinds.  For every punctuation mark, term shape and decoration the analysed task carries a sentence of the kind
the mark denotes, about exactly the term that was written."""
from ..harness import *
from ..consts import levels, wholes


def run(ctx):
    rd = Reader(ctx.p)
    en = ctx.p.enum("SENTENCE::PUNCTUATION::Punctuation")
    terms = {"statement": AB, "statement()": ("st", "-->", A("A"), A("B"), "("), "atom": A("A"), "quoted": ("q", "\"A B\""),
             "operation": ("opst", "old", "o", [A("A")]), "operation()": ("opst", "new", "o", [A("A"), A("B")]),
             "compound": ("pre", "&&", [A("A"), A("B")]), "infix": ("inf", "&/", [A("A"), A("B")]),
             "set": ("set", "[", [A("A")]), "negation": ("neg", A("A"), "pre"), "interval": ("iv", "N"), "op": ("op", "o"),
             "nested": ("st", "==>", AB, ("st", "-->", A("C"), V("?", "x"), "<"), "<")}
    names = {v: k for k, v in en.items()}
    for p, kind in PUNCT.items():
        truths = ("", "fc") if kind in ("Judgement", "Goal") else ("",)
        for tn, t in terms.items():
            for tense in ("none", "future") if ctx.tier == "quick" else TENSES:
                for truth in truths:
                    for b in ("", "pd"):
                        r = feed(ctx, sentence(t, p, tense, truth, b))
                        base = "%s/%s/%s/%s/%s" % (kind, tn, tense, truth or "-", b or "-")
                        w = ACT[kind]
                        if fails(ctx, base, r, w):
                            continue
                        v = r.get("sentence.punct")
                        if not isinstance(v, int):
                            ctx.ob(base, None if v is not UNINIT else False, "sentence kind is %s" % v, w, r.name)
                        else:
                            ctx.ob(base, names.get(v) == kind, "'%s' makes a %s" % (p, names.get(v, v)), w, r.name)
                        try:
                            got = r.term(rd)
                        except Unknown as x:
                            ctx.ob(base + "/term", None, "term not determined: %s" % x, w, r.name)
                            continue
                        ctx.ob(base + "/term", match(den(t), got, {}) is not None,
                               "term is %s, written %s" % (show(got), show(den(t))), w, r.name)
                        tv = r.val("sentence.truth")
                        carried(ctx, base, tv, kind, w, r.name)
    numbers(ctx, names)


def carried(ctx, base, v, kind, w, name):
    if kind in ("Judgement", "Goal"):
        ctx.ob(base + "/truth", True if isinstance(v, Ptr) else False if v is NULL else None, "a %s carries a truth value" % kind.lower(), w, name)
    else:
        ctx.ob(base + "/truth", True if v is NULL else False if isinstance(v, Ptr) else None, "a %s carries no truth value" % kind.lower(), w, name)


def numbers(ctx, names):
    """the numbers written do not decide what kind of sentence it is"""
    fs, cs, ks = levels(ctx, "frequency"), levels(ctx, "confidence"), wholes(ctx, "k_evidence", most=14)
    ps, ds, qs, ts = levels(ctx, "priority"), levels(ctx, "durability"), levels(ctx, "quality"), wholes(ctx, "integer", most=16)
    ends = lambda xs: [xs[0], xs[2], xs[-1]]
    for p, kind in PUNCT.items():
        w = ACT[kind]
        todo = []
        if kind in ("Judgement", "Goal"):
            todo += [(None, (f,), ()) for f in fs] + [(None, (f, c), ()) for f in ends(fs) for c in cs]
            todo += [("present", ("0.5", "0.5", k), ()) for k in ks]
        todo += [(None, (), (x,)) for x in ps] + [("past", (), ("0.5", d)) for d in ds] + [(None, (), (x, "0.5", q)) for x in ends(ps) for q in qs]
        todo += [([":!", N("integer", lit=t), ":"], (), ()) for t in ts]
        for tense, truth, bud in todo:
            r = concrete(ctx, AB, p, tense, truth, bud)
            base = "%s/%s" % (kind, r.name)
            if fails(ctx, base, r, w):
                continue
            v = r.get("sentence.punct")
            ctx.ob(base, None if not isinstance(v, int) and v is not UNINIT else names.get(v) == kind, "'%s' makes a %s" % (p, names.get(v, v)), w, r.name)
            carried(ctx, base, r.val("sentence.truth"), kind, w, r.name)
