"""Truth values of input sentences.  For every way of writing (or omitting) the components of a truth value, and every
sentence kind that carries one, the abstract value of each stored component is compared with the written number or the
configured default, as normal forms over the input numbers and the configuration variables."""
from ..harness import *
from ..consts import levels, wholes
from ..poly import var, num as pnum

ASSUMES = ["configured defaults lie in [0,1]; written numbers lie in the range their token class admits"]


def run(ctx):
    cfgc = {"Judgement": ["CONFIG::c", "CONFIG::c_judgement"], "Goal": ["CONFIG::c", "CONFIG::c_goal"]}
    terms = {"statement": AB, "compound": ("pre", "&&", [A("A"), A("B")]), "var": ("st", "==>", V("$", "x"), A("B"), "<")}
    if ctx.tier == "thorough":
        terms.update({"set": ("set", "{", [A("A"), A("B")]), "op": ("opst", "old", "o", [A("A")]), "neg": ("neg", AB, "pre")})
    for p, kind in PUNCT.items():
        for truth in ("", "f", "fc", "fck") if kind in cfgc else ("",):
            for tense in ("none", "present") if ctx.tier == "quick" else TENSES:
                for bud in ("", "p") if ctx.tier == "quick" else ("", "p", "pd", "pdq"):
                    for tn, t in terms.items():
                        seq = sentence(t, p, tense, truth, bud)
                        r = feed(ctx, seq)
                        base = "%s/%s/%s/%s/%s" % (kind, truth or "absent", tense, bud or "-", tn)
                        w = ACT[kind]
                        if fails(ctx, base, r, w):
                            continue
                        if kind not in cfgc:
                            v = r.val("sentence.truth")
                            ctx.ob(base + "/none", True if v is NULL else False if isinstance(v, Ptr) else None,
                                   "a %s carries no truth value" % kind.lower(), w, r.name)
                            continue
                        if r.ptr("sentence.truth") is None:
                            v = r.val("sentence.truth")
                            ctx.ob(base, False if v is NULL else None, "%s without a truth value" % kind, w, r.name)
                            continue
                        want = {"f": [var("F")] if "f" in truth else [var("CONFIG::f")],
                                "c": [var("C")] if "c" in truth else [var(x) for x in cfgc[kind]],
                                "k": [var("K")] if "k" in truth else [var("CONFIG::k")]}
                        for x, ws in want.items():
                            expect_num(ctx, base + "/" + x, r, "sentence.truth." + x, ws,
                                       {"f": "frequency", "c": "confidence", "k": "evidential horizon"}[x], w)
    numbers(ctx)


def numbers(ctx):
    """particular numbers: the ends of the ranges, and on and around every constant the program mentions"""
    fs, cs, ks = levels(ctx, "frequency"), levels(ctx, "confidence"), wholes(ctx, "k_evidence", most=16)
    some = ["0.25", "0.5", "1.0", "0"]
    for p, kind in PUNCT.items():
        if kind not in ("Judgement", "Goal"):
            continue
        w = ACT[kind]
        todo = [(None, (f,), ()) for f in fs] + [(None, (f, c), ()) for f in fs for c in (cs[0], cs[-1])] + [(None, (f, c), ()) for f in some for c in cs]
        todo += [(None, ("0.25", c, k), ()) for k in ks for c in ("0.5", "0.75")] + [("past", (f, "0.5", "2"), ()) for f in fs] + [("present", ("1.0", c, "1"), ()) for c in cs]
        todo += [(None, ("0.25", "0.5", "2")[:n], (b,)) for n in range(4) for b in levels(ctx, "priority")]
        for tense, truth, bud in todo:
            r = concrete(ctx, AB, p, tense, truth, bud)
            base = "%s/%s" % (kind, r.name)
            if fails(ctx, base, r, w):
                continue
            if r.ptr("sentence.truth") is None:
                v = r.val("sentence.truth")
                ctx.ob(base, False if v is NULL else None, "%s without a truth value" % kind, w, r.name)
                continue
            want = [float(x) for x in truth] + [CONF[x] for x in "fck"[len(truth):]]
            for x, v, nm in zip("fck", want, ("frequency", "confidence", "evidential horizon")):
                expect_val(ctx, base + "/" + x, r, "sentence.truth." + x, v, nm, w)
