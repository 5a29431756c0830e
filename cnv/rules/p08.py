"""Budgets of input tasks.  For every way of writing (or omitting) budget components, every sentence kind and truth
spelling, the abstract value of priority, durability and quality is compared, as a normal form over the input numbers
and configuration variables, with the written number or the documented default."""
from ..harness import *
from ..consts import levels, wholes
from ..poly import var, num as pnum, maxq

ASSUMES = ["configured defaults lie in [0,1]; written numbers lie in the range their token class admits"]
CFG = {"Judgement": "judgement", "Question": "question", "Goal": "goal", "Quest": "quest"}


def quality_of(f, c):
    e = c * (f - pnum(0.5)) + pnum(0.5)
    return maxq(e, (pnum(1) - e) * pnum(0.75))


def run(ctx):
    w = "NARSESEPARSER::task"
    terms = {"statement": AB, "var": ("st", "==>", V("$", "x"), A("B"), "<")}
    if ctx.tier == "thorough":
        terms.update({"atom": A("A"), "set": ("set", "{", [A("A"), A("B")]), "op": ("opst", "old", "o", [A("A")])})
    for p, kind in PUNCT.items():
        for truth in ("", "f", "fc", "fck") if kind in ("Judgement", "Goal") else ("",):
            for tense in ("none", "past") if ctx.tier == "quick" else TENSES:
                for b in ("", "p", "pd", "pdq"):
                    for tn, t in terms.items():
                        r = feed(ctx, sentence(t, p, tense, truth, b))
                        base = "%s/%s/truth=%s/%s/%s" % (kind, b or "absent", truth or "-", tense, tn)
                        if fails(ctx, base, r, w):
                            continue
                        if r.ptr("budget") is None:
                            v = r.val("budget")
                            ctx.ob(base, False if v is NULL else None, "task without a budget", w, r.name)
                            continue
                        k = CFG[kind]
                        if not b:
                            want = {"priority": [var("CONFIG::priority")], "durability": [var("CONFIG::durability")],
                                    "quality": [var("CONFIG::quality")]}
                        else:
                            want = {"priority": [var("P")],
                                    "durability": [var("D")] if "d" in b else [var("CONFIG::d_" + k)]}
                            if "q" in b:
                                want["quality"] = [var("Q")]
                            elif kind in ("Question", "Quest"):
                                want["quality"] = [pnum(1)]
                            else:
                                f, c = quantity(r.get("sentence.truth.f")), quantity(r.get("sentence.truth.c"))
                                if f is None or c is None:
                                    ctx.ob(base + "/quality", None, "truth value of the sentence not determined", w, r.name)
                                    continue
                                want["quality"] = [quality_of(f, c)]
                        for x, ws in want.items():
                            expect_num(ctx, base + "/" + x, r, "budget." + x, ws, x, w)
    numbers(ctx, w)


def numbers(ctx, w):
    """particular numbers: the ends of the ranges, and on and around every constant the program mentions"""
    ps, ds, qs = levels(ctx, "priority"), levels(ctx, "durability"), levels(ctx, "quality")
    fs, cs = levels(ctx, "frequency"), levels(ctx, "confidence")
    for p, kind in PUNCT.items():
        k = CFG[kind]
        todo = [(None, (), (x,)) for x in ps] + [(None, (), (x, d)) for x in (ps[0], ps[2], "0.25") for d in ds] + [(None, (), (x, "0.25", "0.75")) for x in ps]
        todo += [(None, (), ("0.25", "0.5", q)) for q in qs] + [("present", (), (x, ds[-1], q)) for x, q in zip(ps, reversed(qs))]
        if kind in ("Judgement", "Goal"):
            todo += [(None, (f,), b) for f in fs for b in (("0.5",), ("0.5", "0.25"), ())] + [(None, (f, c), b) for f in ("0", "0.25", "1.0") for c in cs for b in (("0.5",), ("0.5", "0.25"))]
            todo += [(None, (f, "0.9", "1"), ("0.5",)) for f in fs] + [(None, (f, "0.5"), ("0.5", "0.25", q)) for f, q in zip(fs, qs)]
        for tense, truth, bud in todo:
            r = concrete(ctx, AB, p, tense, truth, bud)
            base = "%s/%s" % (kind, r.name)
            if fails(ctx, base, r, w):
                continue
            if r.ptr("budget") is None:
                v = r.val("budget")
                ctx.ob(base, False if v is NULL else None, "task without a budget", w, r.name)
                continue
            n = [float(x) for x in bud]
            if not bud:
                want = [CONF["priority"], CONF["durability"], CONF["quality"]]
            else:
                want = n + [CONF["d_" + k]] * (len(n) < 2)
                if len(n) < 3:
                    f, c = ([float(x) for x in truth] + [CONF["f"], CONF["c"]][len(truth):])[:2]
                    e = c * (f - 0.5) + 0.5
                    want.append(1.0 if kind in ("Question", "Quest") else max(e, (1 - e) * 0.75))
            for x, v in zip(("priority", "durability", "quality"), want):
                expect_val(ctx, base + "/" + x, r, "budget." + x, v, x, w)
