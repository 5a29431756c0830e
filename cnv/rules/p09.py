"""Occurrence times.  For every tense marker and sentence kind the analysed stamp is eternal exactly when no marker was
written; otherwise it carries the occurrence time the marker denotes, and the creation time is the current time."""
from ..harness import *
from ..consts import wholes
from ..poly import var, num as pnum, fnq
from ..env import new_obj, call, run as erun, mk


def run(ctx):
    dur = var("CONFIG::temporal_duration")
    now = var("now")    # the clock stands at zero in this program: marks relative to it mean the same
    want = {"future": [dur, dur + now], "past": [pnum(0) - dur, now - dur], "present": [pnum(0), now], "time": [var("T")]}
    acts = {"future": "NARSESEPARSER::tense_future", "past": "NARSESEPARSER::tense_past",
            "present": "NARSESEPARSER::tense_present", "time": "NARSESEPARSER::tense_time"}
    terms = {"statement": AB, "set": ("set", "{", [A("A"), A("B")])}
    for p, kind in PUNCT.items():
        truths = ("", "f", "fc", "fck") if kind in ("Judgement", "Goal") else ("",)
        for tense in TENSES:
            for truth in truths:
                for b in ("", "p") if ctx.tier == "quick" else ("", "p", "pd", "pdq"):
                    for tn, t in terms.items():
                        r = feed(ctx, sentence(t, p, tense, truth, b), glob={"GLOBAL::time": Sym("now", 0, None)})
                        base = "%s/%s/%s/%s/%s" % (kind, tense, truth or "-", b or "-", tn)
                        w = ctx.site(ACT[kind])
                        if fails(ctx, base, r, w):
                            continue
                        if r.ptr("sentence.stamp") is None:
                            ctx.ob(base, False if r.val("sentence.stamp") is NULL else None, "sentence without a stamp", w, r.name)
                            continue
                        e = r.get("sentence.stamp.is_eternal")
                        ctx.ob(base + "/eternal", (e is (tense == "none")) if e in (True, False) else False if e is UNINIT else None,
                               "eternal=%s" % (e,), w, r.name)
                        if tense != "none":
                            v = r.get("sentence.stamp.t_occurrence")
                            if isinstance(v, App) and v.op == "int":
                                r.ai.heap  # integer token read as a number and truncated: integers are unchanged
                                v = v.args[0]
                            q = quantity(v) if not isinstance(v, (Top, Phi)) and v is not None and v is not UNINIT else None
                            ctx.ob(base + "/occurrence", None if q is None and v is not UNINIT else q in want[tense],
                                   "occurrence time is %s, expected %s" % (q if q is not None else v, want[tense][0]),
                                   ctx.site(acts[tense]), r.name)
                        expect_num(ctx, base + "/creation", r, "sentence.stamp.t_creation", [var("now"), fnq("int", var("now"))], "creation time", w)
    numbers(ctx)
    classify(ctx)


def numbers(ctx):
    """particular times, present times and durations"""
    ts = wholes(ctx, "integer")
    for p, kind in PUNCT.items():
        w = ctx.site(ACT[kind])
        todo = [([":!", N("integer", lit=t), ":"], int(t), 0, 5) for t in ts]
        todo += [([":!", N("integer", lit=t), ":"], int(t), 7, d) for t in ("3", "0", "-4") for d in (0, 1, 50)]
        for d in [0, 1, 2, 5, 7, 100, 1000] + [int(x) for x in wholes(ctx, "k_evidence", ()) if int(x) < 100000]:
            todo += [(x, s * d, 0, d) for x, s in (("future", 1), ("past", -1), ("present", 0))]
        for tense, want, now, d in todo:
            r = concrete(ctx, AB, p, tense, ("0.5", "0.5") if kind in ("Judgement", "Goal") else (), (), {"temporal_duration": d})
            base = "%s/%s/duration=%d" % (kind, r.name, d)
            if fails(ctx, base, r, w):
                continue
            if r.ptr("sentence.stamp") is None:
                ctx.ob(base, False if r.val("sentence.stamp") is NULL else None, "sentence without a stamp", w, r.name)
                continue
            e = r.get("sentence.stamp.is_eternal")
            ctx.ob(base + "/eternal", (e is False) if e in (True, False) else False if e is UNINIT else None, "eternal=%s" % (e,), w, r.name)
            v = r.get("sentence.stamp.t_occurrence")
            ctx.ob(base + "/occurrence", False if v is UNINIT else v == want if isinstance(v, int) and not isinstance(v, bool) else None,
                   "occurrence time is %s, expected %s" % (v, want), w, r.name)


def classify(ctx):
    """reading a tense back: the partition of the time axis around the present"""
    tn = ctx.p.enum("TENSE::Tense")
    names = {v: k for k, v in tn.items()}
    w = "SENTENCE::Stamp::tense"
    st = [f for f in ctx.p.fns("SENTENCE::Stamp::Stamp") if len(f["params"]) == 5]
    if not st or not ctx.p.fns(w):
        ctx.note("Stamp::tense or its 5-argument constructor not found: reading back tenses not analysed")
        return
    for now, d in ((0, 5), (1000, 5), (7, 1)):
        for nm, lo, hi, et in (("Future", now + d, None, False), ("Past", None, now - d, False),
                               ("Present", now - d + 1, now + d - 1, False), ("Eternal", None, None, True)):
            ai = mk(ctx.p)
            ai.gover["GLOBAL::time"] = now
            ai.gover["CONFIG::temporal_duration"] = d
            key = "tense/now=%d/duration=%d/%s" % (now, d, nm)
            try:
                c = new_obj(ai, "SENTENCE::Stamp", [Sym("t", lo, hi), 0, -1, NULL, et], pick=lambda f: f is st[0])
                o = erun(ai, lambda: call(ai, w, c, []))
                v = ai.rv(o.value) if o.value is not None else None
            except Exception as x:
                ctx.ob(key, None, "analysis gave up: %s" % x, w)
                continue
            ctx.used(ai)
            got = {names.get(a, a) for a in alts(v)} if v is not None and not has_top(v) else None
            ctx.ob(key, None if got is None else got == {nm} if all(isinstance(g, str) for g in got) else None,
                   "occurrence in [%s,%s], now %d, duration %d is %s" % (lo, hi, now, d, got), w)
