"""Runs sentence scenarios and classifies the outcome for the rules."""
import traceback
from .scen import Scen
from .lang import *
from .grammar import NoParse
from .prog import AnalysisBroken
from .env import get, pointee_cell
from .values import *
from . import poly


class Run:
    def __init__(self, ctx, scen, seq, name):
        self.ctx, self.sc, self.ai, self.seq, self.name = ctx, scen, scen.ai, seq, name
        self.task = None
        self.why = None         # reason it could not be decided
        self.fail = None        # definite failure of an accepted sentence

    @property
    def known(self):
        return self.why is None and self.fail is None

    def get(self, path):
        return get(self.ai, self.task, path)

    def ptr(self, path):
        return pointee_cell(self.ai, self.get(path))

    def val(self, path):
        """pointer value held by the handle at path"""
        from . import lib
        v = self.get(path)
        return lib.unwrap_ptr(self.ai, v) if isinstance(v, Struct) else v

    def term(self, rd):
        return rd.read(self.sc.term(self.ptr("sentence.term")))


def feed(ctx, seq, sc=None, **kw):
    """one evaluation of the entry point on a sentence shape"""
    name = text(seq)
    ctx.count("scenarios")
    r = Run.__new__(Run)
    try:
        if sc is None:
            sc = Scen(ctx.p, ctx.tables, **kw)
        r = Run(ctx, sc, seq, name)
        ai = sc.ai
        i0, t0, m0, u0 = len(ai.issues), len(ai.thrown), len(ai.imprecise), len(ai.unknown_calls)
        o = sc.feed(seq)
    except NoParse as x:
        r = Run(ctx, sc, seq, name)
        r.fail = "the parser tables reject the sentence (%s)" % x
        r.noparse = True
        return r
    except AnalysisBroken:
        raise
    except Exception as x:      # the engine met something it does not model: no verdict for this scenario
        import os
        if os.environ.get("CNV_DEBUG"):
            traceback.print_exc()
        r = Run(ctx, sc, seq, name)
        r.why = "analysis gave up: %s: %s" % (type(x).__name__, str(x)[:160])
        return r
    ctx.used(ai)
    r.issues = ai.issues[i0:]
    r.thrown = ai.thrown[t0:]
    r.imprecise = list(ai.imprecise[m0:]) + list(ai.unknown_calls)
    if o.big:
        r.why = "state too big"
    elif o.dead:
        if r.imprecise:
            r.why = "no normal completion, but imprecise: %s" % r.imprecise[:3]
        else:
            r.fail = "processing the sentence cannot complete normally: %s" % (
                "; ".join(str(i) for i in r.issues[:2]) or "an exception is thrown" if r.thrown or r.issues else "no return")
    elif o.isnull:
        r.fail = "processing the sentence yields no task"
    elif o.task is None:
        r.why = "result not a single known task (%s)" % (r.imprecise[:2],)
    r.task = o.task
    return r


def quantity(v):
    """abstract number -> normal form (Q) or None"""
    try:
        return poly.norm(v)
    except poly.NotPoly:
        return None


def expect_num(ctx, key, r, path, wants, what, where):
    """the number at path is one of the expected normal forms"""
    v = r.get(path)
    ws = wants if isinstance(wants, (list, tuple)) else [wants]
    if v is None or isinstance(v, (Top, Phi, Alt)) :
        if isinstance(v, Phi) and not any(isinstance(a, Top) for a in alts(v)):
            qs = [quantity(a) for a in alts(v)]
            if all(q is not None for q in qs):
                badq = [q for q in qs if q not in ws]
                if not badq:
                    return ctx.ob(key, True, what, where, r.name)
        return ctx.ob(key, None, "%s: value not determined (%s)" % (what, v), where, r.name)
    if v is UNINIT:
        return ctx.ob(key, False, "%s is never set" % what, where, r.name)
    q = quantity(v)
    if q is None:
        return ctx.ob(key, None, "%s: %s" % (what, str(v)[:100]), where, r.name)
    if any(q == w for w in ws):
        return ctx.ob(key, True, "%s = %s" % (what, q), where, r.name)
    return ctx.ob(key, False, "%s is %s, expected %s" % (what, q, " or ".join(map(repr, ws))), where, r.name)


def expect_val(ctx, key, r, path, want, what, where):
    """the number at path is the given one (floating fields hold it to their precision)"""
    v = r.get(path)
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return ctx.ob(key, False if v is UNINIT else None, "%s: value not determined (%s)" % (what, str(v)[:80]), where, r.name)
    return ctx.ob(key, abs(v - want) <= 2e-6 * max(1.0, abs(want)), "%s is %.9g, expected %.9g" % (what, v, want), where, r.name)


# configured values told apart from each other and from everything the scenarios write
CONF = {"f": 0.713, "c": 0.352, "c_judgement": 0.352, "c_goal": 0.352, "k": 3.0, "priority": 0.617, "durability": 0.618, "quality": 0.619,
        "p_judgement": 0.621, "d_judgement": 0.622, "p_question": 0.623, "d_question": 0.624, "p_quest": 0.626, "d_quest": 0.627,
        "p_goal": 0.628, "d_goal": 0.629, "temporal_duration": 5}


def concrete(ctx, term, punct, tense=None, truth=(), budget=(), conf=None):
    """a sentence whose numbers are written out (conversions round) under given configured values"""
    w = lambda q, k, xs: [q] + sum([[";"] * (i > 0) + [N(NUMS[x][0], NUMS[x][1], lit=v)] for i, (x, v) in enumerate(zip(k, xs))], []) + [q] if xs else []
    ten = [] if tense is None else tense if isinstance(tense, list) else TENSES[tense]
    seq = w("$", "pdq", budget) + toks(term) + [punct] + ten + w("%", "fck", truth)
    glob = {"CONFIG::" + k: v for k, v in dict(CONF, **(conf or {})).items()}
    sc = Scen(ctx.p, ctx.tables, glob=glob)
    sc.ai.round_float = True
    return feed(ctx, seq, sc=sc)


def fails(ctx, key, r, where):
    """records the obligation if the scenario has no result; True when the caller has nothing to look at"""
    if r.fail:
        ctx.ob(key, False, r.fail, where, r.name)
        return True
    if r.why:
        ctx.ob(key, None, r.why, where, r.name)
        return True
    return False


NUMS = {"f": ("frequency", "F"), "c": ("confidence", "C"), "k": ("k_evidence", "K"),
        "p": ("priority", "P"), "d": ("durability", "D"), "q": ("quality", "Q")}


def num(x):
    return N(NUMS[x][0], NUMS[x][1])


def truth_toks(s):
    """'' 'f' 'fc' 'fck'"""
    return ["%"] + sum([[";"] * (i > 0) + [num(x)] for i, x in enumerate(s)], []) + ["%"] if s else []


def budget_toks(s):
    return ["$"] + sum([[";"] * (i > 0) + [num(x)] for i, x in enumerate(s)], []) + ["$"] if s else []


TENSES = {"none": [], "future": [":/:"], "present": [":|:"], "past": [":\\:"], "time": [":!", N("integer", "T"), ":"]}


def sentence(term, punct=".", tense="none", truth="", budget=""):
    return budget_toks(budget) + toks(term) + [punct] + TENSES[tense] + truth_toks(truth)


AB = ("st", "-->", A("A"), A("B"), "<")
ACT = {"Judgement": "NARSESEPARSER::judgement", "Question": "NARSESEPARSER::question", "Goal": "NARSESEPARSER::goal",
       "Quest": "NARSESEPARSER::quest"}
