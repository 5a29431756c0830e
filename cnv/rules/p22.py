"""Truth functions.  Each arithmetic function is evaluated abstractly on unknown arguments; the value-numbered result is brought
to the normal form of a rational function and compared with the defining formula of the logic.  Branches that the intervals of the
arguments do not decide are joined, so every branch that can be taken on arguments with evidence has to give the formula.
At the border (no evidence) only the values the definition leaves open are accepted."""
from ..env import *
from ..env import run as erun
from ..values import *
from ..poly import norm, var, num, absq, maxq, NotPoly
from ..prog import AnalysisBroken

TF, UM, BF, TP = "TRUTH_FUNCTIONS::", "UNCERTAINTY_MAPPING_FUNCTIONS::", "BOOLEAN_FUNCTIONS::", "TEMPORAL_FUNCTIONS::"
R = {"f": (0.01, 0.99), "c": (0.01, 0.99), "k": (0.5, 10.0), "w": (1e-3, 1e3)}
FULL = {"f": (0.0, 1.0), "c": (0.0, 0.999), "k": (0.5, 10.0), "w": (0.0, 1e3)}
ONE = num(1)


class Undet(Exception):
    pass


def S(n, ranges=R):
    lo, hi = ranges.get(n[0], (0.01, 0.99))
    return Sym(n, lo, hi)


def unclamp(v):
    """a value cut to [0, 1] is the value for a quantity that lies there"""
    while isinstance(v, App) and v.op in ("min", "max") and len(v.args) == 2 and any(isinstance(a, (int, float)) and a in (0, 1) for a in v.args):
        v = next(a for a in v.args if not (isinstance(a, (int, float)) and a in (0, 1)))
    return v


class T22:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p

    def fns(self, name, n=None, pred=None):
        fs = [f for f in self.p.by_name.get(name, []) if f.get("body") and (n is None or len(f["params"]) == n) and (pred is None or pred(f))]
        return fs

    def truth(self, ai, i, ranges=R):
        c = ai.alloc("TRUTH::Truth", "truth%s" % i)
        ai.dyn.add(c)
        for f in "fck":
            ai.heap[ai.field(c, f)] = S("%s%s" % (f, i), ranges)
        return c

    def arg(self, ai, t, cell):
        t = t.replace("const ", "").strip()
        return LV(cell) if t.endswith("&") and "shared_ptr" not in t or t == "TRUTH::Truth" else \
            LV(sptr(ai, "std::shared_ptr<TRUTH::Truth>", cell))

    def run(self, f, ai, this, args):
        o = erun(ai, lambda: ai.call(f, this, args))
        bad = [str(i) for i in ai.issues if i.definite]
        self.ctx.used(ai)
        if bad:
            return o, bad[0]
        if o.big or ai.imprecise or ai.unknown_calls:
            raise Undet("%s %s" % (list(ai.imprecise)[:1], list(ai.unknown_calls)[:1]))
        if o.dead:
            return o, "does not complete"
        return o, None

    def cmp(self, key, got, want, where, what, extra=()):
        """every value that can result is the formula (or one of the values the definition leaves open)"""
        self.ctx.count("formulas")
        vs = [unclamp(x) for x in alts(got)] if isinstance(got, (Phi,)) else [unclamp(got)]
        for v in vs:
            if any(same(v, x) for x in extra):
                continue
            try:
                q = norm(v)
            except NotPoly as x:
                hard = isinstance(v, (Top,)) or "Top" in str(v)
                self.ctx.ob(key, None, "%s: not a rational function: %s" % (what, str(x)[:100]), where)
                return
            except ZeroDivisionError:
                self.ctx.ob(key, False, "%s divides by zero" % what, where)
                return
            if not q == want:
                self.ctx.ob(key, False, "%s is %s, defined as %s" % (what, str(q)[:160], str(want)[:160]), where)
                return
        self.ctx.ob(key, True, "%s is %s" % (what, str(want)[:120]), where)

    def site(self, f):
        return (f.get("file", "?"), f.get("l", 0), f["fn"]["n"])

    def missing(self, name):
        self.ctx.note("no function %s" % name)

    def values(self, ai, v):
        """fields f, c, k of a truth value returned by value or handle"""
        lv, v = v, ai.rv(v)
        c = pointee_cell(ai, v) if not (isinstance(v, Struct) and v.cls == "TRUTH::Truth") else None
        if c is None and isinstance(v, Struct):
            return {f: ai.heap.get(v.get(f)) for f in "fck"}, None
        if c is None:
            raise Undet("result %s" % (str(v)[:60],))
        return {f: get(ai, c, f) for f in "fck"}, c


def guard(ctx, key, where):
    def deco(g):
        try:
            g()
        except Undet as x:
            ctx.ob(key, None, str(x), where)
        return g
    return deco


def run(ctx):
    t = T22(ctx)
    boolean(t)
    mapping(t)
    members(t)
    inference(t)
    projection(t)
    inverse(t)
    ctx.note("normal forms over the rationals; rounding of floating-point arithmetic is outside")


def prod(qs):
    r = ONE
    for q in qs:
        r = r * q
    return r


def boolean(t):
    for name, form in (("And", lambda xs: prod(xs)), ("Or", lambda xs: ONE - prod([ONE - x for x in xs]))):
        fs = t.fns(BF + name)
        if not fs:
            t.missing(BF + name)
        for f in fs:
            lst = len(f["params"]) == 1 and "initializer_list" in f["params"][0]["t"]
            for n in ((1, 2, 3, 4, 5) if lst else (len(f["params"]),)):
                key = "%s/%s%d" % (name, "list " if lst else "", n)
                where = t.site(f)
                ai = mk(t.p)
                xs = [S("x%d" % i) for i in range(n)]

                @guard(t.ctx, key, where)
                def _():
                    args = xs if not lst else [LV(vec(ai, xs, "std::initializer_list<double>"))]
                    o, bad = t.run(f, ai, None, args)
                    if bad:
                        t.ctx.ob(key, False, bad, where)
                    else:
                        t.cmp(key, ai.rv(o.value), form([var("x%d" % i) for i in range(n)]), where, "%s of %d" % (name, n))


F, C, K, W, WP = var("f"), var("c"), var("k"), var("w"), var("wp")
WPLUS, WALL, WMINUS = K * F * C / (ONE - C), K * C / (ONE - C), K * (ONE - F) * C / (ONE - C)


def mapping(t):
    for n, form, args in (("fc_to_w_plus", WPLUS, "fck"), ("fc_to_w", WALL, "fck"), ("fc_to_w_minus", WMINUS, "fck"), ("w_to_c", W / (W + K), "wk")):
        for f in t.fns(UM + n, len(args)) or ([] if t.missing(UM + n) else []):
            @guard(t.ctx, n, t.site(f))
            def _():
                ai = mk(t.p)
                o, bad = t.run(f, ai, None, [S(x) for x in args])
                t.ctx.ob(n, False, bad, t.site(f)) if bad else t.cmp(n, ai.rv(o.value), form, t.site(f), n)
                ai = mk(t.p)
                o, bad = t.run(f, ai, None, [S(x, FULL) for x in args])
                t.ctx.ob(n + "/border", False, bad, t.site(f)) if bad else t.cmp(n + "/border", ai.rv(o.value), form, t.site(f), n)
    for f in t.fns(UM + "w_to_f", 2):
        @guard(t.ctx, "w_to_f", t.site(f))
        def _():
            for nm, rg, extra in (("", R, ()), ("/border", FULL, (0.0, 0.5, 0, 1.0))):
                ai = mk(t.p)
                o, bad = t.run(f, ai, None, [S("wp", {"w": rg["w"]}), S("w", rg)])
                key = "w_to_f" + nm
                t.ctx.ob(key, False, bad, t.site(f)) if bad else t.cmp(key, ai.rv(o.value), WP / W, t.site(f), "w_to_f", extra)
    for f in t.fns(UM + "truth_from_w", 3):
        @guard(t.ctx, "truth_from_w", t.site(f))
        def _():
            ai = mk(t.p)
            o, bad = t.run(f, ai, None, [S("wp", {"w": R["w"]}), S("w"), S("k")])
            if bad:
                t.ctx.ob("truth_from_w", False, bad, t.site(f))
                return
            v, _c = t.values(ai, o.value)
            for x, form in (("f", WP / W), ("c", W / (W + K)), ("k", K)):
                t.cmp("truth_from_w/" + x, v[x], form, t.site(f), x)
            ai = mk(t.p)
            o, bad = t.run(f, ai, None, [0.0, 0.0, S("k")])
            if bad:
                t.ctx.ob("truth_from_w/no evidence", False, bad, t.site(f))
                return
            v, _c = t.values(ai, o.value)
            t.cmp("truth_from_w/no evidence/c", v["c"], num(0), t.site(f), "confidence without evidence")
            t.ctx.ob("truth_from_w/no evidence/f", isinstance(v["f"], (int, float)) and 0 <= v["f"] <= 1 if not isinstance(v["f"], (Phi, Top, App)) else None,
                     "frequency without evidence %s" % (v["f"],), t.site(f))
    for f in t.fns(UM + "w_from_truth"):
        n = len(f["params"])
        key = "w_from_truth/%d" % n

        @guard(t.ctx, key, t.site(f))
        def _():
            ai = mk(t.p)
            c = ai.alloc("TRUTH::Truth", "truth")
            for x in "fck":
                ai.heap[ai.field(c, x)] = S(x)
            outs = [ai.new_cell("float", Sym("old%d" % i), "out") for i in range(n - 1)]
            o, bad = t.run(f, ai, None, [t.arg(ai, f["params"][0]["t"], c)] + [LV(x) for x in outs])
            if bad:
                t.ctx.ob(key, False, bad, t.site(f))
                return
            if n == 3:
                got = [ai.heap[x] for x in outs]
            else:
                got = parts(ai, o.value)
            if got is None:
                raise Undet("result %s" % (str(ai.rv(o.value))[:80],))
            t.cmp(key + "/w+", got[0], WPLUS, t.site(f), "positive evidence")
            t.cmp(key + "/w-", got[1], WMINUS, t.site(f), "negative evidence")
            for x, form in (("f", F), ("c", C), ("k", K)):
                t.cmp(key + "/argument " + x, ai.heap[ai.field(c, x)], form, t.site(f), "the argument's %s afterwards" % x)


def parts(ai, v):
    v = ai.rv(v)
    if isinstance(v, Struct):
        out = [ai.heap.get(c) for n, c in v.fields]
        if len(out) == 1 and isinstance(out[0], Cont):
            out = [ai.heap.get(c) for c in out[0].cells]
        return out if len(out) >= 2 else None
    if isinstance(v, Cont):
        return [ai.heap.get(c) for c in v.cells]
    if isinstance(v, (Tuple, Tie)) if isinstance(Tuple, type) else False:
        return None
    return None


def members(t):
    E = C * (F - num(0.5)) + num(0.5)
    for n, form in (("e", E), ("w", WALL), ("w_p", WPLUS), ("w_m", WMINUS)):
        for f in t.fns("TRUTH::Truth::" + n, 0):
            @guard(t.ctx, "Truth." + n, t.site(f))
            def _():
                for nm, rg in (("", R), ("/border", FULL)):
                    ai = mk(t.p)
                    c = ai.alloc("TRUTH::Truth", "truth")
                    for x in "fck":
                        ai.heap[ai.field(c, x)] = S(x, rg)
                    o, bad = t.run(f, ai, c, [])
                    key = "Truth." + n + nm
                    t.ctx.ob(key, False, bad, t.site(f)) if bad else t.cmp(key, ai.rv(o.value), form, t.site(f), n)
                    for x, q in (("f", F), ("c", C), ("k", K)):
                        t.cmp(key + "/argument " + x, ai.heap[ai.field(c, x)], q, t.site(f), "%s afterwards" % x)
    for f in t.fns("TRUTH::Truth::set_w", 2):
        @guard(t.ctx, "Truth.set_w", t.site(f))
        def _():
            for nm, rg, extra in (("", R, ()), ("/border", FULL, (0.5, 0.0, 1.0))):
                ai = mk(t.p)
                c = ai.alloc("TRUTH::Truth", "truth")
                for x in "fck":
                    ai.heap[ai.field(c, x)] = S(x)
                o, bad = t.run(f, ai, c, [S("wp", {"w": rg["w"]}), S("w", rg)])
                if bad:
                    t.ctx.ob("Truth.set_w" + nm, False, bad, t.site(f))
                    continue
                t.cmp("Truth.set_w/f" + nm, ai.heap[ai.field(c, "f")], WP / W, t.site(f), "frequency", extra)
                t.cmp("Truth.set_w/c" + nm, ai.heap[ai.field(c, "c")], W / (W + K), t.site(f), "confidence")
                t.cmp("Truth.set_w/k" + nm, ai.heap[ai.field(c, "k")], K, t.site(f), "horizon")
    # construction keeps what is passed
    for f in t.fns("TRUTH::Truth::create", 3):
        @guard(t.ctx, "Truth.create", t.site(f))
        def _():
            ai = mk(t.p)
            o, bad = t.run(f, ai, None, [S("f"), S("c"), S("k")])
            if bad:
                t.ctx.ob("Truth.create", False, bad, t.site(f))
                return
            v, _c = t.values(ai, o.value)
            for x, form in (("f", F), ("c", C), ("k", K)):
                t.cmp("Truth.create/" + x, v[x], form, t.site(f), x)
    for f in t.fns("BUDGET::Budget::quality_from_truth", 1):
        @guard(t.ctx, "quality_from_truth", t.site(f))
        def _():
            ai = mk(t.p)
            c = ai.alloc("TRUTH::Truth", "truth")
            for x in "fck":
                ai.heap[ai.field(c, x)] = S(x, FULL)
            o, bad = t.run(f, ai, None, [t.arg(ai, f["params"][0]["t"], c)])
            if bad:
                t.ctx.ob("quality_from_truth", False, bad, t.site(f))
                return
            t.cmp("quality_from_truth", ai.rv(o.value), maxq(E, (ONE - E) * num(0.75)), t.site(f), "quality")


def inference(t):
    f1, f2, c1, c2, k1, k2 = (var(x) for x in ("f1", "f2", "c1", "c2", "k1", "k2"))
    w1, w2 = k1 * c1 / (ONE - c1), k2 * c2 / (ONE - c2)
    p1, p2 = f1 * w1, f2 * w2
    for f in t.fns(TF + "revision", 4):
        @guard(t.ctx, "revision", t.site(f))
        def _():
            ai = mk(t.p)
            o, bad = t.run(f, ai, None, [Sym("a", 0.0, 1.0), Sym("b", 0.0, 1.0), Sym("x", 0.0, 1.0), Sym("y", 0.0, 1.0)])
            if bad:
                t.ctx.ob("revision", False, bad, t.site(f))
                return
            got = parts(ai, o.value)
            if got is None:
                raise Undet("result %s" % (str(ai.rv(o.value))[:80],))
            t.cmp("revision/w+", got[0], var("a") + var("b"), t.site(f), "positive evidence")
            t.cmp("revision/w-", got[1], var("x") + var("y"), t.site(f), "negative evidence")
    kd = lambda k: k
    IND = f2 * c1 * c2
    CMP = (ONE - (ONE - f1) * (ONE - f2)) * c1 * c2
    rules = {"truth_revision": ((p1 + p2) / (w1 + w2), lambda k: (w1 + w2) / (w1 + w2 + k1), True),
             "truth_deduction": (f1 * f2, lambda k: f1 * f2 * c1 * c2, False),
             "truth_induction": (f1 * f2 * c1 * c2 / IND, lambda k: IND / (IND + k), False),
             "truth_comparison": (f1 * f2 * c1 * c2 / CMP, lambda k: CMP / (CMP + k), False)}
    for n, (ff, cf, inplace) in rules.items():
        fs = t.fns(TF + n)
        if not fs:
            t.missing(TF + n)
        for f in fs:
            key = "%s(%s)" % (n, "handles" if "shared_ptr" in f["params"][0]["t"] else "values")

            @guard(t.ctx, key, t.site(f))
            def _():
                for nm, rg, fx in (("", R, ()), ("/border", FULL, (0.0, 0.5, 1.0))):
                    ai = mk(t.p)
                    a, b = t.truth(ai, 1, rg), t.truth(ai, 2, rg)
                    o, bad = t.run(f, ai, None, [t.arg(ai, f["params"][0]["t"], a), t.arg(ai, f["params"][1]["t"], b)])
                    if bad:
                        t.ctx.ob(key + nm, False, bad, t.site(f))
                        continue
                    if inplace:
                        v, c = {x: ai.heap[ai.field(a, x)] for x in "fck"}, None
                    else:
                        v, c = t.values(ai, o.value)
                        t.ctx.ob(key + nm + "/fresh", c not in (a, b), "the conclusion is an object of its own", t.site(f))
                        for x in "fck":
                            t.cmp("%s%s/premise %s1" % (key, nm, x), ai.heap[ai.field(a, x)], var(x + "1"), t.site(f), "%s of the first premise afterwards" % x)
                    for x in "fck":
                        t.cmp("%s%s/premise %s2" % (key, nm, x), ai.heap[ai.field(b, x)], var(x + "2"), t.site(f), "%s of the second premise afterwards" % x)
                    t.cmp(key + nm + "/f", v["f"], ff, t.site(f), "frequency", fx)
                    kq = norm(v["k"])
                    t.ctx.ob(key + nm + "/k", kq == k1 or (not inplace and (kq == ONE or kq == k2)), "horizon of the conclusion %s" % (kq,), t.site(f))
                    t.cmp(key + nm + "/c", v["c"], cf(kq), t.site(f), "confidence")


def projection(t):
    ts, tc, tt, d = var("ts"), var("tc"), var("tt"), var("d")
    f1, c1, k1 = var("f1"), var("c1"), var("k1")
    fs = t.fns(TP + "project", 5)
    if not fs:
        t.missing(TP + "project")
    for f in fs:
        @guard(t.ctx, "project", t.site(f))
        def _():
            ai = mk(t.p)
            a = t.truth(ai, 1)
            o, bad = t.run(f, ai, None, [t.arg(ai, f["params"][0]["t"], a), Sym("ts"), Sym("tc"), Sym("tt"), Sym("d", 1, 1000000)])
            if bad:
                t.ctx.ob("project", False, bad, t.site(f))
                return
            v, c = t.values(ai, o.value)
            t.cmp("project/f", v["f"], f1, t.site(f), "frequency")
            t.cmp("project/c", v["c"], (ONE - absq(ts - tt) / (absq(ts - tc) + absq(tt - tc) + d)) * c1, t.site(f), "confidence")
            t.cmp("project/k", v["k"], k1, t.site(f), "horizon")
            t.ctx.ob("project/fresh", c != a, "the projected truth value is an object of its own", t.site(f))
            for x in "fck":
                t.cmp("project/argument " + x, ai.heap[ai.field(a, x)], var(x + "1"), t.site(f), "%s of the argument afterwards" % x)
            # a projection to the same time changes nothing
            ai = mk(t.p)
            a = t.truth(ai, 1)
            o, bad = t.run(f, ai, None, [t.arg(ai, f["params"][0]["t"], a), 7, Sym("tc"), 7, Sym("d", 1, 1000000)])
            if not bad:
                v, c = t.values(ai, o.value)
                t.cmp("project/same time", v["c"], c1, t.site(f), "confidence at the same time")


def inverse(t):
    """conversions between truth values and evidence are mutually inverse"""
    one = lambda n, k: (t.fns(UM + n, k) or [None])[0]
    wp, wa, back = one("fc_to_w_plus", 3), one("fc_to_w", 3), one("truth_from_w", 3)
    if wp and wa and back:
        @guard(t.ctx, "inverse/truth", t.site(back))
        def _():
            ai = mk(t.p)
            args = [S("f"), S("c"), S("k")]
            x = ai.rv(t.run(wp, ai, None, args)[0].value)
            y = ai.rv(t.run(wa, ai, None, args)[0].value)
            o, bad = t.run(back, ai, None, [x, y, S("k")])
            if bad:
                t.ctx.ob("inverse/truth", False, bad, t.site(back))
                return
            v, _c = t.values(ai, o.value)
            for n, q in (("f", F), ("c", C), ("k", K)):
                t.cmp("inverse/truth/" + n, v[n], q, t.site(back), "%s after conversion to evidence and back" % n)
    setw = (t.fns("TRUTH::Truth::set_w", 2) or [None])[0]
    gp, gw = (t.fns("TRUTH::Truth::w_p", 0) or [None])[0], (t.fns("TRUTH::Truth::w", 0) or [None])[0]
    if setw and gp and gw:
        @guard(t.ctx, "inverse/set_w", t.site(setw))
        def _():
            ai = mk(t.p)
            a = ai.alloc("TRUTH::Truth", "truth")
            for x in "fck":
                ai.heap[ai.field(a, x)] = S(x)
            x = ai.rv(t.run(gp, ai, a, [])[0].value)
            y = ai.rv(t.run(gw, ai, a, [])[0].value)
            o, bad = t.run(setw, ai, a, [x, y])
            if bad:
                t.ctx.ob("inverse/set_w", False, bad, t.site(setw))
                return
            for n, q in (("f", F), ("c", C), ("k", K)):
                t.cmp("inverse/set_w/" + n, ai.heap[ai.field(a, n)], q, t.site(setw), "%s after conversion to evidence and back" % n)
            ai = mk(t.p)
            a = ai.alloc("TRUTH::Truth", "truth")
            for x in "fck":
                ai.heap[ai.field(a, x)] = S(x)
            t.run(setw, ai, a, [S("wp", {"w": R["w"]}), S("w")])
            for f, q in ((gp, WP), (gw, W)):
                o, bad = t.run(f, ai, a, [])
                t.cmp("inverse/evidence/" + f["fn"]["n"].split("::")[-1], ai.rv(o.value), q, t.site(f), "evidence after conversion to a truth value and back")
