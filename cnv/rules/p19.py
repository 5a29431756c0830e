"""The outcome of parsing depends on the sentence alone.

Driver.  The parser object is evaluated on the abstract C machine.  G is the set of states a parser can be in between two
calls: as constructed, or after a call, with every scalar field that any call changes replaced by an unknown value, the input
buffer absent or empty (at each capacity), everything else as constructed.  Decided: (1) from every state of G, whatever the
text (accepted, rejected at any place, aborted by an exception of an action, read from the terminal), the state afterwards is
in G again - an induction over all histories; (2) from every state of G the outcome is that of a new parser, whichever way
branches on unknown values go; (3) no field is read before it is set, nothing released is used.  Where (1) or (2) cannot be
shown, concrete predecessors are followed: a differing outcome is a violation, otherwise the obligation stays undecided.

Actions.  On the abstract heap of the front end: history, then sentence; the objects reachable from the task are the same as
from a new parser and interpreter; a rejected sentence yields a null task whatever came before."""
import re
from ..harness import *
from ..driver import *
from ..driver import D
from ..cmach import Thrown, Unknown, Event, Fuel, explore, Opaque, Str, Fn
from .. import grammar
from . import p20

ENTRY = "PARSER::Parser::parse_string"
STDIN = "PARSER::Parser::parse_input"
W = ("Narsese/Parser/Parser.cpp", 0, ENTRY)


# ------------------------------------------------------------------ driver
def entry(p, n):
    f = [f for f in p.by_name.get(n, []) if f.get("body")]
    if not f:
        raise AnalysisBroken("%s not found" % n)
    return f[0]


def parse_text(d, codes, abort=False, stdin=False):
    """-> (outcome, tree): 'task', 'none', 'exception'"""
    m = d.m
    seen = []

    def transform(mm, this, a):
        seen.append(tree(d, a[0]))
        if abort:
            raise Thrown()
        return Pt(Arr([Obj("std::vector", {}, "results")], "std::vector<void *>", "the results", True), 0)
    res = Opaque("the task")
    m.stubs["PARSER::Parser::transform"] = transform
    m.stubs["std::vector<void *>::operator[]"] = m.stubs["std::vector<void *>::at"] = m.stubs["std::vector<void *>::front"] = \
        m.stubs["std::vector<void *>::back"] = lambda mm, this, a: Pt(Arr([res], "void *", "results"), 0)
    m.stubs["std::vector<void *>::size"] = lambda mm, this, a: 1
    m.stubs["std::vector<void *>::empty"] = lambda mm, this, a: 0
    m.fuel = m.fuel0
    n = len(m.frames)
    try:
        if stdin:
            pos = [0]

            def getchar(mm, this, a):
                pos[0] += 1
                return (list(codes) + [10])[pos[0] - 1] if pos[0] <= len(codes) + 1 else -1
            m.stubs["getchar"] = m.stubs["std::getchar"] = getchar
            r = m.call(entry(d.p, STDIN), d.this, [])
        else:
            r = m.call(entry(d.p, ENTRY), d.this, [("alias", (Arr([Str([wrap(c, "char") for c in codes])], "std::string", "the sentence"), 0))])
    except Thrown:
        del m.frames[n:]
        return ("exception", seen)
    return ("none" if r == 0 and not isinstance(r, Opaque) else "task" if r is res else "other", seen)


def canon(d):
    """field -> value, for what a later call can see"""
    out = {}
    for k, v in d.this.f.items():
        if k in d.tabs or isinstance(v, Opaque):
            continue
        if isinstance(v, Obj):
            for n, x in v.f.items():
                out[k + "." + n] = tuple(word(x.s)) if isinstance(x, Str) else x.fn["n"] if isinstance(x, Fn) else x
            continue
        out[k] = v
    b, e = d.get("buf"), d.get("bufend")
    for k in ("buf", "bufend"):
        out.pop(k, None)
    if b == 0 and e == 0:
        out["input"] = "empty"
    elif isinstance(b, Pt) and isinstance(e, Pt) and b.c is e.c and not b.c.freed and b.i == 0:
        out["input"] = "empty" if e.i == 0 and b.c.a[0] == 0 and (len(b.c.a) - 1) % 128 == 0 else "%d characters left" % e.i
    else:
        out["input"] = "not a buffer"
    for k in [k for k, v in out.items() if isinstance(v, Pt)]:
        out[k] = "released memory" if isinstance(out[k].c, Arr) and out[k].c.freed else "memory"
    out["statics"] = tuple(sorted((str(k), str(v)) for k, v in d.m.statics.items()))
    return out


class G:
    """the states between two calls"""

    def __init__(self, p, t, samples):
        self.p = p
        d = D(p)
        self.fresh = canon(d)
        self.var = {}
        for codes, mode in samples:
            d = D(p)
            try:
                parse_text(d, codes, **mode)
            except (Event, Fuel, AnalysisBroken):
                continue
            for k, v in canon(d).items():
                if self.scalar(k, v) and (k not in self.fresh or not self.eq(self.fresh[k], v)):
                    self.var[k] = v

    @staticmethod
    def scalar(k, v):
        return (isinstance(v, (int, Unknown)) or v is UNINIT or hasattr(v, "lo") or k in ("tos", "char_fetcher._getchar")) and k not in ("ast", "lexem", "stack")

    @staticmethod
    def eq(a, b):
        if a is b:
            return True
        if a is UNINIT or b is UNINIT or isinstance(a, Unknown) or isinstance(b, Unknown):
            return False
        try:
            return type(a) == type(b) and bool(a == b)
        except AnalysisBroken:
            return False

    def state(self, cap):
        """a parser in an arbitrary state of the set; cap: capacity of its (empty) input buffer"""
        d = D(self.p)
        if cap == "tree":               # an action threw: the tree of that sentence is still there
            parse_text(d, encode("<a --> b>."), abort=True)
            cap = 128
        if self.var:
            for k in self.var:
                v = UNINIT if k in ("tos", "char_fetcher._getchar") else Unknown(k)
                if k.startswith("char_fetcher."):
                    d.get("char_fetcher").f[k.split(".", 1)[1]] = v
                else:
                    d.set(k, v)
        if cap:
            a = Arr([0] + [UNINIT] * cap, "wchar_t", "the input buffer", True)
            d.set("buf", Pt(a, 0))
            d.set("bufend", Pt(a, 0))
        return d

    def outside(self, d):
        """what of the state is not in the set"""
        out = []
        for k, v in canon(d).items():
            if k == "ast" and v == "memory":
                continue
            if k in self.var or k in self.fresh and self.eq(self.fresh[k], v):
                continue
            out.append("%s is %s, in a new parser %s" % (k, show(v), show(self.fresh.get(k))))
        return out


def show(v):
    return "not set" if v is UNINIT else repr(v) if not isinstance(v, tuple) else "%d characters" % len(v)


def paths(make, f, limit=300):
    """f(state) under every outcome of branches on unknown values, each from a state of its own"""
    ch = []
    n = 0
    while True:
        n += 1
        if n > limit:
            raise AnalysisBroken("too many paths")
        d = make()
        d.m.choices, d.m.ci = ch, 0
        yield d, f(d)
        while ch and ch[-1][0] + 1 >= ch[-1][1]:
            ch.pop()
        if not ch:
            return
        ch[-1][0] += 1


def histories(t, tier):
    """(name, codes, mode) inputs of every kind of outcome"""
    whole = "$0.5;0.5;0.5$ <(*, {a}, \"b c\") --> (^op, $x)>! :!12: %1;0.9;1%"
    L = [("accepted", "<a --> b>."), ("accepted long", "<a --> %s>." % ("b" * 300)), ("accepted 128", "<a --> %s>." % ("b" * 118)),
         ("full", whole), ("empty", ""), ("blank", "  "), ("text after a line break", "<a --> b>.\n<c --> d>."), ("rejected after a line break", "<a\n<c --> d>."),
         ("trailing text", "<a --> b>. x"), ("trailing sentence", "<a --> b>. <c --> d>."), ("unterminated quote", "<\"a --> b>."),
         ("unterminated long quote", "<\"a%s" % ("b" * 300)), ("long cut", "<a --> %s" % ("b" * 119)), ("foreign characters", "<é --> ñ>. é"), ("variables", "<$x ==> #y>?"),
         ("line break only", "\n"), ("two line breaks", "\n\n<a --> b>.")]
    for i in range(1, len(whole), 1 if tier == "thorough" else 2):
        L.append(("rejected at %d" % i, whole[:i]))
    for i in range(0, len(whole), 2 if tier == "thorough" else 5):
        L.append(("defect at %d" % i, whole[:i] + "\x01" + whole[i + 1:]))
    for n, s in L:
        yield n, s, {}
    for n, s in L[:6]:
        yield n + ", aborted", s, {"abort": True}
        yield n + ", terminal", s, {"stdin": True}
        yield n + ", terminal, aborted", s, {"stdin": True, "abort": True}


def sentences(tier):
    L = ["<a --> b>.", "<a --> %s>?" % ("b" * 140), "", "a", "<a --> b>. x", "(&&, $x, #y)! :|: %0.5%", "$0.9$ a@", "<\"a", "--a."]
    return L


def safe(f):
    """-> (value, fault, reason it is not determined)"""
    try:
        return f(), None, None
    except Event as x:
        return None, "%s (%s:%s)" % (x.text, x.where[0], x.where[1]), None
    except Fuel:
        return None, "the evaluation does not end", None
    except AnalysisBroken as x:
        return None, None, str(x)


def driver(ctx, t):
    p = ctx.p
    gen = lambda s, base=0: general(t, encode(s), base)
    H = [(n, gen(s), m) for n, s, m in histories(t, ctx.tier)]
    S = [(s, gen(s, 10000)) for s in sentences(ctx.tier)]
    fresh = {}
    for s, codes in S:
        d = D(p)
        v, bad, why = safe(lambda: parse_text(d, codes))
        p20.d_used(ctx, d)
        want = p20.ref_parse(t, p20_goal(t), codes + [10])
        ok = None if why else not bad and v[0] == ("none" if want is None else "task")
        ctx.ob("new parser/%s" % brief(s), ok, bad or why or ("%s gives %s" % (s, v[0]) if not ok else "fully determined outcome"), W, s)
        fresh[s] = v if ok else None
    g = G(p, t, [(c, m) for _, c, m in H])
    ctx.note("fields that vary between calls: " + ", ".join(sorted(g.var)))
    caps = (0, 128, 256, "tree")

    def direct(pre, key, what):
        """follow concrete predecessors: is some sentence's outcome different?"""
        n, codes, mode = pre
        for s, sc in S:
            if fresh[s] is None:
                continue
            d = D(p)
            safe(lambda: parse_text(d, codes, **mode))
            v, bad, why = safe(lambda: parse_text(d, sc))
            if bad or v is not None and v != fresh[s]:
                return "after input %r, %r: %s" % (p20.written(word(codes))[:60], s[:40], bad or "%s, a new parser gives %s" % (brief_out(v), brief_out(fresh[s])))
        return None

    def step(i):
        n, codes, mode = H[i]
        ctx.count("histories")
        out, fault, why = [], None, None
        for cap in caps:
            def go():
                r = []
                for d, v in paths(lambda: g.state(cap), lambda d: parse_text(d, codes, **mode)):
                    r += g.outside(d)
                    p20.d_used(ctx, d)
                return r
            v, bad, y = safe(go)
            fault, why = fault or bad, why or y
            out += v or []
        if not out and not fault and not why:
            ctx.ob("state after/%s" % n, True, "every field is as in a new parser, or does not matter", W)
        else:
            x = direct(H[i], n, out)
            ctx.ob("state after/%s" % n, False if x else None, x or fault or why or out[0], W)

    def indep(x):
        s, codes = x
        if fresh[s] is None:
            return
        for cap in caps:
            def go():
                r = []
                for d, v in paths(lambda: g.state(cap), lambda d: parse_text(d, codes)):
                    if v != fresh[s]:
                        r.append("%s, a new parser gives %s" % (brief_out(v), brief_out(fresh[s])))
                return r
            v, bad, why = safe(go)
            ctx.count("arbitrary earlier states")
            key = "any earlier state/%s/%s" % (brief(s), cap)
            ctx.ob(key, True if v == [] else None, "same outcome as a new parser" if v == [] else bad or why or v[0], W, s)

    def seq(i):
        x = direct(H[i], H[i][0], None)
        ctx.count("sequences", len(S))
        ctx.ob("then/%s" % H[i][0], x is None, x or "%d sentences have the outcome of a new parser" % len(S), W)
    work = [(step, i) for i in range(len(H))] + [(indep, x) for x in S] + [(seq, i) for i in range(len(H)) if ctx.tier == "thorough" or i % 3 == 0 or H[i][2] or i < 17]
    ctx.par(work, lambda w: w[0](w[1]))


def brief(s):
    return s if len(s) < 24 else s[:20] + "…"


def brief_out(v):
    return {"task": "accepted", "none": "rejected", "exception": "an exception", "other": "a wrong result"}[v[0]] + \
        (" (%s)" % "; ".join(str(x)[:60] for x in v[1]) if v[1] else "")


def p20_goal(t):
    lhs = [q["lhs"] for q in t.prods]
    used = {q for q in lhs}
    return min(used)


# ------------------------------------------------------------------ actions
# what a task means: fields of the objects it consists of, whatever else (caches, links) they hold
FIELDS = ["budget", "priority", "durability", "quality", "sentence", "punct", "truth", "f", "c", "k", "stamp", "t_occurrence", "t_put", "is_eternal", "term",
          "type", "copula", "connector", "subject", "predicate", "terms", "is_var", "is_ivar", "is_dvar", "is_qvar", "has_var", "has_ivar", "has_dvar", "has_qvar",
          "is_closed", "is_interval", "interval", "is_operation", "is_mental_operation", "is_higher_order", "is_commutative", "hash_value", "complexity", "prefix",
          "_vars_independent", "_vars_dependent", "_vars_query", "indices", "positions", "terms_ordered", "terms_unordered", "_is_commutative"]
ORDER = {f: i for i, f in enumerate(FIELDS)}


def dump(r, root):
    """the task as a nested tuple; objects met twice are referred to by number"""
    ai = r.ai
    num, open_ = {}, []

    def val(v, d):
        if d > 80:
            return "…"
        if isinstance(v, Struct) and v.get("$p") is not None:
            v = ai.heap.get(v.get("$p"))
        if isinstance(v, Ptr):
            return cell(v.cell, d + 1)
        if isinstance(v, Struct):
            fs = sorted(((ORDER[n], n, c) for n, c in v.fields if n in ORDER))
            return (v.cls,) + tuple((n, val(ai.heap.get(c), d + 1)) for _, n, c in fs)
        if isinstance(v, Cont):
            xs = [val(ai.heap.get(c), d + 1) for c in v.cells]
            return ("sequence",) + tuple(xs if v.kind not in ("set", "mset") else sorted(xs, key=repr))
        if isinstance(v, (Sym, App)):
            return re.sub(r"cell=(\d+)", lambda m: "cell=%s" % num.setdefault(int(m.group(1)), len(num)), repr(v))
        return repr(v) if not isinstance(v, Iter) else "iterator"

    def cell(c, d):
        if c == r.sc.interp:
            return "interpreter"
        if c in open_:
            return "cycle"
        open_.append(c)
        try:
            return val(ai.heap.get(c), d)
        finally:
            open_.pop()
    return cell(root, 0)


def pairs(tier):
    terms = {"statement": AB, "independent": ("st", "==>", ("st", "-->", V("$", "x"), A("A"), "<"), ("st", "-->", V("$", "x"), V("$", "y"), "<"), "<"),
             "dependent": ("pre", "&&", [("st", "-->", V("#", "x"), A("A"), "<"), ("st", "-->", V("#", "y"), V("#", "x"), "<")]),
             "query": ("st", "-->", V("?", "x"), ("inf", "*", [V("?", "y"), V("?", "x")]), "<"),
             "operation": ("opst", "new", "o", [A("A"), V("$", "x")]), "sets": ("inf", "|", [("set", "[", [A("A"), A("B")]), ("set", "[", [A("B"), A("C")])]),
             "image": ("st", "-->", A("A"), ("img", "/", [A("B"), V("#", "x")]), "<"), "atom": A("A"), "interval": ("pre", "&/", [A("A"), ("iv", "N")]),
             "negation": ("neg", AB, "pre"), "mixed": ("st", "==>", V("$", "x"), ("pre", "&&", [V("#", "x"), V("?", "x"), V("$", "y")]), "<")}
    forms = {"judgement": (".", "none", "fck", "pdq"), "question": ("?", "past", "", ""), "goal": ("!", "present", "f", "p"), "quest": ("@", "none", "", "pd"),
             "event": (".", "time", "", ""), "plain": (".", "none", "", "")}
    hs = [(tn + "/" + fn, sentence(t, *f)) for tn, t in terms.items() for fn, f in forms.items()]
    ss = [("statement/plain", sentence(AB, ".")), ("mixed/question", sentence(terms["mixed"], "?")), ("independent/goal", sentence(terms["independent"], "!", "present", "f", "p")),
          ("other variables/plain", sentence(("st", "==>", V("$", "y"), ("pre", "&&", [V("#", "z"), V("?", "y"), V("$", "x"), V("#", "x"), V("?", "x")]), "<"), ".")),
          ("query/plain", sentence(terms["query"], ".")), ("operation/event", sentence(terms["operation"], ".", "time"))]
    return hs, ss


def compare(ctx, key, w, base, hist, name, s):
    """hist: list of feeds; then the sentence"""
    sc = Scen(ctx.p, ctx.tables)
    for f in hist:
        r0 = f(sc)
        if r0 is not None:
            if r0 != "no exception":
                ctx.ob(key, None, "the history is not determined: %s" % r0, w, text(s))
            return
    r = feed(ctx, s, sc=sc)
    if r.fail or r.why:
        ctx.ob(key, False if r.fail and not r.imprecise else None, r.fail or r.why, w, text(s))
        return sc
    if base is None:
        ctx.ob(key, None, "the sentence alone is not determined", w, text(s))
        return sc
    got = dump(r, r.task)
    ok = got == base
    exact = not r.imprecise
    ctx.ob(key, True if ok else False if exact else None, "same task" if ok else "the task differs from that of a new parser: %s" % diff(base, got), w, text(s))
    return sc


def diff(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if len(a) != len(b):
            return "%s: %d parts, %d" % (path or "task", len(a), len(b))
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y, path + ("." + a[0] if isinstance(a[0], str) else ""))
    return "%s: %s, %s" % (path or "task", str(a)[:80], str(b)[:80])


def accepted(ctx, seq):
    def f(sc):
        r = feed(ctx, seq, sc=sc)
        return r.fail or r.why
    return f


def rejected(ctx):
    def f(sc):
        o = sc.feed(None)
        if not o.isnull and not o.dead:
            return "a rejected sentence gives a task"
    return f


def aborted(ctx, seq, nth):
    """the action of the nth construct (in order of evaluation) throws"""
    def f(sc):
        ai = sc.ai
        names = sorted({n for n in ctx.p.by_name if n.startswith("NARSESEPARSER::") and n.count("::") == 1 and is_action(ctx.p, n)})
        left = [nth]
        saved = {n: ai.stubs.get(n) for n in names}

        def mk_(n):
            def stub(ai_, fn, this, args, e):
                left[0] -= 1
                if left[0] == 0:
                    ai_.throw("std::runtime_error")
                ai_.stubs.pop(n, None)
                try:
                    return ai_.call(ctx.p.funcs[fn["u"]] if "u" in fn else ctx.p.fns(n)[0], this, args)
                finally:
                    ai_.stubs[n] = stub
            return stub
        for n in names:
            ai.stubs[n] = mk_(n)
        t0 = len(ai.thrown)
        r = feed(ctx, seq, sc=sc)
        for n in names:
            if saved[n] is None:
                ai.stubs.pop(n, None)
            else:
                ai.stubs[n] = saved[n]
        if len(ai.thrown) == t0:
            return "the exception does not reach the caller" if left[0] <= 0 and not r.fail else "no exception"
        ai.restore(ai.thrown[-1][1])
        ai.frames[:] = []
    return f


def is_action(p, n):
    f = [f for f in p.by_name[n] if f.get("body")]
    return bool(f) and len(f[0]["params"]) == 2 and "Parser *" in f[0]["params"][0]["t"]


def actions(ctx):
    hs, ss = pairs(ctx.tier)
    w = "NARSESEPARSER::task"
    base = {}
    for n, s in ss:
        r = feed(ctx, s)
        base[n] = dump(r, r.task) if r.known and not r.imprecise else None
    jobs = []
    for i, (hn, h) in enumerate(hs):
        for j, (n, s) in enumerate(ss):
            if ctx.tier == "thorough" or (i + j) % 3 == 0 or j == 2 and hn.endswith("judgement"):
                jobs.append(("%s then %s" % (hn, n), [accepted(ctx, h)], n, s))
    for n, s in ss:
        jobs.append(("rejected then %s" % n, [rejected(ctx)], n, s))
        for hn, h in hs[::13]:
            jobs.append(("%s, rejected, then %s" % (hn, n), [accepted(ctx, h), rejected(ctx)], n, s))
            jobs.append(("rejected, %s, then %s" % (hn, n), [rejected(ctx), accepted(ctx, h)], n, s))
    ks = range(1, 14)
    for hn, h in hs[::7] + [x for x in hs if x[0].startswith("mixed")][:1]:
        for k in ks:
            n, s = ss[k % len(ss)]
            if ctx.tier == "thorough" or k % 2:
                jobs.append(("%s aborted at %d, then %s" % (hn, k, n), [aborted(ctx, h, k)], n, s))
                jobs.append(("%s aborted at %d, rejected, then %s" % (hn, k, n), [aborted(ctx, h, k), rejected(ctx)], n, s))

    def go(j):
        key, hist, n, s = j
        ctx.count("action histories")
        compare(ctx, key, w, base[n], hist, n, s)

    ctx.par(jobs, go)

    def null(j):
        hn, hist = j
        sc = Scen(ctx.p, ctx.tables)
        for f in hist:
            x = f(sc)
            if x == "no exception":
                return
            if x:
                ctx.ob("rejection after %s" % hn, None, x, W)
                return
        i0 = len(sc.ai.issues)
        o = sc.feed(None)
        bad = [i for i in sc.ai.issues[i0:] if i.definite]
        ok = o.isnull and not bad
        ctx.ob("rejection after %s" % hn, ok if ok or not sc.ai.imprecise else None,
               "no task" if ok else "a rejected sentence %s" % ("is processed with an error: %s" % bad[0] if bad else "yields a task or an exception"), W)
    ctx.par([("nothing", [])] + [(n, [accepted(ctx, s)]) for n, s in hs[::5]] + [("rejection", [rejected(ctx)])] +
            [("%s aborted at %d" % (n, k), [aborted(ctx, s, k)]) for n, s in hs[::11] for k in (1, 2, 4, 6)], null)


def run(ctx):
    t = ctx.tables
    driver(ctx, t)
    actions(ctx)
