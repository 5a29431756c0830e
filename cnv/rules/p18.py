"""Evidence.  The operations on evidential bases are evaluated abstractly on all pairs of small bases, for every relevant maximum
length, and compared with the merge of sets; cached hashes are compared with those of a new base of the same content.  The
identities given to input sentences are followed through the constructors of bases and stamps and through the front end for
every kind of sentence and tense."""
import itertools
from ..harness import *
from ..env import *
from ..env import run as erun
from ..prog import AnalysisBroken
from ..scen import Scen
from ..consts import sizes

B = "EVIDENCE::Base::"
U = (3, 5, 8, 9)


class Undet(Exception):
    pass


class W:
    def __init__(self, ctx, maximum=20000, start=40):
        self.ctx = ctx
        self.ai = mk(ctx.p, globals_={"CONFIG::maximum_evidential_base_length": maximum, "GLOBAL::_input_id": start, "GLOBAL::time": 0})

    def base(self, xs):
        ai = self.ai
        s = ai.new_cell("std::set<unsigned long>", Cont("set", tuple(ai.new_cell("unsigned long", x, "id") for x in sorted(xs))), "ids")
        return new_obj(ai, "EVIDENCE::Base", [LV(s)], pick=lambda f: f["params"] and f["params"][0]["t"].replace("const ", "").startswith("std::set<") and not f["fn"].get("cc"))

    def ids(self, c):
        con = self.ai.heap.get(pointee_cell(self.ai, get(self.ai, c, "_set")))
        if not isinstance(con, Cont):
            raise Undet("content of a base: %s" % (con,))
        xs = [self.ai.read(x) for x in con.cells]
        if not all(isinstance(x, int) for x in xs):
            raise Undet("content of a base: %s" % (xs[:3],))
        return frozenset(xs)

    def hash(self, c):
        return self.ai.rv(call(self.ai, B + "__hash__", c, []))

    def fresh_hash(self, c):
        """what a base of the same content, never hashed, reports"""
        return self.hash(self.base(self.ids(c)))


def merged(s1, s2, m, got):
    """-> what is wrong with the merge"""
    if not got <= s1 | s2:
        return "evidence %s comes from neither base" % sorted(got - (s1 | s2))
    if len(got) > m:
        return "%d pieces of evidence, the maximum is %d" % (len(got), m)
    if len(s1) + len(s2) <= m and got != s1 | s2:
        return "evidence %s is lost although there is room for all of it" % sorted((s1 | s2) - got)
    if not s1 & s2 and len(got) != min(m, len(s1 | s2)):
        return "%d pieces of evidence kept where %d fit" % (len(got), min(m, len(s1 | s2)))
    return None


def do_interleave(w, s1, s2, m, form):
    a, b = w.base(s1), w.base(s2)
    if form == "three":
        r = w.base(())
        call(w.ai, B + "interleave", None, [LV(r), LV(a), LV(b)], pick=lambda f: len(f["params"]) == 3)
    else:
        v = w.ai.rv(call(w.ai, B + "interleave", None, [LV(a), LV(b)], pick=lambda f: len(f["params"]) == 2))
        r = pointee_cell(w.ai, v)
        if r is None:
            raise Undet("result")
    why = merged(s1, s2, m, w.ids(r))
    if why is None and (w.ids(a) != s1 or w.ids(b) != s2):
        why = "merging changes the bases merged"
    if why is None and w.hash(r) != w.fresh_hash(r):
        why = "hash of the merged base is not that of its content"
    return why


def do_extend(w, s1, s2, m, form):
    a = w.base(s1)
    b = a if form == "self" else w.base(s2)
    if form == "self":
        s2 = s1
    w.hash(a)
    if form != "self":
        w.hash(b)
    call(w.ai, B + "extend", a, [LV(b)])
    got = w.ids(a)
    why = None
    if form == "self":
        why = None if got == s1 or len(got) == m and got < s1 else "extending a base by itself yields %s instead of %s" % (sorted(got), sorted(s1))
    else:
        why = merged(s1, s2, m, got)
        if why is None and w.ids(b) != s2:
            why = "extending a base changes the other one to %s" % sorted(w.ids(b))
    if why is None and w.hash(a) != w.fresh_hash(a):
        why = "the hash cached before the extension survives it"
    if why is None and form != "self" and w.hash(b) != w.fresh_hash(b):
        why = "the hash of the other base changes"
    return why


def do_add(w, s1, x):
    a = w.base(s1)
    w.hash(a)
    call(w.ai, B + "add", a, [x])
    if w.ids(a) != s1 | {x}:
        return "adding %d to %s yields %s" % (x, sorted(s1), sorted(w.ids(a)))
    if w.hash(a) != w.fresh_hash(a):
        return "the hash cached before the addition survives it"
    n = w.ai.rv(call(w.ai, B + "size", a, []))
    if isinstance(n, int) and n != len(s1 | {x}):
        return "size is %s" % n


def do_overlap(w, s1, s2):
    a, b = w.base(s1), w.base(s2)
    v = w.ai.rv(call(w.ai, B + "is_overlaped", a, [LV(b)]))
    if v not in (True, False):
        raise Undet("result %s" % (v,))
    if bool(v) != bool(s1 & s2):
        return "%s and %s reported %soverlapping" % (sorted(s1), sorted(s2), "" if v else "not ")
    if w.ids(a) != s1 or w.ids(b) != s2:
        return "the test changes a base"


def do_fresh(w, kind):
    """successive bases and stamps made for input rest on evidence of their own"""
    ai = w.ai
    seen = []
    for i in range(3):
        if kind == "base":
            c = new_obj(ai, "EVIDENCE::Base", [NULL], pick=lambda f: f["params"] and "shared_ptr" in f["params"][0]["t"])
        else:
            pt = kind
            fs = [f for f in ai.p.fns("SENTENCE::Stamp::Stamp") if [q["t"] for q in f["params"]] == list(pt)]
            if not fs:
                raise AnalysisBroken("constructor of stamps gone")
            args = [{"bool": i % 2 == 1, "int": i}.get(t.replace("signed ", "").replace("const ", ""), NULL) for t in pt]
            st = new_obj(ai, "SENTENCE::Stamp", args, pick=lambda f: f is fs[0])
            c = pointee_cell(ai, get(ai, st, "evidential_base"))
        if c is None:
            return "no evidential base"
        seen.append(w.ids(c))
    for s in seen:
        if len(s) != 1:
            return "a new base holds %d pieces of evidence" % len(s)
    if len(set(seen)) != 3:
        return "new bases share evidence: %s" % [sorted(s) for s in seen]


def do_counter(w, start):
    """a base made for input after `start` inputs: its evidence is later than that of all before it"""
    got = []
    for i in range(3):
        c = new_obj(w.ai, "EVIDENCE::Base", [NULL], pick=lambda f: f["params"] and "shared_ptr" in f["params"][0]["t"])
        got.append(w.ids(c))
    xs = [x for g in got for x in g]
    if len(xs) != 3 or not start <= xs[0] < xs[1] < xs[2]:
        return "after %d inputs the next bases rest on %s, which earlier ones rest on" % (start, [sorted(g) for g in got])


def do_stamp_extend(w, s1, s2, null):
    ai = w.ai
    fs = [f for f in ai.p.fns("SENTENCE::Stamp::Stamp") if len(f["params"]) == 5]
    if not fs:
        raise AnalysisBroken("constructor of stamps gone")
    a, b = w.base(s1), w.base(s2)
    st = new_obj(ai, "SENTENCE::Stamp", [0, 0, 0, LV(sptr(ai, "std::shared_ptr<EVIDENCE::Base>", a)), True], pick=lambda f: f is fs[0])
    call(ai, "SENTENCE::Stamp::extend_evidenital_base", st, [LV(b)])
    c = pointee_cell(ai, get(ai, st, "evidential_base"))
    return merged(s1, s2, 20000, w.ids(c)) or (None if w.ids(b) == s2 else "the other base changes")


def one(ctx, key, where, f, args, maximum=20000, start=40):
    w = W(ctx, maximum, start)
    ai = w.ai
    ctx.count("evaluations")
    try:
        why, und = f(w, *args), None
    except Dead:
        why, und = "does not complete %s" % ([str(i) for i in ai.issues[:1]],), None
        if not any(i.definite for i in ai.issues):
            und = why
    except (Undet, TooBig) as x:
        why, und = None, "not determined: %s" % x
    except AnalysisBroken:
        raise
    except Exception as x:
        why, und = None, "analysis gave up: %s: %s" % (type(x).__name__, x)
    ctx.used(ai)
    if not und and not why and any(i.definite for i in ai.issues):
        why = "; ".join("%s at %s" % (i, i.where) for i in ai.issues[:2])
    if und or ai.imprecise or ai.unknown_calls:
        ctx.ob(key, None, und or "imprecise %s" % ((list(ai.imprecise) + list(ai.unknown_calls))[:1],), where)
    else:
        ctx.ob(key, why is None, why or "as specified", where)


def subsets(u, n):
    for k in range(n + 1):
        for t in itertools.combinations(u, k):
            yield frozenset(t)


def show(s):
    return "".join(map(str, sorted(s))) or "-"


def run(ctx):
    p = ctx.p
    p.fns(B + "extend"), p.fns(B + "interleave"), p.fns(B + "is_overlaped")
    jobs = []
    N = 3 if ctx.tier == "quick" else 4
    subs = list(subsets(U, N))
    few = [s for s in subs if len(s) != 2 or 5 in s]
    for s1 in few:
        for s2 in few:
            jobs.append(("overlap/%s,%s" % (show(s1), show(s2)), B + "is_overlaped", do_overlap, (s1, s2)))
            for m in (0, 1, 2, 3, 4, 5, 20000):
                if m < 20000 and (m > len(s1) + len(s2) or (len(s1 & s2) > 1 and ctx.tier == "quick")):
                    continue
                k = "%s,%s,max %d" % (show(s1), show(s2), m)
                jobs.append(("merge/" + k, B + "interleave", do_interleave, (s1, s2, m, "three"), m))
                jobs.append(("merge into a new base/" + k, B + "interleave", do_interleave, (s1, s2, m, "two"), m))
                jobs.append(("extend/" + k, B + "extend", do_extend, (s1, s2, m, "other"), m))
    for s1 in subs:
        jobs.append(("extend by itself/%s" % show(s1), B + "extend", do_extend, (s1, s1, 20000, "self")))
        for x in (3, 9, 4):
            jobs.append(("add %d/%s" % (x, show(s1)), B + "add", do_add, (s1, x)))
    for n in sizes(ctx, 4, 40, (5, 9)):
        big = frozenset(range(100, 100 + n))
        pairs = [(big, frozenset((3, 5))), (frozenset((3, 5)), big), (big, frozenset((3, 101, 500))), (big, big), (big, frozenset(range(200, 200 + n))),
                 (big, frozenset(range(100 + n // 2, 100 + n + n // 2))), (frozenset((3, 5)), frozenset((7,)) | big), (frozenset(range(300, 300 + 2 * n)), big),
                 (big, frozenset((100 + n - 1,))), (frozenset(range(300, 300 + n - 1)), big)]
        for i, (s1, s2) in enumerate(pairs):
            k = "%d/%d" % (n, i)
            jobs.append(("overlap/" + k, B + "is_overlaped", do_overlap, (s1, s2)))
            for m in (20000, n, n + 1):
                jobs.append(("merge/%s, max %d" % (k, m), B + "interleave", do_interleave, (s1, s2, m, "three"), m))
                jobs.append(("merge into a new base/%s, max %d" % (k, m), B + "interleave", do_interleave, (s1, s2, m, "two"), m))
                jobs.append(("extend/%s, max %d" % (k, m), B + "extend", do_extend, (s1, s2, m, "other"), m))
        jobs.append(("add/%d" % n, B + "add", do_add, (big, 3)))
    for start in sizes(ctx, 41, 1 << 40, [n + i for n in (100, 128, 256, 1000, 1024, 10000, 1 << 15, 1 << 16, 20000, 100000, 1000000, 1 << 24, 1 << 31, 1 << 32) for i in (-2, -1, 0)]):
        jobs.append(("counter/%d" % start, B + "Base", do_counter, (start,), 20000, start))
    jobs.append(("fresh/base", B + "Base", do_fresh, ("base",)))
    for f in p.fns("SENTENCE::Stamp::Stamp"):
        if f["fn"].get("cc") not in ("copy", "move") and f["params"]:
            pt = tuple(q["t"] for q in f["params"])
            jobs.append(("fresh/stamp(%s)" % ", ".join(pt), "SENTENCE::Stamp::Stamp", do_fresh, (pt,)))
    if "SENTENCE::Stamp::extend_evidenital_base" in p.by_name:
        for s1, s2 in ((frozenset((3,)), frozenset((5, 8))), (frozenset((3, 5)), frozenset((5,)))):
            jobs.append(("stamp extended/%s,%s" % (show(s1), show(s2)), "SENTENCE::Stamp::extend_evidenital_base", do_stamp_extend, (s1, s2, False)))
    ctx.par(jobs, lambda j: one(ctx, *j))
    sentences(ctx)


def sentences(ctx):
    """three sentences through one front end, for every kind and tense"""
    st = toks(("st", "-->", ("a", "A"), ("a", "B"), "<"))
    seqs = []
    for q in (".", "?", "!", "@"):
        for t in ([], [":|:"], [":/:"], [":\\:"]):
            if not (q == "@" and t):
                seqs.append((q + "".join(t), st + [q] + t))

    def pair(j):
        (n1, s1), (n2, s2) = j
        key = "input/%s then %s" % (n1, n2)
        w = "SENTENCE::Stamp::Stamp"
        try:
            sc = Scen(ctx.p, ctx.tables, glob={"GLOBAL::_input_id": 40, "GLOBAL::time": 0, "CONFIG::temporal_duration": 5})
        except Exception as x:
            ctx.ob(key, None, str(x), w)
            return
        got = []
        bases = []
        for s in (s1, s2, s1):
            r = feed(ctx, s, sc)
            if r.fail or r.why:
                ctx.ob(key, None, "no task: %s" % (r.fail or r.why), w)
                return
            c = r.ptr("sentence.stamp.evidential_base")
            con = r.ai.heap.get(pointee_cell(r.ai, get(r.ai, c, "_set"))) if c is not None else None
            if c is None and get(r.ai, r.ptr("sentence.stamp"), "evidential_base") is not None:
                v = r.val("sentence.stamp.evidential_base")
                if v is NULL:
                    ctx.ob(key, False, "the sentence has no evidential base", w, r.name)
                    return
            if not isinstance(con, Cont) or not all(isinstance(r.ai.read(x), int) for x in con.cells):
                ctx.ob(key, None, "evidence not determined", w, r.name)
                return
            bases.append(c)
            got.append(sorted(r.ai.read(x) for x in con.cells))
        ok = all(len(g) == 1 for g in got) and len({g[0] for g in got}) == 3 and len(set(bases)) == 3
        ctx.ob(key, ok, "evidence of three successive sentences: %s%s" % (got, "" if len(set(bases)) == 3 else " (base shared)"), w)
    ctx.par([(a, seqs[(i + k) % len(seqs)]) for i, a in enumerate(seqs) for k in (0, 1, 4)], pair)
