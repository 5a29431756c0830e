"""Component collections and their iterators, under both tags.  Iterators: enumeration, comparison, displacement, copying and
assignment (same tag, other tag, self) over collections of up to three components, with the typestate of everything they
allocate (released once, never used afterwards, nothing left).  Collections: every constructor and creator from every kind of
source with and without repetitions, insertion, conversion, and the set operations over all pairs and some triples of subsets."""
import itertools
from ..env import *
from ..env import run as erun
from ..prog import AnalysisBroken
from .p04 import walk

T, I = "TERM::Terms::", "TERM::Iterator::"


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        ai = self.ai = mk(ctx.p)
        ai.local_dtors = {"TERM::Iterator"}
        self.atoms = {n: atom(ai, n) for n in "abc"}
        self.back = {c: n for n, c in self.atoms.items()}
        self.its = []

    def h(self, n):
        return sptr(self.ai, "TERM::pTerm", self.atoms[n])

    def seq(self, names, kind, t):
        ai = self.ai
        if kind == "set":
            names = list(dict.fromkeys(names))
        return LV(ai.new_cell(t, Cont("set" if kind == "set" else kind, tuple(self.h(n) for n in names)), "source"))

    def terms(self, names, tag):
        ai = self.ai
        c = new_obj(ai, "TERM::Terms", [tag], pick=lambda f: [p["t"] for p in f["params"]] == ["bool"])
        f = ai.field(c, "terms_unordered" if tag else "terms_ordered")
        names = list(dict.fromkeys(names)) if tag else list(names)
        ai.heap[f] = Cont("set" if tag else "vector", tuple(self.h(n) for n in names))
        return c

    def content(self, c):
        """names stored in a collection, as its own tag says"""
        ai = self.ai
        tag = get(ai, c, "_is_commutative")
        con = get(ai, c, "terms_unordered" if tag is True else "terms_ordered")
        other = get(ai, c, "terms_ordered" if tag is True else "terms_unordered")
        if tag not in (True, False) or not isinstance(con, Cont):
            return None
        ns = [self.back.get(pointee_cell(ai, ai.read(x))) for x in con.cells]
        if isinstance(other, Cont) and other.cells:
            return (tag, "both representations hold components")
        return (tag, tuple(sorted(ns, key=str)) if tag else tuple(ns))

    def call(self, n, this, args, pick=None):
        return call(self.ai, n, this, args, pick)

    def it(self, r):
        """the iterator object of a result"""
        if isinstance(r, LV) and len(r.cells) == 1:
            self.its.append(r.cells[0])
            return r.cells[0]
        raise Unknown_()

    def truth(self, r):
        v = self.ai.rv(r)
        if v in (True, False):
            return bool(v)
        raise Unknown_()

    def at(self, it):
        r = self.call(I + "operator*", it, [])
        p = pointee_cell(self.ai, self.ai.rv(r))
        if p not in self.back:
            raise Unknown_()
        return self.back[p]

    def destroy(self, c):
        if c not in self.ai.freed:
            self.call(I + "~Iterator", c, [])

    def finish(self):
        """destroy every iterator of the scenario; -> what is wrong with ownership"""
        ai = self.ai
        bad = []
        for c in dict.fromkeys(self.its):
            self.destroy(c)
        for c in ai.dyn:
            if "iterator" in str(ai.ctype.get(c, "")) and c in ai.heap and not ai.freed.get(c):
                bad.append("the standard iterator held by an iterator is not released")
        bad += ["%s at %s" % (i, i.where) for i in map(lambda x: x, ai.issues) if i.kind in
                ("double-free", "use-after-free", "bad-free", "null-deref", "type-confusion", "uninit", "nonvirtual-delete")]
        return bad[:2]


class Unknown_(Exception):
    pass


def pos(w, c, n):
    """iterator at position n"""
    it = w.it(w.call(T + "begin", c, []))
    for _ in range(n):
        w.call(I + "operator++", it, [], pick=lambda f: not f["params"])
    return it


def enumerate_(w, tag, names, post):
    c = w.terms(names, tag)
    it, end = w.it(w.call(T + "begin", c, [])), w.it(w.call(T + "end", c, []))
    seen = []
    for _ in range(len(names) + 1):
        if not w.truth(w.call(I + "operator!=", it, [LV(end)])):
            break
        seen.append(w.at(it))
        if post:
            w.call(I + "operator++", it, [0], pick=lambda f: len(f["params"]) == 1)
        else:
            w.call(I + "operator++", it, [], pick=lambda f: not f["params"])
    else:
        return "enumeration does not end after %d components" % len(names)
    if (sorted(seen) != sorted(names)) if tag else seen != list(names):
        return "enumeration of %s visits %s" % (list(names), seen)
    n = w.ai.rv(w.call(T + "size", c, []))
    if isinstance(n, int) and n != len(names):
        return "size is %s, holds %d" % (n, len(names))


def compare_(w, tag, i, j):
    c = w.terms("abc", tag)
    x, y = pos(w, c, i), pos(w, c, j)
    eq, ne = w.truth(w.call(I + "operator==", x, [LV(y)])), w.truth(w.call(I + "operator!=", x, [LV(y)]))
    if eq != (i == j) or ne == eq:
        return "iterators at positions %d and %d: == is %s, != is %s" % (i, j, eq, ne)


def shift_(w, tag, i, n, opposite=False):
    c = w.terms("abc", tag)
    x = pos(w, c, i)
    before = w.at(x) if i < 3 else None
    y = w.it(w.call(I + ("operator+" if n >= 0 else "operator-"), x, [abs(n)])) if not opposite else \
        w.it(w.call(I + ("operator-" if n >= 0 else "operator+"), x, [-abs(n)]))
    z = pos(w, c, i + n)
    if not w.truth(w.call(I + "operator==", y, [LV(z)])):
        return "position %d displaced by %d is not position %d" % (i, n, i + n)
    if i < 3 and w.at(x) != before:
        return "displacing moves the iterator itself"


def copy_(w, tag, i):
    c = w.terms("abc", tag)
    x = pos(w, c, i)
    y = w.ai.construct("TERM::Iterator", [f for f in w.ctx.p.fns(I + "Iterator") if f["fn"].get("cc") == "copy"][0]["fn"], [LV(x)])
    w.its.append(y)
    a = w.at(x)
    if w.at(y) != a:
        return "the copy is at %s, the original at %s" % (w.at(y), a)
    w.call(I + "operator++", y, [], pick=lambda f: not f["params"])
    if w.at(x) != a:
        return "advancing a copy moves the original"
    w.destroy(y)
    w.ai.freed[y] = "yes"
    w.its.remove(y)
    if w.at(x) != a:
        return "destroying a copy affects the original"


def assign_(w, t1, t2, i, j, self_):
    c, d = w.terms("abc", t1), w.terms("cab", t2)
    x = pos(w, c, i)
    y = x if self_ else pos(w, d, j)
    b = w.at(y)
    r = w.call(I + "operator=", x, [LV(y)])
    if isinstance(r, LV) and r.cells != (x,):
        return "assignment does not yield the iterator assigned to"
    if w.at(x) != b or w.at(y) != b:
        return "after assigning an iterator at %s, the target is at %s, the source at %s" % (b, w.at(x), w.at(y))
    e = w.it(w.call(T + "end", c if self_ else d, []))
    if not w.truth(w.call(I + "operator!=", x, [LV(e)])):
        return "after assignment the iterator claims to be at the end"
    if not self_:
        w.call(I + "operator++", x, [], pick=lambda f: not f["params"])
        if w.at(y) != b:
            return "advancing the target of an assignment moves its source"


def make_(w, f, names, tag, create):
    """one constructor or creator of collections from a source of its kind"""
    ai = w.ai
    t = f["params"][0]["t"]
    kind = "list" if "list<" in t and "initializer" not in t else "set" if "std::set<" in t else "vector"
    if t == "bool":
        args, exp = [tag], ()
    else:
        exp = list(dict.fromkeys(names)) if kind == "set" else list(names)
        if t.rstrip(" &").replace("const ", "") == "TERM::Terms":
            src = [LV(w.terms(names, s)) for s in (tag,)][0]
            exp = list(dict.fromkeys(names)) if tag else list(names)
        else:
            src = w.seq(names, kind, t.rstrip(" &"))
        args = [src, tag]
    if create:
        r = ai.call(f, None, args)
        c = pointee_cell(ai, ai.rv(r))
    else:
        c = ai.construct("TERM::Terms", f["fn"], args)
    got = w.content(c) if c is not None else None
    if got is None:
        raise Unknown_()
    exp = (tag, tuple(sorted(set(exp))) if tag else tuple(exp))
    if got != exp:
        return "made from %s %s as %s: holds %s" % (kind, list(names), "unordered" if tag else "ordered", got[1])


def push_(w, tag, names, n):
    c = w.terms(names, tag)
    w.call(T + "push_back", c, [LV(w.h(n))])
    exp = tuple(sorted(set(names) | {n})) if tag else tuple(names) + (n,)
    got = w.content(c)
    if got is None:
        raise Unknown_()
    if got != (tag, exp):
        return "after inserting %s into %s it holds %s" % (n, list(names), got[1])


def vector_(w, tag, names):
    ai = w.ai
    c = w.terms(names, tag)
    r = ai.rv(w.call(T + "operator vector", c, []))
    if not isinstance(r, Cont):
        raise Unknown_()
    got = [w.back.get(pointee_cell(ai, ai.read(x))) for x in r.cells]
    if (sorted(got, key=str) != sorted(set(names))) if tag else got != list(names):
        return "as a vector: %s for %s" % (got, list(names))


def setop_(w, op, sets):
    ai = w.ai
    cs = [w.terms(s, True) for s in sets]
    arg = vec(ai, [], "std::vector<std::shared_ptr<TERM::Terms>>")
    ai.heap[arg] = Cont("vector", tuple(sptr(ai, "std::shared_ptr<TERM::Terms>", c) for c in cs))
    o = erun(ai, lambda: w.call(T + op, None, [LV(arg)]))
    if o.big:
        raise Unknown_()
    if not sets:
        return None if o.dead else "no collections at all: no failure"
    if o.dead:
        return "%s of %s does not complete: %s" % (op, sets, [str(i) for i in ai.issues[:1]] or ai.thrown[:1])
    c = pointee_cell(ai, ai.rv(o.value))
    got = w.content(c) if c is not None else None
    if got is None:
        raise Unknown_()
    S = [set(x) for x in sets]
    exp = set(S[0])
    for s in S[1:]:
        exp = exp & s if op == "intersection" else exp | s if op == "union_" else exp - s
    if got != (True, tuple(sorted(exp))):
        return "%s of %s is %s, must be %s" % (op, [sorted(x) for x in S], got[1], sorted(exp))
    for c, s in zip(cs, sets):
        if w.content(c) != (True, tuple(sorted(s))):
            return "%s changes a collection it is given" % op


def run(ctx):
    p = ctx.p
    for n in ("begin", "end", "size", "push_back", "Terms"):
        p.fns(T + n)
    jobs = []
    both = (False, True)
    N = 3 if ctx.tier == "quick" else 3
    for tag in both:
        tn = "unordered" if tag else "ordered"
        for names in ("", "a", "ab", "abc", "cba"):
            for post in both:
                jobs.append(("enumeration/%s/%s/%s" % (tn, names or "-", "it++" if post else "++it"), I + "operator++", enumerate_, (tag, names, post)))
            jobs.append(("as vector/%s/%s" % (tn, names or "-"), T + "operator vector", vector_, (tag, names)))
            for n in "abc":
                jobs.append(("insert %s/%s/%s" % (n, tn, names or "-"), T + "push_back", push_, (tag, names, n)))
        for i in range(4):
            for j in range(4):
                jobs.append(("comparison/%s/%d,%d" % (tn, i, j), I + "operator==", compare_, (tag, i, j)))
                jobs.append(("displacement/%s/%d%+d" % (tn, i, j - i), I + "operator+", shift_, (tag, i, j - i)))
                jobs.append(("displacement back/%s/%d%+d" % (tn, i, j - i), I + "operator-", shift_, (tag, i, j - i, True)))
        for i in range(2):
            jobs.append(("copy/%s/%d" % (tn, i), I + "Iterator", copy_, (tag, i)))
            jobs.append(("self-assignment/%s/%d" % (tn, i), I + "operator=", assign_, (tag, tag, i, i, True)))
            for t2 in both:
                for j in range(2):
                    jobs.append(("assignment/%s from %s/%d=%d" % (tn, "unordered" if t2 else "ordered", i, j), I + "operator=", assign_, (tag, t2, i, j, False)))
        srcs = ["", "a", "ab", "ba", "aba", "abc", "cab"]
        for name, create in ((T + "Terms", False), (T + "create", True)):
            for k, f in enumerate(p.by_name.get(name, [])):
                if f["fn"].get("cc") or not f.get("body") or not f["params"] or f["params"][-1]["t"] != "bool":
                    continue
                for s in srcs:
                    jobs.append(("%s(%s)/%s/%s" % ("create" if create else "construct", f["params"][0]["t"], tn, s or "-"), name, make_, (f, s, tag, create)))
    subs = ["", "a", "b", "ab", "bc", "abc"]
    for op in ("intersection", "union_", "difference"):
        if T + op not in p.by_name:
            ctx.note("no operation %s on collections" % op)
            continue
        jobs.append(("%s/-" % op, T + op, setop_, (op, ())))
        for s in subs:
            jobs.append(("%s/%s" % (op, s or "-"), T + op, setop_, (op, (s,))))
        for x, y in itertools.product(subs, repeat=2):
            jobs.append(("%s/%s,%s" % (op, x or "-", y or "-"), T + op, setop_, (op, (x, y))))
        for t in (("ab", "bc", "abc"), ("abc", "a", "b"), ("a", "b", "c"), ("abc", "abc", "a"), ("", "a", "ab"), ("abc", "bc", "ab")) + \
                (tuple(itertools.product(subs, repeat=3)) if ctx.tier != "quick" else ()):
            jobs.append(("%s/%s" % (op, ",".join(x or "-" for x in t)), T + op, setop_, (op, t)))
    ctx.par(jobs, lambda j: one(ctx, *j))
    sorted_inputs(ctx)


def one(ctx, key, where, f, args):
    w = World(ctx)
    ai = w.ai
    res, why, own = None, None, []
    ctx.count("scenarios")
    try:
        res = f(w, *args)
        own = w.finish()
    except (Dead,):
        why = "does not complete: %s" % ([str(i) for i in ai.issues[:1]] or [str(t) for t in ai.thrown[:1]])
        if not (ai.imprecise or ai.unknown_calls) and any(i.definite for i in ai.issues):
            ctx.ob(key, False, why, where)
            return
    except (TooBig, Unknown_) as x:
        why = "not determined"
    except AnalysisBroken:
        raise
    except Exception as x:
        why = "analysis gave up: %s: %s" % (type(x).__name__, x)
    ctx.used(ai)
    if why or ai.imprecise or ai.unknown_calls:
        ctx.ob(key, None, why or "imprecise: %s" % (list(ai.imprecise) + list(ai.unknown_calls))[:2], where)
        return
    ctx.ob(key, res is None, res or "as specified", where)
    if f in (enumerate_, compare_, shift_, copy_, assign_):
        ctx.ob(key + "/ownership", not own, "; ".join(own) or "released once", where)


def sorted_inputs(ctx):
    """set algorithms need both ranges sorted by the comparator they use: the one the collections are sorted by"""
    p = ctx.p
    rec = p.records.get("TERM::Terms", {})
    st = [f["t"] for f in rec.get("fields", []) if f["t"].startswith("std::set<")]
    if not st:
        return
    order = st[0][st[0].index("<") + 1:-1].split(",")
    cmp = order[1].strip() if len(order) > 1 else "std::less"
    for f in p.funcs.values():
        if not f.get("body"):
            continue
        for x in walk(f["body"]):
            if x.get("k") == "Call" and x.get("fn", {}).get("n", "").split("<")[0] in (
                    "std::set_union", "std::set_intersection", "std::set_difference", "std::set_symmetric_difference", "std::includes", "std::merge"):
                ts = " ".join(str(t) for t in x.get("at", []))
                if "TERM::" not in ts:
                    continue
                ctx.count("set algorithm calls")
                n = 5 if "includes" not in x["fn"]["n"] else 4
                has = len(x["a"]) > n
                got = str(x["at"][n]) if has and len(x.get("at", [])) > n else "operator< of the handles"
                ctx.ob("sorted/%s:%s" % (f["fn"]["n"], x["l"]), cmp in got, "%s compares by %s, its ranges are sorted by %s" % (x["fn"]["n"].split("<")[0], got, cmp),
                       (f["file"], x["l"], f["fn"]["n"]))
