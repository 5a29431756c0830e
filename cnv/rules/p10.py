"""Variables are identified by kind and name, within one sentence.  For sentences with up to four variables (every choice
of kinds, and every pattern of equal and different names) the identity numbers in the abstract result are compared
pairwise: equal exactly when kind and name are equal, and each variable is recorded under its own kind.  Then the second
of two sentences, for every outcome of the first (accepted with other or the same names, rejected, stopped by an
exception), must get the identities it gets from a new parser."""
import itertools
from ..harness import *
from ..consts import sizes
from ..terms import *
from ..env import *

PLACES = [lambda vs: ("st", "==>", ("pre", "*", vs[:len(vs) // 2] or [A("A")]), ("pre", "*", vs[len(vs) // 2:]), "<"),
          lambda vs: ("pre", "&/", [("st", "-->", v, A("A"), "<") for v in vs] + [A("B")]),
          lambda vs: ("opst", "new", "o", vs)]
WHERE = {"$": "NARSESEPARSER::independent_var", "#": "NARSESEPARSER::dependent_var", "?": "NARSESEPARSER::query_var"}


def patterns(n):
    """restricted growth strings: every pattern of equal names"""
    def go(i, m, acc):
        if i == n:
            yield tuple(acc)
            return
        for k in range(m + 1):
            yield from go(i + 1, max(m, k + 1), acc + [k])
    return go(0, 0, [])


def variables(p, ai, rd, tv):
    """[(prefix, identity number)] left to right"""
    out = []
    for _, t in tv.walk():
        if t.kind == "var":
            k = varkind(p, t)
            rec = {}
            for q, f in INDEX.items():
                _, ids, _ = rd.indices(ai, t.cell, f)
                if ids:
                    rec[q] = [ai.read(c) for c in ids]
            out.append((k, rec))
    return out


def look(ctx, r, rd):
    return variables(ctx.p, r.ai, rd, rd.read(r.ai, r.ptr("sentence.term")))


def judge(ctx, key, vs, got, name):
    """vs: [(prefix, name)] as written; got: recorded"""
    kinds = {"$": "ivar", "#": "dvar", "?": "qvar"}
    w = WHERE[vs[0][0]]
    if len(got) != len(vs):
        return ctx.ob(key, None, "%d variables found, %d written" % (len(got), len(vs)), w, name)
    nums = []
    for (k, n), (g, rec) in zip(vs, got):
        if g != kinds[k] or list(rec) != [kinds[k]]:
            return ctx.ob(key, False, "%s%s is recorded as %s of kind %s" % (k, n, list(rec) or "nothing", g), WHERE[k], name)
        x = rec[kinds[k]]
        if len(x) != 1:
            return ctx.ob(key, False, "%s%s has %d identities" % (k, n, len(x)), WHERE[k], name)
        nums.append(x[0])
    for i, j in itertools.combinations(range(len(vs)), 2):
        if vs[i][0] != vs[j][0]:
            continue
        a, b = nums[i], nums[j]
        same_name = vs[i][1] == vs[j][1]
        if isinstance(a, (Top, Phi)) or isinstance(b, (Top, Phi)) or not same(a, b) and not (isinstance(a, int) and isinstance(b, int)):
            return ctx.ob(key, None, "identities not determined: %s %s" % (a, b), w, name)
        if same(a, b) != same_name:
            return ctx.ob(key, False, "%s%s and %s%s have identities %s and %s" % (vs[i] + vs[j] + (a, b)), WHERE[vs[i][0]], name)
    return ctx.ob(key, True, "%d variables: identities %s" % (len(vs), nums), w, name)


def single(ctx, rd, place, vs):
    s = place[1]([V(k, n) for k, n in vs])
    r = feed(ctx, toks(s) + ["."])
    key = "place %d: %s" % (place[0], " ".join(k + n for k, n in vs))
    if fails(ctx, key, r, WHERE[vs[0][0]]):
        return
    try:
        judge(ctx, key, vs, look(ctx, r, rd), r.name)
    except Unknown as x:
        ctx.ob(key, None, "not determined: %s" % x, WHERE[vs[0][0]], r.name)


def twice(ctx, rd, first, vs):
    """second sentence after a first one"""
    s = PLACES[0]([V(k, n) for k, n in vs])
    fresh = feed(ctx, toks(s) + ["."])
    key = "after %s: %s" % (first[0], " ".join(k + n for k, n in vs))
    w = "NARSESEPARSER::NarseseParser::parse_task"
    if fresh.fail or fresh.why:
        ctx.ob(key, None, "no first result", w, fresh.name)
        return
    sc = Scen(ctx.p, ctx.tables)
    try:
        if first[1] is None:
            sc.feed(None)           # a sentence that is not of the language: the tables yield no tree
        else:
            f = feed(ctx, toks(first[1]) + ["."], sc=sc)
            if f.fail or f.why:
                ctx.ob(key, None, "no result of the first sentence", w, fresh.name)
                return
    except (Dead, TooBig):
        pass
    r = feed(ctx, toks(s) + ["."], sc=sc)
    if fails(ctx, key, r, w):
        return
    try:
        a, b = look(ctx, fresh, rd), look(ctx, r, rd)
    except Unknown as x:
        ctx.ob(key, None, "not determined: %s" % x, w, r.name)
        return
    if any(isinstance(y, (Top, Phi)) for _, rec in a + b for x in rec.values() for y in x):
        ctx.ob(key, None, "identities not determined", w, r.name)
        return
    ctx.ob(key, a == b, "identities %s, with a new parser %s" % ([x for _, x in b], [x for _, x in a]), w, r.name)


def run(ctx):
    rd = TermReader(ctx.p)
    items = []
    names = "xyzw"
    for n in (1, 2, 3) if ctx.tier == "quick" else (1, 2, 3, 4):
        for kinds in itertools.product("$#?", repeat=n):
            for pat in patterns(n):
                for pl in enumerate(PLACES):
                    if n == 3 and pl[0] and ctx.tier == "quick" and len(set(kinds)) == 3:
                        continue
                    items.append((single, pl, [(k, names[i]) for k, i in zip(kinds, pat)]))
    # names of many lengths that differ in one letter only, and many variables
    for n in sizes(ctx, 2, 70, (2, 12, 40)):
        base = ("position" * n)[:n - 1]
        for k in "$#?":
            for ns in ((base + "1", base + "2"), ("1" + base, "2" + base), (base, base + "1"), (base + "1", base + "1")):
                if ns[0][:1]:
                    items.append((single, (2, PLACES[2]), [(k, ns[0]), (k, ns[1])]))
    for n in sizes(ctx, 5, 40, (9,)):
        for k in "$#?":
            items.append((single, (2, PLACES[2]), [(k, "x%d" % i) for i in range(n)]))
            items.append((single, (1, PLACES[1]), [(k if i % 3 else "$#?"[i // 3 % 3], "x%d" % (i * i % n)) for i in range(n)]))
    firsts = [("a rejected sentence", None)]
    for k in "$#?":
        firsts += [("one with %sx" % k, ("st", "==>", V(k, "x"), A("A"), "<")), ("one with %sy %sx" % (k, k), PLACES[0]([V(k, "y"), V(k, "x")])),
                   ("one with %sz" % k, ("opst", "old", "o", [V(k, "z")]))]
    for f in firsts:
        for kinds in itertools.product("$#?", repeat=2):
            for pat in patterns(2):
                items.append((twice, f, [(k, names[i]) for k, i in zip(kinds, pat)]))
    ctx.par(items, lambda x: x[0](ctx, rd, x[1], x[2]))
