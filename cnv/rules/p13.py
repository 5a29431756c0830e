"""Order and equality of terms.  A pool of terms is built through the program's own constructors with an ideal hash (an
injective numbering of what the code feeds it, in several relative orders).  Both comparison operators are evaluated
abstractly on every pair; the resulting relations are checked to be an equality of structures with their variables and a
strict total order, triple by triple."""
import itertools
from ..build import Builder
from ..env import *
from ..env import run as erun, flat
from ..lang import COPULA_NAME, CONNECTOR_NAME, show

LT, EQ = "TERM::Term::operator<", "TERM::Term::operator=="
at = lambda n: ("atom", n, False)
v = lambda k, i: ("var", k, i)
a, b = at("a"), at("b")


def st(c, x, y):
    return ("<>", c, x, y)


def cp(c, *xs):
    return ("()", c, tuple(xs))


def pool(tier):
    V = [v("$", 0), v("$", 1), v("$", 2), v("#", 0), v("#", 1), v("?", 0), v("?", 1)]
    out = [a, b] + V
    i = V[:3]
    S = [st("-->", x, y) for x in i for y in i]
    S += [st("-->", x, a) for x in V] + [st("-->", a, x) for x in V] + [st("-->", a, b), st("<->", v("$", 0), v("$", 1)), st("<->", v("$", 1), v("$", 0)),
                                                                        st("-->", v("$", 0), v("#", 1)), st("-->", v("$", 1), v("#", 0))]
    out += S
    P = [cp("*", x, y) for x in i for y in i] + [cp("*", x, a, y) for x in i[:2] for y in i[:2]] + [cp("*", a, b), cp("*", b, a), cp("/", i[0], i[1]), cp("/", i[1], i[0]), cp("--", i[0]), cp("--", i[1]),
                                                                                            cp("--", a)]
    out += P
    X = [st("-->", x, a) for x in i]
    Y = [st("-->", x, b) for x in i]
    out += [st("==>", x, y) for x in X for y in Y[:2]]
    out += [cp("&&", x, y) for x in X for y in Y]
    out += [cp("&&", X[0], X[1]), cp("&&", X[0], X[2]), cp("&&", X[1], X[2]), cp("&&", *X), cp("{", i[0], i[1]), cp("{", i[0], i[2]), cp("{", i[1], i[2]), cp("{", a, b), cp("{", a),
            cp("{", i[0], a), cp("{", i[1], a)]
    out += [cp("*", cp("*", x, y), z) for x in i[:2] for y in i[:2] for z in i[:2]]
    out += [st("-->", cp("*", x, y), z) for x in i[:2] for y in i[:2] for z in i[:2]]
    if tier != "quick":
        out += [cp("*", x, y, z) for x in i for y in i for z in i]
        out += [st("==>", x, y) for x in S[:9] for y in S[:9]]
        out += [cp("*", x, y) for x in V for y in V if (x, y) != (x, x)]
        out += [cp("&&", st("==>", x, y), z) for x in X[:2] for y in Y[:2] for z in X[:2] + Y[:2]]
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r


class Terms(Builder):
    def __init__(self, prog, sign, collide=False):
        super().__init__(prog, stubs={"UTILS::Hash::operator()": self.hash})
        self.collide = collide
        self.rank = {}
        self.sign = sign
        self.hv = {}

    def hash(self, ai, fn, this, args, e):
        vs = flat(ai, ai.rv(args[0]))
        if not all(isinstance(x, (int, Ptr, Sym)) for x in vs):
            return Top("hash")
        key = repr(vs)
        n = self.rank.setdefault(key, len(self.rank))
        return 1000003 + self.sign * ((n * 7919 + 13) % 1000003 if abs(self.sign) == 1 else n)

    def build(self, d):
        if d in self.memo:
            return self.memo[d]
        ai = self.ai
        if d[0] == "atom":
            c = new_obj(ai, "TERM::Term", [])
            ai.heap[ai.field(c, "hash_value")] = (50 + 100 * ord(d[1][0])) if self.sign > 0 else 99999 - ord(d[1][0])
        elif d[0] == "var":
            c = self.variable(d[1], d[2])
            f = {"$": "_vars_independent", "#": "_vars_dependent", "?": "_vars_query"}[d[1]]
            call(ai, "INDEXVAR::IndexVar::add", pointee_cell(ai, get(ai, c, f)), [d[2], LV(vec(ai, [], "std::vector<int>"))])
        elif d[0] == "()":
            ps = list(d[2])
            if d[1] in ("&&", "{"):
                ps.sort(key=self.order)
            c = self.compound(d[1], [self.build(x) for x in ps])
        else:
            c = self.statement(d[1], self.build(d[2]), self.build(d[3]))
        self.memo[d] = c
        h = call(ai, "TERM::Term::__hash__", c, [])
        self.hv[d] = ai.rv(h)
        if self.collide and with_var(d) and d[0] != "var" and isinstance(self.hv[d], int):
            # any two terms may have the same hash: here all that contain variables do
            ai.heap[ai.field(c, "hash_value")] = self.hv[d] = 77
        ai.collect(list(self.memo.values()) + list(ai.globals.values()))
        return c

    def order(self, d):
        """any fixed order of sub-terms that puts unequal hashes first: components of a set are enumerated in it"""
        self.build(d)
        return (self.hv[d], repr(d))


def norm(d):
    return ("()", d[1], frozenset(map(norm, d[2]))) if d[0] == "()" and d[1] in ("&&", "{") else \
        ("()", d[1], tuple(map(norm, d[2]))) if d[0] == "()" else ("<>", d[1], norm(d[2]), norm(d[3])) if d[0] == "<>" else d


def with_var(d):
    return d[0] == "var" or d[0] == "()" and any(map(with_var, d[2])) or d[0] == "<>" and (with_var(d[2]) or with_var(d[3]))


def sh(d):
    return d[1] + str(d[2]) if d[0] == "var" else d[1] if d[0] == "atom" else "<%s %s %s>" % (sh(d[2]), d[1], sh(d[3])) if d[0] == "<>" else "(%s, %s)" % (d[1], ", ".join(map(sh, d[2])))


def run(ctx):
    for f in (LT, EQ):
        ctx.p.fns(f)
    for sign in ((1, -1) if ctx.tier == "quick" else (1, -1, 2, -2)):
        relation(ctx, sign)
    relation(ctx, 1, True)


def evaluate(ctx, B, name, x, y):
    ai = B.ai
    n = (len(ai.imprecise), len(ai.unknown_calls))
    s0 = ai.heap
    ai.heap = dict(s0)
    o = erun(ai, lambda: ai.rv(call(ai, name, x, [LV(y)])))
    ai.heap = s0
    if o.dead or o.big or o.value not in (True, False) or (len(ai.imprecise), len(ai.unknown_calls)) != n:
        return None
    return bool(o.value)


def relation(ctx, sign, collide=False):
    ts = pool(ctx.tier)
    if sign < 0 and ctx.tier == "quick":
        ts = ts[::2]
    B = Terms(ctx.p, sign, collide)
    if collide:
        sign = "all hashes equal"
    for d in ts:
        B.build(d)
    if not all(isinstance(h, int) for h in B.hv.values()):
        ctx.ob("order/%s/hash" % sign, None, "hash values of the terms are not determined: %s" % (list(B.ai.imprecise)[:2],), LT)
        return
    from ..check import Ob
    rows = list(range(len(ts)))
    # the rows are evaluated in parallel and handed back as obligations' details
    keep = len(ctx.obs)

    def row(i):
        out = []
        x = B.memo[ts[i]]
        for j in rows:
            y = B.memo[ts[j]]
            out.append((evaluate(ctx, B, LT, x, y), evaluate(ctx, B, EQ, x, y)))
        ctx.used(B.ai)
        ctx.obs.append(Ob("row", "ok", out, None, i))
    ctx.par(rows, row)
    m = {o.scenario: o.detail for o in ctx.obs[keep:]}
    del ctx.obs[keep:]
    lt = lambda i, j: m[i][j][0]
    eq = lambda i, j: m[i][j][1]
    nm = [norm(d) for d in ts]
    ctx.count("pairs of terms", len(ts) ** 2)
    same_hash = 0
    bad_pairs = set()
    for i in rows:
        for j in rows:
            x, y = ts[i], ts[j]
            key = "%s vs %s/%s" % (sh(x), sh(y), sign)
            if B.hv[x] == B.hv[y]:
                same_hash += 1
            e = eq(i, j)
            ctx.ob("equality of " + key, None if e is None else e == (nm[i] == nm[j]),
                   "%s == %s evaluates to %s%s" % (sh(x), sh(y), e, " although their hashes agree" if B.hv[x] == B.hv[y] and not e else ""), EQ)
            if j < i:
                continue
            p, q = lt(i, j), lt(j, i)
            if p is None or q is None:
                ctx.ob("order of " + key, None, "comparison not determined", LT)
                continue
            if i == j:
                ok = not p
                why = "%s precedes itself" % sh(x)
            elif nm[i] == nm[j]:
                ok, why = not p and not q, "equal terms are ordered"
            else:
                ok = p != q
                why = "%s and %s precede each other" % (sh(x), sh(y)) if p else "%s and %s differ but neither precedes the other" % (sh(x), sh(y))
            if not ok:
                bad_pairs.add((i, j))
            ctx.ob("order of " + key, ok, why if not ok else "exactly one direction", LT)
    ctx.count("pairs of terms with equal hashes", same_hash)
    # transitivity: for a total relation without violation above, a cycle of three is the only way to fail
    n, cyc = 0, []
    for i in rows:
        for j in rows:
            if not lt(i, j):
                continue
            for k in rows:
                if lt(j, k):
                    n += 1
                    if lt(i, k) is False:
                        cyc.append((i, j, k))
    ctx.count("triples", n)
    for i, j, k in cyc[:8]:
        ctx.ob("transitivity/%s, %s, %s/%s" % (sh(ts[i]), sh(ts[j]), sh(ts[k]), sign), False,
               "%s < %s < %s but not %s < %s" % (sh(ts[i]), sh(ts[j]), sh(ts[k]), sh(ts[i]), sh(ts[k])), LT)
    ctx.ob("transitivity/%s" % sign, not cyc, "%d chains of three, %d broken" % (n, len(cyc)), LT)
    # what the ordered collections use is this order
    fs = ctx.p.by_name.get("TERM::Terms::compare::operator()", [])
    if not fs:
        ctx.ob("comparator/%s" % sign, None, "collections use no comparator of this name", LT)
        return
    ai = B.ai
    for i in rows[::5]:
        for j in rows[::5]:
            cobj = ai.alloc("TERM::Terms::compare", "cmp")
            o = erun(ai, lambda: ai.rv(ai.call(fs[0], cobj, [LV(B.handle(B.memo[ts[i]])), LV(B.handle(B.memo[ts[j]]))])))
            g = None if o.dead or o.big or o.value not in (True, False) else bool(o.value)
            want = lt(i, j)
            ctx.ob("comparator of %s, %s/%s" % (sh(ts[i]), sh(ts[j]), sign), None if g is None or want is None else g == want,
                   "the collections' comparator says %s, the order %s" % (g, want), "TERM::Terms::compare::operator()")
