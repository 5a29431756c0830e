"""Parser tables against the grammar definition.  Translation validation: the grammar is read from its definition file and expanded
here; the productions, the action and goto tables and the token automata of the generated parser are compared with it: productions
by their structure, every state of the automaton with the item set it must stand for (shift, goto, reduction for exactly the
LALR(1) lookaheads, conflicts resolved towards shift and the earlier production), every token automaton with the terminals that can
follow in the states using it (language equality by product construction over character classes).  The driver functions that
interpret the tables are evaluated abstractly."""
import os
import re
from ..driver import *
from ..grammar import Tables, Q

from ..par import *
from ..prog import AnalysisBroken, REPO

FILE = "Narsese/Parser/narsese.h"
PAR = "Narsese/Parser/narsese.par"
TOK = re.compile(r"""'\\t '|~?"(?:\\.|[^"\\])*"'?|\S+""")


def ob(ctx, key, bad, file, line):
    ctx.ob("/".join(map(str, key)), not bad, "; ".join(bad), (file, line or 0, "parser tables"))


class V:
    """the tables, with symbols identified by name"""

    def __init__(self, p, g):
        t = self.t = Tables(p)
        self.g = g
        self.first = min(x["lhs"] for x in t.prods)
        self.name = [unescape(s["name"]) for s in t.symbols]
        self.num = {n: i for i, n in enumerate(self.name)}
        if len(self.num) != len(self.name):
            raise AnalysisBroken("two grammar symbols have the same name")
        self.ws = [i for i in range(self.first) if t.symbols[i]["whitespace"]]
        self.bad = []
        self.prods = [(x["lhs"], tuple(self.rhs(x))) for x in t.prods]

    def rhs(self, p):
        d = p["definition"].partition(" : ")[2]
        for x in TOK.findall(d):
            if x[:2] in ("~&", "~\"", "~@"):
                x = x[1:]
            if x[0] == '"' and len(x) > 2 and x[-1] == '"':
                k = unescape(x[1:-1])
            elif x == "'\\t '":
                k = "\t "
            elif x[0] == "@" and x != "@'":
                k = x[1:]
            else:
                k = unescape(x)
            if k not in self.num:
                raise AnalysisBroken("production %d: symbol %r is unknown" % (p["i"], x))
            yield self.num[k]

    def terminal(self, i):
        """the terminal of the grammar definition a table symbol stands for"""
        n = self.name[i]
        if n in self.g.terms:
            return n
        if '"%s"' % n in self.g.terms:
            return '"%s"' % n
        return None

    # ---- structure of a table nonterminal, in the terms of the definition
    def expr(self, i, seen=()):
        n = self.name[i]
        if i < self.first:
            return ("t", self.terminal(i))
        if n in self.g.named:
            return ("nt", n)
        alts = [(r, self.t.prods[k]["emit"] or None) for k, (l, r) in enumerate(self.prods) if l == i]
        if i in seen:
            return ("?", "recursive helper")
        seen = seen + (i,)
        if len(alts) == 1 and len(alts[0][0]) == 2 and alts[0][0][0] < self.first and self.is_ws_star(alts[0][0][1]):
            return ("t", self.terminal(alts[0][0][0]))
        bare = sorted(r for r, e in alts if e is None)
        if len(alts) == 2 and len(bare) == 2:
            if () in bare:
                x = [r for r in bare if r][:1]
                if x and len(x[0]) == 1:
                    inner = self.expr(x[0][0], seen)
                    return ("*", inner[1]) if inner[0] == "+" else ("?", inner)
            one = [r for r in bare if len(r) == 1]
            two = [r for r in bare if len(r) == 2]
            if one and two and two[0] in ((i, one[0][0]), (one[0][0], i)):
                return ("+", self.expr(one[0][0], seen))
        return ("group", tuple((tuple(self.expr(x, seen) for x in r), e) for r, e in alts))

    def is_ws_star(self, i):
        """whitespace*: derives exactly the sequences of whitespace terminals"""
        try:
            r = self.shape(i, ())
        except RecursionError:
            return False
        return r == ("*", ("w",))

    def shape(self, i, seen):
        if i < self.first:
            return ("w",) if i in self.ws else ("t", i)
        if i in seen:
            return ("rec", i)
        alts = sorted(r for l, r in self.prods if l == i)
        seen = seen + (i,)
        if len(alts) == 1 and len(alts[0]) == 1:
            return self.shape(alts[0][0], seen)
        if len(alts) == 2:
            if alts[0] == () and len(alts[1]) == 1:
                s = self.shape(alts[1][0], seen)
                return ("*", s[1]) if s[0] == "+" else ("?", s)
            if len(alts[0]) == 1 and alts[1] in ((i, alts[0][0]), (alts[0][0], i)) or \
               len(alts[1]) == 1 and alts[0] in ((i, alts[1][0]), (alts[1][0], i)):
                o = alts[0] if len(alts[0]) == 1 else alts[1]
                return ("+", self.shape(o[0], seen))
        return ("alts", i)


def show(x):
    k, v = x
    if k in "?*+" and isinstance(v, tuple):
        return show(v) + k
    if k == "group":
        return "(" + " | ".join(show_alt(a) for a in v) + ")"
    return str(v)


def show_alt(a):
    return " ".join(show(x) for x in a[0]) + (" = " + a[1] if a[1] else "")


# ------------------------------------------------------------------------------------------------ productions
def productions(ctx, v, line):
    t, g = v.t, v.g
    for n, alts in g.named.items():
        if n not in v.num or v.num[n] < v.first:
            ob(ctx, ("nonterminal", n), ["%s of the definition is not in the tables" % n], FILE, line)
            continue
        have = [(k, (tuple(v.expr(x) for x in r), t.prods[k]["emit"] or None)) for k, (l, r) in enumerate(v.prods) if l == v.num[n]]
        for a in alts:
            bad = [] if any(a == h for _, h in have) else \
                ["no production for %s : %s; the tables have %s" % (n, show_alt(a), "; ".join(show_alt(h) for _, h in have)[:300])]
            ob(ctx, ("production", n, show_alt(a)), bad, FILE, line)
        for k, h in have:
            if h not in alts:
                ob(ctx, ("production", n, k), ["production %d (%s) is not in the definition: %s" % (k, t.prods[k]["definition"], show_alt(h))], FILE, line)
    for p, (l, r) in zip(t.prods, v.prods):
        bad = []
        left = v.num.get(unescape(p["lhs_name"]))
        if left != p["lhs"]:
            bad.append("production %d (%s) reduces to symbol %d (%s)" % (p["i"], p["definition"], p["lhs"], v.name[p["lhs"]] if p["lhs"] < len(v.name) else "?"))
        if len(r) != p["length"]:
            bad.append("production %d (%s) removes %d symbols" % (p["i"], p["definition"], p["length"]))
        ob(ctx, ("production table", p["i"]), bad, FILE, line)
    # the frame around the goal: whitespace, the goal, end of input
    used = {x for _, r in v.prods for x in r}
    tops = sorted({l for l, _ in v.prods} - used)
    bad = []
    if len(tops) != 1:
        bad.append("there is no single start symbol: %s" % [v.name[x] for x in tops])
    else:
        seq = flatten(v, tops[0])
        if seq != ["ws*", ("nt", g.goal), "end"]:
            bad.append("the tables start from %s, not from %s followed by the end of the input" % (seq, g.goal))
    ob(ctx, ("start",), bad, FILE, line)
    for i, s in enumerate(t.symbols[:v.first]):
        bad = []
        n = v.terminal(i)
        if n is None and i not in v.ws and i != 0:
            bad.append("terminal %r is not in the definition" % v.name[i])
        want = g.term_emit.get(n)
        if (s["emit"] or None) != want:
            bad.append("terminal %s is recorded in the tree as %r, the definition says %r" % (v.name[i], s["emit"], want))
        if not s["greedy"]:
            bad.append("terminal %s is not matched to its full length" % v.name[i])
        ob(ctx, ("terminal", i), bad, FILE, line)
    for n in g.terms:
        if n not in {v.terminal(i) for i in range(v.first)}:
            ob(ctx, ("terminal", n), ["terminal %s of the definition is not in the tables" % n], FILE, line)
    return tops[0] if len(tops) == 1 else None


def flatten(v, i):
    if i == 0:
        return ["end"]
    if v.is_ws_star(i):
        return ["ws*"]
    if v.name[i] in v.g.named:
        return [("nt", v.name[i])]
    alts = [r for l, r in v.prods if l == i]
    return [y for x in alts[0] for y in flatten(v, x)] if len(alts) == 1 else [v.name[i]]


# ------------------------------------------------------------------------------------------------ automaton
def automaton(ctx, v, start, line):
    t = v.t
    lr = LR(v.prods, start, set(range(v.first)))
    row = [{r[i]: (r[i + 1], r[i + 2]) for i in reversed(range(1, r[0] * 3, 3))} for r in t.actions]
    gor = [{r[i]: (r[i + 1], r[i + 2]) for i in reversed(range(1, r[0] * 3, 3))} for r in t.go]
    item = lambda p, d: "%s (position %d)" % (t.prods[p]["definition"], d)
    K = {0: {(i, 0): set() for i in lr.by[start]}}
    bad = {}
    I = {}
    w = [0]
    while w:
        s = w.pop()
        I[s] = lr.closure(K[s])
        bad[s] = []
        by = {}
        for (p, d), la in I[s].items():
            r = v.prods[p][1]
            if d < len(r):
                by.setdefault(r[d], {}).setdefault((p, d + 1), set()).update(la)
        for X, ker in by.items():
            e = (row if X < v.first else gor)[s].get(X)
            if e is None:
                bad[s].append("%s is not accepted although %s expects it" % (v.name[X], item(*min((p, d - 1) for p, d in ker))))
            elif e[0] == 3:
                if set(ker) != {(e[1], len(v.prods[e[1]][1]))}:
                    bad[s].append("on %s production %d is reduced, expected %s" % (v.name[X], e[1], item(*min(ker))))
            elif e[0] == 2 and 0 <= e[1] < len(row):
                if e[1] not in K:
                    K[e[1]] = ker
                    w.append(e[1])
                elif set(K[e[1]]) != set(ker):
                    bad[s].append("on %s the parser enters state %d, which stands for %s, not for %s"
                                  % (v.name[X], e[1], item(*min(K[e[1]])), item(*min(ker))))
                else:
                    ch = [k for k, la in ker.items() if not la <= K[e[1]][k]]
                    for k in ch:
                        K[e[1]][k] |= ker[k]
                    if ch:
                        w.append(e[1])
            else:
                bad[s].append("on %s the action is %s, a shift is required" % (v.name[X], e))
        for X in gor[s]:
            if X not in by:
                bad[s].append("there is a transition on %s, which cannot occur here" % v.name[X])
        for X, e in row[s].items():
            if e[0] & 2 and X not in by:
                bad[s].append("%s is accepted although nothing expects it" % v.name[X])
    viable = {}
    n = 0
    for s in sorted(K):
        comp = {p: la for (p, d), la in I[s].items() if d == len(v.prods[p][1])}
        sh = {v.prods[p][1][d] for p, d in I[s] if d < len(v.prods[p][1])}
        sh = {x for x in sh if x < v.first}
        viable[s] = sh.union(*comp.values()) if comp else set(sh)
        for a in viable[s] - sh:
            want = min(p for p, la in comp.items() if a in la)
            e = t.act(s, a)
            n += 1
            if e is None or e[0] != 1 or e[1] != want:
                bad[s].append("before %s the rule %s must be reduced, the table says %s" % (v.name[a], t.prods[want]["definition"], e))
        for a, e in row[s].items():
            if e[0] == 1 and (e[1] not in comp or a not in comp[e[1]]):
                bad[s].append("before %s production %d is reduced, which is not possible here" % (v.name[a], e[1]))
        if t.def_prod[s] > -1 and t.def_prod[s] not in comp:
            bad[s].append("the default reduction %s is not possible here" % t.prods[t.def_prod[s]]["definition"])
        if not comp and not sh:
            bad[s].append("nothing can follow")
        n += len(sh) + len(gor[s])
        ob(ctx, ("state", s), bad[s][:5], FILE, line)
    ctx.count("table entries compared", n)
    return viable


# ------------------------------------------------------------------------------------------------ tokens
def tokens(ctx, v, viable, line):
    t, g = v.t, v.g
    ws = ccl(g.directives.get("whitespaces", ""))
    sets = {}
    for s in viable:
        sets.setdefault((t.dfa_select[s], frozenset(viable[s])), []).append(s)
    nm = len(t.dfa_idx)
    pairs = 0
    for (m, vs), states in sorted(sets.items(), key=lambda x: (x[0][0], sorted(x[0][1]))):
        key = ("tokens", m, min(states))
        if m < 0:
            ob(ctx, key, [] if vs == {0} else ["no token is recognised in state %d although %s can follow"
                                               % (states[0], ", ".join(v.name[x] for x in vs))], FILE, line)
            continue
        if m >= nm:
            ob(ctx, key, ["token automaton %d does not exist" % m], FILE, line)
            continue
        ns = {}
        for x in vs:
            if x == 0:
                continue
            n = v.terminal(x)
            if n is None and x not in v.ws:
                continue
            alts = g.terms[n] if n is not None else [((("ccl", ws),), None)]
            nf, a, e = token_nfa(alts)
            ns[x] = (nf, nf.close({a}), e)
        cuts = set().union(*[nf.cuts() for nf, _, _ in ns.values()]) if ns else {0}
        st = (0, tuple(sorted((x, q[1]) for x, q in ns.items())), "")
        seen, work, bad = {st[:2]}, [st], []
        rows = {}
        while work and len(bad) < 4:
            d, S, path = work.pop(0)
            if d not in rows:
                rows[d] = ranges(t, m, d)
                if rows[d] is None:
                    bad.append("the transitions of state %d of token automaton %d run out of the table" % (d, m))
                    break
            rr = rows[d]
            cc = set(cuts)
            for lo, hi, _ in rr:
                cc |= {lo, hi + 1}
            for c in sorted(c for c in cc if c <= MAXCHAR):
                pairs += 1
                d2 = next((x for lo, hi, x in rr if lo <= c <= hi), -1)
                S2 = tuple((x, q) for x, q in ((x, ns[x][0].step(q, c)) for x, q in S) if q)
                acc = {x for x, q in S2 if ns[x][2] in q}
                got = None
                if d2 >= 0:
                    a = t.dfa_accept[m][d2] if d2 < len(t.dfa_accept[m]) else 0
                    got = a - 1 if a > 0 else None
                text = path + (chr(c) if c > 31 and not 0xD800 <= c < 0xE000 else "\\x%02x" % c)
                if bool(S2) != (d2 >= 0):
                    # a dead end that accepts nothing later is harmless; a missing transition is not
                    if S2 or got is not None:
                        bad.append("%r %s in state %d" % (text, "can begin a token (%s) and is refused" % names(v, [x for x, _ in S2])
                                                          if S2 else "is taken for %s" % v.name[got], states[0]))
                    elif reach_accept(t, m, d2):
                        bad.append("%r begins no token in state %d and is not refused" % (text, states[0]))
                    continue
                want = min(acc) if acc else None
                if got != want:
                    bad.append("%r is %s in state %d, it is %s" % (text, "not a token" if got is None else "taken for " + v.name[got], states[0],
                                                                  "no token" if want is None else v.name[want]))
                    continue
                k = (d2, S2)
                if d2 >= 0 and k not in seen:
                    seen.add(k)
                    work.append(k + (text,))
        ob(ctx, key, bad[:3], FILE, line)
    ctx.count("pairs of automaton states compared", pairs)


def names(v, xs):
    return ", ".join(v.name[x] for x in xs)


def ranges(t, m, d):
    c = t.dfa_idx[m][d]
    out = []
    while True:
        if c + 1 >= len(t.dfa_chars) or c // 2 >= len(t.dfa_trans):
            return None
        if t.dfa_chars[c] < 0:
            return out
        out.append((t.dfa_chars[c], t.dfa_chars[c + 1], t.dfa_trans[c // 2]))
        c += 2


def reach_accept(t, m, d):
    seen, w = set(), [d]
    while w:
        x = w.pop()
        if x in seen or x < 0:
            continue
        seen.add(x)
        if t.dfa_accept[m][x] > 0:
            return True
        w += [q for _, _, q in ranges(t, m, x) or []]
    return False


def run(ctx):
    p = ctx.p
    path = os.path.join(REPO, PAR)
    if not os.path.isfile(path):
        raise AnalysisBroken("grammar definition %s is missing" % PAR)
    g = Grammar(open(path, encoding="utf-8-sig").read())
    v = V(p, g)
    line = v.t.line
    start = productions(ctx, v, line)
    if start is None:
        return
    viable = automaton(ctx, v, start, line)
    tokens(ctx, v, viable, line)
    driver(ctx, v, start)


# ------------------------------------------------------------------------------------------------ driver
def site(d, name):
    f = [f for f in d.p.fns(name)]
    return (f[0].get("file", "?"), f[0].get("l", 0), name) if f else ("?", 0, name)


def attempt(ctx, key, w, f):
    """f() -> list of what is wrong; a fault of the evaluated code is wrong, running out of steps too"""
    try:
        bad = f()
    except Event as x:
        bad = ["%s (%s:%s)" % (x.text, x.where[0], x.where[1])]
    except Fuel:
        bad = ["the evaluation does not end"]
    except AnalysisBroken as x:
        ctx.ob(key, None, "not determined: %s" % x, w)
        return
    ctx.ob(key, not bad, "; ".join(bad[:3]), w)


def actions(ctx, t, s):
    """get_act and get_go, for every symbol in state s"""
    d = D(ctx.p)
    d.set("tos", Pt(Arr([struct(d.m, "_tok", state=s)], "_tok", "the stack"), 0))

    def act():
        bad = []
        for x in [-1] + list(range(min(p["lhs"] for p in t.prods))):
            d.set("sym", x)
            d.set("act", UNINIT)
            d.set("idx", UNINIT)
            r = d.call("get_act")
            want = t.act(s, x)
            got = (d.get("act"), d.get("idx")) if r else None
            if got != (None if want is None or want[0] == 0 else want):
                bad.append("in state %d, before symbol %d, the action is %s; the table says %s" % (s, x, got, want))
        ctx.count("actions looked up", x + 2)
        return bad

    def go():
        bad = []
        row = t.go[s]
        for i in range(1, row[0] * 3, 3):
            d.set("lhs", row[i])
            d.set("act", UNINIT)
            d.set("idx", UNINIT)
            r = d.call("get_go")
            got = (d.get("act"), d.get("idx")) if r else None
            if got != t.goto(s, row[i]):
                bad.append("in state %d, after %s, the transition is %s; the table says %s" % (s, t.symbols[row[i]]["name"], got, t.goto(s, row[i])))
        return bad
    attempt(ctx, "get_act/%d" % s, site(d, "_parser::get_act"), act)
    attempt(ctx, "get_go/%d" % s, site(d, "_parser::get_go"), go)


def paths(t, m):
    """a shortest text leading to each state of token automaton m: a character of each interval, at every position"""
    out, w = {0: ()}, [0]
    iv = intervals(t)
    while w:
        s = w.pop(0)
        for lo, hi, x in ranges(t, m, s) or []:
            y = [i for i in iv if lo <= i[0] and i[1] <= hi and not i[0] <= 10 <= i[1] and i[0] > 0]
            if x not in out and y:
                out[x] = out[s] + (Ch(*y[0], len(out[s])),)
                w.append(x)
    return out


def lexer(ctx, t, m):
    states = [s for s in range(len(t.dfa_select)) if t.dfa_select[s] == m]
    if not states:
        return
    s = states[0]
    d = D(ctx.p)
    d.set("tos", Pt(Arr([struct(d.m, "_tok", state=s)], "_tok", "the stack"), 0))
    d.set("is_eof", 0)
    cur = []
    reads = []
    iv = intervals(t)

    def get_input(mm, this, a):
        reads.append(a[0])
        return cur[a[0]] if a[0] < len(cur) else 10
    d.m.stubs["_parser::get_input"] = get_input

    def run_():
        bad = []
        n = 0
        for q, path in paths(t, m).items():
            for a, b in iv:
                if a <= 0:
                    continue
                cur[:] = list(path) + [10 if a == b == 10 else Ch(a, b, len(path)), 97, 10]
                d.set("sym", UNINIT)
                d.set("len", UNINIT)
                d.call("get_sym")
                want = ref_lex(t, s, cur, 0)
                got = (d.get("sym"), d.get("len"))
                n += 1
                if got[0] != want[0] or want[0] > 0 and got[1] != want[1]:
                    bad.append("in state %d, %r is taken for symbol %s of length %s; the automaton says %s"
                               % (s, "".join(map(str, cur[:-1])), got[0], got[1], want))
        ctx.count("lexer cases", n)
        return bad
    attempt(ctx, "lex/%d" % m, site(d, "_parser::lex"), run_)


def buffers(ctx):
    """the input buffer: from every kind of state it can be in, reading delivers the next characters and keeps what was read"""
    step = 128

    def setup(n, line=1):
        d = D(ctx.p)
        cap = (n // step + 1) * step + 1
        if n is not None:
            a = Arr([65 + i % 26 for i in range(n)] + [0] + [UNINIT] * (cap - n - 1), "wchar_t", "the input buffer", True)
            d.set("buf", Pt(a, 0))
            d.set("bufend", Pt(a, n))
        d.set("is_eof", 0)
        d.set("line", 1)
        d.set("column", 1)
        return d

    def content(d):
        b, e = d.get("buf"), d.get("bufend")
        if not isinstance(b, Pt) or not isinstance(e, Pt) or b.c is not e.c:
            return None, "buf and bufend do not delimit a buffer"
        xs = b.c.a[b.i:e.i]
        if not 0 <= e.i < len(b.c.a) or b.c.a[e.i] != 0:
            return xs, "the buffer is not terminated"
        return xs, None

    def fresh():
        d = D(ctx.p)
        d.set("is_eof", 0)
        return d

    def read(n, off, more):
        def f():
            d = fresh() if n is None else setup(n)
            src = [97 + i % 26 for i in range(more)]
            pos = [0]

            def get_char(m, this, a):
                pos[0] += 1
                return src[pos[0] - 1] if pos[0] <= len(src) else 10
            d.m.stubs["_CharFetcher::get_char"] = get_char
            have = [65 + i % 26 for i in range(n or 0)]
            r = d.call("get_input", off)
            xs, e = content(d)
            if e:
                return [e]
            taken = src[:max(0, off + 1 - len(have))]
            if xs != have + taken:
                return ["%d characters buffered, offset %d asked for: the buffer holds %d characters, or others than were read" % (len(have), off, len(xs))]
            want = (have + taken)[off] if off < len(have + taken) else 10
            if r != want:
                return ["%d characters buffered, offset %d asked for: character %s is delivered, not %s" % (len(have), off, r, want)]
            if bool(d.get("is_eof")) != (off >= len(have + taken)):
                return ["the end of the input is not recorded where it is"]
            return []
        return f

    def clear(n, k):
        def f():
            d = setup(n)
            b = d.get("buf").c
            if n > 2 and k > 1:
                b.a[1] = 10
            d.set("len", k)
            d.set("sym", 5)
            old = b.a[:n]
            d.call("clear_input")
            xs, e = content(d)
            if e:
                return [e]
            want = old[k:] if k else []
            bad = []
            if xs != want:
                bad.append("after %d of %d characters were used, %d remain that are not the rest of the input" % (k, n, len(xs)))
            if d.get("sym") != -1 or d.get("len") != 0:
                bad.append("the symbol is not discarded")
            return bad
        return f
    w = ("Narsese/Parser/narsese.cpp", 0, "_parser::get_input")
    d0 = D(ctx.p)
    for n in (None, 0, 1, 2, 126, 127, 128, 129, 200, 255, 256, 257):
        offs = {0, 1, n or 0, (n or 0) + 1, max(0, (n or 0) - 1)} if n is None or n < 200 else {0, n - 1, n, n + 1}
        for off in sorted(offs):
            for more in (0, 1, 2, 300):
                if off <= (n or 0) + more:
                    attempt(ctx, "get_input/%s/%d/%d" % (n, off, more), site(d0, "_parser::get_input"), read(n, off, more))
        if n is not None:
            for k in sorted({0, 1, n // 2, n}):
                if k <= n:
                    attempt(ctx, "clear_input/%d/%d" % (n, k), site(d0, "_parser::clear_input"), clear(n, k))

    def lexeme(codes):
        def f():
            d = fresh()
            a = Arr([c for c in codes] + [0], "wchar_t", "the input buffer", True)
            d.set("buf", Pt(a, 0))
            d.set("bufend", Pt(a, len(codes)))
            r = d.call("get_lexem")
            if r == 0:
                return ["no text is delivered"]
            got, want = word(d.m.cstr(r)), word(codes)
            return [] if got == want else ["the text of the token is %r, it was written %r" % (written(got), written(want))]
        return f
    for name, codes in (("ascii", [97, 98, 99]), ("empty", []), ("one", [120]), ("long", [97] * 300), ("utf-8", list("é中ñ".encode())),
                        ("high", [128, 255, 254, 97])):
        attempt(ctx, "get_lexem/%s" % name, site(d0, "_parser::get_lexem"), lexeme(codes))

    def fetch(codes):
        def f():
            d = fresh()
            fill(d, codes)
            cf = d.get("char_fetcher")
            g = d.fn("_CharFetcher::get_char")
            got = []
            for _ in range(len(codes) + 1):
                d.m.fuel = d.m.fuel0
                got.append(d.m.call(g, cf, []))
            want = [c for c in codes] + [10]
            if codes and codes[-1] == 10:
                want, got = want[:-1], got[:-1]
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
            return [] if k is None else ["byte %d of the text is delivered as character %s" % (want[k], got[k])]
        return f
    for name, codes in (("bytes", [c for c in range(1, 256) if c != 10]), ("empty", []), ("line", [97, 10]), ("long", [98] * 400)):
        attempt(ctx, "fetch/%s" % name, site(d0, "_CharFetcher::fetch"), fetch(codes))


def texts(tier):
    """(name, text): written forms of the sentence shapes, and sentences with a defect"""
    from . import p04
    from .. import lang
    from ..grammar import N
    val = {"integer": "12", "k_evidence": "34"}
    seen = set()
    k = 0
    base = []
    for name, ss in p04.sequences("quick"):
        for q in ss[:1]:
            parts = [val.get(x.kind, "0.%d" % (5 + i % 4)) if isinstance(x, N) else '"%s"' % x.strip('"') if isinstance(x, Q) else str(x)
                     for i, x in enumerate(q)]
            s = " ".join(parts)
            if s in seen:
                continue
            seen.add(s)
            base.append((name, parts))
            yield (name, s)
            if k % (9 if tier == "quick" else 1) == 0:
                yield (name + "/tight", "".join(parts))
            k += 1
    for i, (name, parts) in enumerate(base):
        if tier == "quick" and i % 15:
            continue
        for j in range(len(parts)):
            yield ("%s/without %d" % (name, j), " ".join(parts[:j] + parts[j + 1:]))
        yield (name + "/twice", " ".join(parts + parts))
    deep = 60 if tier == "quick" else 200
    yield ("deep", "<" + "(--, " * deep + "a" + ")" * deep + " --> b>.")
    for n in (117, 118, 119, 120, 121, 245, 246, 247):
        yield ("long/%d" % n, "<a --> %s>." % ("b" * n))
        yield ("long cut/%d" % n, "<a --> %s" % ("b" * n))
    for s in ("", " ", ".", "a", "<é --> \"中 文\">.", "\t<a --> b>.", "<a-->b>.\t", "$1;0.5;1$ a! :!-5: %1%", "$x --> a.", "<a --> b>. \r",
              "a.b", "0.5.", "<\"a\\\"b\" --> c>?", "(^go)!", "(*, a).", "<a --> {b}>@", "a. :/:", "(a, b, c).", "((^op, a), b).", "<$1 ==> b>.",
              "( --a).", "--a.", "(a - b).", "(a-->b).", "(- , a, b).", "<+5 --> a>.", "&&", "(&&, a).", "<a --> b>. %1.1%", "%"):
        yield ("text %r" % s, s)


def whole(ctx, t, goal, name, s):
    def f():
        d = D(ctx.p, 100000 + 10000 * len(s))
        codes = general(t, encode(s)) + [10]
        fill(d, codes[:-1])
        d.m.fuel = d.m.fuel0
        d.call("parse")
        want = ref_parse(t, goal, codes)
        a = d.get("ast")
        got = tree(d, a) if a is not UNINIT and a != 0 else None
        d_used(ctx, d)
        if got != want:
            if want is None:
                return ["%r is accepted, it is not of the language" % s]
            if got is None:
                return ["%r is rejected, it is of the language" % s]
            return ["%r is analysed as %s, the tables prescribe %s" % (s, brief(got, want), brief(want, got))]
        if want is None and not d.get("error_count"):
            return ["%r is rejected without a syntax error being reported" % s]
        return []
    ctx.count("texts evaluated")
    attempt(ctx, "parse/%s" % name, ctx.site("_parser::parse"), f)


def d_used(ctx, d):
    ctx.functions |= {d.p.funcs[u]["fn"]["n"] for u in d.m.visited if u in d.p.funcs}


def brief(a, b):
    """the innermost difference"""
    if a and b and len(a) == len(b) == 1 and a[0][:2] == b[0][:2]:
        return brief(a[0][2], b[0][2])
    return str([(x[0], x[1] and written(x[1]), "…" if x[2] else "") for x in a])[:160]


def driver(ctx, v, start):
    t = v.t
    ctx.par(range(len(t.actions)), lambda s: actions(ctx, t, s))
    ctx.par(range(len(t.dfa_idx)), lambda m: lexer(ctx, t, m))
    buffers(ctx)
    ctx.par(list(texts(ctx.tier)), lambda x: whole(ctx, t, start, *x))
