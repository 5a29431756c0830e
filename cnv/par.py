"""The written grammar (narsese.par): its reader, its expansion to productions, LR(1)-lookahead item sets, and finite automata of
its terminals.  Everything here is computed from the grammar text alone; nothing of the generated tables is used."""
from .prog import AnalysisBroken

MAXCHAR = 0xFFFF


# ------------------------------------------------------------------------------------------------ reader
class Reader:
    def __init__(self, text):
        self.s, self.i = text, 0
        self.rules = []          # (kind 'nt'|'term', name, goal, alternatives)
        self.directives = {}

    def err(self, m):
        raise AnalysisBroken("grammar definition, line %d: %s" % (self.s.count("\n", 0, self.i) + 1, m))

    def ws(self):
        while self.i < len(self.s):
            if self.s[self.i].isspace():
                self.i += 1
            elif self.s.startswith("//", self.i):
                j = self.s.find("\n", self.i)
                self.i = len(self.s) if j < 0 else j
            elif self.s.startswith("/*", self.i):
                j = self.s.find("*/", self.i)
                self.i = len(self.s) if j < 0 else j + 2
            else:
                break

    def peek(self):
        self.ws()
        return self.s[self.i] if self.i < len(self.s) else ""

    def take(self, x):
        self.ws()
        if self.s.startswith(x, self.i):
            self.i += len(x)
            return True
        return False

    def need(self, x):
        if not self.take(x):
            self.err("%r expected" % x)

    def name(self):
        self.ws()
        j = self.i
        while j < len(self.s) and (self.s[j].isalnum() or self.s[j] == "_"):
            j += 1
        if j == self.i:
            self.err("name expected")
        r = self.s[self.i:j]
        self.i = j
        return r

    def quoted(self, q):
        """raw text between quotes; a backslash keeps the next character"""
        self.need(q)
        j = self.i
        while j < len(self.s) and self.s[j] != q:
            j += 2 if self.s[j] == "\\" else 1
        r = self.s[self.i:j]
        self.i = j + 1
        return r

    # alternatives := seq ('|' seq)* ; seq := item* ('=' name)? ; item := atom [?*+]
    def alts(self, term, end):
        r = [self.seq(term, end)]
        while self.take("|"):
            r.append(self.seq(term, end))
        return r

    def seq(self, term, end):
        items, emit = [], None
        while True:
            c = self.peek()
            if c == "" or c in end or c == "|":
                break
            if c == "=":
                self.take("=")
                emit = self.name()
                continue
            if emit is not None:
                self.err("symbol after the name of a production")
            a = self.atom(term)
            c = self.s[self.i] if self.i < len(self.s) else ""
            if c and c in "?*+":
                self.i += 1
                a = (c, a)
            items.append(a)
        return (tuple(items), emit)

    def atom(self, term):
        c = self.peek()
        if c == "(":
            self.need("(")
            r = self.alts(term, ")")
            self.need(")")
            return ("group", tuple(r))
        if c == '"':
            return ("str", unescape(self.quoted('"')))
        if c == "'":
            return ("ccl", ccl(self.quoted("'")))
        if c == "!":
            self.need("!")
            return ("ccl", complement(ccl(self.quoted("'"))))
        if c == "@":
            self.need("@")
            return ("term", self.name())
        if term:
            self.err("unexpected %r in a terminal" % c)
        return ("nt", self.name())

    def read(self):
        while self.peek():
            if self.take("#"):
                self.take("!")
                n = self.name()
                if self.peek() == "[":
                    j = self.s.find("*]", self.i)
                    if j < 0:
                        self.err("unterminated block")
                    v = self.s[self.i:j + 2]
                    self.i = j + 2
                else:
                    q = self.peek()
                    v = self.quoted(q) if q in "\"'" else self.name()
                self.directives[n] = v
                self.need(";")
            elif self.take("@"):
                n = self.name()
                a = self.alts(True, ";")
                self.need(";")
                em = [e for _, e in a if e]
                self.rules.append(("term", n, False, a, em[0] if em else None))
            else:
                n = self.name()
                goal = self.take("$")
                self.need(":")
                a = self.alts(False, ";")
                self.need(";")
                self.rules.append(("nt", n, goal, a, None))
        return self


ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}


def unescape(s):
    r, i = "", 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            r += ESC.get(s[i + 1], s[i + 1])
            i += 2
        else:
            r += s[i]
            i += 1
    return r


def ccl(s):
    """ranges of a character class"""
    out, chars, i = [], [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            chars.append((ESC.get(s[i + 1], s[i + 1]), True))
            i += 2
        else:
            chars.append((s[i], False))
            i += 1
    i = 0
    while i < len(chars):
        if i + 2 < len(chars) and chars[i + 1] == ("-", False):
            out.append((ord(chars[i][0]), ord(chars[i + 2][0])))
            i += 3
        else:
            out.append((ord(chars[i][0]),) * 2)
            i += 1
    return norm(out)


def norm(rs):
    r = []
    for a, b in sorted(rs):
        if r and a <= r[-1][1] + 1:
            r[-1] = (r[-1][0], max(b, r[-1][1]))
        else:
            r.append((a, b))
    return tuple(r)


def complement(rs):
    r, lo = [], 0
    for a, b in rs:
        if lo < a:
            r.append((lo, a - 1))
        lo = b + 1
    if lo <= MAXCHAR:
        r.append((lo, MAXCHAR))
    return tuple(r)


# ------------------------------------------------------------------------------------------------ grammar
class Grammar:
    """named: {nonterminal: [(items, emit)]}, items over ('nt',x) ('t',terminal) and ('?'|'*'|'+'|'group', …)"""

    def __init__(self, text):
        rd = Reader(text).read()
        self.directives = rd.directives
        self.named, self.terms, self.term_emit, self.goal = {}, {}, {}, None
        for kind, n, goal, alts, emit in rd.rules:
            if kind == "term":
                self.terms[n] = alts
                self.term_emit[n] = emit
            else:
                if n in self.named:
                    raise AnalysisBroken("grammar definition: %s defined twice" % n)
                self.named[n] = None
                if goal:
                    self.goal = n
        for kind, n, goal, alts, emit in rd.rules:
            if kind == "nt":
                # an emission written behind the last alternative belongs to that alternative
                self.named[n] = [(tuple(self.sym(x) for x in it), em) for it, em in alts]
        if self.goal is None:
            raise AnalysisBroken("grammar definition has no goal")

    def sym(self, x):
        k, v = x
        if k in "?*+":
            return (k, self.sym(v))
        if k == "group":
            return (k, tuple((tuple(self.sym(y) for y in it), em) for it, em in v))
        if k == "str":
            self.terms.setdefault('"%s"' % v, [((("str", v),), None)])
            self.term_emit.setdefault('"%s"' % v, None)
            return ("t", '"%s"' % v)
        if k == "term":
            if v not in self.terms:
                raise AnalysisBroken("grammar definition: terminal %s is not defined" % v)
            return ("t", v)
        if k == "nt":
            if v not in self.named:
                raise AnalysisBroken("grammar definition: %s is not defined" % v)
            return (k, v)
        raise AnalysisBroken("grammar definition: character class inside a production")


# ------------------------------------------------------------------------------------------------ automata
class NFA:
    def __init__(self):
        self.eps, self.tr, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def t(self, a, rs, b):
        self.tr.setdefault(a, []).append((rs, b))

    def build(self, x, a):
        """-> end state"""
        k, v = x
        if k == "str":
            for c in v:
                b = self.new()
                self.t(a, ((ord(c),) * 2,), b)
                a = b
            return a
        if k == "ccl":
            b = self.new()
            self.t(a, v, b)
            return b
        if k == "group":
            return self.alts(v, a)
        if k in "?*+":
            s = self.new()
            self.e(a, s)
            m = self.build(v, s)
            b = self.new()
            self.e(m, b)
            if k != "+":
                self.e(s, b)
            if k != "?":
                self.e(m, s)
            return b
        raise AnalysisBroken("terminal construct %s" % k)

    def alts(self, v, a):
        b = self.new()
        for it, _ in v:
            x = a
            s = self.new()
            self.e(x, s)
            x = s
            for y in it:
                x = self.build(y, x)
            self.e(x, b)
        return b

    def close(self, S):
        S, w = set(S), list(S)
        while w:
            for y in self.eps.get(w.pop(), ()):
                if y not in S:
                    S.add(y)
                    w.append(y)
        return frozenset(S)

    def step(self, S, c):
        return self.close({b for a in S for rs, b in self.tr.get(a, ()) if any(l <= c <= h for l, h in rs)})

    def cuts(self):
        r = {0}
        for l in self.tr.values():
            for rs, _ in l:
                for lo, hi in rs:
                    r.add(lo)
                    r.add(hi + 1)
        return r


def token_nfa(alts):
    n = NFA()
    a = n.new()
    return n, a, n.alts(alts, a)


# ------------------------------------------------------------------------------------------------ LR
class LR:
    """LALR(1) lookaheads of a grammar given as prods [(lhs, rhs tuple)], start symbol and end marker"""

    def __init__(self, prods, start, terminals):
        self.prods, self.start, self.term = prods, start, terminals
        self.by = {}
        for i, (l, r) in enumerate(prods):
            self.by.setdefault(l, []).append(i)
        self.nullable = set()
        ch = True
        while ch:
            ch = False
            for l, r in prods:
                if l not in self.nullable and all(x in self.nullable for x in r):
                    self.nullable.add(l)
                    ch = True
        self.first = {t: {t} for t in terminals}
        for l, _ in prods:
            self.first.setdefault(l, set())
        ch = True
        while ch:
            ch = False
            for l, r in prods:
                for x in r:
                    if not self.first[x] <= self.first[l]:
                        self.first[l] |= self.first[x]
                        ch = True
                    if x not in self.nullable:
                        break

    def firsts(self, seq, la):
        out = set()
        for x in seq:
            out |= self.first[x]
            if x not in self.nullable:
                return out
        return out | la

    def closure(self, kernel):
        """kernel: {(prod, dot): set of lookaheads} -> closed map"""
        I = {k: set(v) for k, v in kernel.items()}
        w = list(I)
        while w:
            it = w.pop()
            p, d = it
            r = self.prods[p][1]
            if d < len(r) and r[d] in self.by:
                la = self.firsts(r[d + 1:], I[it])
                for q in self.by[r[d]]:
                    k = (q, 0)
                    if k not in I:
                        I[k] = set(la)
                        w.append(k)
                    elif not la <= I[k]:
                        I[k] |= la
                        w.append(k)
        return I
