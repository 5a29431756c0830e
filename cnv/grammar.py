"""The parser tables of the generated parser class, read from the resolved source, and an LR driver over *token kinds*
(no text is scanned) that yields the syntax-tree shape the tables prescribe for a sequence of terminals."""
from .prog import AnalysisBroken


def const(e):
    k = e["k"]
    if k == "Cast" or k == "Temp" or k == "StdInit":
        return const(e["e"])
    if k in ("Int", "Bool", "Float"):
        return e["v"]
    if k == "Str":
        return e["v"]
    if k == "EnumC":
        return e["v"]
    if k == "Un" and e["op"] == "-":
        return -const(e["x"])
    if k == "Bin" and e["op"] in "*+-|":
        a, b = const(e["x"]), const(e["y"])
        return a * b if e["op"] == "*" else a + b if e["op"] == "+" else a - b if e["op"] == "-" else a | b
    if k == "Init":
        v = [const(x) for x in e["e"]]
        n = e.get("n")
        return v
    if k == "Zero":
        return 0
    if k == "Null":
        return None
    raise AnalysisBroken("parser table entry is not a constant: %s" % k)


def flat(v):
    return v if isinstance(v, list) else []


class Tables:
    def __init__(self, prog):
        r = prog.rec("_parser")
        self.line = r.get("l")
        f = {x["n"]: x for x in r["fields"]}
        need = ["actions", "go", "def_prod", "symbols", "productions", "dfa_select", "dfa_idx", "dfa_chars",
                "dfa_trans", "dfa_accept"]
        for n in need:
            if n not in f or not f[n].get("init"):
                raise AnalysisBroken("parser table %s not found" % n)
        g = {n: const(f[n]["init"]) for n in need}
        self.fields = f
        self.actions, self.go, self.def_prod = g["actions"], g["go"], g["def_prod"]
        self.symbols = [dict(zip(("name", "emit", "type", "lexem", "whitespace", "greedy"), s)) for s in g["symbols"]]
        self.prods = []
        for i, s in enumerate(g["productions"]):
            if not isinstance(s, list):
                continue
            d = dict(zip(("definition", "emit", "length", "lhs"), s))
            lhs, _, rhs = d["definition"].partition(" : ")
            d["i"] = i
            d["lhs_name"] = lhs.strip()
            d["rhs"] = self.split(rhs)
            self.prods.append(d)
        self.dfa_select, self.dfa_idx = g["dfa_select"], g["dfa_idx"]
        self.dfa_chars, self.dfa_trans, self.dfa_accept = g["dfa_chars"], g["dfa_trans"], g["dfa_accept"]
        self.terminal = {}
        for i, s in enumerate(self.symbols):
            self.terminal.setdefault(s["name"], i)

    @staticmethod
    def split(rhs):
        return [x for x in rhs.split() if x]

    # ---- the automaton
    def act(self, state, sym):
        row = self.actions[state]
        for i in range(1, row[0] * 3, 3):
            if row[i] == sym:
                return (row[i + 1], row[i + 2])
        if self.def_prod[state] > -1:
            return (1, self.def_prod[state])
        return None

    def goto(self, state, lhs):
        row = self.go[state]
        for i in range(1, row[0] * 3, 3):
            if row[i] == lhs:
                return (row[i + 1], row[i + 2])
        return None


class Node:
    __slots__ = ("emit", "token", "children")

    def __init__(self, emit, token=None, children=None):
        self.emit, self.token, self.children = emit, token, children or []

    def __repr__(self):
        return "%s(%s)" % (self.emit, self.token) if self.token is not None else \
            "%s[%s]" % (self.emit, ", ".join(map(repr, self.children)))


class NoParse(Exception):
    pass


def lr(t, toks, goal=None):
    """toks: list of (symbol index, lexeme).  -> list of Nodes of the accepted parse"""
    goal = goal_lhs(t) if goal is None else goal
    stack = [(0, [])]
    toks = list(toks) + [(0, None)]
    pos = 0
    act, idx = 2, None
    fuel = 20000
    while True:
        fuel -= 1
        if fuel < 0:
            raise NoParse("no progress")
        while act & 1:
            p = t.prods[idx]
            nodes = []
            for _ in range(p["length"]):
                nodes = stack.pop()[1] + nodes
            if p["emit"]:
                nodes = [Node(p["emit"], None, nodes)]
            if p["lhs"] == goal and len(stack) == 1:
                return nodes
            a = t.goto(stack[-1][0], p["lhs"])
            if a is None:
                raise NoParse("no goto")
            act, idx = a
            stack.append((-1 if act & 1 else idx, nodes))
        sym, lex = toks[pos]
        a = t.act(stack[-1][0], sym)
        if a is None or a[0] == 0:
            raise NoParse("unexpected %s" % t.symbols[sym]["name"])
        act, idx = a
        if act & 2:
            s = t.symbols[sym]
            nodes = [Node(s["emit"], lex)] if s["emit"] else []
            stack.append((-1 if act & 1 else idx, nodes))
            if sym != 0:
                pos += 1


def goal_lhs(t):
    used = {x for p in t.prods for x in p["rhs"]}
    c = [p["lhs"] for p in t.prods if p["lhs_name"] not in used]
    if len(set(c)) != 1:
        raise AnalysisBroken("start symbol of the parser tables is not unique: %s" % c)
    return c[0]


def kind(t, name):
    """terminal (symbol index) by its grammar name"""
    for i, s in enumerate(t.symbols):
        if s["name"] == name and s["type"] < 4 and i < min(p["lhs"] for p in t.prods):
            return i
    raise AnalysisBroken("terminal %r not found in the parser tables" % name)


class W(str):
    """a word (constant name) token"""


class Q(str):
    """a quoted string token"""


class N:
    """a number token of a given kind (frequency, integer, ...); its value is not fixed"""
    def __init__(self, kind, name=None, lo=None, hi=None, lit=None):
        self.kind, self.name, self.lo, self.hi, self.lit = kind, name or kind, lo, hi, lit

    def __repr__(self):
        return "<%s>" % self.name if self.lit is None else self.lit


def spells(t, name, text):
    """some token automaton of the tables recognises text as the terminal"""
    k = kind(t, name)
    for m in range(len(t.dfa_idx)):
        d = 0
        for ch in text:
            c, nxt = t.dfa_idx[m][d], -1
            while c + 1 < len(t.dfa_chars) and t.dfa_chars[c] >= 0:
                if t.dfa_chars[c] <= ord(ch) <= t.dfa_chars[c + 1]:
                    nxt = t.dfa_trans[c // 2]
                    break
                c += 2
            d = nxt
            if d < 0:
                break
        if d >= 0 and t.dfa_accept[m][d] - 1 == k:
            return True
    return False


def tokens(t, seq):
    out = []
    for x in seq:
        if isinstance(x, W):
            out.append((kind(t, "string_raw"), x))
        elif isinstance(x, Q):
            out.append((kind(t, "string"), x))
        elif isinstance(x, N):
            out.append((kind(t, x.kind), x))
        else:
            out.append((kind(t, x.replace("\\", "\\\\")), x))
    return out


def parse(t, seq):
    return lr(t, tokens(t, seq))
