"""The parser driver on the abstract machine: construction of a parser, the generated tables as its memory, and evaluation of
the driver's functions on it."""
from .cmach import *
from .grammar import const
from .prog import AnalysisBroken

CLS = "NARSESEPARSER::NarseseParser"


def nodes(e):
    if isinstance(e, dict):
        if "k" in e:
            yield e
        for v in e.values():
            yield from nodes(v)
    elif isinstance(e, list):
        for v in e:
            yield from nodes(v)


def only_registers(s):
    """a statement of the constructor that enters actions into the table of actions and changes nothing else of the parser:
    the only use of the object is the call of regist"""
    ns = list(nodes(s))
    this = sum(n["k"] == "This" for n in ns)
    regs = [n for n in ns if n["k"] == "MCall" and n.get("fn", {}).get("n") == "PARSER::Parser::regist"]
    return len(regs) == this > 0


class D:
    def __init__(self, prog, fuel=3000000):
        self.p = prog
        m = self.m = Machine(prog, fuel)
        m.stubs["PARSER::Parser::regist"] = lambda m, this, a: None
        self.tabs = {}
        self.this = self.construct()

    def fn(self, name, n=None, pred=None):
        fs = [f for f in self.p.fns(name) if f.get("body") and (n is None or len(f["params"]) == n) and (pred is None or pred(f))]
        if not fs:
            raise AnalysisBroken("function %s not found" % name)
        return fs[0]

    def construct(self):
        f = [f for f in self.p.by_name.get(CLS + "::NarseseParser", []) if not f["params"]]
        if not f:
            raise AnalysisBroken("default constructor of the parser not found")
        o = Obj(CLS, {}, "the parser")
        self.ctor(o, CLS, f[0], [])
        return o

    def ctor(self, o, cls, f, args):
        m = self.m
        r = self.p.records.get(cls)
        for x in (r["fields"] if r else []):
            o.f.setdefault(x["n"], UNINIT)
        done = set()
        m.visited.add(f["fn"]["u"])
        fr = {q["d"]: a for q, a in zip(f["params"], args)}
        m.frames.append((fr, o))
        try:
            for i in f.get("inits") or []:
                e = i["e"]
                if i.get("base"):
                    g = self.p.funcs.get(e["fn"]["u"]) if e.get("fn") else None
                    if g is not None:
                        self.ctor(o, i["base"], g, [m.rv(a) for a in e["a"]])
                    continue
                done.add(i["m"])
                o.f[i["m"]] = self.member(cls, i["m"], e)
            m.fname = f["fn"]["n"]
            body = f["body"]
            try:
                for s in body["b"] if body["k"] == "Block" else [body]:
                    if only_registers(s):
                        continue
                    try:
                        m.st(s)
                    except AnalysisBroken:
                        if s["k"] != "Decl":
                            raise
                        for v in s["v"]:
                            fr[v["d"]] = m.statics[v["d"]] = Unknown(v.get("n", "local"))
            except AnalysisBroken:
                raise
            except Exception as x:
                if type(x).__name__ != "_Ret":
                    raise
        finally:
            m.frames.pop()

    def member(self, cls, name, e):
        m = self.m
        while e["k"] in ("StdInit", "Temp") or e["k"] == "Ctor" and e.get("elide") and e["a"]:
            e = e["e"] if "e" in e else e["a"][0]
        if e["k"] == "Ctor":
            c = e.get("cls", "")
            if c.startswith("std::basic_string"):
                return m.rv(e)
            g = self.p.funcs.get(e["fn"]["u"])
            if c.startswith("std::") or g is None:
                return Opaque(name)
            x = e["a"][0] if len(e["a"]) == 1 and g["params"] and c in g["params"][0]["t"] else None
            if x is not None:            # copy of a temporary of the same class
                return self.member(cls, name, x)
            n = Obj(c, {}, name)
            self.ctor(n, c, g, [m.rv(a) for a in e["a"]])
            return n
        if e["k"] == "Cast" and e["e"]["k"] in ("Ctor", "Temp", "Cast") and e["ck"] in ("NoOp", "ConstructorConversion"):
            return self.member(cls, name, e["e"])
        if e["k"] == "Init":
            if name not in self.tabs:
                t = [x["t"] for x in self.p.rec(cls)["fields"] if x["n"] == name][0]
                self.tabs[name] = self.tab(const(e), t)
            return self.tabs[name]
        return m.rv(e)

    def tab(self, v, t):
        el = t.replace("const ", "").split("[")[0].strip()
        dims = [int(x.rstrip("]")) for x in t.split("[")[1:]]
        r = self.p.records.get(el)

        def go(v, d):
            if d < len(dims):
                a = [go(x, d + 1) for x in v]
                z = go([0] * len(r["fields"]) if r and d == len(dims) - 1 else 0 if d == len(dims) - 1 else [], d + 1)
                while len(a) < dims[d]:
                    a.append(z)
                return Arr(a, el, "a table")
            if r:
                v = v if isinstance(v, list) else []
                return Obj(el, {f["n"]: (table(x) if x is not None else 0) for f, x in zip(r["fields"], v + [0] * (len(r["fields"]) - len(v)))}, el)
            return table(v)
        return go(v, 0)

    def get(self, f):
        return self.this.f.get(f, UNINIT)

    def set(self, f, v):
        self.this.f[f] = v

    def call(self, name, *args, n=None):
        self.m.fuel = self.m.fuel0
        return self.m.call(self.fn("_parser::" + name, n), self.this, list(args))


def struct(m, cls, **kw):
    o = m.fresh(cls, 0)
    for k, v in kw.items():
        if k not in o.f:
            raise AnalysisBroken("%s has no field %s" % (cls, k))
        o.f[k] = v
    return o


# ---- what the tables prescribe for a text
def ref_lex(t, state, codes, pos, eof=10):
    """-> (symbol, length); symbol -1: none"""
    m = t.dfa_select[state]
    if m < 0:
        return (0, 0) if codes[pos] == eof else (-1, 0)
    if codes[pos] == eof:
        return (0, 0)
    s, n, best = 0, 0, (-1, 0)
    while s >= 0 and pos + n < len(codes) and codes[pos + n] != eof:
        c, i, nx = codes[pos + n], t.dfa_idx[m][s], -1
        while t.dfa_chars[i] > -1:
            if c >= t.dfa_chars[i] and c <= t.dfa_chars[i + 1]:
                nx = t.dfa_trans[i // 2]
                break
            i += 2
        s = nx
        if s >= 0:
            n += 1
            if t.dfa_accept[m][s] > 0:
                best = (t.dfa_accept[m][s] - 1, n)
    return best


def ref_parse(t, goal, codes):
    """forest of (emit, text, children), or None when the text is not accepted; codes end with the end marker"""
    stack, pos, act, idx = [(0, [])], 0, 2, None
    for _ in range(100000):
        while act & 1:
            q = t.prods[idx]
            nodes = []
            for _ in range(q["length"]):
                nodes = stack.pop()[1] + nodes
            if q["emit"]:
                nodes = [(q["emit"], None, nodes)]
            if q["lhs"] == goal and len(stack) == 1:
                return nodes
            a = t.goto(stack[-1][0], q["lhs"])
            if a is None:
                return None
            act, idx = a
            stack.append((-1 if act & 1 else idx, nodes))
        sym, n = ref_lex(t, stack[-1][0], codes, pos)
        a = t.act(stack[-1][0], sym)
        if a is None or a[0] == 0:
            return None
        act, idx = a
        if act & 2:
            s = t.symbols[sym]
            stack.append((-1 if act & 1 else idx, [(s["emit"], word(codes[pos:pos + n]), [])] if s["emit"] else []))
            if sym != 0:
                pos += n
    return None


def encode(s):
    return list(s if isinstance(s, bytes) else s.encode())


def intervals(t):
    """partition of the characters: within one interval no automaton distinguishes two characters"""
    cut = {0, 1, 10, 11, 128, 256}
    for lo, hi in zip(t.dfa_chars[::2], t.dfa_chars[1::2]):
        if lo >= 0:
            cut |= {lo, hi + 1}
    c = sorted(x for x in cut if 0 <= x <= 256)
    return [(a, b - 1) for a, b in zip(c, c[1:])]


def general(t, codes, base=0):
    """the text with every character replaced by an arbitrary one of its interval"""
    iv = intervals(t)
    out = []
    for i, c in enumerate(codes):
        a, b = next(x for x in iv if x[0] <= c <= x[1])
        out.append(c if a == b else Ch(a, b, base + i))
    return out


def word(cs):
    """a text, as comparable value"""
    return tuple("[%s]" % c.id if isinstance(c, Ch) else c & 255 for c in cs)


def written(w):
    return "".join(c if isinstance(c, str) else chr(c) for c in w)


def fill(d, codes):
    m, cf = d.m, d.get("char_fetcher")
    m.fuel = m.fuel0
    m.call(d.fn("_CharFetcher::switch_string_mode"), cf, [])
    f = d.fn("_CharFetcher::fill", 1, lambda f: f["params"][0]["t"] == "char *")
    m.call(f, cf, [Pt(Arr([wrap(c, "char") for c in codes] + [0], "char", "the text"), 0)])


def tree(d, p):
    m, out = d.m, []
    n = 0
    while p != 0:
        o = m.deref_obj(p)
        tk = m.load(o, "token")
        e = m.load(o, "emit")
        out.append(("".join(map(chr, m.cstr(e))), word(m.cstr(tk)) if tk != 0 else None, tree(d, m.load(o, "child"))))
        p = m.load(o, "next")
        n += 1
        if n > 5000:
            raise AnalysisBroken("the syntax tree has a cycle")
    return out
