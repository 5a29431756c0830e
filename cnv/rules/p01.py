"""Actions.  (1) Every name the parser tables can emit is bound to exactly one action, and looking a name up compares the text
of names, never their addresses.  (2) The tree walk, evaluated on trees of every small shape with opaque actions, calls the
action of each node once, after those of its parts, hands it the results of its parts in written order (a leaf: its own
text), and yields the results of the top level in order."""
import itertools
from ..env import *
from ..grammar import Node
from ..scen import Scen
from ..prog import AnalysisBroken
from ..consts import sizes
from .p04 import walk

ENTRY = ["PARSER::Parser::regist", "PARSER::Parser::get_function", "PARSER::Parser::transform"]


def run(ctx):
    t = ctx.tables
    log = []
    sc = Scen(ctx.p, t)          # constructs the parser: runs the registrations
    ai = sc.ai
    ctx.used(ai)
    emits = {}
    for s in t.symbols:
        if s.get("emit"):
            emits.setdefault(s["emit"], "symbol " + s["name"])
    for p in t.prods:
        if p["emit"]:
            emits.setdefault(p["emit"], p["definition"])
    fns = {}
    w = ctx.site("NARSESEPARSER::NarseseParser::NarseseParser")
    if not ctx.p.fns(ENTRY[2]):
        raise AnalysisBroken("the tree walk %s was not found" % ENTRY[2])
    for e, d in sorted(emits.items()):
        ctx.count("constructs")
        v = lookup(ctx, sc, e)
        if isinstance(v, FnPtr):
            fns[e] = v
            ctx.ob("action/%s" % e, True, "%s -> %s" % (e, v.name), w)
        else:
            ctx.ob("action/%s" % e, False if v in (0, NULL) else None, "construct '%s' (%s) has no action" % (e, d), w)
    seen = {}
    for e, v in fns.items():
        seen.setdefault(v.usr, []).append(e)
    for u, es in seen.items():
        ctx.ob("own-action/%s" % "+".join(es), len(es) == 1 or None, "constructs %s share the action %s" % (es, fns[es[0]].name), w)
    registered_twice(ctx)
    by_text(ctx)
    walk_trees(ctx, fns)


def lookup(ctx, sc, name):
    ai = sc.ai
    try:
        o = run_(ai, lambda: call(ai, ENTRY[1], sc.parser, [name]))
    except AnalysisBroken:
        return None
    return None if o.value is None else ai.rv(o.value)


def run_(ai, th):
    o = Outcome()
    try:
        o.value = th()
    except (Dead, TooBig):
        o.dead = True
    return o


def registered_twice(ctx):
    """the registrations, as the parser's construction performs them"""
    ai = mk(ctx.p)
    seen = {}
    twice = []

    def on(ai, fn, this, args, e):
        if fn["n"] == ENTRY[0] and len(args) == 2:
            n, f = ai.rv(args[0]), ai.rv(args[1])
            if isinstance(n, str) and isinstance(f, FnPtr):
                if n in seen and seen[n].usr != f.usr:
                    twice.append((n, seen[n].name, f.name))
                seen[n] = f
    ai.on_call = on
    try:
        new_obj(ai, "NARSESEPARSER::NarseseParser", [])
    except (Dead, TooBig, AnalysisBroken):
        return
    ctx.count("registrations", len(seen))
    if seen:
        ctx.ob("registered-once", not twice, "names registered twice: %s" % twice if twice else "each of %d names is registered once" % len(seen),
               ctx.site("NARSESEPARSER::NarseseParser::NarseseParser"))


def is_chars(t):
    t = (t or "").replace("const ", "").replace(" const", "").strip()
    return t in ("char *", "char*")


def by_text(ctx):
    """no lookup by address: neither a container keyed by character pointers nor a comparison of two such pointers"""
    p = ctx.p
    for cls in ("PARSER::Parser", "NARSESEPARSER::NarseseParser", "_parser"):
        for f in p.records.get(cls, {}).get("fields", []):
            t = f["t"]
            if "map<" in t or "set<" in t:
                k = t[t.index("<") + 1:].split(",")[0].split(">")[0]
                ctx.count("keyed_containers")
                ctx.ob("by-text/%s.%s" % (cls, f["n"]), not is_chars(k) or ("hash" not in t and "equal" not in t and "less" not in t and t.count(",") >= 2) or False,
                       "%s is keyed by %s" % (f["n"], k), ctx.site(ENTRY[1]))
    todo, done = list(ENTRY), set()
    while todo:
        n = todo.pop()
        for f in p.fns(n):
            if f["fn"]["u"] in done:
                continue
            done.add(f["fn"]["u"])
            for x in walk(f.get("body")):
                if x.get("k") == "Bin" and x.get("op") in ("==", "!="):
                    a, b = x["x"], x["y"]
                    if any(strip(s).get("k") in ("Null", "Int") for s in (a, b)):
                        continue
                    if is_chars(typ(a)) and is_chars(typ(b)):
                        ctx.ob("by-text/%s:compare" % n, False, "two names are compared by address", (f["file"], x.get("l", 0), n))
                if x.get("k") in ("Call", "MCall") and x.get("fn") and x["fn"]["n"].startswith(("PARSER::Parser", "NARSESEPARSER::NarseseParser")):
                    todo.append(x["fn"]["n"])
    ctx.ob("by-text/comparisons", True, "%d functions around the lookup compared by text" % len(done), ctx.site(ENTRY[1]))


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "Temp", "StdInit") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def typ(e):
    return e.get("t") if isinstance(e, dict) else None


def shapes(names, tier, ns=(), ds=()):
    """trees: nested lists of (name, token|None, children)"""
    it = itertools.cycle(names)
    n = lambda tok=None, ch=(): (next(it), tok, list(ch))
    yield "leaf", [n("w")]
    yield "two-leaves", [n("w"), n("v")]
    yield "three-leaves", [n("w"), n("v"), n("u")]
    yield "empty-node", [n()]
    yield "node(leaf)", [n(None, [n("w")])]
    yield "node(leaf,leaf)", [n(None, [n("w"), n("v")])]
    yield "node(leaf,empty,leaf)", [n(None, [n("w"), n(), n("v")])]
    yield "node(empty,leaf)", [n(None, [n(), n("w")])]
    yield "node(node(leaf),leaf)", [n(None, [n(None, [n("w")]), n("v")])]
    yield "node(leaf,node(leaf,leaf))", [n(None, [n("w"), n(None, [n("v"), n("u")])])]
    yield "two-nodes", [n(None, [n("w")]), n(None, [n("v")])]
    yield "chain", [n(None, [n(None, [n(None, [n("w")])])])]
    yield "same-action", [("judgement", None, [("judgement", None, [("string_raw", "a", []), ("string_raw", "b", [])])])]
    for k in ns:
        yield "node(%d leaves)" % k, [n(None, [n("w%d" % i) for i in range(k)])]
        yield "wide(%d)" % k, [n(None, [n(None, [n("w%d" % i)]) for i in range(k)])]
        yield "%d leaves" % k, [n("w%d" % i) for i in range(k)]
    for k in ds:
        yield "chain(%d)" % k, [_chain(k, n)]
    if tier != "quick":
        for k in range(4, 9):
            yield "node(%d leaves)" % k, [n(None, [n("w%d" % i) for i in range(k)])]
            yield "chain(%d)" % k, [_chain(k, n)]
            yield "wide(%d)" % k, [n(None, [n(None, [n("w%d" % i)]) for i in range(k)])]


def _chain(k, n):
    return n("w") if k == 0 else n(None, [_chain(k - 1, n)])


def walk_trees(ctx, fns):
    names = sorted(fns)
    if not names:
        return
    for label, forest in shapes(names, ctx.tier, sizes(ctx, 4, 70, (10, 33)), sizes(ctx, 4, 40, (9,))):
        for entry in ("transform", "parse_string", "parse_input"):
            if entry != "transform" and not ctx.p.fns("PARSER::Parser::" + entry):
                continue
            one(ctx, fns, label, forest, entry)


def one(ctx, fns, label, forest, entry):
    sc = Scen(ctx.p, ctx.tables)
    ai = sc.ai
    log = []

    def stub_for(name):
        def stub(ai, fn, this, args, e):
            i = len(log)
            a = args[-1] if args else None
            v = ai.rv(a)
            vals = [ai.read(c) for c in v.cells] if isinstance(v, Cont) else None
            log.append((name, vals))
            return Sym("result%d" % i)
        return stub
    for e, f in fns.items():
        ai.stubs[f.name] = stub_for(f.name)
    conv = lambda fs: [Node(a, tok, conv(ch)) for a, tok, ch in fs]
    exp = []

    def expect(fs):
        out = []
        for a, tok, ch in fs:
            vals = [tok] if tok is not None else expect(ch)
            exp.append((fns[a].name, vals))
            out.append(Sym("result%d" % (len(exp) - 1)))
        return out
    if any(a not in fns for a in names_of(forest)):
        return
    top = expect(forest)
    key = "walk/%s/%s" % (entry, label)
    w = ctx.site("PARSER::Parser::" + entry)
    try:
        sc.pending = sc.build(conv(forest))
        if entry == "transform":
            o = run_(ai, lambda: call(ai, "PARSER::Parser::transform", sc.parser, [sc.pending]))
        elif entry == "parse_string":
            s = ai.new_cell("std::string", "<input>", "input")
            o = run_(ai, lambda: call(ai, "PARSER::Parser::parse_string", sc.parser, [LV(s)]))
        else:
            o = run_(ai, lambda: call(ai, "PARSER::Parser::parse_input", sc.parser, []))
    except AnalysisBroken:
        raise
    except Exception as x:
        ctx.ob(key, None, "analysis gave up: %s" % x, w)
        return
    ctx.used(ai)
    ctx.count("trees")
    if ai.imprecise or ai.unknown_calls:
        ctx.ob(key, None, "imprecise: %s" % (list(ai.imprecise) + list(ai.unknown_calls))[:3], w)
        return
    if o.dead or o.value is None:
        ctx.ob(key, False, "the walk of a parse does not complete", w)
        return
    ok = log == exp
    d = ""
    if not ok:
        i = next((i for i in range(min(len(log), len(exp))) if log[i] != exp[i]), min(len(log), len(exp)))
        d = "call %d is %s, expected %s (%d calls, %d expected)" % (i, log[i] if i < len(log) else "missing", exp[i] if i < len(exp) else "none", len(log), len(exp))
    ctx.ob(key, ok, d or "%d actions called bottom-up, in order" % len(log), ctx.site("PARSER::Parser::transform"), label)
    v = ai.rv(o.value)
    if entry == "transform":
        c = pointee_cell(ai, v) if isinstance(v, Ptr) else None
        con = ai.heap.get(c) if c is not None else None
        if isinstance(con, Cont):
            got = [ai.read(x) for x in con.cells]
            ctx.ob(key + "/results", got == top, "results %s, expected %s" % (got, top), w, label)
    else:
        ctx.ob(key + "/results", v == top[0] if isinstance(v, (Sym, type(NULL))) else None, "yields %s, expected %s" % (v, top[0]), w, label)


def names_of(fs):
    for a, _, ch in fs:
        yield a
        yield from names_of(ch)
