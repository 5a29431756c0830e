"""Memory discipline of the front end.  Abstract interpretation of the entry point over every sentence shape with an
allocation typestate per object (allocated / deleted / owned) decides: each object is deleted at most once, never used
afterwards, never read before it is set, no null or missing operand is dereferenced, and an object is used and deleted as
the type it was created with.  Objects created by `new` that are neither deleted nor handed to an owner nor reachable
from the returned task or the symbol table are leaks.  The parser stack: every push is preceded by the growth check, and
the growth condition leaves room for the element pushed next for every depth (evaluated from its syntax tree)."""
from ..harness import *
from ..terms import *
from ..env import *
from . import p05

KINDS = {"use-after-free", "double-free", "bad-free", "null-deref", "uninit", "type-confusion", "nonvirtual-delete", "out-of-bounds", "div-zero", "delete-null"}


def reach(ai, roots):
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if isinstance(x, int) and not isinstance(x, bool):
            if x in seen:
                continue
            seen.add(x)
            todo.append(ai.heap.get(x))
        elif isinstance(x, Ptr):
            todo.append(Cell(x.cell))
        elif isinstance(x, Cell):
            if x.c not in seen:
                seen.add(x.c)
                todo.append(ai.heap.get(x.c))
        elif isinstance(x, Struct):
            todo += [Cell(c) for _, c in x.fields]
        elif isinstance(x, Cont):
            todo += [Cell(c) for c in x.cells]
        elif isinstance(x, (Alt,)):
            todo += list(x.alts)
        elif isinstance(x, Phi):
            todo += list(x.vals)
        elif isinstance(x, Iter):
            todo.append(Cell(x.cont))
    return seen


class Cell:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


def owning_fields(p):
    """(class, field) pairs whose destructor deletes what the field holds"""
    out = set()
    for f in p.funcs.values():
        n = f["fn"]["n"]
        if "::~" in n and f.get("body") and not f.get("implicit"):
            for x in walk(f["body"]):
                if x.get("k") == "Delete":
                    for m in walk(x["e"]):
                        if m.get("k") == "Member":
                            out.add((m.get("cls"), m["m"]))
    return out


def owned(ai):
    """objects some owning handle has (had) in charge"""
    out = set()
    fields = owning_fields(ai.p)
    for v in list(ai.heap.values()):
        if isinstance(v, Struct):
            for n, c in v.fields:
                if n != "$p" and (v.cls, n) not in fields:
                    continue
                p = ai.heap.get(c)
                for q in (p.vals if isinstance(p, Phi) else [p]):
                    if isinstance(q, Ptr):
                        out.add(q.cell)
    return out


def verdict(ctx, key, r, dyn0, w):
    ai = r.ai
    issues = [i for i in r.issues if i.kind in KINDS]
    exact = not r.imprecise
    if issues:
        d = [i for i in issues if i.definite]
        i = (d or issues)[0]
        ctx.ob(key + "/use", False if exact and d else None, "%s: %s" % (i.kind, i.msg), place(i, w), r.name)
    else:
        ctx.ob(key + "/use", True if exact else None, "no memory error" if exact else "imprecise: %s" % r.imprecise[:2], w, r.name)
    if r.fail or r.why:
        if not issues:
            ctx.ob(key + "/leak", None, r.fail or r.why, w, r.name)
        return
    live = [c for c in ai.dyn if c not in dyn0 and ai.freed.get(c) != "yes"]
    own = owned(ai)
    keep = reach(ai, [Ptr(r.task), Ptr(r.sc.interp)])
    lost = [c for c in live if c not in own and c not in keep]
    if not lost:
        ctx.ob(key + "/leak", True if exact else None, "%d objects allocated, all deleted, owned or kept" % len([c for c in ai.dyn if c not in dyn0]), w, r.name)
    else:
        sure = exact and any(c not in ai.freed for c in lost)
        ctx.ob(key + "/leak", False if sure else None, "allocated and never released: %s" % "; ".join(sorted({ai.desc(c) for c in lost})[:3]), w, r.name)


def place(i, w):
    s = str(i.where)
    if ":" in s:
        f, l = s.rsplit(":", 1)
        return (f, int(l) if l.isdigit() else 0, i.stack[-1] if i.stack else "?")
    return w


def shape(ctx, name, seqs):
    sc = None
    for i, seq in enumerate(seqs):
        if sc is None:
            sc = Scen(ctx.p, ctx.tables)
        dyn0 = set(sc.ai.dyn)
        r = feed(ctx, seq, sc=sc)
        if getattr(r, "noparse", False):
            ctx.ob(name, None, r.fail, "NARSESEPARSER::task", r.name)
            return
        if not hasattr(r, "issues"):
            ctx.ob(name, None, r.why, "NARSESEPARSER::task", r.name)
            return
        verdict(ctx, name + ("" if len(seqs) == 1 else " (%d)" % (i + 1)), r, dyn0, "NARSESEPARSER::task")
        if r.fail or r.why:
            return


def sequences(tier):
    out = [("term " + n, [toks(s) + ["."]]) for n, s in p05.shapes(tier) + p05.operands()]
    for p, kind in PUNCT.items():
        jg = kind in ("Judgement", "Goal")
        for tense in TENSES:
            for truth in ("", "f", "fc", "fck") if jg else ("",):
                for b in ("", "p", "pd", "pdq"):
                    for tn, t in (("statement", AB), ("operation", ("opst", "new", "o", [A("A")]))):
                        if tier == "quick" and tn != "statement" and (truth or b) and tense != "none":
                            continue
                        out.append(("%s/%s/%s/%s/%s" % (kind, tense, truth or "-", b or "-", tn), [sentence(t, p, tense, truth, b)]))
    some = [AB, ("st", "-->", A("B"), A("A"), "<"), ("opst", "new", "o", [A("A")]), ("opst", "old", "A", [A("A")]), ("set", "{", [A("A"), A("A")]),
            ("pre", "&&", [A("A"), ("op", "A")]), ("st", "==>", V("$", "A"), A("A"), "<"), ("inf", "*", [("q", '"A"'), A("A")]), ("neg", A("A"), "bare"),
            A("A"), ("op", "A")]
    for i, a in enumerate(some):
        for j, b in enumerate(some):
            out.append(("sequence %d %d" % (i, j), [sentence(a, "."), sentence(b, "?")]))
    return out


# ---- the parser stack
def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def is_tos(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "Paren"):
        e = e["e"]
    return isinstance(e, dict) and e.get("k") == "Member" and e.get("m") == "tos"


def name_of(f):
    return f["fn"]["n"].split("::")[-1]


def calls(p, n, names):
    """does the subtree call one of the functions (by last name), directly or through other functions of the program"""
    seen = set()

    def go(n):
        for x in walk(n):
            if x.get("k") in ("Call", "MCall") and x.get("fn"):
                nm = x["fn"].get("n", "").split("::")[-1]
                if nm in names:
                    return True
                u = x["fn"].get("u")
                if u in p.funcs and u not in seen:
                    seen.add(u)
                    if go(p.funcs[u].get("body")):
                        return True
        return False
    return go(n)


class NoEval(Exception):
    pass


def ev(e, env, locs):
    k = e.get("k")
    if k in ("Cast", "Paren", "Temp"):
        return ev(e["e"], env, locs)
    if k == "Int":
        return int(e["v"])
    if k == "Bool":
        return bool(e["v"])
    if k == "Member" and e.get("m") in env:
        return env[e["m"]]
    if k == "Ref" and e.get("n") in locs:
        return ev(locs[e["n"]], env, locs)
    if k == "Un":
        x = ev(e["x"], env, locs)
        if e["op"] == "!":
            return not x
        if e["op"] == "-":
            return -x
        if e["op"] == "+":
            return x
    if k == "Bin":
        if e["op"] == "&&":
            return bool(ev(e["x"], env, locs)) and bool(ev(e["y"], env, locs))
        if e["op"] == "||":
            return bool(ev(e["x"], env, locs)) or bool(ev(e["y"], env, locs))
        x, y = ev(e["x"], env, locs), ev(e["y"], env, locs)
        o = e["op"]
        if o == "+":
            return x + y
        if o == "-":
            return x - y
        if o == "*":
            return x * y
        if o in ("<", "<=", ">", ">=", "==", "!="):
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[o]
    raise NoEval(k)


def stack_rule(ctx):
    p = ctx.p
    key = "parser stack"
    w = ctx.site("_parser::alloc_stack")
    try:
        f = p.fns("_parser::alloc_stack")[0]
    except Exception:
        ctx.ob(key + " growth", None, "growth function not found", w)
        return
    locs = {}
    for x in walk(f["body"]):
        if x.get("k") == "Decl":
            for v in x["v"]:
                if v.get("init"):
                    locs[v["n"]] = v["init"]
    guards = [x for x in walk(f["body"]) if x.get("k") == "If" and calls(p, x.get("x"), {"realloc"}) and
              not any(y is not x and y.get("k") == "If" and calls(p, y.get("x"), {"realloc"}) for y in walk(x.get("x")))]
    ok, d = None, "no single condition guards the growth of the stack"
    if len(guards) == 1:
        bad = []
        try:
            # the path condition of the growth: every enclosing condition
            for S in (1, 2, 128, 256, 384):
                for D in range(0, S):
                    env = {"tos": 1000 + D, "stack": 1000, "stacksize": S}
                    if D + 1 >= S and not ev(guards[0]["c"], env, locs):
                        bad.append((D, S))
            ok = not bad
            d = "the growth condition leaves room for the next element at every depth" if ok else \
                "with %d of %d elements in use the stack is not grown, the next push writes past its end" % (bad[0][0] + 1, bad[0][1])
        except NoEval as x:
            d = "growth condition not evaluated (%s)" % x
    ctx.ob(key + " growth", ok, d, w)
    for fn in [f for u, f in p.funcs.items() if f["fn"]["n"].startswith("_parser::") and f.get("body")]:
        n = [0]

        def scan(st, room):
            """room: the growth check has run since the last push on every path here"""
            if not isinstance(st, dict):
                return room
            k = st.get("k")
            if k == "Block":
                for s in st["b"] if "b" in st else st["s"]:
                    room = scan(s, room)
                return room
            if k in ("While", "For", "Do", "ForR"):
                for kk in ("b", "body"):
                    if isinstance(st.get(kk), dict):
                        scan(st[kk], False)
                return False
            if k == "If":
                c = calls(p, st["c"], {"alloc_stack"}) or room
                a = [scan(st[kk], c) for kk in ("x", "y") if isinstance(st.get(kk), dict)]
                return c and all(a)
            if k in ("Switch", "Case", "Default", "Try", "Label"):
                for v in st.values():
                    if isinstance(v, dict):
                        scan(v, room)
                    elif isinstance(v, list):
                        for s in v:
                            room = scan(s, room)
                return room
            if calls(p, st, {"alloc_stack"}):
                room = True
            for x in walk(st):
                inc = x.get("k") == "Un" and x.get("op") == "++" and is_tos(x["x"])
                inc = inc or x.get("k") == "Bin" and x.get("op") == "+=" and is_tos(x["x"]) and name_of(fn) not in ("alloc_stack",)
                if inc:
                    n[0] += 1
                    ctx.ob("%s push %d in %s" % (key, n[0], fn["fn"]["n"]), bool(room), "push %s the growth check" % ("after" if room else "without"),
                           (fn.get("file", "?"), x.get("l") or st.get("l") or fn.get("l", 0), fn["fn"]["n"]))
                    room = False
            return room
        scan(fn["body"], False)




# ---- the block the stack lives in
def stack_block(ctx):
    from ..driver import D, struct
    from ..cmach import Arr, Pt, UNINIT
    from .p20 import attempt
    w = ctx.site("_parser::alloc_stack")

    def case(S, depth):
        def f():
            d = D(ctx.p)
            for k in ("stack", "tos", "stacksize"):
                d.set(k, 0 if S == 0 else UNINIT)
            if S:
                a = Arr([struct(d.m, "_tok", state=i) for i in range(S)], "_tok", "the stack", True)
                d.set("stack", Pt(a, 0))
                d.set("tos", Pt(a, depth))
                d.set("stacksize", S)
            if not d.call("alloc_stack"):
                return ["no room is made"]
            st, tos, n = d.get("stack"), d.get("tos"), d.get("stacksize")
            if not isinstance(st, Pt) or not isinstance(tos, Pt) or st.c is not tos.c or st.c.freed:
                return ["the stack pointers do not delimit a block"]
            bad = []
            if tos.i - st.i != depth:
                bad.append("the top of the stack moves from element %d to %d" % (depth, tos.i - st.i))
            if n != len(st.c.a) - st.i:
                bad.append("the recorded size is %s, the block has room for %d" % (n, len(st.c.a) - st.i))
            if depth + 1 >= len(st.c.a) - st.i:
                bad.append("no room for the next element above %d" % depth)
            for i in range(depth + 1 if S else 0):
                if d.m.load(st.c.a[st.i + i], "state") != i:
                    bad.append("element %d is not kept" % i)
                    break
            return bad
        return f
    for S in (0, 128, 256, 384, 1280):
        for depth in sorted({0, 1, S // 2, S - 3, S - 2, S - 1}) if S else (0,):
            attempt(ctx, "parser stack block/%d of %d" % (depth + 1, S), w, case(S, depth))


def run(ctx):
    stack_rule(ctx)
    stack_block(ctx)
    ctx.par(sequences(ctx.tier), lambda x: shape(ctx, *x))
