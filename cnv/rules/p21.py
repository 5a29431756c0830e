"""The Python module.  The module's initialisation is evaluated abstractly with every call into the binding library recorded
(pymod); the recorded definitions are then decided one by one: types that cross the boundary against the registered classes, the
order of registration, the entity each name stands for (the native functions are evaluated on abstract objects), the error
protocol of the interpreter, and the lifetime of what is handed out."""
import os
import re
from ..env import *
from ..env import run as erun
from ..build import Builder
from ..pymod import Module
from ..lib import targs
from ..prog import REPO, AnalysisBroken
from ..values import *
from ..lang import CONNECTOR_NAME, COPULA_NAME

DUNDER = {"__repr__": 1, "__str__": 1, "__len__": 1, "__hash__": 1, "__iter__": 1, "__next__": 1, "__bool__": 1, "__int__": 1, "__float__": 1,
          "__copy__": 1, "__eq__": 2, "__ne__": 2, "__lt__": 2, "__le__": 2, "__gt__": 2, "__ge__": 2, "__contains__": 2, "__getitem__": 2}
ARITH = re.compile(r"^(unsigned |signed )?(char|short|int|long|long long|float|double|bool|size_t|long double|unsigned|std::size_t)( int)?$")
SET_ERR = ("PyErr_SetString", "PyErr_SetNone", "PyErr_SetObject", "PyErr_Format", "pybind11::set_error", "pybind11::raise_from")
PARSE = "NARSESEPARSER::NarseseParser::parse_task"
INTERP = "INTERPRETER::Interpreter::interpret"


def bare(t):
    t = re.sub(r"\bconst\b", "", t).strip()
    while t.endswith(("&", "*")):
        t = t[:-1].strip()
    return t


class Undet(Exception):
    pass


class Fn:
    """something Python can call: parameter types (the object first for member functions) and how to evaluate it"""
    def __init__(self, v, mod, cls):
        self.v, self.mod, self.member = v, mod, None
        if isinstance(v, Closure):
            op = v.node["ops"][0]
            self.params, self.rt = [x["t"] for x in op["params"]], op["rt"]
        elif isinstance(v, FnPtr):
            f = mod.p.funcs.get(v.usr)
            if f is None:
                raise Undet("no body of %s" % v.name)
            self.params, self.rt = [x["t"] for x in f["params"]], f["fn"].get("rt", "")
            if f["fn"].get("cls") and not f["fn"].get("st"):
                self.member = f
                self.params = [f["fn"]["cls"] + " &"] + self.params
        elif isinstance(v, App) and v.op == "memptr":
            self.params, self.rt = [v.args[0] + " &"], ""
        else:
            raise Undet("callable %s" % (str(v)[:60],))

    def call(self, args):
        ai = self.mod.ai
        if isinstance(self.v, App):
            c = args[0].cells[0]
            return LV(ai.field(c, self.v.args[1]))
        if self.member:
            return ai.call(self.member, args[0].cells[0], list(args[1:]))
        return ai.call_value(self.v, list(args))


class Class:
    def __init__(self, b, mod):
        self.b = b
        ts = targs(b.n[:b.n.rfind(">") + 1])
        self.type, self.extra = ts[0], ts[1:]
        self.name = next((a for a in b.args if isinstance(a, str)), None)
        self.defs = mod.of(b)
        self.bases = [x for x in self.extra if not x.startswith("std::")]
        self.holder = next((x for x in self.extra if x.startswith("std::")), None)

    def pointee(self, p):
        """the class of the objects a handle class refers to; None when the class is no handle"""
        for k in [self.type] + p.bases(self.type):
            m = re.match(r"std::shared_ptr<(.+)>$", k)
            if m:
                return m.group(1)
        for b in p.records.get(self.type, {}).get("bases", []):
            b = b if isinstance(b, str) else b.get("t", "")
            m = re.match(r"std::shared_ptr<(.+)>$", b)
            if m:
                return m.group(1)
        return None


class Eval:
    """evaluates callables on abstract objects, on top of the state the module's initialisation left"""
    def __init__(self, ctx, mod):
        self.ctx, self.mod, self.p, self.ai = ctx, mod, ctx.p, mod.ai
        mod.p = ctx.p
        self.b = Builder(ctx.p)
        self.b.ai = self.ai
        ai = self.ai
        self.ghost = ai.new_cell("bool", False, "pyerr")
        self.protocol = []
        ai.py_hook = self.hook
        ai.stubs[INTERP] = self.shown
        for n in list(ctx.p.by_name):
            if n == "UTILS::Hash::operator()":
                ai.stubs.setdefault(n, hash_stub)
        ic = self.interp = ai.alloc("INTERPRETER::Interpreter", "interpreter")
        ai.default_members(ic, "INTERPRETER::Interpreter")
        ai.gover["INTERPRETER::interpreter"] = LV(ic)
        self.base, self.globals = ai.snap(), dict(ai.globals)
        self.memo = {}

    def shown(self, ai, fn, this, args, e):
        """rendering, known by what is rendered (P17 decides what it looks like)"""
        a = args[0]
        return App("render", (Ptr(a.cells[0]) if isinstance(a, LV) else a,))

    def hook(self, ai, fn, this, args):
        n = fn["n"]
        if n in SET_ERR:
            ai.heap[self.ghost] = True
            return None
        if n == "PyErr_Clear":
            ai.heap[self.ghost] = False
            return None
        if n == "pybind11::error_already_set::error_already_set" and not args:
            if ai.heap.get(self.ghost) is not True:
                self.protocol.append("error_already_set is thrown though no error is set")
            ai.heap[self.ghost] = False
            return None
        if n == "pybind11::cast" and fn.get("rt", "") not in ("pybind11::object", ""):
            # from Python: the native object itself
            v = ai.rv(args[0])
            if isinstance(v, Struct) and v.cls == bare(fn["rt"]):
                return ai.copy_content(v)
        return None

    def fresh(self):
        ai = self.ai
        ai.restore(self.base)
        ai.globals = dict(self.globals)
        ai.issues, ai.imprecise, ai.thrown = [], [], []
        ai.unknown_calls = set()
        ai.tries, ai.frames = [], []
        self.protocol = []
        self.b.memo, self.b.names = {}, {}

    def call(self, fn, args):
        """-> (value, problem, undecided reason)"""
        ai = self.ai
        o = erun(ai, lambda: fn.call(args))
        bad = ["%s: %s" % (i.kind, i.msg) for i in ai.issues if i.definite or i.kind.startswith("format")]
        for t, s in ai.thrown:
            if s[0].get(self.ghost) is not False and not (isinstance(t, tuple) and "error_already_set" in str(t[0])):
                bad.append("an error is set and another exception is thrown")
        bad += self.protocol
        if not o.dead and ai.heap.get(self.ghost) is not False:
            bad.append("returns normally with an error set")
        und = None
        if o.big or ai.imprecise or ai.unknown_calls:
            und = "not determined %s %s" % (list(ai.imprecise)[:1], list(ai.unknown_calls)[:1])
        return o, bad, und

    # -------------------------------------------------------------- Python values
    def plain(self, v, depth=0):
        """what Python gets: ('none',), ('obj', pointee) , ('seq', [...]), ('num', x), ..."""
        ai = self.ai
        lv, v = v, ai.rv(v)
        if isinstance(lv, LV) and len(lv.cells) == 1 and isinstance(v, Struct) and v.get("$p") is None:
            return ("obj", lv.cells[0])
        if isinstance(v, Alt) or isinstance(v, Phi):
            raise Undet("several values")
        if isinstance(v, App) and v.op == "py":
            r = ai.pylog[v.args[0]]
            k = r["n"].split("::")[-1].split("<")[0]
            if k == "none":
                return ("none",)
            if k in ("cast", "iter", "object", "reinterpret_borrow", "reinterpret_steal", "list", "tuple", "cast_impl", "handle", "str", "float_", "int_"):
                x = self.plain(r["args"][0], depth + 1)
                return x
            if k == "make_iterator":
                return ("borrowed",)
            if k in ("make_tuple",):
                return ("seq", [self.plain(a, depth + 1) for a in r["args"]])
            raise Undet("value of %s" % r["n"])
        if isinstance(v, Cont):
            return ("seq", [self.plain(ai.heap[c], depth + 1) for c in v.cells])
        if isinstance(v, Struct):
            if v.get("$p") is not None:
                q = ai.heap.get(v.get("$p")) if not isinstance(v.get("$p"), (Ptr,)) and v.get("$p") is not NULL else v.get("$p")
                if q is NULL:
                    return ("none",)
                if isinstance(q, Ptr):
                    return ("obj", q.cell)
                raise Undet("handle to %s" % (q,))
            return ("struct", tuple(sorted((n, str(ai.heap.get(c))) for n, c in v.fields)))
        if v is NULL:
            return ("none",)
        if isinstance(v, Ptr):
            return ("obj", v.cell)
        return ("num", v)

    # -------------------------------------------------------------- objects
    def handle(self, t, cell):
        return LV(sptr(self.ai, t, cell))

    def truth(self, tag="t"):
        ai = self.ai
        c = ai.alloc("TRUTH::Truth", "truth")
        ai.dyn.add(c)
        for f in ("f", "c", "k"):
            ai.heap[ai.field(c, f)] = Sym(tag + "." + f, 0.0, 1.0)
        return c

    def budget(self):
        ai = self.ai
        c = ai.alloc("BUDGET::Budget", "budget")
        ai.dyn.add(c)
        for f in ("priority", "durability", "quality"):
            ai.heap[ai.field(c, f)] = Sym(f, 0.0, 1.0)
        return c

    def stamp(self):
        c = new_obj(self.ai, "SENTENCE::Stamp", [True])
        return c

    def sentence(self, punct, truth=True):
        ai = self.ai
        t = self.b.build(("<>", "-->", A, B))
        tr = self.truth() if truth else None
        return new_obj(ai, "SENTENCE::Sentence", [LV(sptr(ai, "TERM::pTerm", t)), self.p.enum("SENTENCE::PUNCTUATION::Punctuation")[punct],
                                                  LV(sptr(ai, "std::shared_ptr<TRUTH::Truth>", tr)),
                                                  LV(sptr(ai, "std::shared_ptr<SENTENCE::Stamp>", self.stamp()))])

    def task(self, punct):
        ai = self.ai
        s = self.sentence(punct, punct in ("Judgement", "Goal"))
        return new_obj(ai, "TASK::Task", [LV(sptr(ai, "std::shared_ptr<BUDGET::Budget>", self.budget())), self.handle("SENTENCE::pSentence", s)])

    def objects(self, typ):
        """[(name, thunk -> (LV Python passes, cell of the native object))] of a registered class"""
        b = self.b
        out = []

        def term(d):
            def f():
                c = b.build(d)
                return self.handle(typ, c), c
            return f
        if typ == "TERM::pTerm":
            out += [("atom", term(A)), ("statement", term(ST)), ("product", term(("()", "*", (B, A)))), ("set", term(("()", "{", frozenset([A, B, C])))),
                    ("conjunction", term(("()", "&&", frozenset([ST, A])))), ("variable", lambda: self.var(typ)), ("operation", term(("atom", "op", True)))]
            out += [("variable " + k, lambda k=k: self.var(typ, k)) for k in "#?"]
        if typ in ("TERM::pTerm", "STATEMENT::pStatement"):
            out += [("statement " + c, term(("<>", c, B, A))) for c in COPULA_NAME]
            out += [("execution", term(("<>", "-->", ("()", "*", (A, B)), ("atom", "op", True))))]
        if typ in ("TERM::pTerm", "COMPOUND::pCompound"):
            for k in CONNECTOR_NAME:
                n = {"-": 2, "~": 2, "--": 1, "{": 3, "[": 3}.get(k, 2)
                if k != "#":
                    out.append(("compound " + k, term(("()", k, frozenset([C, B, A][:n]) if k in COMMUTATIVE else (C, B, A)[:n]))))
            for n in sizes(self.ctx, 4, 24, (9,)):
                out.append(("product of %d" % n, term(("()", "*", tuple(("atom", "a%d" % (i * 7 % n), False) for i in range(n))))))
        if typ in ("STATEMENT::pStatement",):
            out += [("statement", term(ST)), ("implication", term(("<>", "==>", ST, ("<>", "-->", B, C))))]
        if typ in ("COMPOUND::pCompound",):
            out += [("product", term(("()", "*", (B, A)))), ("set", term(("()", "{", frozenset([A, B, C]))))]
        if typ == "SENTENCE::pSentence":
            for pn in ("Judgement", "Question", "Goal", "Quest"):
                def f(pn=pn):
                    c = self.sentence(pn, pn in ("Judgement", "Goal"))
                    return self.handle(typ, c), c
                out.append((pn, f))
        if typ == "TASK::pTask":
            for pn in ("Judgement", "Question", "Goal", "Quest"):
                def f(pn=pn):
                    c = self.task(pn)
                    return self.handle(typ, c), c
                out.append((pn, f))
        if typ == "TRUTH::Truth":
            out.append(("truth", lambda: (lambda c: (LV(c), c))(self.truth())))
        if typ == "BUDGET::Budget":
            out.append(("budget", lambda: (lambda c: (LV(c), c))(self.budget())))
        return out

    def var(self, typ, k="$"):
        c = self.b.variable(k, 1)
        return self.handle(typ, c), c


from ..lang import COPULA_NAME, CONNECTOR_NAME, COMMUTATIVE
from ..consts import sizes
A, B, C = ("atom", "A", False), ("atom", "B", False), ("atom", "C", False)
ST = ("<>", "-->", A, B)


def run(ctx):
    mod = Module(ctx.p)
    mod.p = ctx.p
    ctx.used(mod.ai)
    ctx.count("binding_calls", len(mod.log))
    where = (mod.fn.get("file", "?"), mod.fn.get("l", 0), mod.fn["fn"]["n"])
    if mod.dead:
        ctx.ob("initialisation", False, "the module's initialisation does not complete", where)
        return
    if not mod.exact:
        ctx.ob("initialisation", None, "bindings not determined exactly %s %s" % (list(mod.ai.imprecise)[:2], list(mod.ai.unknown_calls)[:2]), where)
    bad = [str(i) for i in mod.ai.issues if i.definite]
    ctx.ob("initialisation/sound", not bad, "; ".join(bad[:2]), where)
    classes = [Class(b, mod) for b in mod.classes()]
    enums = [b for b in mod.log if b.kind == "enum_"]
    ev = Eval(ctx, mod)
    registered(ctx, mod, classes, enums, where)
    values(ctx, mod, enums)
    callables = boundary(ctx, mod, classes, enums)
    properties(ctx, mod, classes, ev)
    representations(ctx, mod, classes, ev)
    constructors(ctx, mod, classes, ev)
    functions(ctx, mod, classes, ev)
    parsing(ctx, mod, ev)
    ctx.used(mod.ai)
    ctx.note("types, order of registration, entities, error protocol and lifetimes of %d definitions" % len(mod.log))


# ------------------------------------------------------------------ registration
def registered(ctx, mod, classes, enums, where):
    names, types = {}, {}
    for c in classes:
        ctx.ob("class/%s/once" % c.type, c.type not in types, "%s is registered once" % c.type, c.b.at)
        ctx.ob("class/%s/name" % c.name, c.name not in names, "the name %s is defined once" % c.name, c.b.at)
        types[c.type] = c.b.i
        names[c.name] = c.b.i
        native = re.sub(r"^p(?=[A-Z])", "", c.type.split("::")[-1])
        ctx.ob("class/%s/entity" % c.type, isinstance(c.name, str) and (c.name == native), "Python class %s is %s" % (c.name, c.type), c.b.at)
        for bs in c.bases:
            ctx.ob("class/%s/base %s" % (c.type, bs), bs in types and types[bs] < c.b.i, "base %s of %s is registered before it" % (bs, c.type), c.b.at)
    for e in enums:
        n = next((a for a in e.args if isinstance(a, str)), None)
        ctx.ob("enum/%s/once" % e.type, e.type not in types and n not in names, "%s is registered once" % e.type, e.at)
        ctx.ob("enum/%s/entity" % e.type, n == e.type.split("::")[-1], "Python enumeration %s is %s" % (n, e.type), e.at)
        types[e.type] = e.i
        names[n] = e.i
    # attributes of the module are converted at once
    for b in mod.log:
        if b.kind == "operator=" and b.n.startswith("pybind11::detail::accessor") and len(b.args) == 2:
            src = mod.log[b.owner] if b.owner is not None else None
            if src is None or src.kind != "attr":
                continue
            nm = src.args[0] if src.args else "?"
            v = b.args[1]
            t = v.cls if isinstance(v, Struct) else None
            if t is None:
                continue
            m = re.match(r"std::shared_ptr<(.+)>$", t)
            k = m.group(1) if m else t
            ctx.ob("attribute/%s/type" % nm, k in types and types[k] < b.i, "the type %s of attribute %s is registered before the attribute is set" % (k, nm), b.at)
            if v.get("$p") is not None:
                q = mod.ai.heap.get(v.get("$p"))
                ctx.ob("attribute/%s/value" % nm, True if isinstance(q, Ptr) else None if q is not NULL else False, "attribute %s is an object" % nm, b.at)
    # every function that defines bindings runs exactly once
    for u, f in ctx.p.funcs.items():
        if f["params"] and f["params"][0]["t"].replace(" ", "") in ("pybind11::module_&", "pybind11::module&") and defines(f):
            n = f["fn"]["n"]
            if n == mod.fn["fn"]["n"]:
                continue
            ran = u in mod.ai.visited
            ctx.ob("definitions/%s" % n, True if ran else (None if not mod.exact else False), "%s is called by the module's initialisation" % n,
                   (f.get("file", "?"), f.get("l", 0), n))


def defines(f):
    from .p04 import walk
    return any(e.get("k") in ("Ctor", "MCall") and str(e.get("fn", {}).get("n", "")).startswith(("pybind11::class_", "pybind11::enum_", "pybind11::module_::def"))
               for e in walk(f["body"]) if isinstance(e, dict))


def values(ctx, mod, enums):
    for e in enums:
        ops = ctx.p.enum(e.type) or {}
        seen = {}
        for b in mod.of(e):
            if b.kind != "value":
                continue
            n, v = b.args[0], b.args[1]
            ctx.count("python_values")
            key = "enum/%s/%s" % (e.type, n)
            if not isinstance(n, str) or not isinstance(v, int):
                ctx.ob(key, None, "binding not determined", b.at)
                continue
            back = [k for k, x in ops.items() if x == v]
            ctx.ob(key, n in back, "Python name %s denotes %s" % (n, back or v), b.at)
            ctx.ob(key + "/once", n not in seen, "%s is defined once" % n, b.at)
            seen[n] = v
        for n in ops:
            if n not in ("None", "Err", "Unknown") and ops[n] >= 0 and not n.startswith("_"):
                ctx.ob("enum/%s/%s/defined" % (e.type, n), True if n in seen else (None if not mod.exact else False), "%s has a Python name" % n, e.at)


# ------------------------------------------------------------------ types crossing the boundary
_incl = {}


def includes(path, seen=None):
    """the headers a source file includes, those of the repository followed"""
    seen = set() if seen is None else seen
    full = os.path.join(REPO, path)
    try:
        with open(full, errors="replace") as f:
            s = re.sub(r"/\*.*?\*/", "", f.read(), flags=re.S)
    except OSError:
        return seen
    for m in re.finditer(r"^[ \t]*#[ \t]*include[ \t]*[<\"]([^>\"]+)[>\"]", s, re.M):
        h = m.group(1)
        if h in seen:
            continue
        seen.add(h)
        for d in (os.path.dirname(path), ""):
            q = os.path.normpath(os.path.join(d, h))
            if os.path.exists(os.path.join(REPO, q)):
                includes(q, seen)
                break
    return seen


def castable(t, types, unit):
    """None when values of type t can cross; else why not"""
    k = bare(t)
    if k in ("void", "") or ARITH.match(k) or k in ("std::string", "std::basic_string<char>", "std::string_view", "char", "std::nullptr_t", "std::basic_string_view<char>"):
        return None
    if k.startswith(("pybind11::", "_object", "PyObject")):
        return None
    if k in types:
        return None
    m = re.match(r"std::(shared_ptr|unique_ptr)<(.+?)(, .*)?>$", k)
    if m:
        return None if m.group(2) in types else "%s is not registered" % m.group(2)
    m = re.match(r"std::(vector|list|set|map|unordered_map|unordered_set|array|deque|optional|variant|multiset)<", k)
    if m:
        if unit and "pybind11/stl.h" not in includes(unit):
            return "%s crosses the boundary in %s, which does not include pybind11/stl.h" % (k, unit)
        for x in targs(k):
            if x.startswith(("std::allocator", "std::less", "std::hash", "std::equal_to")):
                continue
            w = castable(x, types, unit)
            if w:
                return w
        return None
    if k.startswith(("std::pair<", "std::tuple<")):
        for x in targs(k):
            w = castable(x, types, unit)
            if w:
                return w
        return None
    if k.startswith("std::function<"):
        return None if unit and "pybind11/functional.h" in includes(unit) else "%s without pybind11/functional.h" % k
    return "%s is not registered" % k


def boundary(ctx, mod, classes, enums):
    types = {c.type: c for c in classes}
    types.update({e.type: e for e in enums})
    n = 0
    for b in mod.log:
        if b.kind not in ("def", "def_static", "def_property", "def_property_readonly", "def_property_static", "def_readwrite", "def_readonly", "init"):
            continue
        fs = []
        for a in b.args:
            if isinstance(a, (Closure, FnPtr)):
                fs.append(a)
        cls = mod.log[b.owner].type if b.owner is not None else None
        own = next((c for c in classes if b.owner is not None and c.b.i == b.owner), None)
        nm = b.args[0] if b.args and isinstance(b.args[0], str) else b.kind
        for a in fs:
            try:
                fn = Fn(a, mod, cls)
            except Undet as x:
                ctx.ob("boundary/%s.%s" % (cls or "module", nm), None, str(x), b.at)
                continue
            key = "boundary/%s.%s@%d" % (own.name if own else "module" if b.kind == "def" else "init", nm, sum(1 for o in ctx.obs if o.key.startswith("boundary/")))
            for t in fn.params + ([fn.rt] if b.kind != "init" else []):
                n += 1
                w = castable(t, types, b.at[0])
                ctx.ob(key + "/type", w is None, w or "%s can cross the boundary" % t, b.at)
            if b.kind != "init" and fn.rt.rstrip().endswith("*") and bare(fn.rt) in types:
                ctx.ob(key + "/owner", None if len(b.args) > 2 else False, "a plain pointer to %s is handed out: Python takes ownership of what others own" % bare(fn.rt), b.at)
            pos = len(fn.params)
            if nm in DUNDER:
                dflt = sum(1 for x in b.args if isinstance(x, App) and x.op == "py" and is_default(mod, x))
                ctx.ob(key + "/arity", pos - dflt <= DUNDER[nm] <= pos, "%s takes %d argument(s), Python passes %d" % (nm, pos, DUNDER[nm]), b.at)
            if b.kind in ("def_property_readonly",):
                ctx.ob(key + "/arity", pos == 1, "a property is read with the object alone", b.at)
            if b.kind == "def_readwrite":
                ctx.ob(key + "/arity", pos <= 2, "", b.at)
        if b.kind in ("def_readwrite", "def_readonly"):
            for a in b.args:
                if isinstance(a, App) and a.op == "memptr":
                    ft = next((f["t"] for k in [a.args[0]] + ctx.p.bases(a.args[0]) for f in ctx.p.records.get(k, {}).get("fields", []) if f["n"] == a.args[1]), None)
                    if ft:
                        w = castable(ft, types, b.at[0])
                        ctx.ob("boundary/%s.%s/type" % (own.name if own else "?", nm), w is None, w or "", b.at)
    # conversions inside the functions Python calls
    from .p04 import walk
    for b in mod.log:
        for a in b.args:
            if isinstance(a, Closure):
                for e in walk(a.node["ops"][0]["body"]):
                    if not isinstance(e, dict) or e.get("k") not in ("Call", "MCall"):
                        continue
                    f = e.get("fn") or {}
                    if f.get("n") == "pybind11::cast":
                        t = f.get("rt") if f.get("rt") != "pybind11::object" else (f.get("ta") or [None])[0]
                        if isinstance(t, str):
                            n += 1
                            w = castable(t, types, b.at[0])
                            ctx.ob("conversion/%s@%d" % (bare(t), n), w is None, w or "%s can be converted" % t, (b.at[0], e.get("l", b.at[1]), b.at[2]))
    ctx.count("types_crossing", n)


def is_default(mod, x):
    r = mod.log[x.args[0]]
    return r.n.endswith("operator=") and "arg" in r.n


# ------------------------------------------------------------------ entities
def native(ev, cls, cell, name, handle):
    """the native entity of that name: a field or a member function without parameters of the object (or its handle)"""
    p, ai = ev.p, ev.ai
    k = cls.pointee(p) or cls.type
    v = ai.heap.get(cell)
    dyn = v.cls if isinstance(v, Struct) else k
    fs = [f for f, _ in ai.all_fields(dyn)] if dyn in p.records else []
    hit = [f for f in fs if f == name] or [f for f in fs if f.startswith(name)]
    for c2, th in ((k, cell), (cls.type, handle.cells[0])):
        m = [f for f in p.by_name.get(c2 + "::" + name, []) if not f["params"] and not f["fn"].get("st")]
        if m and not [f for f in fs if f == name]:
            return lambda: ai.call(m[0], th, [])
    if len(hit) == 1:
        return lambda: LV(ai.field(cell, hit[0]))
    return None


def expected(ev, cls, cell, name, handle):
    """what reading the property gives, as Python sees it"""
    if cls.type in ("TERM::pTerm", "STATEMENT::pStatement", "COMPOUND::pCompound"):
        ai = ev.ai
        sub, pred, ts = get(ai, cell, "subject"), get(ai, cell, "predicate"), None
        if name == "terms":
            s, q = ev.plain(sub), ev.plain(pred)
            if s != ("none",):
                return ("seq", [s, q])
            tc = pointee_cell(ai, get(ai, cell, "terms"))
            if tc is None:
                return ("none",)
            cells = components(ev, tc)
            return ("seq", cells) if get(ai, cell, "type") == ev.p.enum("TERM::TermType")["COMPOUND"] else ("none",)
        if name == "copula":
            v = get(ai, cell, "copula")
            none = ev.p.enum("COPULA::Copula").get("None")
            return ("none",) if v == none else ("num", v)
        if name == "connector":
            v = get(ai, cell, "connector")
            none = ev.p.enum("CONNECTOR::Connector").get("None")
            return ("none",) if v == none else ("num", v)
    f = native(ev, cls, cell, name, handle)
    if f is None:
        return None
    return ev.plain(f())


def components(ev, tc):
    from ..terms import TermReader
    from ..lang import Unknown
    try:
        cells, _ = TermReader(ev.p).components(ev.ai, tc)
    except Unknown as x:
        raise Undet("components: %s" % x)
    return [ev.plain(ev.ai.heap[c]) for c in cells]


def properties(ctx, mod, classes, ev):
    for c in classes:
        objs = ev.objects(c.type)
        for b in c.defs:
            if b.kind not in ("def_property_readonly", "def_property", "def_readwrite", "def_readonly"):
                continue
            nm = b.args[0]
            key0 = "property/%s.%s" % (c.name, nm)
            try:
                fn = Fn(unwrap(mod, b.args[1]), mod, c.type)
            except Undet as x:
                ctx.ob(key0, None, str(x), b.at)
                continue
            keep = any("keep_alive" in r.n for r in mod.log if App("py", (r.i,)) in b.args)
            for on, mk_ in objs:
                key = "%s/%s" % (key0, on)
                ev.fresh()
                try:
                    h, cell = mk_()
                    want = expected(ev, c, cell, nm, h)
                    if ev.ai.imprecise or ev.ai.unknown_calls:
                        raise Undet("object not built exactly %s" % (list(ev.ai.imprecise)[:1],))
                    o, bad, und = ev.call(fn, [h])
                    ctx.count("evaluations")
                    if bad or o.dead and not und:
                        ctx.ob(key, False, "reading %s of a %s: %s" % (nm, on, (bad or ["does not complete"])[0]), b.at)
                        continue
                    if und:
                        raise Undet(und)
                    got = ev.plain(o.value)
                    if got == ("borrowed",):
                        ctx.ob(key, False, "the iterator handed out walks over storage of the object without keeping it alive", b.at)
                        continue
                    if want is None:
                        ctx.ob(key, None, "no native entity of the name %s" % nm, b.at)
                        continue
                    ctx.ob(key, same_py(got, want), "%s of a %s is %s, natively %s" % (nm, on, show(ev, got), show(ev, want)), b.at)
                except Undet as x:
                    ctx.ob(key, None, str(x), b.at)
            # writing
            if b.kind == "def_property" and len(b.args) > 2:
                setter(ctx, mod, c, b, ev, objs, key0)
            elif b.kind == "def_property_readonly" and not objs:
                ctx.ob(key0, None, "no abstract object of %s" % c.type, b.at)


def setter(ctx, mod, c, b, ev, objs, key0):
    try:
        fs = Fn(unwrap(mod, b.args[2]), mod, c.type)
        for on, mk_ in objs:
            ev.fresh()
            h, cell = mk_()
            x = Sym("new", 0.0, 1.0)
            o, bad, und = ev.call(fs, [h, x])
            if bad:
                ctx.ob(key0 + "/write/" + on, False, bad[0], b.at)
            elif und or o.dead:
                ctx.ob(key0 + "/write/" + on, None, und or "does not complete", b.at)
            else:
                got = expected(ev, c, cell, b.args[0], h)
                ctx.ob(key0 + "/write/" + on, got == ("num", x), "after writing, %s is %s" % (b.args[0], show(ev, got)), b.at)
    except Undet as x:
        ctx.ob(key0 + "/write", None, str(x), b.at)


def same_py(a, b):
    if a[0] == "seq" and b[0] == "seq":
        return len(a[1]) == len(b[1]) and all(same_py(x, y) for x, y in zip(a[1], b[1]))
    return a == b


def show(ev, x):
    if x is None:
        return "?"
    if x[0] == "obj":
        return ev.ai.name.get(x[1], str(x[1]))
    if x[0] == "seq":
        return "[" + ", ".join(show(ev, y) for y in x[1]) + "]"
    return " ".join(str(y)[:60] for y in x)


def unwrap(mod, v):
    """py::cpp_function(f, ...) and py::init(f) -> f"""
    while isinstance(v, App) and v.op == "py":
        r = mod.log[v.args[0]]
        if r.kind in ("cpp_function", "init", "is_method") and r.args:
            v = r.args[0]
        else:
            break
    return v


# ------------------------------------------------------------------ representations
def representations(ctx, mod, classes, ev):
    by = {c.type: c for c in classes}
    for c in classes:
        rp, k = None, c
        while k is not None and rp is None:
            rp = next((b for b in k.defs if b.kind == "def" and b.args[0] in ("__repr__", "__str__")), None)
            if rp is None:
                k = by.get(k.bases[0]) if k.bases else None
        useful = any(b.kind.startswith("def") for b in c.defs)
        if rp is None:
            if useful:
                ctx.ob("text/%s" % c.name, None if not mod.exact else False, "%s has a textual representation that shows it" % c.name, c.b.at)
            continue
        try:
            fn = Fn(unwrap(mod, rp.args[1]), mod, c.type)
        except Undet as x:
            ctx.ob("text/%s" % c.name, None, str(x), rp.at)
            continue
        for on, mk_ in ev.objects(c.type):
            key = "text/%s/%s" % (c.name, on)
            ev.fresh()
            try:
                h, cell = mk_()
                if ev.ai.imprecise or ev.ai.unknown_calls:
                    raise Undet("object not built exactly %s" % (list(ev.ai.imprecise)[:1],))
                n0 = len(fn.params) - 1
                if n0:
                    ctx.ob(key, None, "further parameters", rp.at)
                    continue
                o, bad, und = ev.call(fn, [h])
                ctx.count("evaluations")
                if bad or o.dead and not und:
                    ctx.ob(key, False, "the representation of a %s: %s" % (on, (bad or ["does not complete"])[0]), rp.at)
                    continue
                if und:
                    raise Undet(und)
                v = str(ev.ai.rv(o.value))
                if c.type in ("TRUTH::Truth", "BUDGET::Budget"):
                    fs = [str(ev.ai.heap[x]) for n, x in ev.ai.heap[cell].fields if not n.startswith("_")]
                    pos = [v.find(x) for x in fs]
                    ctx.ob(key, all(x >= 0 for x in pos) and pos == sorted(pos), "the text shows the components in order: %s" % v[:120], rp.at)
                elif c.pointee(ctx.p):
                    ctx.ob(key, "render" in v and "Ptr(cell=%d)" % cell in v, "the text shows the object: %s" % v[:120], rp.at)
            except Undet as x:
                ctx.ob(key, None, str(x), rp.at)


# ------------------------------------------------------------------ construction
def argnames(mod, b):
    """[(name, default value or UNSET, nullable)] of the py::arg of a definition"""
    out = []
    for x in b.args:
        if not (isinstance(x, App) and x.op == "py"):
            continue
        r = mod.log[x.args[0]]
        if r.n.startswith("pybind11::arg") and r.kind == "arg":
            out.append((r.args[0], UNSET))
        elif is_default(mod, x):
            q = mod.log[r.args[0].args[0]] if isinstance(r.args[0], App) else None
            out.append((q.args[0] if q else "?", r.args[1]))
        elif r.kind == "noconvert" or r.kind == "none":
            q = mod.log[r.owner] if r.owner is not None else None
            if q is not None and q.kind == "arg":
                out.append((q.args[0], UNSET))
    return out


UNSET = object()


def variants(ev, t, i, cls):
    """the arguments Python can pass for a parameter of type t: [(name, thunk -> (argument, what a reader sees))]"""
    k = bare(t)
    ai, b = ev.ai, ev.b
    if k == "TERM::pTerm":
        def f():
            c = b.build(("atom", "ARG%d" % i, False))
            return LV(sptr(ai, "TERM::pTerm", c)), ("obj", c)
        return [("term", f)]
    if ARITH.match(k) and k not in ("bool",):
        return [("number", lambda: (Sym("arg%d" % i, 0.0, 1.0), ("num", Sym("arg%d" % i, 0.0, 1.0))))]
    if k == "bool":
        return [("true", lambda: (True, ("num", True))), ("false", lambda: (False, ("num", False)))]
    if k in ("std::string", "std::basic_string<char>"):
        def f():
            s = Sym("arg%d" % i, kind="str")
            return LV(ai.new_cell("std::basic_string<char>", s, "arg")), ("num", s)
        return [("string", f)]
    m = re.match(r"std::shared_ptr<(.+)>$", k)
    cls_ = m.group(1) if m else k if k in ("TRUTH::Truth", "BUDGET::Budget", "SENTENCE::Stamp") else None
    if cls_ in ("TRUTH::Truth", "BUDGET::Budget", "SENTENCE::Stamp"):
        def g():
            c = {"TRUTH::Truth": ev.truth, "BUDGET::Budget": ev.budget, "SENTENCE::Stamp": ev.stamp}[cls_]()
            return (LV(sptr(ai, k, c)) if m else LV(c)), ("obj", c)
        out = [("object", g)]
        if m or t.rstrip().endswith("*"):
            out.append(("None", lambda: (LV(sptr(ai, k, None)) if m else NULL, None)))
        return out
    if k in ("COPULA::Copula", "CONNECTOR::Connector", "SENTENCE::PUNCTUATION::Punctuation"):
        en = ev.p.enum(k)
        names = [n for n in en if en[n] >= 0 and n not in ("None",)]
        if k == "CONNECTOR::Connector":
            names = [n for n in ("Product", "ExtensionalSet", "Conjunction") if n in en]
        if k == "COPULA::Copula":
            names = [n for n in names if n in COPULA_NAME.values()]
        return [(n, lambda v=en[n]: (v, ("num", v))) for n in names]
    if k == "pybind11::args":
        def f():
            cs = [b.build(("atom", "ARG%d%s" % (i, x), False)) for x in "ab"]
            hs = tuple(sptr(ai, "TERM::pTerm", c) for c in cs)
            return LV(ai.new_cell("std::vector<TERM::pTerm>", Cont("vector", hs), "args")), ("seq", [("obj", c) for c in cs])
        return [("two terms", f)]
    return None


def product(xs):
    out = [()]
    for x in xs:
        out = [o + (y,) for o in out for y in x]
    return out


def constructors(ctx, mod, classes, ev):
    for c in classes:
        by = {x.type: x for x in classes}
        for b in c.defs:
            if b.kind != "def" or not b.args or not (isinstance(b.args[0], App) and b.args[0].op == "py" and mod.log[b.args[0].args[0]].kind == "init"):
                continue
            r = mod.log[b.args[0].args[0]]
            if not r.args:
                ctx.ob("constructor/%s@%d" % (c.name, r.i), None, "constructor by types", b.at)
                continue
            try:
                fn = Fn(r.args[0], mod, c.type)
            except Undet as x:
                ctx.ob("constructor/%s" % c.name, None, str(x), b.at)
                continue
            names = argnames(mod, b)
            sig = ",".join(bare(t).split("::")[-1] for t in fn.params)
            vs = [variants(ev, t, i, c) for i, t in enumerate(fn.params)]
            if None in vs:
                ctx.ob("constructor/%s(%s)" % (c.name, sig), None, "arguments of type %s" % [t for t, v in zip(fn.params, vs) if v is None], b.at)
                continue
            for combo in product(vs):
                key = "constructor/%s(%s)/%s" % (c.name, sig, ",".join(x[0] for x in combo))
                construct(ctx, mod, c, b, ev, fn, names, combo, key)
            defaults(ctx, mod, c, b, ev, names, sig)


def construct(ctx, mod, c, b, ev, fn, names, combo, key):
    ev.fresh()
    ai = ev.ai
    try:
        made = [x[1]() for x in combo]
        o, bad, und = ev.call(fn, [m[0] for m in made])
        ctx.count("evaluations")
        if bad or o.dead and not und:
            ctx.ob(key, False, "%s(%s): %s" % (c.name, ", ".join(x[0] for x in combo), (bad or ["does not complete"])[0]), b.at)
            return
        if und:
            raise Undet(und)
        got = ev.plain(o.value)
        if got[0] != "obj":
            ctx.ob(key, False, "the constructor gives no object", b.at)
            return
        cell = got[1]
        if ai.freed.get(cell):
            ctx.ob(key, False, "the object is already released", b.at)
            return
        h = LV(sptr(ai, c.type, cell)) if c.pointee(ctx.p) else LV(cell)
        ok, why = True, []
        if names and len(names) == len(fn.params):
            for (nm, _), (_, want) in zip(names, made):
                if want is None:
                    continue
                e = expected(ev, c, cell, nm, h)
                if e is None:
                    raise Undet("no entity %s" % nm)
                if not same_py(strip(e), strip(want)):
                    ok = False
                    why.append("argument %s is %s of the object, passed %s" % (nm, show(ev, e), show(ev, want)))
        elif c.type == "STATEMENT::pStatement":
            for nm, (_, want) in zip(("subject", "copula", "predicate"), made):
                e = expected(ev, c, cell, nm, h)
                if not same_py(e, want):
                    # symmetric copulas may order the parts
                    ok = False
                    why.append("%s is %s, passed %s" % (nm, show(ev, e), show(ev, want)))
        elif c.type == "COMPOUND::pCompound":
            e = expected(ev, c, cell, "connector", h)
            t = expected(ev, c, cell, "terms", h)
            want = made[1][1]
            ok = same_py(e, made[0][1])
            seq = lambda x: [y[1] for y in x[1]] if x and x[0] == "seq" else None
            if combo[0][0] == "Product":
                ok &= seq(t) == seq(want)
            else:
                ok &= seq(t) is not None and sorted(seq(t)) == sorted(seq(want))
            why = ["connector %s, components %s of %s" % (show(ev, e), show(ev, t), show(ev, want))]
        elif c.type == "TERM::pTerm" and combo and combo[0][0] == "string":
            d = get(ai, ev.interp, "dictionary")
            known = [ai.heap.get(x) for x in getattr(d, "cells", ())]
            ok = "arg0" in str([[ai.heap.get(q[1]) for q in k.fields] if isinstance(k, Struct) else k for k in known] + list(getattr(d, "cells", ()) and [ai.heap.get(q) for q in d.cells]))
            why = ["the term is known under the name passed"]
        ctx.ob(key, ok, "; ".join(why[:2]) or "the object has the parts passed", b.at)
        # what was made can be shown
        rp = next((x for k in [c] for x in k.defs if x.kind == "def" and x.args[0] == "__repr__"), None)
        if rp is not None:
            rf = Fn(unwrap(mod, rp.args[1]), mod, c.type)
            if len(rf.params) == 1:
                # the rendering itself, of an object made by Python
                saved = ai.stubs.pop(INTERP)
                try:
                    o, bad, und = ev.call(rf, [h])
                finally:
                    ai.stubs[INTERP] = saved
                bad = [x for x in bad if "null" in x or "after" in x or "returns" in x or "type-confusion" in x]
                if bad:
                    ctx.ob(key + "/shown", False, "showing the object made: %s" % bad[0], b.at)
                else:
                    ctx.ob(key + "/shown", True, "the object made can be shown", b.at)
    except Undet as x:
        ctx.ob(key, None, str(x), b.at)


def strip(x):
    """numbers: the quantity, conversions between floating-point types dropped"""
    if x[0] == "num":
        v = x[1]
        while isinstance(v, App) and v.op in ("float", "double", "cast", "conv", "trunc:float") and v.args:
            v = v.args[-1] if v.op in ("cast", "conv") else v.args[0]
        return ("num", v)
    return x


def defaults(ctx, mod, c, b, ev, names, sig):
    """a default value is that of the native object of the kind"""
    ds = [(n, v) for n, v in names if v is not UNSET]
    if not ds:
        return
    k = c.pointee(ctx.p) or c.type
    fs = [f for f in ctx.p.by_name.get(k + "::create", []) if all(q.get("def") is not None for q in f["params"])]
    if not fs:
        return
    ev.fresh()
    ai = ev.ai
    try:
        args = [ai.ev(q["def"]) if not isinstance(q["def"], bool) else None for q in fs[0]["params"]]
        o = erun(ai, lambda: ai.call(fs[0], None, args))
        got = ev.plain(o.value)
        if o.dead or got[0] != "obj" or ai.imprecise:
            raise Undet("native default object not determined")
        h = LV(got[1])
        for n, v in ds:
            e = expected(ev, c, got[1], n, h)
            if e is None:
                continue
            ctx.ob("default/%s.%s" % (c.name, n), True if strip(e) == strip(("num", v)) else (False if const(strip(e)) and const(strip(("num", v))) or
                   sym(strip(e)) and sym(strip(("num", v))) else None), "the default of %s is %s, natively %s" % (n, v, show(ev, e)), b.at)
    except (Undet, KeyError, AttributeError, TypeError) as x:
        ctx.ob("default/%s(%s)" % (c.name, sig), None, str(x), b.at)


def const(x):
    return x[0] == "num" and isinstance(x[1], (int, float))


def sym(x):
    return x[0] == "num" and isinstance(x[1], Sym)


# ------------------------------------------------------------------ functions
def functions(ctx, mod, classes, ev):
    """every other function: no argument Python can pass makes it misbehave, and static functions named after a native function give its result"""
    for b in mod.log:
        if b.kind not in ("def_static", "def") or not b.args or not isinstance(b.args[0], str) or b.args[0].startswith("__") or b.args[0] == "parse":
            continue
        c = next((x for x in classes if b.owner is not None and x.b.i == b.owner), None)
        key0 = "function/%s.%s" % (c.name if c else "module", b.args[0])
        try:
            fn = Fn(unwrap(mod, b.args[1]), mod, c.type if c else None)
        except Undet as x:
            ctx.ob(key0, None, str(x), b.at)
            continue
        ps = fn.params if b.kind == "def_static" or c is None else fn.params[1:]
        vs = [variants(ev, t, i, c) for i, t in enumerate(ps)]
        if None in vs:
            ctx.ob(key0, None, "arguments of type %s" % [t for t, v in zip(ps, vs) if v is None], b.at)
            continue
        selfs = [("", None)] if b.kind == "def_static" or c is None else ev.objects(c.type)
        for on, mk_ in selfs:
            for combo in product(vs):
                key = "%s/%s%s" % (key0, on, ",".join(x[0] for x in combo))
                ev.fresh()
                try:
                    first = [mk_()[0]] if mk_ else []
                    made = [x[1]() for x in combo]
                    args = first + [m[0] for m in made]
                    o, bad, und = ev.call(fn, args)
                    ctx.count("evaluations")
                    if bad or o.dead and not und and not ev.ai.thrown:
                        ctx.ob(key, False, "%s(%s): %s" % (b.args[0], ", ".join(x[0] for x in combo), (bad or ["does not complete"])[0]), b.at)
                        continue
                    if und:
                        raise Undet(und)
                    ctx.ob(key, True, "completes", b.at)
                    if c is not None and not mk_ and not o.dead and all(x[0] != "None" for x in combo):
                        same_native(ctx, mod, c, b, ev, key, made, o)
                except Undet as x:
                    ctx.ob(key, None, str(x), b.at)


def same_native(ctx, mod, c, b, ev, key, made, o):
    k = c.pointee(ctx.p) or c.type
    fs = [f for f in ctx.p.by_name.get(k + "::" + b.args[0], []) if len(f["params"]) == len(made)]
    if len(fs) != 1:
        return
    ai = ev.ai
    args = []
    for q, (a, w) in zip(fs[0]["params"], made):
        a = LV(w[1]) if w and w[0] == "obj" and not bare(q["t"]).startswith(("std::shared_ptr", "TERM::p")) else a
        args.append(a)
    got = ai.rv(o.value)
    o2 = erun(ai, lambda: ai.rv(ai.call(fs[0], None, args)))
    if o2.dead or o2.big or ai.imprecise or isinstance(got, Struct):
        return
    ctx.ob(key + "/entity", same(got, o2.value) or str(got) == str(o2.value), "gives what %s gives: %s" % (fs[0]["fn"]["n"], str(got)[:80]), b.at)


# ------------------------------------------------------------------ parse
def parsing(ctx, mod, ev):
    defs = [b for b in mod.on_module("def") if b.args and b.args[0] == "parse"]
    ctx.ob("parse/defined", True if len(defs) >= 1 else (None if not mod.exact else False), "the module has a function parse", (mod.fn.get("file", "?"), mod.fn.get("l", 0), mod.fn["fn"]["n"]))
    for b in defs:
        try:
            fn = Fn(unwrap(mod, b.args[1]), mod, None)
        except Undet as x:
            ctx.ob("parse", None, str(x), b.at)
            continue
        ai = ev.ai
        for case in ("a task", "no task", "std::exception", "std::runtime_error", "std::out_of_range", "fmt::format_error", "int"):
            key = "parse/" + case
            ev.fresh()
            seen = []

            def stub(ai, f, this, args, e):
                seen.append((this, args))
                if case == "a task":
                    return LV(sptr(ai, "TASK::pTask", task))
                if case == "no task":
                    return LV(sptr(ai, "TASK::pTask", None))
                ai.throw((case, Sym("thrown")))
            try:
                task = ev.task("Judgement")
                ai.stubs[PARSE] = stub
                line = LV(ai.new_cell("std::basic_string<char>", Sym("line", kind="str"), "line"))
                o, bad, und = ev.call(fn, [line])
                ctx.count("evaluations")
                if not seen:
                    ctx.ob(key, None, "parse_task is not called" if not und else und, b.at)
                    continue
                if bad:
                    ctx.ob(key, False, "when the parser gives %s: %s" % (case, bad[0]), b.at)
                    continue
                if und:
                    raise Undet(und)
                if case == "a task":
                    if o.dead or ai.thrown:
                        ctx.ob(key, False, "a parsed sentence does not reach Python", b.at)
                    else:
                        g = ev.plain(o.value)
                        ctx.ob(key, g == ("obj", task), "the task of the parser is handed to Python: %s" % show(ev, g), b.at)
                    same_line = all(any(isinstance(x, LV) and x.cells == line.cells or "line" in str(ai.rv(x) if isinstance(x, LV) else x) for x in args) for _, args in seen)
                    ctx.ob("parse/line", True if same_line else None, "the line passed is analysed", b.at)
                else:
                    ctx.ob(key, o.dead and bool(ai.thrown), "when the parser gives %s, an exception reaches Python" % case, b.at)
            except Undet as x:
                ctx.ob(key, None, str(x), b.at)
            finally:
                ai.stubs.pop(PARSE, None)
