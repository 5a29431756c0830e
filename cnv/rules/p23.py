"""Ownership.  (a) Every place where a raw pointer is put in charge of an owning handle, and every delete-expression, is found
in the syntax trees of the whole program; where the pointer comes from is traced backwards through casts, conditionals,
locals, references, parameters (to every caller) and returned values.  It must come from a new-expression or a release: a
pointer obtained from another handle, the address of something that was not created by new, or the object itself may not be
owned or deleted.  The class it was created as must be the class it is destroyed as, derived from it with a virtual
destructor, or add nothing to it.  Classes whose destructor releases a member are not copied by the implicit copy operations.
Functions Python can call hand out only fresh objects where Python takes ownership, and shared objects have shared holders.
(b) The front end is evaluated over sentence shapes, cloning over term shapes, the creators over fresh parts, with every
adoption recorded per object: no object gets two owners, none is deleted while owned, none is destroyed through a class that
cannot destroy it, and no chain of owning handles leads from an object back to itself (such a chain is never released)."""
from ..harness import *
from ..terms import *
from ..env import *
from ..env import run as erun
from ..build import Builder
from ..lib import targs, base_of
from . import p04, p05
from .p04 import walk

SMART = ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__shared_ptr_access")
KINDS = {"double-own", "bad-own", "delete-owned", "nonvirtual-own", "nonvirtual-delete", "double-free", "bad-free", "type-confusion"}


def uc(t):
    t = (t or "").strip()
    ch = True
    while ch:
        ch = False
        for w in ("const ", "volatile ", "struct ", "class "):
            if t.startswith(w):
                t, ch = t[len(w):].strip(), True
        for w in (" const", "&"):
            if t.endswith(w):
                t, ch = t[:-len(w)].strip(), True
    return t


def pointee(t):
    t = uc(t)
    return uc(t[:-1]) if t.endswith("*") else None


class Flow:
    """where pointers come from"""
    def __init__(self, p):
        self.p = p
        self.callers = {}
        self.assign = {}
        self.params = {}
        self.infn = {}
        for u, f in p.funcs.items():
            for i, a in enumerate(f.get("params", [])):
                if a.get("d") is not None:
                    self.params[(u, a["d"])] = (u, i)
            for x in walk([f.get("body"), f.get("inits")]):
                k = x.get("k")
                if "d" in x and (k == "Ref" or k is None or "init" in x):
                    x["D"] = (u, x["d"])
                if k in ("Call", "MCall", "Ctor") and x.get("fn") and isinstance(x.get("a"), list):
                    self.callers.setdefault(x["fn"].get("u"), []).append((f, x, x["a"]))
                elif k == "Decl":
                    for v in x["v"]:
                        if v.get("d") is not None:
                            self.assign.setdefault((u, v["d"]), []).append(("decl", v, v.get("init")))
                elif k == "Bin" and x.get("op") == "=":
                    t = strip(x["x"])
                    if t.get("k") == "Ref" and t.get("d") is not None:
                        self.assign.setdefault((u, t["d"]), []).append(("set", t, x["y"]))

    def fresh_base(self, cls, seen=()):
        return cls

    def smart(self, cls):
        """std smart pointer at the root of a class (its own name when it is one)"""
        cls = uc(cls)
        if base_of(cls) in SMART:
            return cls
        r = self.p.records.get(cls)
        for b in (r or {}).get("bases", []):
            b = b if isinstance(b, str) else b.get("t", "")
            s = self.smart(b)
            if s:
                return s
        return None

    # ---- values of pointer type
    def ptr(self, e, seen=frozenset()):
        if not isinstance(e, dict):
            return {("?",)}
        k = e.get("k")
        if k == "Cast":
            t, ft = e.get("t", ""), e.get("ft", "")
            if e.get("ck") in ("ArrayToPointerDecay",):
                return self.lv(e["e"], seen)
            return self.ptr(e["e"], seen)
        if k in ("Temp",):
            return self.ptr(e["e"], seen)
        if k == "New":
            return {("new", uc(e["t"]))}
        if k in ("Null", "Zero") or k == "Int" and str(e.get("v")) == "0":
            return {("null",)}
        if k == "This":
            return {("this",)}
        if k == "Un" and e.get("op") == "&":
            return self.lv(e["x"], seen)
        if k == "Cond":
            return self.ptr(e["x"], seen) | self.ptr(e["y"], seen)
        if k == "Init" and len(e.get("e") or []) == 1:
            return self.ptr(e["e"][0], seen)
        if k == "Bin" and e.get("op") == ",":
            return self.ptr(e["y"], seen)
        if k == "Bin" and e.get("op") == "=":
            return self.ptr(e["y"], seen)
        if k == "Ref":
            d = e.get("D")
            if d in self.params:
                return self.param(d, seen, self.ptr)
            if d in self.assign and not e.get("g"):
                return self.local(d, seen, self.ptr)
            return {("?",)}
        if k == "MCall":
            n = (e.get("fn") or {}).get("n", "")
            o = e.get("ot") or ""
            m = n.split("::")[-1]
            if n.startswith("std::"):
                if m == "get":
                    return {("handle",)}
                if m == "operator->":
                    return {("handle",)}
                if m == "release":
                    return {("release", )}
                return {("?",)}
            return self.ret(e["fn"], seen, self.ptr)
        if k == "OpCall":
            n = (e.get("fn") or {}).get("n", "")
            if n.startswith("std::") and n.endswith("operator->") and ("shared_ptr" in n or "unique_ptr" in n):
                return {("handle",)}
            return {("?",)}
        if k == "Call" and e.get("fn"):
            n = e["fn"].get("n", "")
            if n in ("std::addressof", "std::__addressof") and e["a"]:
                return self.lv(e["a"][0], seen)
            if n in ("std::move", "std::forward") and e["a"]:
                return self.ptr(e["a"][0], seen)
            return self.ret(e["fn"], seen, self.ptr)
        return {("?",)}

    # ---- places: what their address is
    def lv(self, e, seen=frozenset()):
        if not isinstance(e, dict):
            return {("?",)}
        k = e.get("k")
        if k in ("Cast",):
            return self.lv(e["e"], seen)
        if k == "Temp":
            return {("temporary",)}
        if k == "Un" and e.get("op") == "*":
            return self.ptr(e["x"], seen)
        if k == "Cond":
            return self.lv(e["x"], seen) | self.lv(e["y"], seen)
        if k == "Member":
            return {("member", e.get("m"))} if self.isval(e) else {("?",)}
        if k == "This":
            return {("this",)}
        if k == "Ref":
            d = e.get("D")
            if d in self.params:
                u, i = self.params[d]
                t = self.p.funcs[u]["params"][i]["t"]
                if t.rstrip().endswith("&"):
                    return self.param(d, seen, self.lv)
                return {("variable", e.get("n"))}
            if e.get("g"):
                return {("variable", e.get("n"))}
            a = self.assign.get(d)
            if a:
                dec = [v for c, v, _ in a if c == "decl"]
                if dec and str(dec[0].get("t", "")).rstrip().endswith("&"):
                    out = set()
                    for c, v, x in a:
                        if c == "decl" and (d, "lv") not in seen:
                            out |= self.lv(x, seen | {(d, "lv")})
                    return out or {("?",)}
                if dec:
                    return {("variable", e.get("n"))}
            return {("?",)}
        if k == "OpCall":
            n = (e.get("fn") or {}).get("n", "")
            if n.startswith("std::") and n.endswith("operator*") and ("shared_ptr" in n or "unique_ptr" in n):
                return {("handle",)}
            return {("?",)}
        if k in ("MCall", "Call") and e.get("fn"):
            return self.ret(e["fn"], seen, self.lv)
        return {("?",)}

    def isval(self, m):
        r = self.p.records.get(m.get("cls"))
        f = next((f for f in (r or {}).get("fields", []) if f["n"] == m.get("m")), None)
        return f is not None and not f["t"].rstrip().endswith("&")

    def local(self, d, seen, g):
        if (d, "v") in seen:
            return set()
        out = set()
        for _, _, x in self.assign[d]:
            out |= g(x, seen | {(d, "v")}) if x is not None else {("unset",)}
        return out - {("unset",)} or {("?",)}

    def param(self, d, seen, g):
        u, i = self.params[d]
        if (d, "p") in seen:
            return set()
        out = set()
        for f, x, a in self.callers.get(u, []):
            if i < len(a):
                out |= g(a[i], seen | {(d, "p")})
        return out or {("?",)}

    def ret(self, fn, seen, g):
        f = self.p.funcs.get(fn.get("u"))
        if f is None or not f.get("body") or (fn["u"], "r") in seen or fn.get("virt"):
            return {("?",)}
        out = set()
        for x in walk(f["body"]):
            if x.get("k") == "Lambda":
                return {("?",)}
            if x.get("k") == "Ret" and x.get("e"):
                out |= g(x["e"], seen | {(fn["u"], "r")})
        return out or {("?",)}


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "Temp", "Paren"):
        e = e["e"]
    return e if isinstance(e, dict) else {}


def derives(p, k, s):
    if k == s:
        return True
    return any(derives(p, b if isinstance(b, str) else b.get("t", ""), s) for b in p.records.get(k, {}).get("bases", []))


def adds(p, k, s):
    """does k have parts of its own beyond s"""
    out = []
    while k != s and k in p.records:
        r = p.records[k]
        out += [f["n"] for f in r["fields"]]
        if [d for d in p.by_name.get(k + "::~" + k.split("::")[-1], []) if not d.get("implicit") and d.get("body") and d["body"].get("b")]:
            out.append("a destructor of its own")
        bs = [b if isinstance(b, str) else b.get("t", "") for b in r["bases"]]
        k = next((b for b in bs if derives(p, b, s)), s)
    return out


def destroys(p, k, s):
    """destroying a k through an s: None when it is complete, else what is missing"""
    if k == s or k not in p.records or s not in p.records:
        return None
    if not derives(p, k, s):
        return None if derives(p, s, k) else "a %s is destroyed as a %s" % (k, s)
    if p.records[s]["vdtor"]:
        return None
    a = adds(p, k, s)
    if not a:
        return None
    return "a %s is destroyed as a %s, whose destructor is not virtual: %s stays behind" % (k, s, ", ".join(a[:3]))


BAD = {"handle": "a pointer that another handle owns", "this": "the object itself", "variable": "the address of a variable",
       "temporary": "the address of a temporary", "member": "the address of a member"}


def sites(ctx, fl):
    """(function, node, operand, static type, what it is)"""
    p = ctx.p
    out = []
    for u, f in p.funcs.items():
        if f.get("implicit"):
            continue
        bases = [i["e"] for i in f.get("inits") or [] if isinstance(i.get("e"), dict) and (i.get("base") or i.get("deleg"))]
        for x in walk([f.get("body"), f.get("inits")]):
            k = x.get("k")
            if k == "Delete":
                out.append((f, x, x["e"], uc(x["dt"]), "delete"))
            elif k == "Ctor" and len(x.get("a") or []) >= 1:
                fn = x["fn"]
                pt = fn.get("pt") or []
                if not pt or pointee(pt[0]) is None:
                    continue
                if base_of(uc(x["cls"])) in SMART and len([a for a in x["a"]]) == 1:
                    out.append((f, x, x["a"][0], pointee(pt[0]), "owner"))
                elif fn.get("inh") and fl.smart(x["cls"]) and len(x["a"]) == 1:
                    out.append((f, x, x["a"][0], pointee(pt[0]), "owner"))
            elif k == "MCall" and x.get("fn", {}).get("n", "").startswith("std::") and x["fn"]["n"].endswith("::reset") and len(x.get("a") or []) == 1:
                pt = x["fn"].get("pt") or []
                if pt and pointee(pt[0]) is not None:
                    out.append((f, x, x["a"][0], pointee(pt[0]), "owner"))
    return out


def handed_on(fl, e):
    """the parameter the operand is, when it is just handed on"""
    e = strip(e)
    if e.get("k") == "Ref" and e.get("D") in fl.params and e["D"] not in fl.assign:
        return fl.params[e["D"]]
    return None


def structural(ctx):
    p = ctx.p
    fl = Flow(p)
    todo = sites(ctx, fl)
    seen, n = set(), 0
    handing = set()
    per = {}
    while todo:
        f, x, e, s, what = todo.pop(0)
        k = (id(x), s)
        if k in seen:
            continue
        seen.add(k)
        at = (f.get("file", "?"), x.get("l") or f.get("l", 0), f["fn"]["n"])
        h = handed_on(fl, e)
        if h and (h, s, what) not in handing and fl.callers.get(h[0]):
            handing.add((h, s, what))
            for g, y, a in fl.callers[h[0]]:
                if h[1] < len(a):
                    todo.append((g, y, a[h[1]], s, what))
            continue
        if h and fl.callers.get(h[0]):
            continue
        src = fl.ptr(e)
        per[f["fn"]["n"]] = per.get(f["fn"]["n"], 0) + 1
        key = "%s in %s/%d" % (what, f["fn"]["n"], per[f["fn"]["n"]])
        ctx.count("ownership_sites")
        bad = [BAD[o[0]] for o in src if o[0] in BAD]
        if what == "delete" and ("member" in {o[0] for o in src} and len(src) > 1):
            bad = []
        miss = [m for m in (destroys(p, o[1], s) for o in src if o[0] == "new") if m]
        if bad:
            ctx.ob(key, False, "%s is %s" % (bad[0], "deleted" if what == "delete" else "put in charge of another owner"), at)
        elif miss:
            ctx.ob(key, False, miss[0], at)
        elif ("?",) in src:
            # the class is not known here; evaluated scenarios decide those that the front end reaches
            ctx.count("ownership_sites_of_unknown_origin")
        else:
            ctx.ob(key, True, "comes from %s" % ", ".join(sorted(" ".join(o) for o in src)), at)
    copies(ctx, fl)
    uniques(ctx)


def uniques(ctx):
    """unique owners converted to owners of a base class destroy through the base"""
    p = ctx.p
    for u, f in p.funcs.items():
        for x in walk([f.get("body"), f.get("inits")]):
            if x.get("k") in ("Ctor", "OpCall") and x.get("fn") and "unique_ptr" in (x.get("cls") or x["fn"].get("n", "")):
                pt = x["fn"].get("pt") or []
                t = uc(x.get("cls") or x.get("t", ""))
                if pt and base_of(uc(pt[0])) == "std::unique_ptr" and base_of(t) == "std::unique_ptr":
                    a, b = targs(uc(pt[0].replace("&&", "&"))), targs(t)
                    if a and b and a[0] != b[0]:
                        m = destroys(p, uc(a[0]), uc(b[0]))
                        ctx.ob("unique owner in %s" % f["fn"]["n"], not m, m or "complete", (f.get("file", "?"), x.get("l", 0), f["fn"]["n"]))


def copies(ctx, fl):
    """classes that release a member themselves are not copied member by member"""
    p = ctx.p
    owning = {}
    for c, m in p04.owning_fields(p):
        owning.setdefault(c, set()).add(m)
    for c, ms in sorted(owning.items(), key=str):
        if c not in p.records:
            continue
        used = {}
        for u, f in p.funcs.items():
            if f.get("implicit"):
                continue
            for x in walk([f.get("body"), f.get("inits")]):
                fn = x.get("fn") or {}
                if x.get("k") == "Ctor" and x.get("cls") == c and fn.get("cc") == "copy" and x.get("a") and \
                        strip_temp(x["a"][0]):
                    g = p.funcs.get(fn.get("u"))
                    if g is None or g.get("implicit"):
                        used.setdefault("copied", (f.get("file", "?"), x.get("l", 0), f["fn"]["n"]))
                if x.get("k") == "OpCall" and x.get("op") == "=" and fn.get("n") == c + "::operator=":
                    g = p.funcs.get(fn.get("u"))
                    if g is None or g.get("implicit"):
                        used.setdefault("assigned", (f.get("file", "?"), x.get("l", 0), f["fn"]["n"]))
        w = next(iter(used.values()), None) or ctx.site(c + "::~" + c.split("::")[-1])
        ctx.ob("copies of %s" % c, not used, "%s is %s member by member, but its destructor releases %s" % (c, next(iter(used)), ", ".join(sorted(ms)))
               if used else "no member-wise copy of a class that releases %s" % ", ".join(sorted(ms)), w)


def strip_temp(e):
    return True


# ---------------------------------------------------------------- evaluated
def weak(ai, v):
    return isinstance(v, Struct) and base_of(v.cls or "") == "std::weak_ptr"


def own_edges(ai, c, fields):
    """cells that live as long as c does"""
    v = ai.heap.get(c)
    for a in v.alts if isinstance(v, Alt) else (v,):
        if isinstance(a, Struct):
            if weak(ai, a):
                continue
            for n, k in a.fields:
                if n == "$p" or (a.cls, n) in fields:
                    q = ai.heap.get(k)
                    for z in q.vals if isinstance(q, Phi) else (q,):
                        if isinstance(z, Ptr):
                            yield z.cell
                else:
                    f = next((f for f in (ai.p.records.get(a.cls) or {}).get("fields", []) if f["n"] == n), None)
                    if f is None or not f["t"].rstrip().endswith(("&", "*")):
                        yield k
        elif isinstance(a, Cont):
            yield from a.cells


def cycle(ai, root, fields):
    state, path = {}, []
    stack = [(root, own_edges(ai, root, fields))]
    state[root] = 1
    while stack:
        c, it = stack[-1]
        for n in it:
            if state.get(n) == 1:
                chain = [x for x, _ in stack]
                return chain[chain.index(n):] + [n]
            if n not in state:
                state[n] = 1
                stack.append((n, own_edges(ai, n, fields)))
                break
        else:
            state[c] = 2
            stack.pop()
    return None


def judge(ctx, ai, key, issues, roots, w, name, exact):
    iss = [i for i in issues if i.kind in KINDS]
    if iss:
        d = [i for i in iss if i.definite]
        i = (d or iss)[0]
        ctx.ob(key + "/owners", False if exact and d else None, "%s: %s" % (i.kind, i.msg), p04.place(i, w), name)
    else:
        ctx.ob(key + "/owners", True if exact else None, "one owner each", w, name)
    fields = p04.owning_fields(ai.p)
    for r in roots:
        c = cycle(ai, r, fields)
        if c:
            nm = [ai.desc(x) for x in c if x in ai.dyn or ai.freed.get(("own", x))]
            ctx.ob(key + "/chain", False if exact else None, "owning handles lead from %s back to itself: it is never released" % (nm[:1] or [ai.desc(c[0])])[0], w, name)
            return
    ctx.ob(key + "/chain", True if exact else None, "no chain of owners closes", w, name)


def shape(ctx, name, seqs):
    sc = None
    w = "NARSESEPARSER::task"
    for i, seq in enumerate(seqs):
        sc = sc or Scen(ctx.p, ctx.tables)
        r = feed(ctx, seq, sc=sc)
        if not hasattr(r, "issues"):
            ctx.ob(name, None, r.fail or r.why, w, r.name)
            return
        judge(ctx, r.ai, name + ("" if len(seqs) == 1 else " (%d)" % (i + 1)), r.issues, [r.task] if r.task is not None else [],
              ctx.site(w), r.name, not r.imprecise)
        if r.fail or r.why:
            return


def cloned(ctx, name, s):
    r = feed(ctx, toks(s) + ["."])
    w = ctx.site("TERM::Term::clone")
    if r.fail or r.why:
        ctx.ob("clone " + name, None, r.fail or r.why, w, r.name)
        return
    ai = r.ai
    c = r.ptr("sentence.term")
    n0, m0 = len(ai.issues), len(ai.imprecise)
    h = sptr(ai, "TERM::pTerm", c, name="original")
    fs = [f for f in ctx.p.fns("TERM::Term::clone") if f.get("body")]
    for f in fs:
        st = f["fn"].get("st")
        args = [LV(h)] if st and f["params"] else []
        if st and not args:
            continue
        try:
            o = erun(ai, lambda: ai.call(f, None if st else c, args))
        except Exception as x:
            ctx.ob("clone " + name, None, "analysis gave up: %s" % (x,), w, r.name)
            return
        k = pointee_cell(ai, ai.rv(o.value)) if o.value is not None and not o.dead else None
        judge(ctx, ai, "clone " + name, ai.issues[n0:], [k] if k is not None else [], w, r.name, not ai.imprecise[m0:] and not ai.unknown_calls and not o.dead)


def creators(ctx):
    """every function of the program that makes a handle, given fresh parts"""
    from .p21 import Class, Eval, Fn, Undet, bare
    from ..pymod import Module
    p = ctx.p
    mod = Module(p)
    mod.p = p
    fl = Flow(p)
    cls = [Class(b, mod) for b in mod.classes()]
    reg = {c.type: c for c in cls}
    callables = []
    for b in mod.log:
        own = next((c for c in cls if c.b.i == b.owner), None)
        for a in b.args:
            if isinstance(a, (Closure, FnPtr)):
                try:
                    callables.append((b, own, Fn(a, mod, own), a))
                except Undet:
                    pass
    # shared objects have shared holders
    for b, own, fn, a in callables:
        name = "%s%s" % (own.name + "." if own and own.name else "", next((x for x in b.args if isinstance(x, str)), "constructor"))
        for t in list(fn.params) + [fn.rt]:
            t = uc(t)
            if base_of(t) == "std::shared_ptr":
                x = targs(t)
                x = uc(x[0]) if x else ""
                if x in reg and t not in reg:
                    ok = reg[x].holder is not None and base_of(reg[x].holder) == "std::shared_ptr"
                    ctx.ob("holder of %s for %s" % (x, name), ok, "%s is shared with Python, its holder is %s" % (x, reg[x].holder or "exclusive"), b.at)
        # what Python takes ownership of is fresh
        pol = [str(q) for q in policies(b)]
        take = any("take_ownership" in q or q.endswith("#0") for q in pol)
        rp = pointee(fn.rt) if fn.rt else None
        if rp and rp in reg and (take or not pol):
            src = returned(p, fl, a, fl.ptr)
            bad = [BAD[o[0]] for o in src if o[0] in BAD]
            ctx.ob("result of %s" % name, not bad, "Python takes ownership of %s" % (bad or ["a new object"])[0], b.at)
        elif fn.rt and fn.rt.rstrip().endswith("&") and take and uc(fn.rt) in reg:
            src = returned(p, fl, a, fl.lv)
            bad = [BAD[o[0]] for o in src if o[0] in BAD]
            ctx.ob("result of %s" % name, not bad, "Python takes ownership of %s" % (bad or ["a new object"])[0], b.at)
    ctx.ob("objects handed to Python", True, "%d functions, %d classes" % (len(callables), len(cls)), ("?", 0, mod.fn["fn"]["n"]))


def policies(b):
    for x in walk(b.rec["e"] or {}):
        if x.get("k") in ("EnumC", "Ref") and "return_value_policy" in str(x.get("qn") or x.get("n") or ""):
            yield x.get("qn") or x.get("n")


def returned(p, fl, a, g):
    if isinstance(a, FnPtr):
        f = p.funcs.get(a.usr)
        return fl.ret(f["fn"], frozenset(), g) if f else {("?",)}
    out = set()
    for x in walk(a.node["ops"][0]["body"]):
        if x.get("k") == "Ret" and x.get("e"):
            out |= g(x["e"])
    return out or {("?",)}


def run(ctx):
    structural(ctx)
    creators(ctx)
    seqs = p04.sequences("quick")
    terms = [s for s in seqs if s[0].startswith("term ")]
    others = [s for s in seqs if not s[0].startswith("term ")]
    step = 1 if ctx.tier == "thorough" else 2
    ctx.par([("s", x) for x in terms[::step] + others[::step * 3]] + [("c", x) for x in p05.shapes("quick")[::step]],
            lambda x: shape(ctx, *x[1]) if x[0] == "s" else cloned(ctx, *x[1]))
