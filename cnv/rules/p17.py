"""Rendering.  Sentences of every shape are analysed, then the program's own rendering functions are evaluated abstractly on the
resulting term, sentence and task in both modes; the abstract text (literal pieces, numbers by the quantity they show, colour
spans) is compared with the written syntax of the analysed objects.  Truth, budget and time are arbitrary symbols; names
contain characters with a meaning to the formatting library, so that a name used as a format string shows."""
import math
import re
from ..consts import big_shapes
from ..harness import *
from ..env import *
from ..env import run as erun
from ..terms import *
from ..lang import CONNECTOR_NAME, COPULA_NAME
from . import p05

I = "INTERPRETER::Interpreter::interpret"
PUNCT = {"Judgement": ".", "Question": "?", "Goal": "!", "Quest": "@"}
TENSE_NAME = {"Past": ":\\:", "Present": ":|:", "Future": ":/:"}
VAR = {"ivar": "$", "dvar": "#", "qvar": "?"}


class Undet(Exception):
    pass


def flat_text(v, colored):
    """abstract text -> [str | ("num", spec, value)], colour spans dropped"""
    out = []

    def put(x):
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        elif isinstance(x, App) and x.op in ("cat", "string"):
            for y in x.args:
                put(y)
        elif isinstance(x, App) and x.op == "styled":
            if not colored:
                raise Coloured()
            put(x.args[0])
        elif isinstance(x, App) and x.op == "fmt":
            out.append(("num", x.args[0], x.args[1]))
        elif isinstance(x, Sym) and x.kind in ("str", "numstr"):
            out.append(("name", x.name))
        else:
            raise Undet("text %s" % (str(x)[:80],))
    put(v)
    return out


class Coloured(Exception):
    pass


def words(items):
    """canonical form: white space collapsed around the numbers and at the ends"""
    out = []
    for x in items:
        if isinstance(x, str):
            x = re.sub(r"\s+", " ", x)
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    out = [x for x in out if x != ""]
    if out and isinstance(out[0], str):
        out[0] = out[0].lstrip()
    if out and isinstance(out[-1], str):
        out[-1] = out[-1].rstrip()
    return [x for x in out if x != ""]


def syms(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, Sym):
        acc.add(v.name)
    elif isinstance(v, (App,)):
        for a in v.args:
            syms(a, acc)
    elif isinstance(v, Phi):
        for a in alts(v):
            syms(a, acc)
    elif isinstance(v, tuple) and not isinstance(v, (Ptr,)):
        for a in v:
            syms(a, acc)
    return acc


def value(v, env):
    """numeric value of an abstract number at a sample point"""
    if isinstance(v, bool) or isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, Sym):
        return env[v.name]
    if isinstance(v, App):
        a = [value(x, env) for x in v.args]
        o = v.op.split("::")[-1]
        if o in ("+", "-", "*", "/") and len(a) == 2:
            return a[0] + a[1] if o == "+" else a[0] - a[1] if o == "-" else a[0] * a[1] if o == "*" else a[0] / a[1]
        if o in ("-", "neg") and len(a) == 1:
            return -a[0]
        if o in ("round", "floor", "ceil", "trunc"):
            return float(math.floor(a[0] + 0.5) if o == "round" else getattr(math, o)(a[0]))
        if o in ("min", "max"):
            return min(a) if o == "min" else max(a)
        if o in ("int", "float", "double", "real", "num:real") and len(a) == 1:
            return a[0]
    raise Undet("number %s" % (str(v)[:60],))


def shows(spec, v, name, sample):
    """the number printed is the quantity `name`, to the precision printed"""
    if isinstance(v, Phi):
        raise Undet("number depends on the path")
    if syms(v) != {name}:
        return False
    m = re.search(r"\.(\d+)f", spec)
    prec = int(m.group(1)) if m else 2
    try:
        return all(abs(value(v, {name: x}) - x) <= 0.5 * 10.0 ** -min(prec, 3) + 1e-9 for x in sample)
    except (Undet, ZeroDivisionError):
        return True


class Expect:
    """the written form of an analysed term"""
    def __init__(self, p, rd, ai, interp, names):
        self.p, self.rd, self.ai, self.interp, self.names = p, rd, ai, interp, names

    def term(self, tv):
        ai = self.ai
        if tv.kind == "st":
            if get(ai, tv.cell, "is_operation") is True:
                return ["("] + self.term(tv.subs[1]) + [x for s in tv.subs[0].subs for x in [", "] + self.term(s)] + [")"]
            return ["<"] + self.term(tv.subs[0]) + [" %s " % tv.op] + self.term(tv.subs[1]) + [">"]
        if tv.kind == "cmp":
            parts = [self.term(s) for s in tv.subs]
            body = [x for i, q in enumerate(parts) for x in ([", "] if i else []) + q]
            if tv.op in "{[" and len(tv.op) == 1:
                return [tv.op] + body + ["}" if tv.op == "{" else "]"]
            return ["(", tv.op, ", "] + body + [")"]
        if tv.kind == "var":
            k = varkind(self.p, tv)
            _, ids, _ = self.rd.indices(ai, tv.cell, INDEX[k])
            n = ai.read(ids[0]) if ids else None
            if isinstance(n, Struct):
                n = ai.read(pointee_cell(ai, n))
            if not isinstance(n, int):
                raise Undet("variable index")
            return [VAR[k] + str(n)]
        if tv.kind == "iv":
            return [("num", "+d", get(ai, tv.cell, "interval"))]
        if tv.cell in self.names:
            return [self.names[tv.cell]]
        raise Undet("unnamed atom")


def merge(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def same_text(got, exp, quantities):
    """-> None or the first difference; exp holds ("q", name) for quantities"""
    got, exp = words(merge(got)), words(merge(exp))
    if len(got) != len(exp):
        return "%s instead of %s" % (plain(got), plain(exp))
    for g, e in zip(got, exp):
        if isinstance(g, str) or isinstance(e, str):
            if g != e:
                return "%s instead of %s" % (plain(got), plain(exp))
        elif e[0] == "q":
            if not shows(g[1], g[2], e[1], quantities[e[1]]):
                return "%s shown where %s belongs" % (str(g[2])[:80], e[1])
        elif e[0] == "num":
            if g[0] != "num" or "+" not in g[1] or g[2] != e[2]:
                return "%s instead of %s" % (plain(got), plain(exp))
        elif g != e:
            return "%s instead of %s" % (plain(got), plain(exp))
    return None


def plain(xs):
    return "".join(x if isinstance(x, str) else "<%s>" % (x[1] if x[0] != "num" else "number") for x in xs)[:160]


def render(r, kind, cell, colored):
    ai = r.ai
    t = {"term": "TERM::Term &", "sentence": "SENTENCE::Sentence &", "task": "TASK::Task &"}[kind]
    n = (len(ai.issues), len(ai.imprecise), len(ai.unknown_calls), len(ai.thrown))
    o = erun(ai, lambda: ai.rv(call(ai, I, r.sc.interp, [LV(cell), colored], pick=lambda f: f["params"][0]["t"].replace("const ", "") == t)))
    bad = [str(i) + " at " + i.where for i in ai.issues[n[0]:] if i.kind.startswith("format") or i.definite]
    und = ai.imprecise[n[1]:] or (len(ai.unknown_calls) != n[2])
    return o, bad, und


def judge(ctx, key, r, kind, cell, colored, exp, quantities):
    w = ctx.site(I, lambda f: f["params"][0]["t"].replace("const ", "") == {"term": "TERM::Term &", "sentence": "SENTENCE::Sentence &", "task": "TASK::Task &"}[kind])
    o, bad, und = render(r, kind, cell, colored)
    ctx.used(r.ai)
    if bad:
        ctx.ob(key, False, "; ".join(bad[:2]), w, r.name)
        return None
    if o.dead or o.big:
        ctx.ob(key, False if o.dead and not und else None, "rendering does not complete", w, r.name)
        return None
    if und:
        ctx.ob(key, None, "imprecise: %s" % (list(r.ai.imprecise)[-1:],), w, r.name)
        return None
    try:
        got = flat_text(o.value, colored)
        why = same_text(got, exp, quantities)
        ctx.ob(key, why is None, why or plain(words(merge(got))), w, r.name)
        return got
    except Coloured:
        ctx.ob(key, False, "colour codes in the plain rendering", w, r.name)
    except Undet as x:
        ctx.ob(key, None, str(x), w, r.name)


SAMPLE = [0.0, 0.125, 0.25, 0.5, 0.75, 0.875, 1.0]


def setf(ai, cell, path, v):
    c = ai.field(cell, path)
    if c is None:
        raise Undet("field %s" % path)
    ai.heap[c] = v


def names_of(r):
    """atoms by the entries of the symbol table: {term cell: name}"""
    ai = r.ai
    obj, inv = get(ai, r.sc.interp, "objects"), get(ai, r.sc.interp, "dictionary_inv")
    return obj, inv


def one(ctx, name, spelling, tail, whole):
    rd = TermReader(ctx.p)
    r = feed(ctx, toks(spelling) + tail)
    if fails(ctx, name, r, I):
        return
    ai = r.ai
    try:
        tv = rd.read(ai, r.ptr("sentence.term"))
        nm = {}
        assign(ai, rd, tv, den(spelling), nm)
        ex = Expect(ctx.p, rd, ai, r.sc.interp, nm)
        exp = ex.term(tv)
    except (Unknown, Undet) as x:
        ctx.ob(name, None, "term not determined: %s" % x, I, r.name)
        return
    for colored in (False, True):
        judge(ctx, "%s/term/%s" % (name, "coloured" if colored else "plain"), r, "term", tv.cell, colored, exp, {})
    if not whole:
        return
    # arbitrary truth and budget
    try:
        s = r.ptr("sentence")
        b = r.ptr("budget")
        for f, n in (("priority", "P"), ("durability", "D"), ("quality", "Q")):
            setf(ai, b, f, Sym(n, 0.0, 1.0))
        pn = {v: k for k, v in ctx.p.enum("SENTENCE::PUNCTUATION::Punctuation").items()}
        punct = PUNCT.get(pn.get(get(ai, s, "punct")))
        kind = pn.get(get(ai, s, "punct"))
        if kind in ("Judgement", "Goal"):
            t = [c for c in {pointee_cell(ai, get(ai, s, f)) for f in ("truth", "desire") if get(ai, s, f) is not None} if c is not None]
            if not t:
                raise Undet("truth value")
            for c in t:
                for f, n in (("f", "F"), ("c", "C")):
                    setf(ai, c, f, Sym(n, 0.0, 1.0))
        if punct is None:
            raise Undet("punctuation")
        st = pointee_cell(ai, get(ai, s, "stamp"))
        eternal = get(ai, st, "is_eternal")
        cases = [("", None)]
        if eternal is False:
            cases = [(x, x) for x in ("Past", "Present", "Future")]
        elif eternal is not True:
            raise Undet("stamp")
    except Undet as x:
        ctx.ob(name + "/sentence", None, "not determined: %s" % x, I, r.name)
        return
    ai.gover["GLOBAL::time"] = 100
    ai.gover["CONFIG::temporal_duration"] = 10
    for n in ("GLOBAL::time", "CONFIG::temporal_duration"):
        ai.globals.pop(n, None)
    qs = {n: SAMPLE for n in "PDQFC"}
    for label, tense in cases:
        if tense:
            setf(ai, st, "t_occurrence", {"Past": 50, "Present": 100, "Future": 150}[tense])
        se = exp + [punct + " "]
        if tense:
            se += [TENSE_NAME[tense] + " "]
        if kind in ("Judgement", "Goal"):
            se += ["%", ("q", "F"), ";", ("q", "C"), "%"]
        for colored in (False, True):
            k = "%s/%s/%s" % (name + ("/" + label if label else ""), "%s", "coloured" if colored else "plain")
            judge(ctx, k % "sentence", r, "sentence", s, colored, se, qs)
            te = (["$", ("q", "P"), ";", ("q", "D"), ";", ("q", "Q"), "$ "] if not colored else [" ", ("q", "P"), "  ", ("q", "D"), "  ", ("q", "Q"), "  "]) + se
            judge(ctx, k % "task", r, "task", r.task, colored, te, qs)


def assign(ai, rd, tv, d, nm):
    """names of the atoms of an analysed term, by its spelling (components of sets by any consistent pairing)"""
    names = []

    def atoms(x):
        if x[0] == "atom":
            names.append(x)
        for y in (x[2:] if x[0] == "<>" else x[2] if x[0] == "()" else ()):
            atoms(y)
    atoms(d)
    want = {n[1] for n in names}
    # the symbol table gives the name of each atom object by its key
    for _, t in tv.walk():
        if t.kind in ("atom", "op"):
            key = get(ai, t.cell, "hash_value")
            from ..env import run as erun_
            ic = ai.gover["INTERPRETER::interpreter"].cells[0]
            o = erun_(ai, lambda: ai.rv(call(ai, "INTERPRETER::Interpreter::get", ic, [key])))
            v = o.value
            if isinstance(v, (Struct, Cont)):
                v = ai.text(v) if hasattr(ai, "text") else None
            if o.dead or o.big or not isinstance(v, str) or v not in want:
                raise Undet("name of an atom (%s)" % (v,))
            nm[t.cell] = v


A, B, C = ("a", "A"), ("a", "B"), ("a", "C")
QB, QC = ("q", "{} {0} %s"), ("q", "{{x}")


def shapes(tier):
    for n, s in p05.shapes(tier) + p05.operands():
        yield n, s


def run(ctx):
    ctx.p.fns(I)
    jobs = []
    for n, s in list(shapes(ctx.tier)) + big_shapes(ctx):
        jobs.append((n, s, ["."], False))
    st = ("st", "-->", A, B, "<")
    for q in (".", "?", "!", "@"):
        for t in ([], [":|:"], [":/:"], [":\\:"]) if q != "@" else ([],):
            jobs.append(("kind %s%s" % (q, "".join(" " + x for x in t)), st, [q] + t, True))
    for n, s in (("names/statement", ("st", "-->", QB, QC, "<")), ("names/product", ("prod", [QB, QC])), ("names/set", ("set", "{", [QB, QC])),
                 ("names/image", ("pre", "/", [QB, QC])), ("names/nested", ("st", "==>", ("st", "-->", QB, A, "<"), ("st", "-->", B, QC, "<"), "<")),
                 ("names/operation", ("opst", "old", "op", [QB, QC]))):
        jobs.append((n, s, ["."], True))
    jobs.append(("operation", ("opst", "old", "op", [A, ("v", "#", "y")]), ["!"], True))
    ctx.par(jobs, lambda j: one(ctx, *j))
    unnamed(ctx)
    handles(ctx)
    truth_text(ctx)


def unnamed(ctx):
    """atoms that have no name: the text still tells different atoms apart"""
    for op in (False, True):
        for colored in (False, True):
            key = "unnamed/%s/%s" % ("operation" if op else "atom", "coloured" if colored else "plain")
            ai = mk(ctx.p)
            ic = ai.alloc("INTERPRETER::Interpreter", "interpreter")
            ai.default_members(ic, "INTERPRETER::Interpreter")
            try:
                c = new_obj(ai, "OPERATION::Operation", []) if op else atom(ai, "u")
            except Exception as x:
                ctx.ob(key, None, "no such atom: %s" % x, I)
                continue
            o = erun(ai, lambda: ai.rv(call(ai, I, ic, [LV(c), colored], pick=lambda f: "Term" in f["params"][0]["t"])))
            bad = [str(i) for i in ai.issues if i.kind.startswith("format") or i.definite]
            if bad or o.dead and not ai.imprecise:
                ctx.ob(key, False, "rendering an unnamed atom: %s" % (bad[:1] or "does not complete"), I)
                continue
            if o.big or ai.imprecise or ai.unknown_calls:
                ctx.ob(key, None, "not determined %s" % (list(ai.imprecise)[:1],), I)
                continue
            ctx.ob(key, "Ptr(cell=%d)" % c in repr(o.value) or repr(get(ai, c, "hash_value")) in repr(o.value),
                   "text of an unnamed atom: %s" % (str(o.value)[:100],), I)


def handles(ctx):
    """the representation functions of handles show the rendering of the object they hold"""
    p = ctx.p
    rd = TermReader(p)
    for fn, path, mark in (("TERM::pTerm::__repr__", "sentence.term", ("Statement",)), ("SENTENCE::pSentence::__repr__", "sentence", ("Sentence",)),
                           ("TASK::pTask::__repr__", None, ("Task",))):
        if fn not in p.by_name:
            ctx.note("no function %s" % fn)
            continue
        for given in (True, False):
            key = "%s/%s" % (fn, "interpreter given" if given else "no interpreter")
            r = feed(ctx, toks(("st", "-->", A, B, "<")) + ["."])
            if fails(ctx, key, r, fn):
                continue
            ai = r.ai
            cell = r.ptr(path) if path else r.task
            kind = {"TERM::pTerm::__repr__": "term", "SENTENCE::pSentence::__repr__": "sentence"}.get(fn, "task")
            ref, bad, und = render(r, kind, cell, False)
            cls = fn.rsplit("::", 1)[0]
            h = sptr(ai, cls, cell)
            o = erun(ai, lambda: ai.rv(call(ai, fn, h, [Ptr(r.sc.interp) if given else NULL])))
            if bad or und or ref.dead or ref.big or o.big or ai.imprecise or ai.unknown_calls:
                ctx.ob(key, None, "not determined", fn)
                continue
            if o.dead:
                ctx.ob(key, False, "does not complete", fn)
                continue
            try:
                got, want = flat_text(o.value, False), flat_text(ref.value, False)
            except (Undet, Coloured) as x:
                ctx.ob(key, None, str(x), fn)
                continue
            if kind == "term" and not given:
                ctx.ob(key, any(m in str(got) for m in mark), "the text names the kind of term: %s" % plain(got), fn)
                continue
            g, w = words(merge(got)), words(merge(want))
            s_g, s_w = repr(g), repr(w)
            inner = s_w.strip("[]")
            # the rendering occurs inside, after the mark
            ok = contains(g, w) and isinstance(g[0], str) and any(m in g[0] for m in mark)
            ctx.ob(key, ok, "representation %s does not show %s" % (plain(g), plain(w)) if not ok else plain(g), fn)


def truth_text(ctx):
    """the representation of a truth value shows frequency, confidence and horizon, in that order"""
    fn = "TRUTH::Truth::__repr__"
    if fn not in ctx.p.by_name:
        ctx.note("no function %s" % fn)
        return
    ai = mk(ctx.p)
    c = ai.alloc("TRUTH::Truth", "truth")
    for f, n in (("f", "F"), ("c", "C"), ("k", "K")):
        ai.heap[ai.field(c, f)] = Sym(n, 0.0, 1.0)
    o = erun(ai, lambda: ai.rv(call(ai, fn, c, [])))
    bad = [str(i) for i in ai.issues if i.kind.startswith("format") or i.definite]
    if bad or o.dead and not ai.imprecise:
        ctx.ob(fn, False, "%s" % (bad[:1] or "does not complete"), fn)
        return
    try:
        if o.big or o.dead or ai.imprecise or ai.unknown_calls:
            raise Undet("imprecise %s" % (list(ai.imprecise)[:1],))
        got = [x for x in flat_text(o.value, False) if not isinstance(x, str)]
        ok = len(got) == 3 and all(x[0] == "num" and shows(x[1], x[2], n, SAMPLE) for x, n in zip(got, "FCK"))
        ctx.ob(fn, ok, "shows %s" % [str(x[2])[:40] for x in got], fn)
    except (Undet, Coloured) as x:
        ctx.ob(fn, None, str(x), fn)


def contains(g, w):
    """token list w occurs in g, with text before and after"""
    if len(g) < len(w):
        return False
    for i in range(len(g) - len(w) + 1):
        ok = True
        for k in range(len(w)):
            x, y = g[i + k], w[k]
            if isinstance(x, str) and isinstance(y, str):
                y = y.strip()
                ok &= x.endswith(y) if k == 0 and len(w) > 1 else x.startswith(y) if k == len(w) - 1 and len(w) > 1 else y in x if len(w) == 1 else x == y
            else:
                ok &= x == y
        if ok:
            return True
    return False
