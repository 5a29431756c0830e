"""Model of the parts of the C++ standard library and {fmt} that the code base uses."""
import re

from .values import *

PURE = {"size", "count", "begin", "end", "cbegin", "cend", "empty", "find", "get", "c_str", "length", "data",
        "front", "back", "at", "contains", "use_count", "str", "compare", "any_of", "all_of", "none_of",
        "max", "min", "abs", "fabs", "round", "to_string", "stod", "what", "what", "strcmp", "strlen", "substr",
        "is_commutative", "lock", "expired", "has_value", "value"}

RANGE_VIEWS = {}


# ---------------------------------------------------------------- types
def base_of(t):
    t = _uncv(t)
    i = t.find("<")
    return t[:i] if i >= 0 else t


def _uncv(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    while t.startswith("const ") and not t.endswith("*"):
        t = t[6:]
    return t


def targs(t):
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rindex(">")]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


SEQ = {"std::vector": "vector", "std::list": "list", "std::deque": "vector", "std::initializer_list": "init",
       "std::forward_list": "list"}
SETS = {"std::set": "set", "std::unordered_set": "set", "std::multiset": "mset"}
MAPS = {"std::map": "map", "std::unordered_map": "map"}
STRINGS = {"std::basic_string", "std::string", "std::basic_string_view", "std::string_view", "std::wstring"}
SPTRS = {"std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr"}
STREAMS = {"std::basic_stringstream", "std::basic_ostringstream", "std::basic_ofstream", "std::basic_ostream", "std::stringstream"}


def elem_type(t):
    a = targs(_uncv(t))
    b = base_of(t)
    if b in MAPS and len(a) >= 2:
        return "std::pair<const %s, %s>" % (a[0], a[1])
    return a[0] if a else ""


def default_std(ai, t, name=""):
    t = _uncv(t)
    b = base_of(t)
    if b in SEQ:
        return Cont(SEQ[b], ())
    if b in SETS:
        return Cont(SETS[b], ())
    if b in MAPS:
        return Cont("map", ())
    if b in STRINGS:
        return ""
    if b in SPTRS:
        a = targs(t)
        return Struct(t, (("$p", ai.new_cell((a[0] if a else "") + " *", NULL, name + ".$p")),))
    if b == "std::tuple":
        return Struct(t, tuple((str(i), ai.alloc(x, name + ".%d" % i, True)) for i, x in enumerate(targs(t))))
    if b == "std::pair":
        a = targs(t)
        return Struct(t, (("first", ai.alloc(a[0], name + ".first", True)), ("second", ai.alloc(a[1], name + ".second", True))))
    if b == "std::array":
        a = targs(t)
        try:
            n = int(re.sub(r"[uUlL]+$", "", a[1]))
        except Exception:
            return None
        return Cont("array", tuple(ai.alloc(a[0], name + "[%d]" % i) for i in range(n)))
    if b in STREAMS:
        return Struct("std::stringstream", (("$s", ai.new_cell("std::basic_string<char>", "", name + ".$s")),))
    if b == "std::optional":
        return Cont("optional", ())
    if t.startswith("std::") and ("iterator" in t):
        return UNINIT
    return None


def lazy_std(ai, t, tag):
    t = _uncv(t)
    b = base_of(t)
    if b in SPTRS:
        a = targs(t)
        c = ai.new_cell((a[0] if a else "") + " *", Sym("%s" % tag, kind="ptr:" + (a[0] if a else "")), "%s.$p" % tag)
        return Struct(t, (("$p", c),))
    if b == "std::pair" or b == "std::tuple":
        fs = []
        for i, x in enumerate(targs(t)):
            n = ("first", "second")[i] if b == "std::pair" else str(i)
            cc = ai.new_cell(x, None, "%s.%s" % (tag, n))
            ai.lazy[cc] = (x, "%s.%s" % (tag, n))
            fs.append((n, cc))
        return Struct(t, tuple(fs))
    if b == "std::array":
        a = targs(t)
        try:
            n = int(re.sub(r"[uUlL]+$", "", a[1]))
        except Exception:
            return None
        return Cont("array", tuple(ai.lazy_obj(a[0], "%s[%d]" % (tag, i)) for i in range(n)))
    if b in SEQ or b in SETS or b in MAPS:
        return Sym("%s" % tag, kind="cont:" + t)
    if b in STRINGS:
        return Sym("%s" % tag, kind="str")
    if b in STREAMS:
        return Struct("std::stringstream", (("$s", ai.new_cell("std::basic_string<char>", "", "%s.$s" % tag)),))
    return None


def lazy_or_sym(ai, t, qn):
    t = _uncv(t)
    v = lazy_std(ai, t, qn)
    if v is not None:
        return v
    if t.endswith("*"):
        return Sym(qn, kind="ptr:" + _uncv(t[:-1]))
    m = re.match(r"^(.*)\[(\d+)\]$", t)
    if m and int(m.group(2)) <= 64:
        return Cont("array", tuple(ai.lazy_obj(m.group(1).strip(), "%s[%d]" % (qn, i)) for i in range(int(m.group(2)))))
    return Sym(qn)


# ---------------------------------------------------------------- strings
def cat(*parts):
    out = []
    for p in parts:
        for x in (p.args if isinstance(p, App) and p.op == "cat" else (p,)):
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] = out[-1] + x
            elif not (isinstance(x, str) and x == ""):
                out.append(x)
    if not out:
        return ""
    return out[0] if len(out) == 1 and (isinstance(out[0], (str,)) or isinstance(out[0], (Sym, App))) else App("cat", tuple(out))


def cat_values(vals):
    """concatenation with small alternatives distributed"""
    res = [""]
    n = 1
    for v in vals:
        if isinstance(v, Top):
            return v
        al = alts(v)
        n *= len(al)
        if n > 24:
            return Top("too many string alternatives")
        if any(isinstance(a, Top) for a in al):
            return Top("string")
        res = [cat(r, a) for r in res for a in al]
    return phi(res)


def to_str(v):
    """integral char -> string piece"""
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, int):
        return chr(v & 0x10ffff)
    return v


def text_of(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return App("fmt", ("", v))
    return v


def pyfmt(spec, v):
    if spec == "":
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, int):
            return str(v)
    if isinstance(v, str) and spec == "":
        return v
    return None


NUMT = ("float", "double", "int", "long", "short", "unsigned", "signed", "size_t", "bool", "uint", "int8", "int16", "int32", "int64")


def bad_spec(sp, t):
    """a presentation type the argument's type does not have"""
    t = t.replace("const ", "").replace("&", "").strip()
    if not sp or not t:
        return None
    k = sp[-1]
    flt = t in ("float", "double", "long double")
    integral = not flt and (t.split()[0] in NUMT) and "*" not in t
    string = t in ("std::string", "string", "char *", "const char *") or t.startswith(("std::basic_string", "char["))
    if k in "dxXbBo" and (flt or string) or k in "eEfFgG" and (integral or string) or k == "s" and (flt or integral and t != "bool"):
        return "presentation type '%s' for an argument of type %s" % (k, t)
    if string and sp[0] in "+- #0" and k not in "<>^":
        return "sign or numeric option '%s' for an argument of type %s" % (sp, t)
    return None


def brace_free(v):
    """text in which no replacement field can occur: constants without braces and formatted numbers"""
    if isinstance(v, str):
        return "{" not in v and "}" not in v
    if isinstance(v, App):
        if v.op == "fmt":
            return v.args[0][-1:] in ("d", "x", "X", "f", "e", "g", "o", "b") and len(v.args[0]) > 0 and "{" not in v.args[0]
        return v.op in ("cat", "string", "styled") and all(brace_free(a) for a in v.args)
    return False


def do_format(ai, vals, style=False, types=()):
    """vals[0] is the format string"""
    f = vals[0]
    args = vals[1:]
    res = []
    for fs in alts(f):
        if isinstance(fs, Top):
            return fs
        if isinstance(fs, App) and fs.op == "styled" and len(fs.args) == 1 and isinstance(fs.args[0], str):
            # escape sequences contain no braces: the styled constant is a constant format string
            res.append(App("styled", (do_format(ai, [fs.args[0]] + list(args), types=types),)))
            continue
        if not isinstance(fs, str) and brace_free(fs):
            res.append(fs)
            continue
        if not isinstance(fs, str):
            ai.issue("format-string-from-data", "text that is not a constant is used as a format string: %s" % ai.show(fs),
                     len(alts(f)) == 1)
            res.append(App("formatted", (fs,)) if not isinstance(fs, (Struct, Cont)) else Top("format"))
            continue
        out, i, n = [], 0, 0
        bad = None
        while i < len(fs):
            ch = fs[i]
            if ch == "{":
                if fs[i + 1:i + 2] == "{":
                    out.append("{")
                    i += 2
                    continue
                j = fs.find("}", i)
                if j < 0:
                    bad = "unterminated replacement field"
                    break
                spec = fs[i + 1:j]
                m = re.match(r"^(\d*)(?::(.*))?$", spec)
                if not m:
                    bad = "unsupported replacement field {%s}" % spec
                    break
                k = int(m.group(1)) if m.group(1) else n
                n += 0 if m.group(1) else 1
                sp = m.group(2) or ""
                if k >= len(args):
                    bad = "argument %d of format string \"%s\" is missing (%d given)" % (k, fs, len(args))
                    break
                v = args[k]
                b = bad_spec(sp, types[k]) if k < len(types) else None
                if b:
                    bad = "%s in format string \"%s\"" % (b, fs)
                    break
                pv = pyfmt(sp, v)
                if pv is not None:
                    out.append(pv)
                elif sp == "" and (isinstance(v, Sym) and v.kind == "str" or isinstance(v, App) and v.op in ("cat", "styled", "fmt", "formatted", "cond-str", "call-str")):
                    out.append(v)
                elif isinstance(v, Top):
                    out.append(v)
                elif isinstance(v, Phi) and all(isinstance(a, str) for a in alts(v)) and sp == "":
                    out.append(v)
                else:
                    out.append(App("fmt", (sp, v)) if not isinstance(v, (Phi,)) else phi([App("fmt", (sp, a)) if not isinstance(a, (str,)) or sp else a for a in alts(v)]))
                i = j + 1
            elif ch == "}":
                if fs[i + 1:i + 2] == "}":
                    out.append("}")
                    i += 2
                    continue
                bad = "unmatched } in format string \"%s\"" % fs
                break
            else:
                out.append(ch)
                i += 1
        if bad:
            ai.issue("format-args", bad, len(alts(f)) == 1)
            from .ai import Dead
            if len(alts(f)) == 1:
                ai.throw(("fmt::format_error", bad))
            continue
        if n and n < len(args) and False:
            pass
        ai.fmt_log.append((ai.frames[-1].fn["fn"]["n"] if ai.frames else "", ai.frames[-1].line if ai.frames else 0, fs, len(args), n))
        res.append(cat_values(out))
    if not res:
        from .ai import Dead
        raise Dead()
    r = phi(res)
    return r


# ---------------------------------------------------------------- equality of keys / elements
def cells_equal(ai, a, b, depth=0):
    """True / False / None: are the contents of two cells equal (structurally)"""
    h = getattr(ai, "key_eq", None)
    if h:
        r = h(ai, a, b)
        if r is not NotImplemented:
            return r
    return content_equal(ai, ai.read(a), ai.read(b), depth)


def content_equal(ai, va, vb, depth=0):
    if depth > 12:
        return None
    if same(va, vb):
        return True
    if isinstance(va, Struct) and isinstance(vb, Struct):
        fa, fb = va.fields, vb.fields
        if len(fa) != len(fb):
            return None
        res = True
        for (n, x), (m, y) in zip(fa, fb):
            r = cells_equal(ai, x, y, depth + 1) if x and y else (x == y)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if isinstance(va, Cont) and isinstance(vb, Cont):
        if len(va.cells) != len(vb.cells):
            return False
        res = True
        for x, y in zip(va.cells, vb.cells):
            r = cells_equal(ai, x, y, depth + 1)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if isinstance(va, (Phi, Top, Alt)) or isinstance(vb, (Phi, Top, Alt)):
        return None
    if isinstance(va, Ptr) and isinstance(vb, Ptr):
        return va.cell == vb.cell
    r = ai.compare("==", va, vb)
    if isinstance(r, bool):
        return r
    # distinct named unknowns: inputs are chosen pairwise distinct by the rules
    if getattr(ai, "syms_distinct", True) and isinstance(va, (Sym, App, str, int, float)) and isinstance(vb, (Sym, App, str, int, float)):
        if isinstance(va, App) and va.op.startswith("cast:") and same(va.args[0], vb) or \
                isinstance(vb, App) and vb.op.startswith("cast:") and same(vb.args[0], va):
            return False
        return False
    return None


def key_cell(ai, cont_kind, cell):
    if cont_kind == "map":
        v = ai.heap.get(cell)
        if isinstance(v, Struct):
            return v.fields[0][1]
    return cell


def find_key(ai, con, kc):
    """index of the element whose key equals cell kc; None if absent; 'maybe' if undecided"""
    for i, c in enumerate(con.cells):
        r = cells_equal(ai, key_cell(ai, con.kind, c), kc)
        if r is True:
            return i
        if r is None:
            return "maybe"
    return None


# ---------------------------------------------------------------- misc engine hooks
def catches(ai, t, val):
    if t in ("", "..."):
        return True
    ht = _uncv(t)
    vt = ""
    if isinstance(val, tuple) and val and isinstance(val[0], str):
        vt = _uncv(val[0])
    if not vt:
        return True
    if ht == vt or ai.p.is_a(vt, ht):
        return True
    hier = {"std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
            "std::out_of_range": ["std::logic_error", "std::exception"],
            "std::invalid_argument": ["std::logic_error", "std::exception"],
            "fmt::format_error": ["std::runtime_error", "std::exception"],
            "pybind11::error_already_set": ["std::exception"], "pybind11::cast_error": ["std::runtime_error", "std::exception"],
            "pybind11::value_error": ["std::runtime_error", "std::exception"], "pybind11::type_error": ["std::runtime_error", "std::exception"]}
    return ht in hier.get(vt, [])


def iter_deref(ai, it):
    con = ai.read(it.cont)
    if isinstance(con, Cont):
        if 0 <= it.idx < len(con.cells):
            return LV(con.cells[it.idx])
        ai.issue("out-of-bounds", "iterator past the end of %s is dereferenced" % (ai.name.get(it.cont) or "container"))
        from .ai import Dead
        raise Dead()
    if isinstance(con, str):
        return LV(ai.new_cell("char", ord(con[it.idx]) if it.idx < len(con) else 0, "tmp"))
    return LV(ai.new_cell("", ai.lose("dereference of iterator into unknown container"), "tmp"))


def iter_targets(ai, v):
    """cells an iterator-like value may refer to"""
    cells = []
    for x in alts(v):
        if isinstance(x, Iter):
            cells += list(iter_deref(ai, x).cells)
        else:
            cells += list(ai.deref(x).cells)
    return cells


def drop_alloc(ai, args):
    out = []
    for a in args:
        v = ai.rv(a)
        if isinstance(v, App) and v.op.startswith("ctor:std::") and any(s in v.op for s in ("allocator", "std::less", "std::hash", "std::equal_to", "compare")):
            continue
        if isinstance(v, Struct) and v.cls.endswith("::compare"):
            continue
        out.append(a)
    return out


def tmp(ai, t, content):
    return LV(ai.new_cell(_uncv(t), content, "tmp"))


def unwrap_ptr(ai, v):
    """pointer held by a smart pointer content, or the pointer itself"""
    if isinstance(v, Struct) and v.get("$p"):
        return ai.read(v.get("$p"))
    if isinstance(v, Alt):
        return phi([unwrap_ptr(ai, a) for a in v.alts])
    return v


def mk_sptr(ai, t, p):
    a = targs(_uncv(t))
    return tmp(ai, t, Struct(_uncv(t), (("$p", ai.new_cell((a[0] if a else "") + " *", p, "tmp.$p")),)))


def range_cells(ai, b, e):
    """cells of [b,e) or None"""
    b, e = ai.rv(b), ai.rv(e)
    if isinstance(b, Iter) and isinstance(e, Iter) and b.cont == e.cont:
        con = ai.read(b.cont)
        if isinstance(con, Cont):
            return list(con.cells[b.idx:e.idx])
    if isinstance(b, Struct) and isinstance(e, Struct) and b.cls in getattr(ai, "iter_views", {}):
        return ai.iter_views[b.cls](ai, b, e)
    return None


def out_put(ai, out, cell):
    """write the content of a cell through an output iterator -> the advanced iterator, or None: not modelled"""
    if isinstance(out, App) and out.op == "inserter":
        dst = out.args[0]
        con = ai.heap[dst]
        if not isinstance(con, Cont):
            return None
        nc = ai.copy_obj(cell, "el")
        if con.kind in ("set", "map", "mset"):
            set_insert(ai, dst, con, nc)
        elif len(out.args) > 1 and out.args[1] == "front":
            ai.heap[dst] = Cont(con.kind, (nc,) + con.cells, con.meta)
        else:
            ai.heap[dst] = Cont(con.kind, con.cells + (nc,), con.meta)
        return out
    if isinstance(out, Iter) and isinstance(ai.read(out.cont), Cont):
        lv = iter_deref(ai, out)
        ai.write(lv, ai.copy_content(ai.read(cell)))
        return Iter(out.cont, out.idx + 1)
    return None


def second_cells(ai, b, n):
    """the n cells from an input iterator on, or None"""
    b = ai.rv(b)
    if isinstance(b, Iter) and isinstance(ai.read(b.cont), Cont):
        cs = list(ai.read(b.cont).cells[b.idx:b.idx + n])
        if len(cs) < n:
            iter_deref(ai, Iter(b.cont, b.idx + len(cs)))
        return cs if len(cs) == n else None
    if isinstance(b, Struct) and b.cls in getattr(ai, "iter_views", {}):
        cs = ai.iter_views[b.cls](ai, b, n)
        return cs if cs is not None and len(cs) == n else None
    return None


def copy_cells(ai, cells, name="el"):
    return tuple(ai.copy_obj(c, name) for c in cells)


def as_elem(ai, a, et):
    """argument -> fresh element cell"""
    v = ai.rv(a)
    if et and et in ai.p.records and not (isinstance(v, Struct)):
        # implicit conversion was folded into the argument; keep the raw value
        pass
    return ai.new_cell(_uncv(et), ai.copy_content(v), "el")


def set_insert(ai, cell, con, ec):
    """insert key/element cell into set or map; -> (index, inserted)"""
    k = find_key(ai, con, key_cell(ai, con.kind, ec))
    if con.kind == "mset":
        k = None
    if k == "maybe":
        ai.imprecise.append("set insertion not decided")
        ai.heap[cell] = Alt(frozenset({con, Cont(con.kind, con.cells + (ec,), con.meta)}))
        return (len(con.cells), Top("inserted?"))
    if k is not None:
        return (k, False)
    i = sorted_pos(ai, cell, con, key_cell(ai, con.kind, ec))
    ai.heap[cell] = Cont(con.kind, con.cells[:i] + (ec,) + con.cells[i:], con.meta)
    for c, v in ai.heap.items():        # iterators stay where they are: on their element, or at the end
        if isinstance(v, Iter) and v.cont == cell and v.idx >= i:
            ai.heap[c] = Iter(cell, v.idx + 1)
    return (i, True)


def sorted_pos(ai, cell, con, kc):
    """where an ordered container of known numbers keeps a new key (other containers: at the end, their order is a runtime matter)"""
    t = _uncv(ai.ctype.get(cell, ""))
    if not (t.startswith("std::set<") or t.startswith("std::map<") or t.startswith("std::multiset<")) or "greater" in t:
        return len(con.cells)
    k = ai.heap.get(kc)
    ks = [ai.heap.get(key_cell(ai, con.kind, c)) for c in con.cells]
    if not all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in ks + [k]):
        return len(con.cells)
    return sum(x <= k for x in ks)


# ---------------------------------------------------------------- constructors
def std_ctor(ai, t, cls, fn, args, e):
    b = base_of(t)
    args = drop_alloc(ai, args)
    if b in SPTRS or cls in SPTRS:
        if not args:
            return mk_sptr(ai, t, NULL)
        v = ai.rv(args[0])
        p = unwrap_ptr(ai, v)
        if not isinstance(v, (Struct, Alt)) and len(args) == 1:
            ai.adopt(p, (fn.get("pt") or [""])[0])
        return mk_sptr(ai, t, p)
    if b in STRINGS or cls in STRINGS:
        if not args:
            return tmp(ai, t, "")
        v = ai.rv(args[0])
        if isinstance(v, Iter):
            con = ai.heap.get(v.cont)
            v = ai.heap[v.cont] if isinstance(con, str) else Top("string from array")
        if v is NULL:
            ai.issue("null-deref", "string constructed from a null pointer")
            from .ai import Dead
            raise Dead()
        if len(args) == 2:
            n = ai.rv(args[1])
            if isinstance(v, str) and isinstance(n, int):
                v = v[:n]
            elif isinstance(v, int) and isinstance(n, int):
                v = chr(n) * v
            else:
                v = App("string", (v, n)) if not isinstance(n, (Top, Phi)) else Top("string")
        elif len(args) > 2:
            v = Top("string of range")
        if isinstance(v, Ptr):
            v = Top("string from buffer")
        return tmp(ai, t, v)
    if "basic_format_string" in cls or "format_string" in cls or "runtime_format" in cls:
        return tmp(ai, t, ai.rv(args[0]))
    if cls.startswith("fmt::") and args:
        return tmp(ai, t, App("style", tuple(ai.pure(a) for a in args)))
    if b in SEQ or b in SETS or b in MAPS:
        kind = SEQ.get(b) or SETS.get(b) or "map"
        if not args:
            return tmp(ai, t, Cont(kind, ()))
        v = ai.rv(args[0])
        if len(args) == 1 and isinstance(v, Cont):
            out = tmp(ai, t, Cont(kind, ()))
            return fill(ai, out, kind, v.cells)
        if len(args) >= 2:
            cells = range_cells(ai, args[0], args[1])
            if cells is not None:
                out = tmp(ai, t, Cont(kind, ()))
                return fill(ai, out, kind, cells)
        et = elem_type(t)
        if isinstance(v, int) and not isinstance(v, bool) and v <= 64 and kind in ("vector", "list"):
            if len(args) > 1:
                return tmp(ai, t, Cont(kind, tuple(as_elem(ai, args[1], et) for _ in range(v))))
            return tmp(ai, t, Cont(kind, tuple(ai.alloc(et, "el", True) for _ in range(v))))
        if len(args) == 1 and isinstance(v, (Sym, App, Alt)):
            return tmp(ai, t, v)
        return tmp(ai, t, ai.lose("container constructor " + t))
    if b in ("std::tuple", "std::pair"):
        ts = targs(t)
        if len(args) == 1 and isinstance(ai.rv(args[0]), Struct) and len(ts) == len(ai.rv(args[0]).fields):
            return tmp(ai, t, Struct(t, tuple((("first", "second")[i] if b == "std::pair" else str(i), ai.copy_obj(c))
                                              for i, (_, c) in enumerate(ai.rv(args[0]).fields))))
        if not args:
            return tmp(ai, t, default_std(ai, t))
        fs = []
        for i, a in enumerate(args):
            n = ("first", "second")[i] if b == "std::pair" else str(i)
            ty = ts[i] if i < len(ts) else ""
            if ty.endswith("&") and isinstance(a, LV):
                fs.append((n, a.cells[0]))
            else:
                fs.append((n, conv_elem(ai, a, ty)))
        return tmp(ai, t, Struct(t, tuple(fs)))
    if b in STREAMS:
        return tmp(ai, t, default_std(ai, t))
    if "iterator" in cls and args:
        return tmp(ai, t, ai.rv(args[0]))
    if cls in ("std::runtime_error", "std::logic_error", "std::invalid_argument", "std::exception", "std::out_of_range"):
        return tmp(ai, t, App("exception", tuple(ai.pure(a) for a in args)))
    if b == "std::function" and args:
        return tmp(ai, t, ai.rv(args[0]))
    if b == "std::optional" and args:
        return tmp(ai, t, Cont("optional", (as_elem(ai, args[0], elem_type(t)),)))
    if b == "std::array" and not args:
        return tmp(ai, t, default_std(ai, t))
    return None


def conv_elem(ai, a, ty):
    v = ai.rv(a)
    ty = _uncv(ty)
    if base_of(ty) in SPTRS and not isinstance(v, Struct):
        ai.adopt(v)
        return mk_sptr(ai, ty, v).cells[0]
    return ai.new_cell(ty, ai.copy_content(v), "el")


def fill(ai, out, kind, cells):
    c = out.cells[0]
    if kind in ("set", "map", "mset"):
        for x in cells:
            con = ai.heap[c]
            if not isinstance(con, Cont):
                break
            set_insert(ai, c, con, ai.copy_obj(x, "el"))
    else:
        ai.heap[c] = Cont(kind, copy_cells(ai, cells))
    return out


# ---------------------------------------------------------------- functors and algorithms
def functor(ai, x, args):
    return call_std_functor(ai, x.op, args)


def call_std_functor(ai, name, args):
    vs = [ai.rv(a) for a in args]
    for k, op in (("plus", "+"), ("minus", "-"), ("multiplies", "*")):
        if k in name:
            return ai.arith(op, vs[0], vs[1], "")
    for k, op in (("less_equal", "<="), ("greater_equal", ">="), ("less", "<"), ("greater", ">"), ("equal_to", "==")):
        if k in name:
            return ai.compare(op, vs[0], vs[1])
    if "hash" in name:
        return App("hash", tuple(vs)) if not any(isinstance(v, (Top, Phi, Struct, Cont)) for v in vs) else Top("hash")
    return ai.lose("functor " + name)


def unk(ai, name, vs):
    if any(isinstance(v, (Top, Phi)) for v in vs):
        return Top("call " + name)
    vs = [v if not isinstance(v, (Struct, Cont, Alt)) else App("obj", (ai.fresh("o"),)) for v in vs]
    return App("call:" + name, tuple(vs))


def boolres(ai, rs, op):
    acc = op == "&&"
    first = True
    for r in rs:
        acc = ai.logic(op, acc, r) if not first else r
        first = False
    if first:
        return op == "&&"
    t = ai.truth(acc)
    return acc if t is None else t


def std_call(ai, fn, args, e):
    n = fn["n"]
    s = n.split("::")[-1].split("<")[0]
    std = n.startswith("std::") or n.startswith("fmt::") or "::" not in n or n.startswith("__gnu")
    if n == "fmt::format" or n.endswith("::fmt::format") or (s == "format" and n.startswith(("fmt::", "std::"))):
        at = e.get("at") or []
        vals = [fmtval(ai, a) for a in args]
        styled = None
        if at and "text_style" in at[0] or isinstance(vals[0], App) and vals[0].op in ("style", "call:fmt::fg", "call:fmt::bg"):
            styled, vals = vals[0], vals[1:]
        r = do_format(ai, vals, types=[str(t) for t in at[len(args) - len(vals) + 1:]])
        if styled is not None:
            r = phi([a if isinstance(a, Top) else App("styled", (a,)) for a in alts(r)])
        return r
    if n in ("fmt::fg", "fmt::bg"):
        return App("style", (n,) + tuple(ai.pure(a) for a in args))
    if s == "operator|" and n.startswith("fmt::"):
        return App("style", tuple(ai.pure(a) for a in args))
    if std and s == "runtime" and n.startswith("fmt::"):
        return ai.rv(args[0])
    if s in ("move", "forward", "as_const", "ref", "cref", "static_pointer_cast", "dynamic_pointer_cast") and n.startswith("std::") and len(args) == 1:
        return args[0]
    if n == "std::swap":
        a, b = args
        if isinstance(a, LV) and isinstance(b, LV) and len(a.cells) == 1 == len(b.cells):
            x, y = ai.read(a.cells[0]), ai.read(b.cells[0])
            ai.heap[a.cells[0]], ai.heap[b.cells[0]] = y, x
            return None
    if n == "std::tie":
        return LV(ai.new_cell("std::tuple", Tie([a.cells[0] if isinstance(a, LV) else ai.new_cell("", a, "tmp") for a in args]), "tmp"))
    if n == "std::ignore":
        return None
    if n in ("std::make_tuple", "std::make_pair"):
        rt = fn.get("rt") or ("std::tuple" if "tuple" in n else "std::pair")
        names = ("first", "second") if "pair" in n else tuple(str(i) for i in range(len(args)))
        ts = targs(rt)
        return tmp(ai, rt, Struct(_uncv(rt), tuple((names[i], as_elem(ai, a, ts[i] if i < len(ts) else "")) for i, a in enumerate(args))))
    if n == "std::get":
        v = ai.rv(args[0])
        ta = fn.get("ta") or [None]
        if isinstance(v, Struct) and isinstance(ta[0], int):
            return LV(v.fields[ta[0]][1])
        if isinstance(v, Cont) and isinstance(ta[0], int):
            return LV(v.cells[ta[0]])
    if n in ("std::make_shared", "std::make_unique"):
        ta = fn.get("ta") or [""]
        ty = ta[0] if isinstance(ta[0], str) else ""
        rt = fn.get("rt") or ("std::shared_ptr<%s>" % ty)
        c = make_object(ai, ty, args)
        ai.freed[("own", c)] = "yes"
        return mk_sptr(ai, rt, Ptr(c))
    if n == "std::front_inserter":
        return App("inserter", (args[0].cells[0], "front"))
    if n == "std::inserter" or n == "std::back_inserter":
        return App("inserter", (args[0].cells[0],))
    if n == "std::advance":
        it = args[0]
        v, d = ai.rv(it), ai.rv(args[1])
        ai.write(it, ai.arith("+", v, d, ""))
        return None
    if n in ("std::next", "std::prev"):
        v = ai.rv(args[0])
        d = ai.rv(args[1]) if len(args) > 1 else 1
        return ai.arith("+" if s == "next" else "-", v, d, "")
    if n == "std::distance":
        return ai.arith("-", ai.rv(args[1]), ai.rv(args[0]), "")
    if n in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::empty", "std::data", "std::ssize"):
        return std_method(ai, args[0].cells[0], {"n": "x::" + s.replace("ssize", "size").lstrip(), "cls": ""}, [], e)
    if n.startswith("std::") and s in ("any_of", "all_of", "none_of", "find_if", "count_if", "for_each", "find_if_not", "find", "count"):
        cells = range_cells(ai, args[0], args[1])
        if cells is not None:
            if s in ("find", "count"):
                k = args[2].cells[0] if isinstance(args[2], LV) else ai.new_cell("", args[2], "tmp")
                rs = [cells_equal(ai, c, k) for c in cells]
                rs = [Top("eq") if r is None else r for r in rs]
            else:
                rs = []
                stop = {"any_of": True, "none_of": True, "find_if": True, "all_of": False, "find_if_not": False}.get(s)
                for c in cells:
                    rs.append(ai.rv(ai.call_value(args[2], [LV(c)])))
                    if stop is not None and ai.truth(rs[-1]) is stop:
                        break
            if s == "any_of":
                return boolres(ai, rs, "||")
            if s == "all_of":
                return boolres(ai, rs, "&&")
            if s == "none_of":
                r = boolres(ai, rs, "||")
                return (not r) if isinstance(r, bool) else ai.bnot(r)
            if s == "for_each":
                return args[2]
            ts = [ai.truth(r) for r in rs]
            if s in ("count_if", "count"):
                if None not in ts:
                    return sum(ts)
                return Sym(ai.fresh("count"), sum(1 for t in ts if t), sum(1 for t in ts if t is not False))
            if s == "find_if_not":
                ts = [None if t is None else not t for t in ts]
            b = ai.rv(args[0])
            out = []
            for i, t in enumerate(ts):
                if t is not False and isinstance(b, Iter):
                    out.append(Iter(b.cont, b.idx + i))
                if t is True:
                    break
            else:
                out.append(ai.rv(args[1]))
            return phi(out)
    if n == "std::accumulate" or n == "std::reduce":
        cells = range_cells(ai, args[0], args[1])
        if cells is not None:
            acc = args[2]
            for c in cells:
                if len(args) > 3:
                    acc = ai.call_value(args[3], [acc if isinstance(acc, LV) else LV(ai.new_cell("", acc, "tmp")), LV(c)])
                else:
                    acc = ai.arith("+", ai.rv(acc), ai.read(c), (e.get("at") or ["", "", ""])[2])
                acc = ai.rv(acc)
                init_t = (e.get("at") or ["", "", ""])[2] if e else ""
                if isinstance(acc, float) and init_t in ("int", "unsigned long"):
                    acc = int(acc)
            return acc
    if n in ("std::set_intersection", "std::set_union", "std::set_difference"):
        a, b = range_cells(ai, args[0], args[1]), range_cells(ai, args[2], args[3])
        out = ai.rv(args[4])
        if a is not None and b is not None and isinstance(out, App) and out.op == "inserter":
            ac = ai.new_cell("", Cont("set", tuple(a)), "tmp")
            bc = ai.new_cell("", Cont("set", tuple(b)), "tmp")
            ca, cb = ai.heap[ac], ai.heap[bc]
            und = False
            inb = []
            for x in a:
                k = find_key(ai, cb, x)
                und |= k == "maybe"
                inb.append(k is not None)
            if not und:
                dst = out.args[0]
                if s == "set_intersection":
                    sel = [x for x, i in zip(a, inb) if i]
                elif s == "set_difference":
                    sel = [x for x, i in zip(a, inb) if not i]
                else:
                    sel = list(a) + [y for y in b if find_key(ai, ca, y) is None]
                con = ai.read(dst)
                if isinstance(con, Cont):
                    for x in sel:
                        con = ai.heap[dst]
                        if con.kind in ("set", "map"):
                            set_insert(ai, dst, con, ai.copy_obj(x, "el"))
                        else:
                            ai.heap[dst] = Cont(con.kind, con.cells + (ai.copy_obj(x, "el"),), con.meta)
                return out
        if isinstance(out, App) and out.op == "inserter":
            vs = [ai.rv(x) for x in args[:4]]
            src = []
            for v in (vs[0], vs[2]):
                src.append(v.args[0] if isinstance(v, App) and v.op == "begin" else Top("range"))
            ai.heap[out.args[0]] = App(s, tuple(src)) if not any(isinstance(x, Top) for x in src) else Top(s)
            return out
    if n in ("std::copy", "std::transform", "std::copy_if", "std::remove_copy_if", "std::copy_n", "std::move") and len(args) >= 3:
        if s == "copy_n":
            k = ai.rv(args[1])
            cells = second_cells(ai, args[0], k) if isinstance(k, int) else None
        else:
            cells = range_cells(ai, args[0], args[1])
        two = s == "transform" and len(args) > 4
        other = second_cells(ai, args[2], len(cells)) if two and cells is not None else None
        out = ai.rv(args[3 if two else 2])
        if cells is not None and (not two or other is not None):
            for i, c in enumerate(cells):
                if s == "transform":
                    v = ai.call_value(args[4], [LV(c), LV(other[i])]) if two else ai.call_value(args[3], [LV(c)])
                    c = v.cells[0] if isinstance(v, LV) and len(v.cells) == 1 else as_elem(ai, v, "")
                elif s in ("copy_if", "remove_copy_if"):
                    t = ai.truth(ai.rv(ai.call_value(args[3], [LV(c)])))
                    if t is None:
                        out = None
                        break
                    if t is not (s == "copy_if"):
                        continue
                out = out_put(ai, out, c)
                if out is None:
                    break
            if out is not None:
                return out
    if n in ("std::fill", "std::iota", "std::generate"):
        cells = range_cells(ai, args[0], args[1])
        if cells is not None:
            v = args[2]
            for c in cells:
                if s == "generate":
                    ai.write(LV(c), ai.rv(ai.call_value(v, [])))
                else:
                    ai.write(LV(c), ai.copy_content(ai.rv(v)))
                if s == "iota":
                    v = ai.arith("+", ai.rv(v), 1, "")
            return None
    if n == "std::fill_n":
        k = ai.rv(args[1])
        cells = second_cells(ai, args[0], k) if isinstance(k, int) else None
        if cells is not None:
            for c in cells:
                ai.write(LV(c), ai.copy_content(ai.rv(args[2])))
            return ai.arith("+", ai.rv(args[0]), k, "")
    if n in ("std::max_element", "std::min_element"):
        cells = range_cells(ai, args[0], args[1])
        b = ai.rv(args[0])
        if cells is not None and isinstance(b, Iter):
            best, ok = 0, True
            for i in range(1, len(cells)):
                x, y = (cells[best], cells[i]) if s == "max_element" else (cells[i], cells[best])
                r = ai.call_value(args[2], [LV(x), LV(y)]) if len(args) > 2 else ai.compare("<", ai.read(x), ai.read(y))
                t = ai.truth(ai.rv(r))
                if t is None:
                    ok = False
                    break
                if t:
                    best = i
            if ok:
                return Iter(b.cont, b.idx + best)
    if n == "std::mismatch" and len(args) in (3, 4):
        cells = range_cells(ai, args[0], args[1])
        b1, b2 = ai.rv(args[0]), ai.rv(args[2])
        if cells is not None and isinstance(b1, Iter) and isinstance(b2, Iter):
            ended = len(args) == 4 and isinstance(ai.rv(args[3]), Iter)
            other = range_cells(ai, args[2], args[3]) if ended else second_cells(ai, args[2], len(cells))
            k, ok = 0, other is not None
            for x, y in zip(cells, other or []):
                r = cells_equal(ai, x, y) if len(args) == 3 or ended else ai.truth(ai.rv(ai.call_value(args[3], [LV(x), LV(y)])))
                if r is not True:
                    ok = r is False
                    break
                k += 1
            if ok:
                rt = fn.get("rt") or "std::pair"
                return tmp(ai, rt, Struct(_uncv(rt), (("first", ai.new_cell("", Iter(b1.cont, b1.idx + k), "tmp.first")), ("second", ai.new_cell("", Iter(b2.cont, b2.idx + k), "tmp.second")))))
    if n in ("std::sort", "std::stable_sort", "std::reverse", "std::iter_swap", "std::rotate"):
        b = ai.rv(args[0])
        cells = range_cells(ai, args[0], args[1])
        if cells is not None and isinstance(b, Iter) and s in ("reverse", "sort", "stable_sort"):
            con = ai.read(b.cont)
            mid = list(reversed(cells)) if s == "reverse" else cells
            if s != "reverse" and len(args) == 2 and all(isinstance(ai.read(c), (int, float, str)) for c in cells):
                mid = sorted(cells, key=lambda c: ai.read(c))
            elif s != "reverse":
                ai.imprecise.append("sort order")
            ai.heap[b.cont] = Cont(con.kind, con.cells[:b.idx] + tuple(mid) + con.cells[b.idx + len(mid):], con.meta)
            return None
    if n == "std::equal":
        a = range_cells(ai, args[0], args[1])
        at = e.get("at") or []
        two = len(args) == 5 or len(args) == 4 and (isinstance(ai.rv(args[3]), Iter) or
                                                    isinstance(ai.rv(args[3]), Struct) and type(ai.rv(args[3])) is type(ai.rv(args[2])) and ai.rv(args[3]).cls == ai.rv(args[2]).cls)
        pred = args[4] if len(args) == 5 else args[3] if len(args) == 4 and not two else None
        b = None if a is None else range_cells(ai, args[2], args[3]) if two else second_cells(ai, args[2], len(a))
        if a is not None and b is not None:
            if len(a) != len(b):
                return False
            rs = []
            for x, y in zip(a, b):
                r = cells_equal(ai, x, y) if pred is None else ai.rv(ai.call_value(pred, [LV(x), LV(y)]))
                rs.append(Top("eq") if r is None else r)
                if r is False:
                    return False
            return boolres(ai, rs, "&&")
    if n in ("std::max", "std::min"):
        if len(args) == 2:
            a, b = ai.rv(args[0]), ai.rv(args[1])
            return minmax(ai, s, a, b)
        if len(args) == 1 and isinstance(ai.rv(args[0]), Cont):
            cs = [ai.read(c) for c in ai.rv(args[0]).cells]
            r = cs[0]
            for x in cs[1:]:
                r = minmax(ai, s, r, x)
            return r
    if n in ("std::clamp",):
        v = [ai.rv(a) for a in args]
        return minmax(ai, "max", minmax(ai, "min", v[0], v[2]), v[1])
    if s in ("round", "abs", "fabs", "sqrt", "floor", "ceil", "lround", "pow", "exp", "log") and (std or "::" not in n):
        vs = [ai.rv(a) for a in args]
        return mathfn(ai, s, vs, fn)
    if s in ("stod", "stof", "atof", "strtod", "stoi", "stol", "stoul", "strtof", "atoi"):
        v = ai.rv(args[0])

        def one(x):
            if isinstance(x, str):
                try:
                    return float(x) if s in ("stod", "stof", "atof", "strtod", "strtof") else int(x)
                except ValueError:
                    return Top(s)
            return x if isinstance(x, Top) else App("num:" + ("int" if s in ("stoi", "stol", "stoul", "atoi") else "real"), (x,))
        return phi([one(x) for x in alts(v)])
    if s == "to_string" and n.startswith("std::"):
        v = ai.rv(args[0])
        return phi([str(a) if isinstance(a, int) and not isinstance(a, bool) else (a if isinstance(a, Top) else App("fmt", ("", a))) for a in alts(v)])
    if s == "strlen":
        v = ai.rv(args[0])
        return len(v) if isinstance(v, str) else unk(ai, "strlen", [v])
    if s in ("strcmp", "strncmp", "wcscmp"):
        a, b = ai.rv(args[0]), ai.rv(args[1])
        if isinstance(a, str) and isinstance(b, str) and len(args) == 2:
            return 0 if a == b else (1 if a > b else -1)
        return unk(ai, s, [a, b])
    if s == "strdup":
        return ai.rv(args[0])
    if s in ("exit", "abort", "terminate", "_Exit"):
        from .ai import Dead
        raise Dead()
    if s in ("printf", "fprintf", "puts", "fputs", "fflush", "print", "free", "PyErr_SetString", "PyErr_Format") or n.startswith("fmt::print"):
        h = ai.ext_log
        h.append((n, [ai.rv(a) for a in args]))
        return 0
    if s in ("operator<<",) and args:
        return stream_put(ai, args[0], args[1])
    if s == "operator+" and len(args) == 2:
        return std_op(ai, "+", fn, args, e)
    if s in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
        return std_op(ai, s[8:], fn, args, e)
    if s == "malloc" or s == "realloc" or s == "calloc":
        c = ai.new_cell("", Top("heap block"), "new@malloc")
        return Ptr(c)
    # unknown external function
    ai.unknown_calls.add(n)
    vs = [ai.rv(a) for a in args]
    for a, ty in zip(args, fn.get("pt") or []):
        if isinstance(a, LV) and ty.rstrip().endswith("&") and not ty.startswith("const ") and not ty.rstrip().endswith("&&"):
            for c in a.cells:
                ai.heap[c] = Top("changed by " + n)
        elif ty.rstrip().endswith("*") and not ty.startswith("const "):
            for x in alts(ai.rv(a)):
                if isinstance(x, Ptr) and not isinstance(ai.heap.get(x.cell), (Struct,)):
                    ai.heap[x.cell] = Top("changed by " + n)
    return unk(ai, n, vs)


def make_object(ai, ty, args):
    ty = _uncv(ty)
    if ty in ai.p.records:
        last = ty.split("::")[-1].split("<")[0]
        cands = [f for f in ai.p.by_name.get(ty + "::" + last, []) if len(f["params"]) >= len(args) and
                 all(p.get("def") is not None for p in f["params"][len(args):])]
        if len(cands) > 1:
            cc = [f for f in cands if not f["fn"].get("cc") in ("copy", "move")]
            if args and isinstance(ai.rv(args[0]), Struct) and ai.p.is_a(ai.rv(args[0]).cls, ty):
                cc = [f for f in cands if f["fn"].get("cc") == "copy"] or cc
            cands = cc or cands
        if not args and not cands:
            c = ai.alloc(ty, "tmp")
            ai.default_members(c, ty)
            return c
        if len(cands) == 1:
            return ai.construct(ty, cands[0]["fn"], list(args))
        if len(args) == 1 and isinstance(ai.rv(args[0]), Struct) and ai.p.is_a(ai.rv(args[0]).cls, ty):
            c = ai.new_cell(ty, ai.copy_content(ai.rv(args[0])), "tmp")
            return c
        return ai.new_cell(ty, ai.lose("make_shared<%s>: constructor not determined" % ty), "tmp")
    if not args:
        return ai.alloc(ty, "obj", True)
    r = std_ctor(ai, ty, base_of(ty), {"n": ty}, args, None)
    if r is not None:
        return r.cells[0]
    return ai.new_cell(ty, ai.copy_content(ai.rv(args[0])), "obj")


def minmax(ai, s, a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return max(a, b) if s == "max" else min(a, b)
    if isinstance(a, Phi) or isinstance(b, Phi):
        return phi([minmax(ai, s, x, y) for x in alts(a) for y in alts(b)])
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    if same(a, b):
        return a
    l = []
    for x in (a, b):
        l += list(x.args) if isinstance(x, App) and x.op == s else [x]
    return App(s, tuple(sorted(l, key=repr)))


def mathfn(ai, s, vs, fn):
    import math
    if s == "fabs":
        s = "abs"
    if all(isinstance(v, (int, float)) for v in vs):
        try:
            if s == "abs":
                return abs(vs[0])
            if s == "round":
                return math.floor(abs(vs[0]) + 0.5) * (1.0 if vs[0] >= 0 else -1.0)
            if s == "sqrt":
                return math.sqrt(vs[0])
            if s in ("floor", "ceil"):
                return float(getattr(math, s)(vs[0]))
            if s == "pow":
                return float(vs[0]) ** vs[1]
            if s in ("exp", "log"):
                return getattr(math, s)(vs[0])
        except (ValueError, OverflowError):
            return Top(s)
    if any(isinstance(v, Top) for v in vs):
        return Top(s)
    if len(vs) == 1 and isinstance(vs[0], Phi):
        return phi([mathfn(ai, s, [a], fn) for a in alts(vs[0])])
    if any(isinstance(v, Phi) for v in vs):
        return Top(s)
    return App(s, tuple(vs))


def fmtval(ai, a):
    v = ai.rv(a)
    if isinstance(v, Iter):
        c = ai.heap.get(v.cont)
        if isinstance(c, str):
            return c
    if isinstance(v, (Struct, Cont, Alt)):
        return Top("aggregate formatted")
    return v


def stream_put(ai, s, a):
    sv = ai.rv(s)
    v = ai.rv(a)
    if isinstance(v, (Struct, Cont, Alt)):
        v = Top("aggregate streamed")
    if isinstance(sv, Struct) and sv.get("$s"):
        c = sv.get("$s")
        cur = ai.read(c)
        if isinstance(v, FnPtr):
            v = "\n" if "endl" in v.name else ""
        elif isinstance(v, bool):
            v = str(int(v))
        elif isinstance(v, (int, float)):
            # a char literal or a number: the element type tells
            t = ai.put_type or ""
            v = chr(v) if t == "char" and isinstance(v, int) else (str(v) if isinstance(v, int) else App("fmt", ("", v)))
        elif isinstance(v, (Sym, App)) and not (isinstance(v, Sym) and v.kind == "str" or isinstance(v, App) and v.op in ("cat", "styled", "fmt", "formatted", "string")):
            v = App("fmt", ("", v))
        ai.heap[c] = cat_values([cur, v])
    return s


# ---------------------------------------------------------------- methods
def meth_name(fn):
    n = fn["n"]
    # strip template arguments anywhere
    d, out = 0, ""
    for i, ch in enumerate(n):
        if ch == "<" and not n[:i].endswith("operator") and not n[:i].endswith("operator<"):
            d += 1
        elif ch == ">" and d > 0 and not n[:i].endswith("operator-") and not n[:i].endswith("operator"):
            d -= 1
        elif d == 0:
            out += ch
    return out.split("::")[-1].strip()


def std_method(ai, c, fn, args, e):
    m = meth_name(fn)
    v = ai.read(c)
    if m.startswith("operator ") and not m[9:].strip() == "":
        # conversion operators: bool of smart pointers / streams / optional
        t = m[9:].strip()
        if t == "bool":
            if isinstance(v, Struct) and v.get("$p"):
                p = ai.read(v.get("$p"))
                return ai.compare("!=", p, NULL)
            if isinstance(v, Cont) and v.kind == "optional":
                return bool(v.cells)
            return v
        return LV(c)
    if m.startswith("operator"):
        return std_op(ai, m[8:].strip(), fn, [LV(c)] + list(args), e)
    if isinstance(v, Alt):
        outs = []
        s0 = ai.snap()
        for a in v.alts:
            ai.restore(s0)
            ai.heap[c] = a
            try:
                outs.append((std_method(ai, c, fn, args, e), ai.snap()))
            except Exception as ex:
                from .ai import Dead
                if not isinstance(ex, Dead):
                    raise
        if not outs:
            from .ai import Dead
            raise Dead()
        return ai.join_many(outs)
    if isinstance(v, Struct) and v.get("$p"):
        pc = v.get("$p")
        if m == "get":
            return ai.read(pc)
        if m == "reset":
            ai.heap[pc] = unwrap_ptr(ai, ai.rv(args[0])) if args else NULL
            if len(args) == 1:
                ai.adopt(ai.heap[pc], (fn.get("pt") or [""])[0])
            return None
        if m == "swap" and args:
            o = ai.rv(args[0])
            if isinstance(o, Struct) and o.get("$p"):
                x = ai.read(pc)
                ai.heap[pc] = ai.read(o.get("$p"))
                ai.heap[o.get("$p")] = x
                return None
        if m == "lock":
            return mk_sptr(ai, v.cls.replace("weak_ptr", "shared_ptr"), ai.read(pc))
        if m == "release":
            x = ai.read(pc)
            ai.heap[pc] = NULL
            for q in alts(x):
                if isinstance(q, Ptr):
                    ai.freed.pop(("own", q.cell), None)
            return x
        if m in ("use_count", "unique", "expired"):
            p = ai.read(pc)
            return App(m, (p,)) if not isinstance(p, (Phi, Top)) else Top(m)
    if isinstance(v, Struct) and v.get("$s"):
        sc = v.get("$s")
        if m == "str":
            if args:
                ai.heap[sc] = ai.rv(args[0])
                return None
            return ai.read(sc)
        if m in ("close", "flush", "clear", "precision"):
            return None
    if isinstance(v, Cont):
        r = cont_method(ai, c, v, m, args, fn, e)
        if r is not NotImplemented:
            return r
    elif is_text(ai, c, v, fn):
        r = str_method(ai, c, v, m, args, fn, e)
        if r is not NotImplemented:
            return r
    elif isinstance(v, (Sym, App)):
        r = sym_method(ai, c, v, m, args, fn, e)
        if r is not NotImplemented:
            return r
    ai.unknown_calls.add(fn["n"])
    if m == "what":
        return Sym(ai.fresh("what"), kind="str")
    if isinstance(v, Top):
        return Top("method of unknown")
    if m not in PURE:
        ai.lose("method %s" % fn["n"])
    return Top("method " + m)


def is_text(ai, c, v, fn):
    return isinstance(v, str) or base_of(ai.ctype.get(c, "")) in STRINGS or fn.get("cls", "") in STRINGS


def str_method(ai, c, v, m, args, fn, e):
    if m in ("c_str", "data", "str"):
        return v
    if isinstance(v, Phi) and m not in ("clear",):
        pass
    if m in ("size", "length"):
        return phi([len(a) if isinstance(a, str) else (a if isinstance(a, Top) else App("size", (a,))) for a in alts(v)])
    if m == "empty":
        return phi([a == "" if isinstance(a, str) else (a if isinstance(a, Top) else (False if isinstance(a, App) and a.op == "cat" and any(isinstance(x, str) for x in a.args) else App("==", (0, App("size", (a,)))))) for a in alts(v)])
    if m == "clear":
        ai.heap[c] = ""
        return None
    if m in ("append", "push_back"):
        if len(args) == 1:
            a = ai.rv(args[0])
            if isinstance(a, int):
                a = to_str(a)
            ai.heap[c] = cat_values([v, a])
            return LV(c)
        ai.heap[c] = ai.lose("string append")
        return LV(c)
    if m == "assign" and len(args) == 1:
        ai.heap[c] = ai.rv(args[0])
        return LV(c)
    if m in ("at", "front", "back"):
        if isinstance(v, str):
            i = ai.rv(args[0]) if m == "at" else (0 if m == "front" else len(v) - 1)
            if isinstance(i, int) and 0 <= i < len(v):
                return LV(ai.new_cell("char", ord(v[i]), "tmp"))
        return Top("char")
    if m == "substr":
        vs = [ai.rv(a) for a in args]
        if isinstance(v, str) and all(isinstance(x, int) for x in vs):
            p = vs[0] if vs else 0
            n = vs[1] if len(vs) > 1 else len(v)
            n = len(v) if n < 0 or n > len(v) else n
            return v[p:p + n]
        return unk(ai, "substr", [v] + vs)
    if m == "compare" and len(args) == 1:
        a = ai.rv(args[0])
        if isinstance(v, str) and isinstance(a, str):
            return 0 if v == a else (1 if v > a else -1)
        if same(v, a) and not isinstance(v, (Top, Phi)):
            return 0
        return unk(ai, "strcompare", [v, a])
    if m in ("find", "rfind", "starts_with", "ends_with", "find_first_of"):
        vs = [ai.rv(a) for a in args]
        if isinstance(v, str) and vs and isinstance(vs[0], (str, int)) and len(vs) <= 2:
            s = to_str(vs[0])
            if m == "starts_with":
                return v.startswith(s)
            if m == "ends_with":
                return v.endswith(s)
            if m == "find":
                r = v.find(s)
                return r if r >= 0 else (1 << 64) - 1
        return unk(ai, m, [v] + vs)
    if m in ("pop_back",) and isinstance(v, str):
        ai.heap[c] = v[:-1]
        return None
    if m in ("reserve", "shrink_to_fit"):
        return None
    if m in ("insert", "erase", "replace", "resize"):
        ai.heap[c] = ai.lose("string " + m)
        return LV(c)
    return NotImplemented


def elem_of(ai, con, i, c):
    return LV(con.cells[i])


def cont_method(ai, c, con, m, args, fn, e):
    from .ai import Dead
    ct = ai.ctype.get(c, "")
    et = elem_type(ct)
    n = len(con.cells)
    if m in ("begin", "cbegin"):
        return Iter(c, 0)
    if m in ("end", "cend"):
        return Iter(c, n)
    if m in ("size", "length"):
        return n
    if m == "empty":
        return n == 0
    if m == "clear":
        ai.heap[c] = Cont(con.kind, (), con.meta)
        return None
    if m in ("reserve", "shrink_to_fit"):
        return None
    if m in ("front", "back"):
        if not n:
            ai.issue("out-of-bounds", "%s() of empty %s" % (m, ai.name.get(c) or con.kind))
            raise Dead()
        return LV(con.cells[0 if m == "front" else -1])
    if m == "data":
        return Iter(c, 0)
    if m in ("push_back", "emplace_back", "push_front", "emplace_front"):
        a = conv_arg(ai, args, et, m)
        ai.heap[c] = Cont(con.kind, con.cells + (a,) if "back" in m else (a,) + con.cells, con.meta)
        return LV(a) if m.startswith("emplace") else None
    if m in ("pop_back", "pop_front"):
        if not n:
            ai.issue("out-of-bounds", "pop of empty container")
            raise Dead()
        ai.heap[c] = Cont(con.kind, con.cells[:-1] if m == "pop_back" else con.cells[1:], con.meta)
        return None
    if m == "resize":
        k = ai.rv(args[0])
        if isinstance(k, int) and k <= 64:
            cells = con.cells[:k]
            while len(cells) < k:
                cells += ((as_elem(ai, args[1], et) if len(args) > 1 else ai.alloc(et, "el", True)),)
            ai.heap[c] = Cont(con.kind, cells, con.meta)
            return None
    if m == "at" and con.kind != "map":
        return ai.index(c, ai.rv(args[0]))
    if con.kind in ("set", "map", "mset"):
        if m in ("find", "count", "contains", "at", "operator[]"):
            k = args[0].cells[0] if isinstance(args[0], LV) and len(args[0].cells) == 1 else ai.new_cell("", ai.rv(args[0]), "tmp")
            r = find_key(ai, con, k)
            if r == "maybe":
                if m == "count":
                    return phi([0, 1])
                if m == "contains":
                    return phi([True, False])
                if m == "find":
                    return phi([Iter(c, i) for i in range(n + 1)])
                return LV(*[ai.heap[x].fields[1][1] for x in con.cells])
            if m == "count":
                return 0 if r is None else 1
            if m == "contains":
                return r is not None
            if m == "find":
                return Iter(c, n if r is None else r)
            if m == "at":
                if r is None:
                    ai.throw(("std::out_of_range", "map::at"))
                return LV(ai.heap[con.cells[r]].fields[1][1])
        if m == "erase":
            a = ai.rv(args[0])
            if isinstance(a, Iter) and a.cont == c and len(args) == 1:
                ai.heap[c] = Cont(con.kind, con.cells[:a.idx] + con.cells[a.idx + 1:], con.meta)
                return Iter(c, a.idx)
            k = args[0].cells[0] if isinstance(args[0], LV) and len(args[0].cells) == 1 else ai.new_cell("", a, "tmp")
            r = find_key(ai, con, k)
            if r is None:
                return 0
            if r != "maybe":
                ai.heap[c] = Cont(con.kind, con.cells[:r] + con.cells[r + 1:], con.meta)
                return 1
            ai.heap[c] = ai.lose("erase of undecided key")
            return Top("erase")
        if m in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if m == "insert" and len(args) == 2 and isinstance(ai.rv(args[0]), Iter):
                cells = range_cells(ai, args[0], args[1])
                if cells is not None and ai.rv(args[0]).cont != c:
                    for x in cells:
                        cc = ai.heap[c]
                        if not isinstance(cc, Cont):
                            break
                        set_insert(ai, c, cc, ai.copy_obj(x, "el"))
                    return None
                args = args[1:]
            if m == "insert" and len(args) == 1 and isinstance(ai.rv(args[0]), Cont):
                for x in ai.rv(args[0]).cells:
                    set_insert(ai, c, ai.heap[c], ai.copy_obj(x, "el"))
                return None
            if con.kind == "map" and len(args) == 2:
                pt = "std::pair"
                ec = ai.new_cell(pt, Struct(pt, (("first", as_elem(ai, args[0], "")), ("second", as_elem(ai, args[1], "")))), "el")
            else:
                ec = conv_arg(ai, args, et, m)
            i, ins = set_insert(ai, c, con, ec)
            if m == "insert_or_assign" and ins is False:
                ai.assign_obj(ai.heap[con.cells[i]].fields[1][1], ai.heap[ec].fields[1][1])
            pr = "std::pair<iterator, bool>"
            return tmp(ai, pr, Struct(pr, (("first", ai.new_cell("iterator", Iter(c, i), "tmp")), ("second", ai.new_cell("bool", ins, "tmp")))))
        if m in ("lower_bound", "upper_bound"):
            return Top(m)
        if m == "merge" and args:
            o = ai.rv(args[0])
            if isinstance(o, Cont):
                for x in o.cells:
                    set_insert(ai, c, ai.heap[c], x)
                return None
    else:
        if m == "insert":
            pos = ai.rv(args[0])
            if isinstance(pos, Iter) and pos.cont == c:
                new = None
                if len(args) == 3:
                    new = range_cells(ai, args[1], args[2])
                    if new is not None:
                        new = copy_cells(ai, new)
                elif len(args) == 2:
                    a1 = ai.rv(args[1])
                    if isinstance(a1, Cont) and elem_type(ct) and not base_of(elem_type(ct)) in SEQ:
                        new = copy_cells(ai, a1.cells)
                    else:
                        new = (as_elem(ai, args[1], et),)
                if new is not None:
                    ai.heap[c] = Cont(con.kind, con.cells[:pos.idx] + tuple(new) + con.cells[pos.idx:], con.meta)
                    return Iter(c, pos.idx)
        if m == "emplace":
            pos = ai.rv(args[0])
            if isinstance(pos, Iter):
                a = conv_arg(ai, args[1:], et, m)
                ai.heap[c] = Cont(con.kind, con.cells[:pos.idx] + (a,) + con.cells[pos.idx:], con.meta)
                return Iter(c, pos.idx)
        if m == "erase":
            pos = ai.rv(args[0])
            if isinstance(pos, Iter) and pos.cont == c:
                end = ai.rv(args[1]).idx if len(args) > 1 and isinstance(ai.rv(args[1]), Iter) else pos.idx + 1
                ai.heap[c] = Cont(con.kind, con.cells[:pos.idx] + con.cells[end:], con.meta)
                return Iter(c, pos.idx)
        if m == "assign":
            if len(args) == 1 and isinstance(ai.rv(args[0]), Cont):
                ai.heap[c] = Cont(con.kind, copy_cells(ai, ai.rv(args[0]).cells), con.meta)
                return None
            cells = range_cells(ai, args[0], args[1]) if len(args) == 2 else None
            if cells is not None:
                ai.heap[c] = Cont(con.kind, copy_cells(ai, cells), con.meta)
                return None
        if m == "fill" and con.kind == "array":
            for x in con.cells:
                ai.heap[x] = ai.copy_content(ai.rv(args[0]))
            return None
    if m == "swap" and args:
        a = args[0].cells[0]
        ai.heap[c], ai.heap[a] = ai.heap[a], ai.heap[c]
        return None
    if m in ("value", "operator*") and con.kind == "optional":
        return LV(con.cells[0]) if n else None
    if m == "has_value":
        return n > 0
    if m not in PURE:
        ai.heap[c] = ai.lose("container method " + fn["n"])
    return Top("container method " + m)


def conv_arg(ai, args, et, m):
    if m.startswith("emplace") and (len(args) != 1 or (et in ai.p.records and not isinstance(ai.rv(args[0]), Struct))):
        return make_object(ai, et, args)
    v = ai.rv(args[0])
    if base_of(et) in SPTRS and not isinstance(v, Struct):
        ai.adopt(v)
        return mk_sptr(ai, et, v).cells[0]
    return as_elem(ai, args[0], et)


def vk(ai, a):
    v = ai.rv(a)
    if isinstance(v, Struct):
        parts = []
        for nme, fc in v.fields:
            x = ai.heap.get(fc)
            if isinstance(x, (Struct, Cont, Alt, Top, Phi)) or x is None:
                return Top("key")
            parts.append(x)
        return parts[0] if len(parts) == 1 else App("tuple", tuple(parts))
    if isinstance(v, (Cont, Alt)):
        return Top("key")
    return v


def sym_method(ai, c, v, m, args, fn, e):
    """container / object of unknown content"""
    vs = [vk(ai, a) for a in args]
    if any(isinstance(x, (Top, Phi)) for x in vs) and m not in ("clear", "push_back", "insert", "emplace", "emplace_back"):
        return Top("method of unknown container")
    if m in ("size", "length"):
        return Sym(App("size", (v,)), 0, None)
    if m == "empty":
        return ai.compare("==", Sym(App("size", (v,)), 0, None), 0)
    if m in ("begin", "end", "cbegin", "cend"):
        return App(m.lstrip("c"), (v,))
    if m in ("find", "count", "contains"):
        return Sym(App(m, (v,) + tuple(vs)), 0 if m == "count" else None, 1 if m == "count" else None) if m == "count" else App(m, (v,) + tuple(vs))
    if m in ("at", "front", "back", "operator[]"):
        return sym_elem(ai, v, m, vs, fn.get("rt", ""))
    if m == "clear":
        t = ai.ctype.get(c, "")
        d = default_std(ai, t)
        ai.heap[c] = d if isinstance(d, Cont) else App("cleared", (v,))
        return None
    if m in ("push_back", "insert", "emplace", "emplace_back", "erase", "push_front", "resize", "pop_back", "append", "assign"):
        vs = [Top("x") if isinstance(x, Phi) else x for x in vs]
        if any(isinstance(x, Top) for x in vs):
            ai.heap[c] = Sym(ai.fresh("mut"), kind="cont:")
        else:
            ai.heap[c] = App("mut:" + m, (v,) + tuple(vs))
        return App("ret:" + m, (v,) + tuple(x for x in vs if not isinstance(x, Top)))
    if m == "get" or m == "c_str" or m == "str" or m == "data":
        return v
    if m == "what":
        return Sym(ai.fresh("what"), kind="str")
    return NotImplemented


def sym_elem(ai, v, m, vs, rt):
    key = ("elem", v, tuple(vkey(x) for x in vs), m if m in ("front", "back") else "")
    if key not in ai.lazy:
        ai.lazy[key] = ai.lazy_obj(_uncv(rt), "%s[%s]" % (ai.show(v), ",".join(ai.show(x) for x in vs) or m))
    cc = ai.lazy[key]
    if cc not in ai.heap:
        ai.heap[cc] = None
    return LV(cc)


# ---------------------------------------------------------------- operators
def std_op(ai, op, fn, args, e):
    from .ai import Dead
    a = args[0]
    if op == "()":
        v = ai.rv(a)
        if isinstance(v, (Closure, FnPtr)) or isinstance(v, Phi):
            return ai.call_value(a, args[1:])
        name = v.op if isinstance(v, App) else fn["n"]
        if isinstance(v, App) and v.op.startswith("ctor:std::") or fn["n"].startswith("std::"):
            return call_std_functor(ai, fn["n"], args[1:])
        return ai.call_value(a, args[1:])
    va = ai.rv(a)
    if op == "=":
        y = args[1]
        vy = ai.rv(y)
        if isinstance(va, Tie):
            if isinstance(vy, Struct):
                for dst, (n, src) in zip(va.cells, vy.fields):
                    d = ai.heap.get(dst)
                    sv = ai.read(src)
                    if isinstance(d, Struct) and isinstance(sv, Struct) and d.get("$p") and sv.get("$p"):
                        ai.heap[d.get("$p")] = ai.read(sv.get("$p"))
                    else:
                        ai.heap[dst] = ai.copy_content(sv)
            else:
                for dst in va.cells:
                    if isinstance(vy, (Alt,)):
                        vals = []
                        i = va.cells.index(dst)
                        for s in vy.alts:
                            if isinstance(s, Struct):
                                vals.append(ai.read(s.fields[i][1]))
                        ai.heap[dst] = phi(vals) if vals and not any(isinstance(x, (Struct, Cont)) for x in vals) else ai.lose("tie")
                    else:
                        ai.heap[dst] = Top("tie of unknown")
            return a
        if isinstance(a, LV):
            if isinstance(va, Struct) and va.get("$p"):
                p = unwrap_ptr(ai, vy)
                for c in a.cells:
                    s = ai.read(c)
                    if isinstance(s, Struct) and s.get("$p"):
                        if len(a.cells) == 1:
                            ai.heap[s.get("$p")] = p
                        else:
                            ai.heap[s.get("$p")] = phi([ai.heap[s.get("$p")], p])
                return a
            if isinstance(vy, Iter) and isinstance(ai.heap.get(vy.cont), str):
                vy = ai.heap[vy.cont]
            if isinstance(vy, int) and not isinstance(vy, bool) and base_of(ai.ctype.get(a.cells[0], "")) in STRINGS:
                vy = to_str(vy)
            if isinstance(va, Struct) and isinstance(vy, Struct) and isinstance(y, LV) and len(a.cells) == 1:
                ai.assign_obj(a.cells[0], y.cells[0])
                return a
            if isinstance(vy, Cont):
                t = ai.ctype.get(a.cells[0], "")
                b = base_of(t)
                kind = va.kind if isinstance(va, Cont) else (SEQ.get(b) or SETS.get(b) or ("map" if b in MAPS else vy.kind))
                out = tmp(ai, t, Cont(kind, ()))
                if vy.kind == kind:
                    ai.heap[out.cells[0]] = ai.copy_content(vy)
                else:
                    fill(ai, out, kind, vy.cells)
                ai.write(a, ai.heap[out.cells[0]])
                return a
            ai.write(a, ai.copy_content(vy))
            return a
        return ai.lose("assignment")
    if op in ("*", "->") and len(args) == 1:
        if isinstance(va, (Struct, Alt)):
            p = unwrap_ptr(ai, va)
            if op == "->":
                return p
            return ai.deref(p)
        if op == "->":
            return phi([Ptr(c) for c in iter_targets(ai, va)])
        if isinstance(va, App) and va.op == "inserter":
            return a
        cells = iter_targets(ai, va)
        return LV(*dict.fromkeys(cells))
    if op == "[]":
        i = ai.rv(args[1])
        if isinstance(va, Cont):
            if va.kind == "map":
                return map_sub(ai, a.cells[0], va, args[1])
            return ai.index(a.cells[0], i)
        if isinstance(va, Iter):
            return ai.index(va.cont, i, va.idx)
        if isinstance(va, str):
            if isinstance(i, int):
                return LV(ai.new_cell("char", ord(va[i]) if 0 <= i < len(va) else 0, "tmp"))
            return LV(ai.new_cell("char", Top("char"), "tmp"))
        if isinstance(va, (Sym, App)):
            k = vk(ai, args[1])
            if not isinstance(k, (Top, Phi)):
                return sym_elem(ai, va, "at", [k], fn.get("rt", "") or e.get("t", ""))
        return LV(ai.new_cell("", ai.lose("operator[] on unknown container"), "tmp"))
    if op in ("++", "--"):
        d = 1
        new = ai.arith("+" if op == "++" else "-", va, d, "") if not (isinstance(va, App) and va.op == "inserter") else va
        if isinstance(va, (Sym, App)) and not (isinstance(va, App) and va.op == "inserter"):
            new = App("next" if op == "++" else "prev", (va,))
        ai.write(a, new)
        return va if len(args) > 1 else a
    if op == "<<":
        ai.put_type = _uncv((e.get("at") or ["", ""])[1]) if e and len(e.get("at") or []) > 1 else ""
        return stream_put(ai, a, args[1])
    if len(args) > 1:
        vb = ai.rv(args[1])
    else:
        vb = None
    if op in ("+", "+="):
        ta = (e.get("at") or ["", ""]) if e else ["", ""]
        texty = "basic_string" in fn.get("rt", "") or "basic_string" in "".join(ta)
        if texty:
            x = to_str(va) if isinstance(va, int) else va
            y = to_str(vb) if isinstance(vb, int) else vb
            r = cat_values([x, y])
            if op == "+=":
                ai.write(a, r)
                return a
            return r
        r = ai.arith("+", va, vb, "")
        if op == "+=":
            ai.write(a, r)
            return a
        return r
    if op in ("-", "-="):
        r = ai.arith("-", va, vb, "")
        if op == "-=":
            ai.write(a, r)
            return a
        return r
    if op in ("==", "!=", "<", ">", "<=", ">="):
        if isinstance(va, (Struct, Alt)) and (vb is NULL or isinstance(vb, Struct) and vb.get("$p") or True):
            pa = unwrap_ptr(ai, va)
            pb = unwrap_ptr(ai, vb)
            if not isinstance(pa, (Struct, Alt)) and not isinstance(pb, (Struct, Alt)):
                return ai.compare(op, pa, pb)
        if isinstance(vb, Struct) and vb.get("$p"):
            return ai.compare(op, va, unwrap_ptr(ai, vb))
        if isinstance(va, (Struct, Cont)) and isinstance(vb, (Struct, Cont)) and op in ("==", "!="):
            r = content_equal(ai, va, vb)
            if r is None:
                return Top("aggregate comparison")
            return r == (op == "==")
        if isinstance(va, (Struct, Cont, Alt)) or isinstance(vb, (Struct, Cont, Alt)):
            return Top("aggregate comparison")
        return ai.compare(op, va, vb)
    if op == "!":
        t = ai.truth(va)
        return (not t) if t is not None else Top("!")
    if op == "|" and fn["n"].startswith("fmt::"):
        return App("style", (ai.pure(a), ai.pure(args[1])))
    if op == "->*" or op == ",":
        return Top(op)
    if op.startswith("operator"):
        return Top(op)
    ai.unknown_calls.add(fn["n"])
    return unk(ai, fn["n"], [va] + ([vb] if vb is not None else []))


def map_sub(ai, c, con, k):
    kc = k.cells[0] if isinstance(k, LV) and len(k.cells) == 1 else ai.new_cell("", ai.rv(k), "tmp")
    r = find_key(ai, con, kc)
    if r == "maybe":
        ai.imprecise.append("map key not decided")
        cells = []
        for x in con.cells:
            if cells_equal(ai, key_cell(ai, con.kind, x), kc) is not False:
                cells.append(ai.heap[x].fields[1][1])
        return LV(*cells)
    if r is not None:
        return LV(ai.heap[con.cells[r]].fields[1][1])
    t = ai.ctype.get(c, "")
    a = targs(_uncv(t))
    vt = a[1] if len(a) > 1 else ""
    f = ai.copy_obj(kc, "el.first")
    s = ai.alloc(vt, "el.second", True)
    if vt in ai.p.records and hasattr(ai, "default_members"):
        ai.default_members(s, vt)
    pt = "std::pair<const %s, %s>" % (a[0] if a else "", vt)
    ec = ai.new_cell(pt, Struct(pt, (("first", f), ("second", s))), "el")
    i = sorted_pos(ai, c, con, f)
    ai.heap[c] = Cont(con.kind, con.cells[:i] + (ec,) + con.cells[i:], con.meta)
    return LV(s)
