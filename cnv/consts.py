"""Sizes worth trying.  A case split on a size shows in the source as a constant: the integer literals of the repository's
functions and constants (generated tables and the parser driver aside) are collected, and scenarios of the sizes around each
are added to the fixed ones.  A scenario never depends on what the code looks like beyond that: any size is a valid input."""

OWN = ("NARSESEPARSER::", "PARSER::", "COMPOUND::", "STATEMENT::", "TERM::", "INDEXVAR::", "VARIABLE::", "INTERVAL::", "OPERATION::", "SENTENCE::", "EVIDENCE::",
       "TASK::", "INTERPRETER::", "TRUTH::", "BUDGET::", "CONNECTOR::", "COPULA::", "GLOBAL::", "UTILS::", "CONFIG::", "TENSE::")
NOT = ("do_hashing", "pybind")


def _nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from _nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from _nodes(v)


def literals(p):
    if getattr(p, "_literals", None) is None:
        out = set()

        def take(x):
            for n in _nodes(x):
                if n.get("k") == "Int":
                    try:
                        out.add(int(n["v"]))
                    except (ValueError, KeyError):
                        pass
        for n, fs in p.by_name.items():
            if n.startswith(OWN) and not any(x in n for x in NOT):
                for f in fs:
                    take([f.get("body"), f.get("inits")])
        for n, vs in p.vars.items():
            if n.startswith(OWN) and "color" not in n:
                take([v.get("init") for v in vs])
        p._literals = out
    return p._literals


def reals(p):
    """floating literals of the repository's functions and of its configuration"""
    if getattr(p, "_reals", None) is None:
        out = set()
        for n, fs in p.by_name.items():
            if n.startswith(OWN) and not any(x in n for x in NOT):
                for f in fs:
                    for x in _nodes([f.get("body"), f.get("inits"), [q.get("def") for q in f["params"]]]):
                        if x.get("k") == "Float":
                            out.add(abs(float(x["v"])))
        for n, vs in p.vars.items():
            if n.startswith(OWN):
                for x in _nodes([v.get("init") for v in vs]):
                    if x.get("k") == "Float":
                        out.add(abs(float(x["v"])))
        p._reals = out
    return p._reals


TINY = "0." + "0" * 59 + "1"


def levels(ctx, kind, fixed=("0", "0.0", "1", "1.0", "0.5", "0.25", "0.75", ".9", "0.1", "0.000001", "0.999999", TINY), most=24):
    """spellings of numbers a terminal admits: the ends, some between, and on and around every constant of the program"""
    from .grammar import spells
    out = list(fixed)
    for c in sorted(reals(ctx.p)):
        if 0 <= c <= 1:
            for x in (c, c - 0.01, c + 0.01):
                if 0 < x < 1:
                    out.append("%.6f" % x)
    seen, r = set(), []
    for s in out:
        k = (float(s), "." in s) if float(s) in (0.0, 1.0) else float(s)
        if k not in seen and spells(ctx.tables, kind, s):
            seen.add(k)
            r.append(s)
    return pick(r, len(fixed), most)


def pick(r, first, most):
    """the first ones, and an even choice of the rest"""
    a, b = r[:first], r[first:]
    n = max(most - len(a), 1)
    return a + b[::-(-len(b) // n)] if b else a


def wholes(ctx, kind, fixed=("0", "1", "2", "5", "10", "-1", "-5", "100", "255", "256", "65536", "16777217", "-16777217", "2147483647", "-2147483647"), most=40):
    from .grammar import spells
    out = list(fixed)
    for c in sorted(literals(ctx.p)):
        out += [str(c - 1), str(c), str(c + 1), str(-c)]
    seen, r = set(), []
    for s in out:
        if s not in seen and -2 ** 31 < int(s) < 2 ** 31 and spells(ctx.tables, kind, s):
            seen.add(s)
            r.append(s)
    return pick(r, len(fixed), most)


def sizes(ctx, lo, hi, fixed=(), most=9):
    """sizes lo..hi around the constants of the program, and the fixed ones"""
    s = set()
    for c in sorted(literals(ctx.p)):
        if c > 2:
            s |= {c - 1, c, c + 1}
    s = sorted(x for x in s if lo <= x <= hi)
    if len(s) > most:
        s = sorted(set(s[::-(-len(s) // most)] + s[-1:]))
    return sorted(set(s) | set(fixed))


def big_shapes(ctx, wide=(9,), deep=(7,), cap=40):
    """[(name, spelling)]: terms of many parts and of many levels"""
    from .lang import A, V, MULTI
    out = []
    xs = lambda n, t="A": [A("%s%d" % (t, i)) for i in range(n)]
    vs = lambda n, k: [V(k, "x%d" % i) for i in range(n)]
    for n in sizes(ctx, 5, cap, wide):
        mixed = [V("$#?"[i % 3], "m%d" % (i // 3)) if i % 4 else A("A%d" % i) for i in range(n)]
        for nm, ps in (("atoms", xs(n)), ("$", vs(n, "$")), ("#", vs(n, "#")), ("?", vs(n, "?")), ("mixed", mixed)):
            t = "%d %s" % (n, nm)
            out += [("product prefix %s" % t, ("pre", "*", ps)), ("operation old %s" % t, ("opst", "old", "o", ps)), ("prefix &/ %s" % t, ("pre", "&/", ps)),
                    ("image %s" % t, ("img", "/", ps))]
            if nm in ("atoms", "#"):
                out += [("infix && %s" % t, ("inf", "&&", ps)), ("set { %s" % t, ("set", "{", ps)), ("product infix %s" % t, ("inf", "*", ps)),
                        ("operation new %s" % t, ("opst", "new", "o", ps)), ("product bare %s" % t, ("prod", ps))]
    for d in sizes(ctx, 5, min(cap, 24), deep):
        for nm, leaf in (("atom", A("A")), ("$", V("$", "x"))):
            x, y, z = leaf, leaf, leaf
            for i in range(d):
                x = ("pre", "*", [A("B%d" % i), x])
                y = ("st", "==>", A("B%d" % i), y, "<") if i % 2 else ("st", "-->", y, A("B%d" % i), "(")
                z = ("neg", z, "pre") if i % 3 == 0 else ("set", "{", [z]) if i % 3 == 1 else ("img", "/", [z, A("B%d" % i)])
            t = "%d levels of %s" % (d, nm)
            out += [("product nested %s" % t, x), ("statement nested %s" % t, y), ("negation nested %s" % t, z)]
    return out
