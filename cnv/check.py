"""Driver: python3 -m cnv.check <property> [--tier quick|thorough]

Exit 0: every obligation the analysis could decide holds (known findings are reported and do not count).
Exit 1: at least one obligation is violated.  Exit 2: the analysis has no answer (source does not parse, anchors gone)."""
import gc
import importlib
import json
import os
import pickle
import sys
import time
import traceback

from .prog import Program, AnalysisBroken, HERE, REPO

FINDINGS = os.path.join(HERE, "known_findings.txt")


def load_program():
    c = os.environ.get("CNV_PICKLE")       # development only
    if c and os.path.exists(c):
        with open(c, "rb") as f:
            return pickle.load(f)
    p = Program()
    if c:
        sys.setrecursionlimit(100000)
        with open(c, "wb") as f:
            pickle.dump(p, f)
    return p


T0 = time.time()
DEADLINE = 720          # seconds; what is not analysed by then is noted in the evidence


class Ob:
    __slots__ = ("key", "status", "detail", "where", "scenario")

    def __init__(self, key, status, detail, where, scenario):
        self.key, self.status, self.detail, self.where, self.scenario = key, status, detail, where, scenario


class Ctx:
    def __init__(self, prop, tier, seed, prog):
        self.prop, self.tier, self.seed, self.p = prop, tier, seed, prog
        self.obs = []
        self.functions = set()
        self.notes = []
        self.t0 = time.time()
        self.counts = {}
        self._tables = None

    @property
    def tables(self):
        from .grammar import Tables
        if self._tables is None:
            self._tables = Tables(self.p)
        return self._tables

    def site(self, name, pred=None):
        """(file, line, function) of a function of the current source; ('?',0,name) when it no longer exists"""
        try:
            f = [f for f in self.p.fns(name) if pred is None or pred(f)][0]
            return (f.get("file", "?"), f.get("l", 0), name)
        except (AnalysisBroken, IndexError):
            return ("?", 0, name)

    def ob(self, key, ok, detail="", where=None, scenario=None):
        """ok: True discharged, False violated, None undecided"""
        if isinstance(where, str):
            where = self.site(where)
        self.obs.append(Ob(key, "ok" if ok is True else "undecided" if ok is None else "violated", detail, where, scenario))
        return ok

    def par(self, items, f):
        """f(item) for every item, on all processors; obligations are recorded in the order of the items"""
        items = list(items)
        n = min(len(items), int(os.environ.get("CNV_JOBS", "0") or 0) or os.cpu_count() or 1, 8)
        if n <= 1:
            for x in items:
                f(x)
            return
        self.tables
        gc.collect()
        gc.freeze()
        sys.stdout.flush()
        kids = []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = []
                try:
                    c0 = dict(self.counts)
                    nbad = 0
                    for i in range(k, len(items), n):
                        self.obs = []
                        if nbad >= 40 or time.time() - T0 > (DEADLINE if self.tier == "quick" else 10 * DEADLINE):
                            self.note("%d cases not analysed: %s" % (len(range(i, len(items), n)), "enough violations" if nbad >= 40 else "time"))
                            break
                        f(items[i])
                        nbad += sum(o.status == "violated" for o in self.obs)
                        out.append((i, [(o.key, o.status, o.detail, o.where, o.scenario) for o in self.obs]))
                    cn = {x: v - c0.get(x, 0) for x, v in self.counts.items()}
                    data = pickle.dumps(("ok", out, self.functions, self.notes, cn))
                except AnalysisBroken as x:
                    data = pickle.dumps(("broken", str(x)))
                except BaseException:
                    data = pickle.dumps(("crash", traceback.format_exc()))
                with os.fdopen(w, "wb") as g:
                    g.write(data)
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        res = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as g:
                data = g.read()
            os.waitpid(pid, 0)
            if not data:
                raise AnalysisBroken("a worker of the analysis ended without an answer")
            d = pickle.loads(data)
            if d[0] == "broken":
                raise AnalysisBroken(d[1])
            if d[0] == "crash":
                raise RuntimeError(d[1])
            res.append(d)
        allobs = []
        for _, out, fns, notes, cn in res:
            allobs += out
            self.functions |= fns
            for x in notes:
                self.note(x)
            for k, v in cn.items():
                self.count(k, v)
        for _, obs in sorted(allobs, key=lambda x: x[0]):
            self.obs += [Ob(*o) for o in obs]

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def used(self, ai):
        self.functions |= {self.p.funcs[u]["fn"]["n"] for u in ai.visited if u in self.p.funcs}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def findings():
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].split(" what=")[0].split() if "=" in x)
                d["what"] = l.split(" what=", 1)[1] if " what=" in l else ""
                out.append(d)
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module("cnv.rules.%s" % prop.lower())
    ev = os.environ.get("CNV_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    try:
        prog = load_program()
        ctx = Ctx(prop, tier, seed, prog)
        mod.run(ctx)
    except AnalysisBroken as x:
        print("NO ANSWER property=%s: %s" % (prop, x))
        if os.environ.get("CNV_DEBUG"):
            traceback.print_exc()
        return 2
    known = [d for d in findings() if d.get("property") == prop]
    bad, kf = [], []
    for o in ctx.obs:
        if o.status == "violated":
            m = [d for d in known if d.get("key") == o.key]
            (kf if m else bad).append(o)
    okn = sum(o.status == "ok" for o in ctx.obs)
    und = [o for o in ctx.obs if o.status == "undecided"]
    samples = []
    for o in [o for o in ctx.obs if o.status == "ok"][:: max(1, okn // 6)][:6]:
        samples.append({"obligation": o.key, "what": o.detail, "at": list(o.where) if o.where else None,
                        "scenario": o.scenario})
    cov = {
        "explanation": getattr(mod, "EXPLAIN", (mod.__doc__ or "").strip()),
        "rule": getattr(mod, "RULE", (mod.__doc__ or "").strip()),
        "obligations": len(ctx.obs),
        "discharged": okn,
        "undecided": len(und),
        "undecided_list": ["%s: %s" % (o.key, o.detail) for o in und[:40]],
        "violated": len(bad),
        "known_findings": len(kf),
        "translation_units": len(prog.units),
        "functions_in_program": len(prog.funcs),
        "functions_analysed": len(ctx.functions),
        "functions_analysed_list": sorted(ctx.functions)[:200],
        "checker_cmd": "python3 -m cnv.check %s --tier %s" % (prop, tier),
        "trusted_base": ["clang 18 front end (AST)", "tool/exporter.cpp", "cnv/ai.py and cnv/lib.py (abstract semantics of "
                         "C++ and of the standard library, fmt and pybind11 calls used)", "the expected-behaviour tables of the rule"],
        "samples": samples,
    }
    cov.update(ctx.counts)
    if ctx.notes:
        cov["notes"] = ctx.notes
    rec = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
           "assumptions": getattr(mod, "ASSUMES", []), "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(rec, f, indent=1, default=str)
    seen = set()
    for o in kf:
        if o.key not in seen:
            seen.add(o.key)
            print("KNOWN-FINDING: property=%s %s" % (prop, o.detail or o.key))
    if not ctx.obs or okn == 0 and not bad:
        print("NO ANSWER property=%s: no obligation could be decided (%d undecided)" % (prop, len(und)))
        for o in und[:5]:
            print("   ", o.key, o.detail)
        return 2
    seen = set()
    n = 0
    for o in bad:
        if o.key in seen:
            continue
        seen.add(o.key)
        n += 1
        if n > 12:
            continue
        path = os.path.join(ev, "replay", "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "key": o.key, "violation": o.detail, "at": o.where, "scenario": o.scenario,
                       "again": "cd /verif && python3 -m cnv.check %s" % prop}, f, indent=1, default=str)
        w = o.where
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        print("    %s%s: %s" % ("%s:%s in %s: " % w if w else "", o.key, o.detail))
        if o.scenario:
            print("    scenario: %s" % (o.scenario,))
    print("%s: %d obligations, %d hold, %d undecided, %d violated, %d known finding(s); %.1f s"
          % (prop, len(ctx.obs), okn, len(und), len(seen), len({o.key for o in kf}), time.time() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
