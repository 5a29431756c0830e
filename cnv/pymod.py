"""What the Python module defines: the module's initialisation is evaluated on the abstract domain with every call into
the binding library recorded.  A loop or helper that makes the bindings is evaluated like any other code."""
from .env import *
from .prog import AnalysisBroken


class Binding:
    """one definition: of a class ('class_', 'enum_') or inside one ('def', 'value', ...)"""
    def __init__(self, i, rec, ai):
        self.i, self.rec, self.n = i, rec, rec["n"]
        self.kind = self.n.split("::")[-1]
        self.args = [ai.rv(a) for a in rec["args"]]
        self.raw = rec["args"]
        self.at = rec["at"]
        self.owner = rec["this"].args[0] if isinstance(rec["this"], App) and rec["this"].op == "py" else None
        t = self.n
        a, b = t.find("<"), t.rfind(">")
        self.type = t[a + 1:b] if t.startswith(("pybind11::class_<", "pybind11::enum_<")) and a >= 0 else None


class Module:
    def __init__(self, prog):
        fs = [f for n in prog.by_name for f in prog.fns(n) if n.startswith("pybind11_init_") and f["params"]]
        if not fs:
            raise AnalysisBroken("the Python module's initialisation was not found")
        ai = self.ai = mk(prog)
        ai.pylog = []
        self.m = ai.new_cell("pybind11::module_", Sym("m"), "m")
        o = run(ai, lambda: ai.call(fs[0], None, [LV(self.m)]))
        self.dead, self.fn = o.dead or o.big, fs[0]
        self.log = [Binding(i, r, ai) for i, r in enumerate(ai.pylog)]
        self.exact = not ai.imprecise and not ai.unknown_calls and not self.dead

    def enums(self, typ):
        return [b for b in self.log if b.kind == "enum_" and b.type == typ]

    def of(self, b):
        return [x for x in self.log if x.owner == b.i and x is not b]

    def classes(self):
        return [b for b in self.log if b.kind == "class_"]

    def on_module(self, kind):
        return [b for b in self.log if b.kind == kind and isinstance(b.rec["this"], Sym) and b.rec["this"].name == "m"]
