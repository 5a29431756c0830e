"""Front end: runs the AST exporter over every translation unit of /repo and merges the result."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CNV_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis has no answer: an anchor vanished or the source does not parse."""


def _pyinc():
    for p in sorted(glob.glob("/usr/include/python3.*"), reverse=True):
        if os.path.exists(os.path.join(p, "Python.h")):
            return p
    return "/usr/include/python3.12"


def flags():
    r = REPO
    return ["-std=c++20", "-DFMT_CONSTEVAL=", "-DNDEBUG", "-w", "-I" + r, "-I" + r + "/Narsese",
            "-I" + r + "/Narsese/Parser", "-I" + r + "/Interpreter", "-I" + r + "/utils",
            "-I" + _pyinc(), "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-ferror-limit=5"]


# the same globs as CMakeLists.txt, plus the NAL layer that the project ships as headers
PATTERNS = ["Narsese.cpp", "Narsese/src/*.cpp", "Narsese/Parser/*.cpp", "Interpreter/src/*.cpp",
            "utils/*.cpp", "Config.cpp", "Global.cpp", "main.cpp", "NAL/Functions/src/*.cpp"]


def units():
    out = []
    for p in PATTERNS:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    # empty translation units carry nothing
    return [u for u in out if os.path.getsize(u) > 0]


class Program:
    def __init__(self, only=None):
        self.funcs = {}      # usr -> function dict
        self.by_name = {}    # qualified name -> [function dict]
        self.records = {}    # qualified name -> record
        self.enums = {}
        self.vars = {}       # qualified name -> [var dicts]
        self.files = set()
        self.units = []
        self.nodes = 0
        self._load(only)

    def _load(self, only):
        cnx = os.path.join(HERE, "build", "cnx")
        if not os.path.exists(cnx):
            subprocess.run(["bash", os.path.join(HERE, "setup.sh")], check=True,
                           stdout=subprocess.DEVNULL)
        us = units()
        extra = os.path.join(HERE, "tool", "nal_unit.cpp")
        if os.path.exists(extra):
            us.append(extra)
        if only:
            us = [u for u in us if only(u)]
        tmp = tempfile.mkdtemp(prefix="cnv")
        try:
            def one(i_u):
                i, u = i_u
                out = os.path.join(tmp, "%d.json" % i)
                p = subprocess.run([cnx, REPO, out, u, "--"] + flags(),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                return i, u, out, p
            with cf.ThreadPoolExecutor(8) as ex:
                res = sorted(ex.map(one, enumerate(us)), key=lambda r: r[0])
            for i, u, out, p in res:
                if p.returncode != 0 or not os.path.exists(out):
                    raise AnalysisBroken("cannot parse %s:\n%s" % (u, p.stdout[-1500:]))
                with open(out) as f:
                    d = json.load(f)
                self._merge(i, u, d)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def _merge(self, i, u, d):
        self.units.append(os.path.relpath(u, REPO) if u.startswith(REPO) else u)
        self.files.update(d["files"])
        self.nodes += d["nodes"]
        for f in d["functions"]:
            usr = f["fn"]["u"]
            f["tu"] = i
            if usr in self.funcs:
                continue
            self.funcs[usr] = f
            self.by_name.setdefault(f["fn"]["n"], []).append(f)
        for r in d["records"]:
            r["tu"] = i
            self.records.setdefault(r["t"], r)
            self.records.setdefault(r["n"], r)
        for e in d["enums"]:
            self.enums.setdefault(e["n"], e)
        for v in d["vars"]:
            v["tu"] = i
            v["unit"] = u
            self.vars.setdefault(v["n"], []).append(v)

    # ---- queries
    def fn(self, name, pred=None):
        c = [f for f in self.by_name.get(name, []) if not f.get("implicit")]
        if pred:
            c = [f for f in c if pred(f)]
        if not c:
            raise AnalysisBroken("function %s not found" % name)
        return c[0]

    def fns(self, name):
        return [f for f in self.by_name.get(name, []) if not f.get("implicit")]

    def rec(self, name):
        if name not in self.records:
            raise AnalysisBroken("class %s not found" % name)
        return self.records[name]

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisBroken("enum %s not found" % name)
        return {e["n"]: e["v"] for e in self.enums[name]["e"]}

    def bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            r = self.records.get(c)
            if not r:
                continue
            for b in r["bases"]:
                out.append(b)
                todo.append(b)
        return out

    def is_a(self, cls, base):
        return cls == base or base in self.bases(cls)
