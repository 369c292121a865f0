"""Program model: the resolved syntax trees of every unit that the coderdbc target builds."""
import json, os, re, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VX = os.path.join(VERIF, "build", "vx")
CLANG_RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """An anchor of the analysis is gone: neither a pass nor a violation."""


def units():
    cm = open(os.path.join(SRC, "CMakeLists.txt")).read()
    m = re.search(r"add_executable\(\s*coderdbc\b(.*?)\)", cm, re.S)
    if not m:
        raise AnalysisBroken("src/CMakeLists.txt: no coderdbc target")
    out = []
    for tok in m.group(1).split():
        tok = tok.replace("${CMAKE_CURRENT_SOURCE_DIR}/", "")
        if tok.endswith((".cpp", ".cc", ".cxx")):
            out.append(os.path.join(SRC, tok))
    if len(out) < 5:
        raise AnalysisBroken("src/CMakeLists.txt: only %d units in target coderdbc" % len(out))
    return out


def ensure_vx():
    src = os.path.join(VERIF, "tool", "vx.cpp")
    if os.path.exists(VX) and os.path.getmtime(VX) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(VX), exist_ok=True)
    tmp = VX + ".%d" % os.getpid()
    subprocess.run(["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                    "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"], check=True)
    os.replace(tmp, VX)


def _extract(f):
    p = subprocess.run([VX, SRC + "/", f, "-w", "-std=c++17", "-I" + SRC, "-resource-dir=" + CLANG_RES],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise AnalysisBroken("cannot analyse %s: %s" % (f, p.stderr.decode()[-2000:]))
    return json.loads(p.stdout)


class Program:
    def __init__(self):
        self.fns = {}       # key -> function
        self.byname = {}    # qualified name -> [function]
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self.units = []

    def fn(self, name, pred=None):
        c = [f for f in self.byname.get(name, []) if pred is None or pred(f)]
        if len(c) != 1:
            raise AnalysisBroken("anchor function %s: %d definitions found" % (name, len(c)))
        return c[0]

    def fns_named(self, name):
        return self.byname.get(name, [])

    def field_type(self, rec, field):
        r = self.recs.get(rec)
        if not r:
            return None
        for f in r["fields"]:
            if f["name"] == field:
                return f["ty"]
        return None


_cached = None


def load():
    global _cached
    if _cached is not None:
        return _cached
    ensure_vx()
    us = units()
    P = Program()
    P.units = us
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(_extract, us))
    for u, d in zip(us, outs):
        for f in d["fns"]:
            if f["key"] in P.fns:
                continue
            f["unit"] = u
            P.fns[f["key"]] = f
            P.byname.setdefault(f["name"], []).append(f)
        for r in d["recs"]:
            P.recs.setdefault(r["name"], r)
        for e in d["enums"]:
            P.enums.setdefault(e["name"], e)
        for g in d["globals"]:
            if g["name"] not in P.globals or ("init" in g and "init" not in P.globals[g["name"]]):
                P.globals[g["name"]] = g
    _cached = P
    return P


def rel(path):
    return os.path.relpath(path, REPO) if path.startswith("/") else path


def walk(node, f):
    """Visit every dict node of a syntax tree."""
    if isinstance(node, dict):
        if "k" in node:
            f(node)
        for k, v in node.items():
            if k in ("ty", "pt", "rty", "cls"):
                continue
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(node, list):
        for v in node:
            walk(v, f)
