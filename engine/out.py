"""The generated files as guarded lines in canonical notation.

Names of values: «…» in a line.  M is the message of the outer loop over the sorted message list, S the signal of
the inner loop over its signals, V the entry of a value table; DRV/drv/Drv the driver name (upper/lower/as given)."""
import re
from .values import *
from . import values as VV
from . import lin as L
from . import flat
from .lin import Facts, f_and, f_not, f_or
from .model import AnalysisBroken

DRVKEY = ("fld", ("fld", ("fld", ("in", "app"), "Params"), "drvname"), "first")


class Namer:
    def __init__(self, loops=()):
        self.k = {}
        for i, (lid, k, n) in enumerate(loops):
            if isinstance(k, Lin) and len(k.t) == 1:
                self.k[k.t[0][0]] = "i%d" % i
        self.cache = {}
        self.depth = 0

    TABLES = {}

    CTYPES = {}

    def ctype(self, g):
        """the enumeration value whose C type name this segment is"""
        if not Namer.CTYPES:
            return None
        if g[0] == "T":
            x = g[2]
        else:
            c = g[1]
            while c[0] in ("not", "and", "or"):
                c = c[1] if c[0] == "not" else min(c[1], key=len)
            if c[1][0] not in ("eq", "ge") or len(c[1][1]) != 1:
                return None
            x = Lin.of(L.Sym.byid[c[1][1][0][0]])
        if not isinstance(x, Lin) or len(x.t) != 1 or x.c or x.t[0][1] != 1:
            return None

        def val(g, v):
            if g[0] == "L":
                return g[1]
            if g[0] == "T":
                if g[2] != x or v >= len(g[1]):
                    raise ValueError
                t = g[1][v]
                return t if isinstance(t, str) else "".join(val(y, v) for y in t.segs)
            if g[0] == "I":
                b = g[2] if holds(g[1], v) else g[3]
                return "".join(val(y, v) for y in b.segs)
            raise ValueError

        def holds(f, v):
            if f is True or f is False:
                return f
            if f[0] == "not":
                return not holds(f[1], v)
            if f[0] == "and":
                return all(holds(y, v) for y in f[1])
            if f[0] == "or":
                return any(holds(y, v) for y in f[1])
            a = f[1]
            if a[0] not in ("eq", "ge") or len(a[1]) != 1 or a[1][0][0] != x.t[0][0]:
                raise ValueError
            n = a[1][0][1] * v + a[2]
            return n == 0 if a[0] == "eq" else n >= 0
        try:
            if all(val(g, v) == t for v, t in Namer.CTYPES.items()):
                return x
        except ValueError:
            pass
        return None

    def table(self, g):
        k = "T%d" % len(Namer.TABLES)
        for n, t in Namer.TABLES.items():
            if t == g[1]:
                k = n
        Namer.TABLES[k] = g[1]
        return "%s[%s]" % (k, self(g[2]))

    # ---- keys
    def __call__(self, v):
        try:
            r = self.cache.get(v)
        except TypeError:
            return self.go(v)
        if r is None:
            r = self.cache[v] = self.go(v)
        return r

    def go(self, v):
        if isinstance(v, Lin):
            return self.lin(v)
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, Str):
            return "'%s'" % self.text(v.segs)
        if isinstance(v, Flt):
            return self.go(v.key)
        if is_f(v):
            return self.form(v)
        if isinstance(v, Vec):
            return "[%s%s]" % (self.segs(v.segs), "".join(" " + self.store(s) for s in v.st))
        if isinstance(v, SetV):
            return "{%s}" % self.segs(v.segs)
        if isinstance(v, Opq):
            return "?" + self(v.why)
        if isinstance(v, Obj):
            return "obj(%s%s)" % (self(v.key), "".join(",%s=%s" % (a, self(b)) for a, b in sorted(v.ov.items())))
        if isinstance(v, SPtr):
            return "&*" + self(v.key)
        if isinstance(v, Null):
            return "null"
        if isinstance(v, Phi):
            return "(%s ? %s : %s)" % (self(v.c), self(v.a), self(v.b))
        if isinstance(v, Ptr):
            return "&" + self.go(v.loc)
        if isinstance(v, tuple):
            return self.tup(v)
        if v is None:
            return "-"
        if isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return repr(v)
        return vshow(v)

    def tup(self, v):
        if not v:
            return "()"
        h = v[0]
        if h == "in" and len(v) == 2:
            return str(v[1])
        if h == "*" and len(v) == 2:
            return self(v[1])
        if h == "fld" and len(v) == 3:
            if v == DRVKEY:
                return "Drv"
            b = self(v[1])
            if b == "app.Params" or b == "Drv":
                return v[2] if b == "app.Params" else "Drv." + v[2]
            if v[2] == "first" and b in ("dbc", "outdir", "drvname") and b != "dbc":
                return b
            if b == "dbc" and v[1] != ("*", ("in", "dbc")):
                return "dbcfile" if v[2] == "first" else "dbcfile." + v[2]
            return "%s.%s" % (b, v[2])
        if h == "at" and len(v) == 3:
            s = "%s[%s]" % (self(v[1]), self(v[2]))
            return {"dbc.msgs[sorted(i0)]": "M", "M.Signals[i1]": "S", "S.ValDefs.vpairs[i2]": "V"}.get(s, s)
        if h == "pi" and len(v) == 3:
            return "sorted(%s)" % self(v[2])
        if h in ("upper", "lower") and len(v) == 2:
            x = self(v[1])
            return {"Drv": {"upper": "DRV", "lower": "drv"}[h]}.get(x, "%s(%s)" % (h, x))
        if h == "size" and len(v) == 2:
            return "#" + self(v[1])
        if h == "len" and len(v) == 2:
            return "len(%s)" % self(v[1])
        if h == "map" and len(v) == 4:
            return "map(%s,%r,%r)" % (self(v[1]), v[2], v[3])
        if h == "cast" and len(v) == 4:
            return self(v[3]) + ("" if self.quietcast(v) else ":%s%d" % ("i" if v[2] else "u", v[1]))
        return "(%s)" % " ".join(self(x) for x in v)

    def quietcast(self, v):
        return False

    def lin(self, v):
        if not v.t:
            return str(v.c)
        out = []
        for i, c in v.t:
            s = self.k.get(i) or self.symname(i)
            out.append(s if c == 1 else ("-" + s if c == -1 else "%d*%s" % (c, s)))
        if v.c:
            out.append(str(v.c))
        s = "+".join(sorted(out)).replace("+-", "-")
        return self.alias(s) if len(s) > 160 else s

    def symname(self, i):
        return self(Sym.byid[i].key)

    def form(self, f):
        if f is True or f is False:
            return str(f)
        t = f[0]
        if t == "not":
            return "!" + self(f[1])
        if t == "and":
            return "(" + " && ".join(sorted(self(x) for x in f[1])) + ")"
        if t == "or":
            return "(" + " || ".join(sorted(self(x) for x in f[1])) + ")"
        a = f[1]
        if a[0] == "ge":
            return self.lin(Lin(a[2], a[1])) + ">=0"
        if a[0] == "eq":
            return self.lin(Lin(a[2], a[1])) + "==0"
        if a[0] == "b":
            return self(a[1])
        return "<%s>" % " ".join(self(x) for x in a)

    def segs(self, segs):
        return ",".join("%s" % (self.go(s),) for s in segs)

    def store(self, s):
        return "<%s>" % self.go(s)

    # ---- text
    def dbl(self, g):
        """the value whose decimal text this segment is made of"""
        xs = set()

        def leaf(g):
            t = g[0]
            if t == "L":
                return set(g[1]) <= set("0.")
            if t == "N" and isinstance(g[2], Flt):
                xs.add(g[2])
                return True
            if t == "I":
                return all(leaf(x) for b in g[2:4] for x in b.segs)
            if t == "H" and isinstance(g[1], tuple) and g[1] and g[1][0] in ("pre", "resized", "sub", "fin", "suf"):
                r = [x for x in g[1][1:] if isinstance(x, Str)]
                return bool(r) and all(leaf(y) for x in r for y in x.segs)
            return False
        return xs.pop() if leaf(g) and len(xs) == 1 else None

    def text(self, segs):
        self.depth += 1
        try:
            s = self.text0(segs)
        finally:
            self.depth -= 1
        return s if self.depth else s.replace("\x01", "«").replace("\x02", "»")

    def q(self, s):
        s = s.replace("«", "‹").replace("»", "›").replace("\x01", "‹").replace("\x02", "›")
        if len(s) > 160:
            s = self.alias(s)
        return "«%s»" % s

    ALIAS = {}

    def alias(self, s):
        r = Namer.ALIAS.get(s)
        if r is None:
            r = Namer.ALIAS[s] = "@%d" % (len(Namer.ALIAS) + 1)
        return r

    def text0(self, segs):
        out = []
        for g in segs:
            if g[0] in ("I", "N", "H"):
                x = self.dbl(g)
                if x is not None:
                    out.append(self.q("dbl " + self(x)))
                    continue
            t = g[0]
            if t in ("T", "I"):
                x = self.ctype(g)
                if x is not None:
                    out.append(self.q("type " + self(x)))
                    continue
            if t == "L":
                out.append(g[1])
            elif t == "H":
                out.append(self.q(self(g[1])))
            elif t == "N":
                out.append(self.q("%%%s %s" % (g[1], self(g[2]))))
            elif t == "I":
                out.append(self.q("if %s:%s|%s" % (self(g[1]), self.text(g[2].segs), self.text(g[3].segs))))
            elif t == "R":
                out.append(self.q("rep %s %s" % (self(g[3]), self.text(g[4].segs))))
            elif t == "T":
                out.append(self.q(self.table(g)))
            elif t == "F":
                out.append("«pad»")
            elif t == "C":
                out.append(self.q("chr " + self(g[1])))
            else:
                out.append(self.q(self.go(g)))
        return "".join(out)


class File:
    """one generated file: kind (documented name), guard, loops, lines"""
    def __init__(self, ev):
        self.ev = ev
        self.path, self.text = ev.data[0], ev.data[1]
        self.loops = ev.loops
        self.lines = flat.lines(self.text)
        self.namer = Namer(self.loops)
        self.pathname = self.namer.text(self.path.segs)

    def __repr__(self):
        return "File(%s)" % self.pathname[-60:]


CTEXT = {"i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t",
         "u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t"}


def files(g):
    e = g.P.enums.get("SigType")
    Namer.CTYPES = {}
    if e:
        for c in e.get("vals", e.get("consts", [])):
            n, v = (c["name"], c["v"]) if isinstance(c, dict) else c
            if n in CTEXT:
                Namer.CTYPES[int(v)] = CTEXT[n]
    return [File(e) for e in g.I.events if e.kind == "write"]
