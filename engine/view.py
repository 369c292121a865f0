"""Questions about generated files: which lines exist, when, in which order; conditions in canonical names."""
import re
from .values import *
from . import lin as L
from .lin import f_and, f_or, f_not
from .cgen import CFile, sat, implies, equiv, merge_or, tokens, atoms
from .model import AnalysisBroken

_named = {}
L.ON_RESET.append(_named.clear)


def nsym(name, lo=-L.INF, hi=L.INF):
    return L.sym(("nm", name), lo, hi)


def nbool(name):
    return ("a", ("b", ("nm", name))) if False else L.atom("b", ("nm", name))


def named(f, nm):
    """the formula with canonical names as its variables"""
    if f is True or f is False:
        return f
    t = f[0]
    if t == "not":
        return f_not(named(f[1], nm))
    if t == "and":
        return f_and(*[named(x, nm) for x in f[1]])
    if t == "or":
        return f_or(*[named(x, nm) for x in f[1]])
    a = f[1]
    if a[0] in ("ge", "eq"):
        r = Lin(a[2])
        for i, c in a[1]:
            s = L.Sym.byid[i]
            n = nm.k.get(i) or nm.symname(i)
            r = r + Lin.of(nsym(n, s.lo, s.hi), c)
        return L.ge0(r) if a[0] == "ge" else L.eq0(r)
    if a[0] == "b":
        return nbool(nm(a[1]))
    if a[0] == "isnull":
        return nbool("null(%s)" % nm(a[1]))
    return nbool("<%s>" % " ".join(nm(x) for x in a))


SPEC = re.compile(r"\s*(&&|\|\||!=|>=|<=|==|!|\(|\)|>|<|-?\d+|null\([^)]*\)|[#A-Za-z_][\w.#\[\]]*)")


def spec(text):
    """condition written in canonical names -> formula"""
    toks, p = [], 0
    while p < len(text):
        m = SPEC.match(text, p)
        if not m:
            raise ValueError("condition: " + text[p:])
        toks.append(m.group(1))
        p = m.end()
    toks.append(None)
    pos = [0]

    def nxt():
        t = toks[pos[0]]
        pos[0] += 1
        return t

    def orx():
        r = andx()
        while toks[pos[0]] == "||":
            nxt()
            r = f_or(r, andx())
        return r

    def andx():
        r = notx()
        while toks[pos[0]] == "&&":
            nxt()
            r = f_and(r, notx())
        return r

    def notx():
        t = nxt()
        if t == "!":
            return f_not(notx())
        if t == "(":
            r = orx()
            nxt()
            return r
        if t == "True":
            return True
        op = toks[pos[0]]
        if op in (">=", "<=", "==", "!=", "<", ">"):
            nxt()
            c = int(nxt())
            # the range of an existing symbol of that name is kept
            x = Lin.of(nsym(t)) - c
            return {">=": lambda: L.ge0(x), "<=": lambda: L.ge0(-x), ">": lambda: L.ge0(x - 1), "<": lambda: L.ge0(-x - 1),
                    "==": lambda: L.eq0(x), "!=": lambda: f_not(L.eq0(x))}[op]()
        return nbool(t)
    r = orx()
    if toks[pos[0]] is not None:
        raise ValueError("condition: " + text)
    return r


def toklist(s):
    return [t for _, t in tokens(s)]


PTOK = re.compile(r"\$[A-Za-z0-9_]*")


def pat(text):
    """pattern: tokens; $x binds one token, $* any tokens; tokens containing $x match inside a token (regex)"""
    out = []
    for part in re.split(r"(\$\*|\$\w+)", text):
        if part == "$*":
            out.append(("*",))
        elif re.fullmatch(r"\$\w+", part or ""):
            out.append(("v", part[1:]))
        elif part:
            out += [("t", t) for _, t in tokens(part)]
    return out


def tmatch(toks, p, i=0, j=0, b=None):
    b = {} if b is None else b
    while j < len(p):
        k = p[j]
        if k[0] == "*":
            for e in range(i, len(toks) + 1):
                r = tmatch(toks, p, e, j + 1, dict(b))
                if r is not None:
                    return r
            return None
        if i >= len(toks):
            return None
        if k[0] == "v":
            if k[1] in b and b[k[1]] != toks[i]:
                return None
            b[k[1]] = toks[i]
        elif toks[i] != k[1]:
            return None
        i += 1
        j += 1
    return b if i == len(toks) else None


class Row:
    """equal lines (up to padding) of one place of a file"""
    __slots__ = ("code", "toks", "guard", "pp", "loops", "es", "file", "i", "b", "nest")

    @property
    def depth(self):
        return len(self.loops)

    def where(self):
        return self.file.loc(self.es[0])

    def __repr__(self):
        return "Row(%s)" % self.code


class FView:
    def __init__(self, f, views):
        self.f = f
        self.views = views
        self.path = f.pathname
        self.c = CFile(f)
        self.name = f.pathname.rsplit("/", 1)[-1]
        self._rows = None

    @property
    def rows(self):
        if self._rows is None:
            self._rows = []
            for e in self.c.entries:
                code = re.sub(r"(«dbl [^»]*»)\.0\b", r"\1", e.code.replace("«pad»", " ")).strip()
                if not code:
                    continue
                nm = self.c.namer(e.loops)
                r = Row()
                r.code, r.toks = code, toklist(code)
                r.guard, r.pp, r.loops, r.file, r.nest = named(e.guard, nm), e.pp, e.loops, self, e.nest
                r.es = [e]
                r.b = None
                for x in reversed(self._rows[-12:]):
                    if x.es[0].line is e.line and x.pp == r.pp and x.toks == r.toks and x.nest == r.nest:
                        x.guard = merge_or(x.guard, r.guard)
                        x.es.append(e)
                        break
                else:
                    self._rows.append(r)
            for i, r in enumerate(self._rows):
                r.i = i
        return self._rows

    def find(self, text, rows=None):
        p = pat(text)
        out = []
        for r in (self.rows if rows is None else rows):
            b = tmatch(r.toks, p)
            if b is not None:
                r.b = b
                out.append(r)
        return out

    def loc(self, e):
        r = self.views.loc_line(e.line)
        if r is None:
            for d in range(1, 60):
                for j in (e.i - d, e.i + d):
                    if 0 <= j < len(self.c.entries):
                        r = self.views.loc_line(self.c.entries[j].line)
                        if r:
                            return "near " + r
        return r or self.where()

    def where(self):
        return self.f.ev.where()


class Views:
    def __init__(self, g):
        from . import out
        self.g = g
        self.files = [FView(f, self) for f in out.files(g)]
        self._lits = None

    def file(self, name, all=False):
        r = [f for f in self.files if f.name == name]
        if all:
            return r
        if len(r) != 1:
            raise AnalysisBroken("generated file %s: %d found (files: %s)" % (name, len(r), ", ".join(f.name for f in self.files)))
        return r[0]

    # ---- source position of emitted text
    def lits(self):
        if self._lits is None:
            self._lits = []
            from .model import walk, rel

            for f in self.g.P.fns.values():
                def see(n, f=f):
                    if n.get("k") == "Str" and isinstance(n.get("v"), str):
                        self._lits.append((n["v"], rel(f.get("file", f["unit"])), n.get("l", f.get("line", 0)), f["name"]))
                walk(f.get("body") or {}, see)
        return self._lits

    def loc_text(self, text):
        """position of the string literal that has most in common with the text"""
        best = None
        for v, file, line, fn in self.lits():
            for piece in re.split(r"%[-+ #0]*[0-9.*]*[a-z]+|\n", v):
                p = piece.strip()
                if len(p) < 4:
                    continue
                if p in text:
                    sc = len(p)
                elif len(text.strip()) >= 4 and text.strip() in p:
                    sc = len(text.strip())
                else:
                    continue
                if best is None or sc > best[0]:
                    best = (sc, file, line, fn)
        return best

    def loc_line(self, line):
        best = None
        for s in line.segs:
            if s[0] == "L":
                b = self.loc_text(s[1])
                if b and (best is None or b[0] > best[0]):
                    best = b
        if best is None:
            return None
        return "%s:%s (%s)" % best[1:]
