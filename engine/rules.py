"""Rule vocabulary over the lines of generated files."""
import re
from . import lin as L
from .lin import f_and, f_or, f_not
from .view import spec, pat, tmatch, toklist, named
from .cgen import sat, implies, equiv
from .model import AnalysisBroken
from .out import Namer

MSGS = "#dbc.msgs"
SIGS = "#M.Signals"


def loopnames(r):
    """what each surrounding loop runs over"""
    out = []
    for d, (lid, k, n) in enumerate(r.loops):
        nm = r.file.c.namer(r.loops[:d])
        out.append(nm(n))
    return tuple(out)


def fileloops(fv):
    return tuple(Namer(fv.f.loops[:d])(n) for d, (lid, k, n) in enumerate(fv.f.loops))


def cast_free(toks):
    """tokens without the outer casts; the casts"""
    casts = []
    while len(toks) > 3 and toks[0] == "(" and toks[2] == ")" and re.fullmatch(r"u?int\d+_t|«type [^»]*»", toks[1]):
        casts.append(toks[1])
        toks = toks[3:]
    while len(toks) > 2 and toks[0] == "(" and toks[-1] == ")" and matching(toks, 0) == len(toks) - 1:
        toks = toks[1:-1]
    return toks, casts


def matching(toks, i):
    d = 0
    for j in range(i, len(toks)):
        if toks[j] in "([{":
            d += 1
        elif toks[j] in ")]}":
            d -= 1
            if d == 0:
                return j
    return -1


NUMTOK = re.compile(r"^(0x)?«%([-+ #0]*)(\d*)([duxXi]) ([^»]*?)(:[iu]\d+)?»([uUlL]*)$")


def numtok(t, name, suffix=None):
    """is the token the number `name`, as a C constant?  Returns an error text or None."""
    m = NUMTOK.match(t)
    if not m:
        return "'%s' is not the printed number %s" % (t, name)
    px, flags, width, conv, what, cast, suf = m.groups()
    if what != name:
        return "prints %s instead of %s" % (what, name)
    hexa = conv in "xX"
    if hexa and not ("#" in flags or px):
        return "hexadecimal digits without 0x"
    if px and not hexa:
        return "decimal digits after 0x"
    if "0" in flags and width and not hexa:
        return "leading zeros make an octal constant"
    if suffix == "U" and "u" not in suf.lower():
        return "unsigned constant without U suffix"
    return None


class Rules:
    def __init__(self, c):
        self.c = c
        self.v = c.views

    def guard_text(self, f):
        from .lin import fshow
        return fshow(f)[:200]

    def lines(self, fv, key, rule, pattern, guard=True, pp=None, loops=None, count=1, rows=None, val=None, name=None):
        """exactly `count` lines match the pattern, printed together exactly under the guard, in the given
        preprocessor context and loops; every iteration prints each at most once"""
        c = self.c
        rs = fv.find(pattern, rows)
        c.count("lines checked", max(1, len(rs)))
        where = rs[0].where() if rs else fv.where()
        g = spec(guard) if isinstance(guard, str) else guard
        if not rs:
            return c.ob(key, rule, False, where, "no generated line '%s'" % (name or pattern)) and []
        ok = True
        # alternatives of one place exclude each other
        for i, a in enumerate(rs):
            for b in rs[:i]:
                if a.pp == b.pp and sat(f_and(a.guard, b.guard)) and not (count > 1):
                    ok = c.ob(key, rule, False, a.where(), "printed twice: '%s'" % a.code[:100])
        if pp is not None:
            for r in rs:
                if set(r.pp) != set(pp):
                    ok = c.ob(key, rule, False, r.where(), "'%s' is under preprocessor conditions [%s] instead of [%s]" % (r.code[:80], ", ".join(r.pp), ", ".join(pp)))
        if loops is not None:
            for r in rs:
                if loopnames(r) != tuple(loops):
                    ok = c.ob(key, rule, False, r.where(), "'%s' is repeated over %s instead of %s" % (r.code[:80], loopnames(r), loops))
        if guard is not None:
            allg = f_or(*[r.guard for r in rs])
            if not equiv(allg, g):
                ok = c.ob(key, rule, False, where, "'%s' is printed under %s instead of %s" % (rs[0].code[:80], self.guard_text(allg), guard))
        if ok:
            c.ob(key, rule, True, where)
        return rs

    def functions(self, fv):
        """function definitions of a file: header row, body rows (without the braces)"""
        out = []
        rows = fv.rows
        for i, r in enumerate(rows):
            if i + 1 < len(rows) and rows[i + 1].code == "{" and r.toks and r.toks[-1] == ")" and not r.code.startswith("#"):
                d = len(rows[i + 1].nest)
                j = i + 2
                body = []
                while j < len(rows) and len(rows[j].nest) > d:
                    body.append(rows[j])
                    j += 1
                if not body or body[-1].code != "}":
                    raise AnalysisBroken("function body of %s not recognised" % r.code)
                out.append(Fn(r, body[:-1]))
        return out

    def fn(self, fv, pattern, pp=None):
        p = pat(pattern)
        fs = [f for f in self.functions(fv) if tmatch(f.head.toks, p) is not None and (pp is None or set(f.head.pp) == set(pp))]
        if len(fs) != 1:
            raise AnalysisBroken("generated function %s: %d found" % (pattern, len(fs)))
        return fs[0]


ASSIGN = {"=", "|=", "&=", "+=", "-=", "^=", "<<=", ">>=", "++", "--"}


class Fn:
    def __init__(self, head, body):
        self.head, self.body = head, body
        self.base = len(head.pp)
        self.pp0 = head.pp

    def stmts(self):
        """(row, kind, lhs, rhs) for every statement of the body"""
        for r in self.body:
            if r.code.startswith("#"):
                continue
            for s in split_stmts(r.toks):
                yield r, s

    def inner(self, r):
        """preprocessor conditions inside the function"""
        return tuple(x for x in r.pp if x not in self.pp0)


def split_stmts(toks):
    out = []
    cur = []
    d = 0
    i = 0
    while i < len(toks):
        t = toks[i]
        if t in "([{":
            d += 1
        elif t in ")]}":
            d -= 1
        cur.append(t)
        if t == ";" and d == 0:
            out.append(cur)
            cur = []
        i += 1
    if cur:
        out.append(cur)
    return out


def assign(toks):
    """(lhs, op, rhs) of an assignment statement, or None"""
    d = 0
    for i, t in enumerate(toks):
        if t in "([{":
            d += 1
        elif t in ")]}":
            d -= 1
        elif d == 0 and t in ASSIGN:
            rhs = toks[i + 1:]
            if rhs and rhs[-1] == ";":
                rhs = rhs[:-1]
            if t in ("++", "--") and i == 0:
                return rhs, t, []
            return toks[:i], t, rhs
    return None
