"""Abstract values: affine integers (lin.Lin), formulas, string templates, lazily symbolic
objects, container segment lists, pointers.  All values are immutable."""
from .lin import *
from . import lin as L

I31 = 2 ** 31


class Val:
    __slots__ = ()


class Flt(Val):
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Flt) and self.key == o.key

    def __hash__(self):
        return hash(("flt", self.key))

    def __repr__(self):
        return "Flt(%s)" % (vshow(self.key),)

    @property
    def const(self):
        return self.key[1] if self.key[0] == "fc" else None


class Opq(Val):
    """A value the analysis knows nothing about."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Opq) and self.why == o.why

    def __hash__(self):
        return hash(("opq", self.why))

    def __repr__(self):
        return "Opq(%s)" % (vshow(self.why),)


class Undef(Val):
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "Undef"


class Null(Val):
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Null)

    def __hash__(self):
        return 11

    def __repr__(self):
        return "NULL"


NULL = Null()


class Ptr(Val):
    """Pointer to a known location (root, path)."""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.loc == o.loc

    def __hash__(self):
        return hash(("ptr", self.loc))

    def __repr__(self):
        return "&%s" % (vshow(self.loc),)


class SPtr(Val):
    """Pointer input with unknown nullness; points to root ('sym', key)."""
    __slots__ = ("key", "to")

    def __init__(self, key, to):
        self.key, self.to = key, to

    def __eq__(self, o):
        return isinstance(o, SPtr) and self.key == o.key

    def __hash__(self):
        return hash(("sptr", self.key))

    def __repr__(self):
        return "SPtr(%s)" % (vshow(self.key),)


class CPtr(Val):
    """const char* into a string whose content is known (snapshot)."""
    __slots__ = ("s", "off", "temp")

    def __init__(self, s, off=0, temp=False):
        self.s, self.off, self.temp = s, off, temp

    def __eq__(self, o):
        return isinstance(o, CPtr) and self.s == o.s and self.off == o.off

    def __hash__(self):
        return hash(("cptr", self.s, self.off))

    def __repr__(self):
        return "c:%r" % (self.s,)


class Ref(Val):
    """Content of a reference variable."""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ref) and self.loc == o.loc

    def __hash__(self):
        return hash(("ref", self.loc))


class Obj(Val):
    __slots__ = ("ty", "key", "ov", "_h")

    def __init__(self, ty, key, ov):
        self.ty, self.key, self.ov = ty, key, ov
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and self.ty == o.ty and self.key == o.key and self.ov == o.ov)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.ty, self.key, tuple(sorted((k, hash(v)) for k, v in self.ov.items()))))
        return self._h

    def __repr__(self):
        return "Obj<%s>(%s %s)" % (self.ty, vshow(self.key), self.ov)


class Phi(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return self is o or (isinstance(o, Phi) and self.c == o.c and self.a == o.a and self.b == o.b)

    def __hash__(self):
        return hash(("phi", self.c, self.a, self.b))

    def __repr__(self):
        return "(%s ? %r : %r)" % (fshow(self.c), self.a, self.b)


class Lam(Val):
    __slots__ = ("node", "env", "this", "fr")

    def __init__(self, node, env, this, fr):
        self.node, self.env, self.this, self.fr = node, env, this, fr

    def __eq__(self, o):
        return isinstance(o, Lam) and self.node is o.node

    def __hash__(self):
        return hash(("lam", id(self.node)))


class FnRef(Val):
    __slots__ = ("name", "key")

    def __init__(self, name, key):
        self.name, self.key = name, key

    def __eq__(self, o):
        return isinstance(o, FnRef) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


class Misc(Val):
    """Library helper values: kind + hashable payload."""
    __slots__ = ("kind", "d")

    def __init__(self, kind, *d):
        self.kind, self.d = kind, d

    def __eq__(self, o):
        return isinstance(o, Misc) and self.kind == o.kind and self.d == o.d

    def __hash__(self):
        return hash((self.kind, self.d))

    def __repr__(self):
        return "%s%r" % (self.kind, self.d)


# ------------------------------------------------------------------ strings
class Str(Val):
    __slots__ = ("segs", "_h")

    def __init__(self, segs=()):
        self.segs = segs
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Str) and hash(self) == hash(o) and self.segs == o.segs)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.segs)
        return self._h

    def __repr__(self):
        return "<" + sshow(self) + ">"

    @property
    def lit(self):
        """constant text or None"""
        if not self.segs:
            return ""
        if len(self.segs) == 1 and self.segs[0][0] == "L":
            return self.segs[0][1]
        return None


EMPTY = Str()


def lit(s):
    return Str((("L", s),)) if s else EMPTY


def cat(*ss):
    out = []
    for s in ss:
        for g in s.segs:
            if g[0] == "L" and out and out[-1][0] == "L":
                out[-1] = ("L", out[-1][1] + g[1])
            elif g[0] == "L" and not g[1]:
                pass
            else:
                out.append(g)
    return Str(tuple(out))


def mkstr(segs):
    """Build from raw segments with normalisation."""
    parts = []
    for g in segs:
        t = g[0]
        if t == "I":
            parts.append(str_ite(g[1], g[2], g[3]))
        elif t == "C" and g[1].is_const() and not (len(g) > 2):
            parts.append(lit(chr(g[1].c & 255)))
        elif t == "F":
            if g[1].is_const():
                if g[2].is_const():
                    parts.append(lit(chr(g[2].c & 255) * max(0, g[1].c)))
                else:
                    parts.append(Str((g,)))
            else:
                parts.append(Str((g,)))
        elif t == "T" and g[2].is_const() and 0 <= g[2].c < len(g[1]):
            parts.append(lit(g[1][g[2].c]))
        elif t == "R" and (not g[4].segs or (g[3].is_const() and g[3].c <= 0)):
            continue
        elif t == "R" and copied(g) is not None:
            parts.append(copied(g))
        else:
            parts.append(Str((g,)))
    return cat(*parts)


def copied(g):
    """a text built from all characters of another one, in order, is that text"""
    b = g[4].segs
    if len(b) >= 1 and any(x[0] == "I" for x in b):
        return mapped(g)
    if len(b) != 1 or b[0][0] != "C" or len(b[0][1].t) != 1 or b[0][1].c or b[0][1].t[0][1] != 1:
        return None
    k = Sym.byid[b[0][1].t[0][0]].key
    if k[0] != "chr" or isinstance(k[1], Str) or k[2] != g[2]:
        return None
    h = ("H", k[1])
    return Str((h,)) if seg_len(h) == g[3] else None


def mapped(g):
    """a text built from all characters of another one, some of them replaced"""
    from . import perchar
    m = perchar.mapping(g)
    if m is None:
        return None
    from .rx import map_char
    t = Str((("H", m[0]),))
    todo = dict(m[1])
    while todo:
        # a replacement must not bring characters that are replaced later
        c = next((c for c, r in todo.items() if not any(x in r for x in todo if x != c)), None)
        if c is None:
            return None
        t = map_char(t, c, todo.pop(c))
    return t


def hole(key):
    return Str((("H", key),))


def num(spec, v):
    return Str((("N", spec, v),))


def _split_prefix(a, b):
    """longest common prefix: (prefix segs, rest a, rest b)"""
    i = 0
    a, b = list(a), list(b)
    pre = []
    while i < len(a) and i < len(b):
        if a[i] == b[i]:
            pre.append(a[i])
            i += 1
            continue
        if a[i][0] == "L" and b[i][0] == "L":
            x, y = a[i][1], b[i][1]
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n:
                pre.append(("L", x[:n]))
                a[i] = ("L", x[n:])
                b[i] = ("L", y[n:])
                if not x[n:]:
                    a.pop(i)
                if not y[n:]:
                    b.pop(i)
        break
    return tuple(pre), tuple(a[i:]), tuple(b[i:])


def _split_suffix(a, b):
    a, b = list(a), list(b)
    suf = []
    while a and b:
        if a[-1] == b[-1]:
            suf.append(a.pop())
            b.pop()
            continue
        break
    return tuple(reversed(suf)), tuple(a), tuple(b)


def str_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    # (len(x) <= 0) ? "" : x   is x
    for x, y, f in ((a, b, c), (b, a, f_not(c))):
        if not x.segs and y.segs and (f == ge0(-str_len(y)) or f == eq0(str_len(y))):
            return y
    pre, x, y = _split_prefix(a.segs, b.segs)
    suf, x, y = _split_suffix(x, y)
    if not x and not y:
        return a
    # nested same condition
    if len(x) == 1 and x[0][0] == "I" and x[0][1] == c:
        x = x[0][2].segs
    if len(y) == 1 and y[0][0] == "I" and y[0][1] == c:
        y = y[0][3].segs
    if c[0] == "not":
        seg = ("I", c[1], Str(y), Str(x))
    else:
        seg = ("I", c, Str(x), Str(y))
    return cat(Str(pre), Str((seg,)), Str(suf))


def seg_len(g):
    t = g[0]
    if t == "L":
        return Lin(len(g[1]))
    if t == "H":
        m = HOLE_META.get(g[1])
        lo = m.get("min", 0) if m else 0
        hi = m.get("max", I31) if m else I31
        return Lin.of(sym(("len", g[1]), lo, hi))
    if t == "N":
        return Lin.of(sym(("nlen", g[1], g[2]), 1, 400 if isinstance(g[2], Flt) else 40))
    if t == "C":
        return Lin(1)
    if t == "F":
        return g[1]
    if t == "I":
        return ite(g[1], str_len(g[2]), str_len(g[3]))
    if t == "R":
        b = str_len(g[4])
        if b.is_const():
            return g[3].scale(b.c)
        return Lin.of(sym(("len", g), 0, I31))
    return Lin.of(sym(("len", g), 0, I31))


IDENT = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_")
_IDM = {"min": 0, "cs": IDENT}


def is_ident(k):
    """texts of the message list and the options that are C identifiers: names (DBC grammar), value names (checked
    at the parser), the driver name (checked at the option handling)"""
    if not isinstance(k, tuple) or len(k) != 3 or k[0] != "fld":
        return False
    if k[2] in ("Name", "NameFloat"):
        return "msgs" in repr(k[1])
    if k[2] == "first":
        return (isinstance(k[1], tuple) and k[1][0] == "fld" and k[1][2] == "drvname") or "vpairs" in repr(k[1])
    return False


class _Meta(dict):
    def get(self, k, d=None):
        r = dict.get(self, k)
        if r is None:
            try:
                i = _ident_cache.get(k)
                if i is None:
                    i = _ident_cache[k] = is_ident(k)
            except TypeError:
                return d
            if i:
                return _IDM
            return d
        return r


_ident_cache = {}
HOLE_META = _Meta()


def str_len(s):
    r = Lin(0)
    for g in s.segs:
        r = r + seg_len(g)
    return r


def sshow(s, d=0):
    out = []
    for g in s.segs:
        t = g[0]
        if t == "L":
            out.append(g[1].replace("\n", "\\n"))
        elif t == "H":
            out.append("{%s}" % vshow(g[1]))
        elif t == "N":
            out.append("{%%%s:%s}" % (g[1], vshow(g[2])))
        elif t == "C":
            out.append("{c:%s}" % vshow(g[1]))
        elif t == "R":
            out.append("[*%s<%s: %s]" % (vshow(g[2]), vshow(g[3]), sshow(g[4])))
        elif t == "I":
            out.append("[?%s: %s | %s]" % (fshow(g[1]), sshow(g[2]), sshow(g[3])))
        elif t == "T":
            out.append("{T%s[%s]}" % (g[1][:3], vshow(g[2])))
        else:
            out.append("{%s}" % (vshow(g),))
    return "".join(out)


BUDGET = [None]


def brief(k, n=400):
    """the first parts of a value, which may be too big to be shown"""
    BUDGET[0] = n
    try:
        return vshow(k)
    finally:
        BUDGET[0] = None


def vshow(k):
    if BUDGET[0] is not None:
        BUDGET[0] -= 1
        if BUDGET[0] < 0:
            return "..."
    if isinstance(k, Lin):
        if not k.t:
            return str(k.c)
        out = []
        for i, c in k.t:
            s = vshow(Sym.byid[i].key)
            out.append(s if c == 1 else "%s*%s" % (c, s))
        if k.c:
            out.append(str(k.c))
        return "+".join(out)
    if isinstance(k, Str):
        return repr(k)
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == "fld":
            return "%s.%s" % (vshow(k[1]), k[2])
        if len(k) == 3 and k[0] == "at":
            return "%s[%s]" % (vshow(k[1]), vshow(k[2]))
        if len(k) == 2 and k[0] in ("in", "k"):
            return "%s" % (vshow(k[1]),)
        if k and k[0] in ("a", "not", "and", "or"):
            return fshow(k)
        return "(" + " ".join(vshow(x) for x in k) + ")"
    if BUDGET[0] is not None and not isinstance(k, (int, str, type(None))):
        return "..."
    return str(k)


L.show = vshow


# ------------------------------------------------------------------ vectors and sets
class Vec(Val):
    """segs: ('one',v) ('sym',key,n,elty) ('loop',lid,var,n,segs) ('if',f,segs,segs)
    ('fill',n,v) ('cy',key) ('perm',key,segs,cmp)
    st: tuple of (index Lin, value) writes at symbolic indices, oldest first"""
    __slots__ = ("segs", "st", "_h")

    def __init__(self, segs=(), st=()):
        self.segs, self.st = segs, st
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Vec) and hash(self) == hash(o) and self.segs == o.segs and self.st == o.st)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.segs, self.st))
        return self._h

    def __repr__(self):
        return "Vec(%s%s)" % (self.segs, " st=%s" % (self.st,) if self.st else "")


class SetV(Val):
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        self.segs = segs

    def __eq__(self, o):
        return isinstance(o, SetV) and self.segs == o.segs

    def __hash__(self):
        return hash(("set", self.segs))

    def __repr__(self):
        return "Set%s" % (self.segs,)


def segs_len(segs):
    n = Lin(0)
    for g in segs:
        t = g[0]
        if t == "one":
            n = n + 1
        elif t == "sym":
            n = n + g[2]
        elif t == "fill":
            n = n + g[1]
        elif t == "if":
            n = n + ite(g[1], segs_len(g[2]), segs_len(g[3]))
        elif t == "loop":
            b = segs_len(g[4])
            if b.is_const():
                n = n + g[3].scale(b.c)
            else:
                n = n + Lin.of(sym(("count", canon_loop(g)), 0, I31))
        elif t == "perm":
            n = n + segs_len(g[2])
        else:
            n = n + Lin.of(sym(("size", g), 0, I31))
    return n


def canon_loop(g):
    """alpha-normal form of a loop segment (bound variable made canonical)"""
    lid, var, n, body = g[1], g[2], g[3], g[4]
    bv = Lin.of(sym(("bv", _depth(body)), 0, I31))
    return ("loop", bv, n, Subst({var.t[0][0]: bv}).do(body))


def _depth(x, memo=None):
    """1 + largest canonical bound variable occurring in x"""
    d = 0
    stack = [x]
    seen = set()
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            if len(y) == 2 and y[0] == "bv":
                d = max(d, y[1] + 1)
            elif y and y[0] in ("ge", "eq") and len(y) == 3 and isinstance(y[1], tuple) and y[1] and isinstance(y[1][0], tuple):
                for i, _ in y[1]:
                    if i not in seen:
                        seen.add(i)
                        stack.append(Sym.byid[i].key)
            else:
                stack.extend(y)
        elif isinstance(y, Lin):
            for i, _ in y.t:
                if i not in seen:
                    seen.add(i)
                    stack.append(Sym.byid[i].key)
        elif isinstance(y, Str):
            stack.extend(y.segs)
        elif isinstance(y, (Vec, SetV)):
            stack.extend(y.segs)
        elif isinstance(y, Obj):
            stack.append(y.key)
            stack.extend(y.ov.values())
        elif isinstance(y, Phi):
            stack.extend((y.c, y.a, y.b))
        elif isinstance(y, Ptr):
            stack.append(y.loc)
        elif isinstance(y, (SPtr, Flt)):
            stack.append(y.key)
        elif isinstance(y, Misc):
            stack.extend(y.d)
    return d


def exists(var, n, f):
    """formula: exists var in [0,n): f"""
    if f is False:
        return False
    if f is True:
        return f_not(ge0(-n))
    if n.is_const() and n.c <= 0:
        return False
    if f[0] == "or":
        return f_or(*[exists(var, n, g) for g in f[1]])
    vid = var.t[0][0]
    if f[0] == "and":
        free = [g for g in f[1] if not mentions(g, vid)]
        if free:
            return f_and(*free, exists(var, n, f_and(*[g for g in f[1] if g not in free])))
    elif not mentions(f, vid):
        return f_and(f, f_not(ge0(-n)))
    # pinned variable: var == t
    for g in (f[1] if f[0] == "and" else (f,)):
        if g[0] == "a" and g[1][0] == "eq":
            ln = Lin(g[1][2], g[1][1])
            co = dict(ln.t).get(vid)
            if co in (1, -1):
                t = (ln - Lin(0, ((vid, co),))).scale(-co)
                if not mentions(t, vid):
                    return f_and(ge0(t), ge0(n - t - 1), Subst({vid: t}).do(f))
    if INJECTIVE:
        for g in (f[1] if f[0] == "and" else (f,)):
            t = _inj(g, vid)
            if t is not None:
                return Subst({vid: t}).do(f)
    bv = Lin.of(sym(("bv", _depth(f)), 0, I31))
    return ("a", ("ex", bv, n, Subst({vid: bv}).do(f)))


# element fields that identify the element: key prefix -> field
INJECTIVE = []


def _inj(g, vid):
    """g is  x[var].id == x[t].id  for an injective id: returns t (an index of the same list)"""
    if g[0] != "a" or g[1][0] != "eq" or g[1][2] != 0 or len(g[1][1]) != 2:
        return None
    (i, ci), (j, cj) = g[1][1]
    if ci + cj != 0 or abs(ci) != 1:
        return None
    a, b = Sym.byid[i].key, Sym.byid[j].key
    for x, y in ((a, b), (b, a)):
        for base, fieldname in INJECTIVE:
            ix, iy = _match_inj(x, base, fieldname), _match_inj(y, base, fieldname)
            if ix is not None and iy is not None and ix == Lin(0, ((vid, 1),)) and not mentions(iy, vid):
                return iy
    return None


def _match_inj(k, base, fieldname):
    # ('fld', ('*', ('at', base, idx)), fieldname)
    if isinstance(k, tuple) and len(k) == 3 and k[0] == "fld" and k[2] == fieldname:
        k = k[1]
        if isinstance(k, tuple) and k[0] == "*":
            k = k[1]
        if isinstance(k, tuple) and len(k) == 3 and k[0] == "at" and k[1] == base:
            return k[2]
    return None


# ------------------------------------------------------------------ gated values
def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a == b:
            return a
        d = a - b
        if d.is_const():
            # b + d*[c]
            pass
        if c[0] == "not":
            return ite(c[1], b, a)
        lo = hi = None
        # common part is kept outside
        com = []
        db = dict(b.t)
        for i, k in a.t:
            if db.get(i) == k:
                com.append((i, k))
        com = Lin(0, tuple(com))
        a2, b2 = a - com, b - com
        f0 = Facts()
        l1, h1 = f0.bound(a2, 1)
        l2, h2 = f0.bound(b2, 1)
        return com + Lin.of(sym(("ite", c, a2, b2), min(l1, l2), max(h1, h2)))
    if is_f(a) and is_f(b):
        return f_ite(c, a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        return str_ite(c, a, b)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.ty == b.ty:
        if a == b:
            return a
        if a.key == b.key or (a.key is None or b.key is None) and set(a.ov) == set(b.ov) and a.ov:
            key = a.key if a.key == b.key else None
            if a.key == b.key:
                ov = {}
                for f in set(a.ov) | set(b.ov):
                    x, y = a.ov.get(f), b.ov.get(f)
                    if x is None:
                        x = FIELD[0](a, f)
                    if y is None:
                        y = FIELD[0](b, f)
                    ov[f] = ite(c, x, y)
                return Obj(a.ty, key, ov)
            if a.key is None and b.key is None:
                return Obj(a.ty, None, {f: ite(c, a.ov[f], b.ov[f]) for f in a.ov})
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a == b:
            return a
        n = 0
        while n < len(a.segs) and n < len(b.segs) and a.segs[n] == b.segs[n]:
            n += 1
        if not a.st and not b.st:
            x, y = a.segs[n:], b.segs[n:]
            return Vec(a.segs[:n] + (mkif(c, x, y),))
        if a.segs == b.segs:
            m = 0
            while m < len(a.st) and m < len(b.st) and a.st[m] == b.st[m]:
                m += 1
            st = a.st[:m]
            ra, rb = a.st[m:], b.st[m:]
            if any(len(x) != 2 for x in ra + rb):
                return Vec(a.segs, st + (("ite", c, ra, rb),))
            # same indices on both sides
            idx = []
            for i, _ in ra + rb:
                if i not in idx:
                    idx.append(i)
            ok = True
            out = []
            for i in idx:
                xa = [v for j, v in ra if j == i]
                xb = [v for j, v in rb if j == i]
                if len(xa) > 1 or len(xb) > 1:
                    ok = False
                    break
                base = ELEM[0](Vec(a.segs, st), i)
                out.append((i, ite(c, xa[0] if xa else base, xb[0] if xb else base)))
            from .lin import eq0
            if ok and (len(idx) <= 1 or [i for i, _ in ra] == [i for i, _ in rb] or
                       all(eq0(i - j) is False for k, i in enumerate(idx) for j in idx[:k])):
                return Vec(a.segs, st + tuple(out))
            return Vec(a.segs, st + (("ite", c, ra, rb),))
    if isinstance(a, SetV) and isinstance(b, SetV):
        if a == b:
            return a
        n = 0
        while n < len(a.segs) and n < len(b.segs) and a.segs[n] == b.segs[n]:
            n += 1
        return SetV(a.segs[:n] + (mkif(c, a.segs[n:], b.segs[n:]),))
    if isinstance(a, Misc) and isinstance(b, Misc) and a.kind == b.kind == "it" and a.d[0] == b.d[0]:
        return Misc("it", a.d[0], ite(c, a.d[1], b.d[1]))
    if isinstance(a, CPtr) and isinstance(b, CPtr) and a.off == b.off == 0:
        return CPtr(str_ite(c, a.s, b.s), 0, a.temp or b.temp)
    if type(a) is type(b) and a == b:
        return a
    if isinstance(a, Undef) and not isinstance(b, Undef):
        return Phi(c, a, b)
    if isinstance(a, Phi) and a.c == c:
        a = a.a
    if isinstance(b, Phi) and b.c == c:
        b = b.b
    if type(a) is type(b) and a == b:
        return a
    return Phi(c, a, b)


def mkif(c, x, y):
    if c[0] == "not":
        return ("if", c[1], y, x)
    return ("if", c, x, y)


FIELD = [None]
ELEM = [None]


def is_f(x):
    return x is True or x is False or (isinstance(x, tuple) and x and x[0] in ("a", "not", "and", "or"))


def expand_ite(lin):
    """first ite symbol of an affine term -> (cond, lin_a, lin_b) or None"""
    for i, c in lin.t:
        k = Sym.byid[i].key
        if isinstance(k, tuple) and k[0] == "ite":
            rest = lin - Lin(0, ((i, c),))
            return k[1], rest + k[2].scale(c), rest + k[3].scale(c)
    return None


_ge0, _eq0 = L.ge0, L.eq0
MAXLEAVES = 12


def sym_leaves(i):
    s = Sym.byid[i]
    if s.meta is None:
        k = s.key
        s.meta = lin_leaves(k[2]) + lin_leaves(k[3]) if isinstance(k, tuple) and k[0] == "ite" else 1
    return s.meta


def lin_leaves(lin):
    n = 1
    for i, _ in lin.t:
        n *= sym_leaves(i)
    return n


def ge0(lin):
    e = expand_ite(lin)
    if e and lin_leaves(lin) <= MAXLEAVES:
        return f_ite(e[0], ge0(e[1]), ge0(e[2]))
    if DEF_FACTS.cond and len(lin.t) > 1:
        r = _limit(lin, True)
        if r is not None:
            return r
    return _ge0(lin)


def _limit(lin, ge):
    """a place that was looked for is below the end if something was found, and the end otherwise"""
    b, s = lin.t, 1
    if b[0][1] < 0:
        b, s = tuple((i, -c) for i, c in b), -1
    w = DEF_FACTS.cond.get(b)
    if w is None:
        return None
    f, (lo, hi) = w
    if not ge:
        v = -lin.c * s               # body == v
        if v == lo or v == hi:
            return f_not(f)
        return False if v < lo or v > hi else None
    if s > 0:
        v, neg = -lin.c, False       # body >= v
    else:
        v, neg = lin.c + 1, True     # not body >= v
    if hi != INF:
        r = f_not(f) if v == hi else False if v > hi else None
    else:
        r = True if v <= lo else f if v == lo + 1 else None
    return r if r is None or not neg else f_not(r)


def eq0(lin):
    e = expand_ite(lin)
    if e and lin_leaves(lin) <= MAXLEAVES:
        return f_ite(e[0], eq0(e[1]), eq0(e[2]))
    if not e and len(lin.t) == 1 and abs(lin.t[0][1]) == 1:
        # one symbol: an end of its range is the canonical comparison
        i, c = lin.t[0]
        v = -lin.c * c
        s = Sym.byid[i]
        if isinstance(s.key, tuple) and s.key[0] == "cmp" and v == 0:
            return False
        if isinstance(s.key, tuple) and s.key[0] == "chr" and v > 0 and not may_be(s.key, v):
            return False
        if v < s.lo or v > s.hi:
            return False
        if v == s.lo:
            return f_not(_ge0(Lin.of(s) - (v + 1)))
        if v == s.hi:
            return _ge0(Lin.of(s) - v)
    if DEF_FACTS.cond and len(lin.t) > 1:
        r = _limit(lin, False)
        if r is not None:
            return r
    return _eq0(lin)


def may_be(key, v):
    """can this character of a text be v (not 0)?"""
    h = key[1]
    m = HOLE_META.get(h) if not isinstance(h, Str) else None
    if m and m.get("cs") is not None and 0 < v < 127 and chr(v) not in m["cs"]:
        return False
    if isinstance(h, tuple) and h[0] == "map" and 0 < v < 127:
        # every h[2] was replaced by h[3]: it can only come from the replacement
        if chr(v) == h[2]:
            if h[2] not in h[3]:
                return False
            if h[3][-1] != h[2] and key[2] == seg_len(("H", h)) - 1:
                return False
    return True


# ------------------------------------------------------------------ substitution
_mention_cache = {}
_fs_cache = {}
_NONE = frozenset()
L.ON_RESET.extend([_mention_cache.clear, _fs_cache.clear])


def sym_free(i):
    """ids of all symbols occurring in symbol i (transitively)"""
    r = _mention_cache.get(i)
    if r is None:
        r = _mention_cache[i] = frozenset((i,)) | free_syms(Sym.byid[i].key)
    return r


def _join(parts):
    r = _NONE
    for p in parts:
        if not r:
            r = p
        elif p and not p <= r:
            r = r | p
    return r


def free_syms(x):
    if x is None or isinstance(x, (str, int, bool, float)):
        return _NONE
    if isinstance(x, Lin):
        if len(x.t) == 1:
            return sym_free(x.t[0][0])
        return _join([sym_free(i) for i, _ in x.t])
    k = id(x)
    c = _fs_cache.get(k)
    if c is not None:
        return c[0]
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] in ("ge", "eq") and isinstance(x[1], tuple) and (not x[1] or isinstance(x[1][0], tuple)):
            r = _join([sym_free(i) for i, _ in x[1]])
        else:
            r = _join([free_syms(y) for y in x if not isinstance(y, (str, int))])
    elif isinstance(x, (Str, SetV)):
        r = free_syms(x.segs)
    elif isinstance(x, Vec):
        r = _join([free_syms(x.segs), free_syms(x.st)])
    elif isinstance(x, Obj):
        r = _join([free_syms(x.key)] + [free_syms(v) for v in x.ov.values()])
    elif isinstance(x, Phi):
        r = _join([free_syms(x.c), free_syms(x.a), free_syms(x.b)])
    elif isinstance(x, (Ptr, Ref)):
        r = free_syms(x.loc)
    elif isinstance(x, (SPtr, Flt)):
        r = free_syms(x.key)
    elif isinstance(x, CPtr):
        r = free_syms(x.s)
    elif isinstance(x, Misc):
        r = free_syms(x.d)
    elif isinstance(x, Opq):
        r = free_syms(x.why)
    else:
        r = _NONE
    _fs_cache[k] = (r, x)
    return r


def mentions(x, symid):
    return symid in free_syms(x)


REBUILD = {}


class Subst:
    """Simultaneous substitution: symbol id -> Lin, and placeholder keys -> values
    (('H',key) strings, ('cy',key) container segments, ('bool',key) formulas, ('ptr',key), ('flt',key))."""

    def __init__(self, m, holes=None):
        self.m = m
        self.h = holes or {}
        self.memo = {}
        self.smemo = {}
        keys = set(m)
        for t, k in self.h:
            if isinstance(k, tuple) and k and k[0] == "cy" and isinstance(k[-1], Lin) and len(k[-1].t) == 1:
                keys.add(k[-1].t[0][0])
            else:
                keys = None
                break
        self.keys = keys

    def do(self, x):
        if isinstance(x, (str, int, bool, float)) or x is None:
            return x
        if self.keys is not None and self.keys.isdisjoint(free_syms(x)):
            return x
        k = id(x)
        r = self.memo.get(k)
        if r is None:
            r = (self._do(x), x)
            self.memo[k] = r
        return r[0]

    def symv(self, i):
        r = self.smemo.get(i)
        if r is not None:
            return r
        if i in self.m:
            r = self.m[i]
        else:
            s = Sym.byid[i]
            k2 = self.do(s.key)
            if k2 is s.key or k2 == s.key:
                r = Lin.of(s)
            else:
                r = rebuild_sym(k2, s)
        self.smemo[i] = r
        return r

    def _do(self, x):
        if isinstance(x, Lin):
            if not x.t:
                return x
            r = Lin(x.c)
            same = True
            for i, c in x.t:
                v = self.symv(i)
                if not (len(v.t) == 1 and v.t[0] == (i, 1) and v.c == 0):
                    same = False
                r = r + v.scale(c)
            return x if same else r
        if isinstance(x, tuple):
            if x and x[0] in ("a", "not", "and", "or") and is_f(x):
                return self.form(x)
            if x and x[0] == "cy" and len(x) == 2 and ("cy", x[1]) in self.h:
                return x  # handled by container rebuild
            out = [self.do(y) for y in x]
            if all(a is b for a, b in zip(out, x)):
                return x
            return tuple(out)
        if isinstance(x, Str):
            return self.str_(x)
        if isinstance(x, Vec):
            s1, s2 = self.segs(x.segs), self.do(x.st)
            return x if s1 is x.segs and s2 is x.st else Vec(s1, s2)
        if isinstance(x, SetV):
            s1 = self.segs(x.segs)
            return x if s1 is x.segs else SetV(s1)
        if isinstance(x, Obj):
            k = self.do(x.key)
            ov = {f: self.do(v) for f, v in x.ov.items()}
            if k is x.key and all(ov[f] is x.ov[f] for f in ov):
                return x
            return Obj(x.ty, k, ov)
        if isinstance(x, Phi):
            c = self.do(x.c)
            a, b = self.do(x.a), self.do(x.b)
            if c is x.c and a is x.a and b is x.b:
                return x
            return ite(c, a, b)
        if isinstance(x, Ptr):
            l = self.do(x.loc)
            return x if l is x.loc else Ptr(l)
        if isinstance(x, Ref):
            l = self.do(x.loc)
            return x if l is x.loc else Ref(l)
        if isinstance(x, SPtr):
            if ("ptr", x.key) in self.h:
                return self.h[("ptr", x.key)]
            k = self.do(x.key)
            return x if k is x.key else SPtr(k, x.to)
        if isinstance(x, Flt):
            if ("flt", x.key) in self.h:
                return self.h[("flt", x.key)]
            k = self.do(x.key)
            return x if k is x.key else Flt(k)
        if isinstance(x, CPtr):
            s = self.do(x.s)
            return x if s is x.s else CPtr(s, x.off, x.temp)
        if isinstance(x, Misc):
            d = self.do(x.d)
            return x if d is x.d else Misc(x.kind, *d)
        if isinstance(x, Opq):
            if ("opq", x.why) in self.h:
                return self.h[("opq", x.why)]
            w = self.do(x.why)
            return x if w is x.why else Opq(w)
        return x

    def form(self, f):
        if f is True or f is False:
            return f
        t = f[0]
        if t == "a":
            k = f[1]
            if k[0] in ("ge", "eq") and len(k) == 3:
                ln = Lin(k[2], k[1])
                l2 = self.do(ln)
                if l2 == ln:
                    return f
                return ge0(l2) if k[0] == "ge" else eq0(l2)
            if k[0] == "b" and ("bool", k[1]) in self.h:
                return self.h[("bool", k[1])]
            k2 = tuple(self.do(y) for y in k)
            if all(a is b for a, b in zip(k, k2)):
                return f
            rb = REBUILD.get(k2[0])
            if rb:
                return rb(k2)
            return ("a", k2)
        if t == "not":
            g = self.do(f[1]) if is_f(f[1]) else f[1]
            return f if g is f[1] else f_not(g)
        gs = [self.do(g) for g in f[1]]
        if all(a is b for a, b in zip(gs, f[1])):
            return f
        return f_and(*gs) if t == "and" else f_or(*gs)

    def str_(self, s):
        out = []
        ch = False
        for g in s.segs:
            if g[0] == "H" and ("H", g[1]) in self.h:
                out.extend(self.h[("H", g[1])].segs)
                ch = True
                continue
            g2 = tuple(self.do(y) if not isinstance(y, str) else y for y in g)
            if all(a is b for a, b in zip(g, g2)):
                out.append(g)
            else:
                if g[0] == "H":
                    if g[1] in HOLE_META and g2[1] not in HOLE_META:
                        HOLE_META[g2[1]] = HOLE_META[g[1]]
                    r = rebuild_hole(g2[1])
                    out.extend(r.segs)
                else:
                    out.append(g2)
                ch = True
        return mkstr(out) if ch else s

    def segs(self, segs):
        out = []
        ch = False
        for g in segs:
            if g[0] == "cy" and ("cy", g[1]) in self.h:
                out.extend(self.h[("cy", g[1])])
                ch = True
                continue
            if g[0] == "if":
                c = self.do(g[1])
                a, b = self.segs(g[2]), self.segs(g[3])
                if c is g[1] and a is g[2] and b is g[3]:
                    out.append(g)
                else:
                    ch = True
                    if c is True:
                        out.extend(a)
                    elif c is False:
                        out.extend(b)
                    else:
                        out.append(mkif(c, a, b))
                continue
            if g[0] in ("loop", "perm"):
                n = g[:2] + tuple(self.do(y) for y in g[2:-1]) + ((self.segs(g[-1]),) if g[0] == "loop" else (self.do(g[-1]),))
                if g[0] == "perm":
                    n = ("perm", self.do(g[1]), self.segs(g[2]), self.do(g[3]))
                if all(a is b for a, b in zip(n, g)):
                    out.append(g)
                else:
                    out.append(n)
                    ch = True
                continue
            g2 = tuple(self.do(y) if not isinstance(y, str) else y for y in g)
            if all(a is b for a, b in zip(g, g2)):
                out.append(g)
            else:
                out.append(g2)
                ch = True
        return tuple(out) if ch else segs


SYM_REBUILD = {}
HOLE_REBUILD = {}


def rebuild_sym(k, old):
    r = SYM_REBUILD.get(k[0])
    if r:
        v = r(k, old)
        if v is not None:
            return v
    return Lin.of(sym(k, old.lo, old.hi, old.ty))


def rebuild_hole(k):
    if isinstance(k, tuple):
        r = HOLE_REBUILD.get(k[0])
        if r:
            return r(k)
    return hole(k)


SYM_REBUILD["ite"] = lambda k, o: ite(k[1], k[2], k[3])
REBUILD["ex"] = lambda k: ("a", k) if k[3] is not True and k[3] is not False and not (k[2].is_const() and k[2].c <= 0) else (
    False if k[3] is False or k[2].is_const() and k[2].c <= 0 else f_not(ge0(-k[2])))


def isnull(v):
    if isinstance(v, Null):
        return True
    if isinstance(v, (Ptr, CPtr)):
        return False
    if isinstance(v, SPtr):
        return ("a", ("isnull", v.key))
    if isinstance(v, Phi):
        return f_ite(v.c, isnull(v.a), isnull(v.b))
    return ("a", ("isnull", v))
