"""Affine integer terms over hash-consed symbols, formulas over atoms, and the fact store
(assumed atoms + intervals on affine bodies) of the dataflow analysis."""
from fractions import Fraction as Fr
import math

INF = float("inf")


class Sym:
    __slots__ = ("key", "lo", "hi", "ty", "id", "meta", "islen")
    table = {}
    byid = []

    def __init__(self, key, lo, hi, ty):
        self.key, self.lo, self.hi, self.ty = key, lo, hi, ty
        self.meta = None
        self.islen = None
        self.id = len(Sym.byid)
        Sym.byid.append(self)

    def __repr__(self):
        return "S%d%s" % (self.id, show(self.key))


ON_RESET = []   # memos keyed by symbols


def reset_syms():
    Sym.table.clear()
    del Sym.byid[:]
    DEF_FACTS.clear()
    for f in ON_RESET:
        f()


def sym(key, lo=-INF, hi=INF, ty=None):
    s = Sym.table.get(key)
    if s is None:
        if ORACLE[0] is not None:
            r = ORACLE[0](key)
            if r is not None:
                lo, hi = max(lo, r[0]), min(hi, r[1])
        s = Sym(key, lo, hi, ty)
        Sym.table[key] = s
    return s


ORACLE = [None]
# facts that hold by definition of a symbol (e.g. x - 8*(x/8) in [0,7]); body-key -> (lo,hi)
class _Defs(dict):
    """facts by definition, indexed by symbol"""

    def __init__(self):
        self.by = {}
        self.cond = {}   # facts that hold only where an atom does: b -> (atom, range otherwise)

    def __setitem__(self, b, r):
        if b not in self:
            for i, _ in b:
                self.by.setdefault(i, []).append(b)
        dict.__setitem__(self, b, r)

    def clear(self):
        dict.clear(self)
        self.by.clear()
        self.cond.clear()

    def below(self, d, atom):
        """d < 0 where the atom holds, d <= 0 always"""
        b = d.t
        if not b:
            return
        if b[0][1] < 0:
            b = tuple((i, -c) for i, c in b)
            r, weak = (1 + d.c, INF), (d.c, INF)
        else:
            r, weak = (-INF, -1 - d.c), (-INF, -d.c)
        self[b] = r
        self.cond[b] = (atom, weak)


DEF_FACTS = _Defs()


class Lin:
    """const + sum(coef * symbol)"""
    __slots__ = ("c", "t", "_k")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t  # sorted tuple of (symid, coef)
        self._k = None

    @staticmethod
    def of(s, coef=1):
        return Lin(0, ((s.id, coef),))

    @property
    def key(self):
        if self._k is None:
            self._k = ("lin", self.c) + tuple((Sym.byid[i].key, c) for i, c in self.t) if self.t else self.c
        return self._k

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = dict(self.t)
        for i, c in o.t:
            n = d.get(i, 0) + c
            if n:
                d[i] = n
            else:
                d.pop(i, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((i, c * k) for i, c in self.t))

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, self.t))

    def is_const(self):
        return not self.t

    def syms(self):
        return [Sym.byid[i] for i, _ in self.t]

    def __repr__(self):
        return show(self)


def body_of(lin):
    """(body tuple normalised with positive leading coefficient, multiplier sign, const)"""
    if not lin.t:
        return (), 1
    if lin.t[0][1] < 0:
        return tuple((i, -c) for i, c in lin.t), -1
    return lin.t, 1


# ---------------------------------------------------------------- formulas
class F(tuple):
    """an interned connective with a cached hash"""
    __hash__ = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is F or not isinstance(o, tuple):
            return False
        return tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o


_INTERN = {}
_NOT = {}
_AND = {}
_OR = {}


def _mk(*parts):
    f = _INTERN.get(parts)
    if f is None:
        f = F(parts)
        f.h = hash(parts)
        _INTERN[parts] = f
    return f


def reset_forms():
    _INTERN.clear()
    _NOT.clear()
    _AND.clear()
    _OR.clear()


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "not":
        return f[1]
    r = _NOT.get(f)
    if r is None:
        if f[0] == "and":
            r = f_or(*[f_not(x) for x in f[1]])
        elif f[0] == "or":
            r = f_and(*[f_not(x) for x in f[1]])
        else:
            r = _mk("not", f)
        _NOT[f] = r
        if r is not True and r is not False and r[0] != "not":
            _NOT.setdefault(r, f)
    return r


def f_and(*fs):
    out = {}
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == "and":
            for g in f[1]:
                out[g] = None
        else:
            out[f] = None
    if not out:
        return True
    if len(out) == 1:
        return next(iter(out))
    key = tuple(out)
    r = _AND.get(key)
    if r is None:
        r = _AND[key] = _and(key, out)
    return r


def _and(key, out):
    for f in key:
        if f_not(f) in out:
            return False
    # string/int equalities with different constants exclude each other
    eqs = {}
    for f in key:
        if f[0] == "a" and f[1][0] == "streq" and isinstance(f[1][2], str):
            k = f[1][1]
            if k in eqs and eqs[k] != f[1][2]:
                return False
            eqs[k] = f[1][2]
    if eqs:
        lst = [f for f in key if not (f[0] == "not" and f[1][0] == "a" and f[1][1][0] == "streq"
                                      and f[1][1][1] in eqs and isinstance(f[1][1][2], str) and f[1][1][2] != eqs[f[1][1][1]])]
    else:
        lst = list(key)
    # absorption: A and (A or B) = A ; A and (not A or B) = A and B
    for i, f in enumerate(lst):
        if f[0] == "or":
            if any(g in out for g in f[1]):
                return f_and(*(lst[:i] + lst[i + 1:]))
            rest = tuple(g for g in f[1] if f_not(g) not in out)
            if len(rest) != len(f[1]):
                return f_and(*(lst[:i] + [f_or(*rest)] + lst[i + 1:]))
    if not lst:
        return True
    if len(lst) == 1:
        return lst[0]
    return _mk("and", tuple(lst))


def f_or(*fs):
    out = {}
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f[0] == "or":
            for g in f[1]:
                out[g] = None
        else:
            out[f] = None
    if not out:
        return False
    if len(out) == 1:
        return next(iter(out))
    key = tuple(out)
    r = _OR.get(key)
    if r is None:
        r = _OR[key] = _or(key, out)
    return r


def _or(key, out):
    for f in key:
        if f_not(f) in out:
            return True
    # absorption: A or (A and B) = A ; A or (not A and B) = A or B
    res = {}
    for f in key:
        if f[0] == "and":
            if any(g in out for g in f[1]):
                continue
            rest = tuple(g for g in f[1] if f_not(g) not in out)
            if len(rest) != len(f[1]):
                f = f_and(*rest)
                if f is True:
                    return True
        res[f] = None
    res = list(res)
    # (A and X) or (not A and X) = X
    if len(res) == 2 and res[0][0] == "and" and res[1][0] == "and":
        a, b = set(res[0][1]), set(res[1][1])
        com = a & b
        ra, rb = a - com, b - com
        if len(ra) == 1 and len(rb) == 1 and f_not(next(iter(ra))) == next(iter(rb)):
            return f_and(*[x for x in res[0][1] if x in com])
    if len(res) == 1:
        return res[0]
    if res != list(key):
        return f_or(*res)
    return _mk("or", tuple(res))


def atom(*a):
    return ("a", tuple(a))


def f_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return f_not(c)
    return f_or(f_and(c, a), f_and(f_not(c), b))


def f_atoms(f, acc=None):
    if acc is None:
        acc = []
    if f is True or f is False:
        return acc
    if f[0] == "a":
        if f not in acc:
            acc.append(f)
    elif f[0] == "not":
        f_atoms(f[1], acc)
    else:
        for g in f[1]:
            f_atoms(g, acc)
    return acc


def f_eval(f, env):
    """env: function atom -> True/False/None"""
    if f is True or f is False:
        return f
    if f[0] == "a":
        return env(f)
    if f[0] == "not":
        r = f_eval(f[1], env)
        return None if r is None else (not r)
    if f[0] == "and":
        unk = False
        for g in f[1]:
            r = f_eval(g, env)
            if r is False:
                return False
            if r is None:
                unk = True
        return None if unk else True
    unk = False
    for g in f[1]:
        r = f_eval(g, env)
        if r is True:
            return True
        if r is None:
            unk = True
    return None if unk else False


def f_simplify(f, env):
    """Substitute decided atoms."""
    if f is True or f is False:
        return f
    if f[0] == "a":
        r = env(f)
        return f if r is None else r
    if f[0] == "not":
        return f_not(f_simplify(f[1], env))
    if f[0] == "and":
        return f_and(*[f_simplify(g, env) for g in f[1]])
    return f_or(*[f_simplify(g, env) for g in f[1]])


def ge0(lin):
    """formula for lin >= 0"""
    if lin.is_const():
        return lin.c >= 0
    b, s = body_of(lin)
    if s > 0:
        return ("a", ("ge", b, lin.c))          # body + c >= 0
    # -body + c >= 0  <=>  not (body - c - 1 >= 0)
    return ("not", ("a", ("ge", b, -lin.c - 1)))


def eq0(lin):
    if lin.is_const():
        return lin.c == 0
    b, s = body_of(lin)
    c = lin.c * s
    g = 0
    for _, k in b:
        g = math.gcd(g, abs(k))
    if g > 1:
        if c % g:
            return False
        b = tuple((i, k // g) for i, k in b)
        c //= g
    return ("a", ("eq", b, c))


class Facts:
    __slots__ = ("at", "rng", "ors", "contradiction")

    def __init__(self):
        self.at = {}
        self.rng = {}
        self.ors = []
        self.contradiction = False

    def copy(self):
        f = Facts.__new__(Facts)
        f.at = dict(self.at)
        f.rng = dict(self.rng)
        f.ors = list(self.ors)
        f.contradiction = self.contradiction
        return f

    # --- intervals
    def _symrange(self, i):
        s = Sym.byid[i]
        lo, hi = s.lo, s.hi
        r = self.rng.get(((i, 1),))
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def _direct(self, t):
        lo = hi = 0
        for i, c in t:
            a, b = self._symrange(i)
            if c >= 0:
                x, y = (c * a if a != -INF else -INF), (c * b if b != INF else INF)
            else:
                x, y = (c * b if b != INF else -INF), (c * a if a != -INF else INF)
            lo, hi = lo + x, hi + y
        return lo, hi

    def _cands(self, t):
        idx = {i for i, _ in t}
        out = []
        for b, r in self.rng.items():
            if len(b) > 1 or (len(b) == 1 and b[0][1] != 1):
                for i, _ in b:
                    if i in idx:
                        out.append((b, r))
                        break
        if DEF_FACTS:
            seen = set()
            for i in idx:
                for b in DEF_FACTS.by.get(i, ()):
                    if b not in seen and (len(b) > 1 or b[0][1] != 1):
                        seen.add(b)
                        r = DEF_FACTS[b]
                        if b in DEF_FACTS.cond:
                            a, weak = DEF_FACTS.cond[b]
                            if not self._holds(a):
                                r = weak
                        out.append((b, r))
        return out

    def _holds(self, f):
        """is a formula among the facts (no derivation for atoms)"""
        if f is True or f is False:
            return f
        if f[0] == "a":
            return self.at.get(f) is True
        if f[0] == "not":
            return self.at.get(f[1]) is False
        if f[0] == "and":
            return all(self._holds(g) for g in f[1])
        return any(self._holds(g) for g in f[1]) or f in self.ors

    def bound(self, lin, depth=3):
        """(lo, hi) of an affine term"""
        if not lin.t:
            return lin.c, lin.c
        lo, hi = self._bound(lin.t, depth)
        lo, hi = lo + lin.c, hi + lin.c
        if lo != -INF:
            lo = math.ceil(lo)
        if hi != INF:
            hi = math.floor(hi)
        return lo, hi

    def _bound(self, t, depth, used=()):
        if not t:
            return 0, 0
        lo, hi = self._direct(t)
        # exact stored fact (possibly scaled)
        if depth <= 0:
            return lo, hi
        d = dict(t)
        for b, (a, z) in self._cands(t):
            if b in used:
                continue
            ratios = set()
            for i, c in b:
                if i in d:
                    ratios.add(Fr(d[i], 1) / c)
            for r in ratios:
                rest = dict(d)
                for i, c in b:
                    n = rest.get(i, 0) - r * c
                    if n:
                        rest[i] = n
                    else:
                        rest.pop(i, None)
                # only follow when it simplifies
                if len(rest) > len(d):
                    if depth < 2 or len(rest) > len(d) + 2:
                        continue
                rl, rh = self._bound(tuple(sorted(rest.items())), depth - 1, used + (b,))
                if r >= 0:
                    x, y = (r * a if a != -INF else -INF), (r * z if z != INF else INF)
                else:
                    x, y = (r * z if z != INF else -INF), (r * a if a != -INF else INF)
                lo, hi = max(lo, rl + x), min(hi, rh + y)
        return lo, hi

    def set_range(self, lin_body, lo, hi):
        a, b = self.rng.get(lin_body, (-INF, INF))
        a, b = max(a, lo), min(b, hi)
        self.rng[lin_body] = (a, b)
        if a > b:
            self.contradiction = True

    # --- atoms
    def ask_atom(self, a):
        v = self.at.get(a)
        if v is not None:
            return v
        k = a[1]
        if k[0] == "ge":
            lo, hi = self.bound(Lin(k[2], k[1]))
            if lo >= 0:
                return True
            if hi < 0:
                return False
            return None
        if k[0] == "eq":
            lo, hi = self.bound(Lin(k[2], k[1]))
            if lo > 0 or hi < 0:
                return False
            if lo == 0 and hi == 0:
                return True
            return None
        if k[0] == "streq" and isinstance(k[2], str):
            for b, val in self.at.items():
                if val and b[1][0] == "streq" and b[1][1] == k[1] and isinstance(b[1][2], str) and b[1][2] != k[2]:
                    return False
        if ATOM_ORACLE[0] is not None:
            r = ATOM_ORACLE[0](k)
            if r is not None:
                return r
        return None

    def ask(self, f):
        return f_eval(f, self.ask_atom)

    def simp(self, f):
        return f_simplify(f, self.ask_atom)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            self.contradiction = True
            return
        if f[0] == "a":
            self._assume_atom(f, True)
        elif f[0] == "not" and f[1][0] == "a":
            self._assume_atom(f[1], False)
        elif f[0] == "and":
            for g in f[1]:
                self.assume(g)
        elif f[0] == "or":
            live = []
            for g in f[1]:
                r = self.ask(g)
                if r is True:
                    return
                if r is None:
                    live.append(g)
            if not live:
                self.contradiction = True
            elif len(live) == 1:
                self.assume(live[0])
            else:
                self.ors.append(("or", tuple(live)))
            return
        else:
            self.assume(f_simplify(f, lambda a: None))
            return
        self._units()

    def _units(self):
        if not self.ors:
            return
        ors, self.ors = self.ors, []
        for o in ors:
            self.assume(o)

    def _assume_atom(self, a, val):
        cur = self.ask_atom(a)
        if cur is not None:
            if cur != val:
                self.contradiction = True
            return
        self.at[a] = val
        k = a[1]
        if k[0] == "ge":
            b, c = k[1], k[2]
            if val:
                self.set_range(b, -c, INF)
            else:
                self.set_range(b, -INF, -c - 1)
        elif k[0] == "eq":
            b, c = k[1], k[2]
            if val:
                self.set_range(b, -c, -c)
            else:
                lo, hi = self.bound(Lin(0, b))
                if lo == -c:
                    self.set_range(b, lo + 1, INF)
                if hi == -c:
                    self.set_range(b, -INF, hi - 1)


ATOM_ORACLE = [None]


def show(k):
    if isinstance(k, tuple):
        if k and k[0] == "lin":
            out = []
            for s, c in k[2:]:
                out.append(("%s" % show(s)) if c == 1 else "%s*%s" % (c, show(s)))
            if k[1]:
                out.append(str(k[1]))
            return "+".join(out)
        if k and k[0] == "fld":
            return "%s.%s" % (show(k[1]), k[2])
        if k and k[0] == "at":
            return "%s[%s]" % (show(k[1]), show(k[2]))
        if k and k[0] == "in":
            return str(k[1])
        return "(" + " ".join(show(x) for x in k) + ")"
    return str(k)


def fshow(f):
    if f is True or f is False:
        return str(f)
    if f[0] == "a":
        k = f[1]
        if k[0] in ("ge", "eq"):
            return "%s%s0" % (show(Lin(k[2], k[1])), ">=" if k[0] == "ge" else "==")
        return show(k)
    if f[0] == "not":
        return "!" + fshow(f[1])
    return "(" + (" && " if f[0] == "and" else " || ").join(fshow(x) for x in f[1]) + ")"
