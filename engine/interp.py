"""Abstract interpreter over the resolved syntax trees (see DESIGN.md): gated joins at merges,
loops summarised by classifying what an iteration changes, user functions inlined."""
from .values import *
from . import values as VV
from . import lin as L
from .lin import Sym
from .model import AnalysisBroken, rel, walk

NPOS = 2 ** 64 - 1
UNROLL = 16


class Dead(Exception):
    pass


class Event:
    __slots__ = ("kind", "pc", "loops", "data", "file", "line", "fn", "stack")

    def __init__(self, kind, pc, loops, data, file, line, fn, stack):
        self.kind, self.pc, self.loops, self.data = kind, pc, loops, data
        self.file, self.line, self.fn, self.stack = file, line, fn, stack

    def where(self):
        return "%s:%s (%s)" % (rel(self.file or "?"), self.line, self.fn)

    def __repr__(self):
        return "%s@%s:%s %s pc=%s" % (self.kind, rel(self.file or "?"), self.line, self.data, [fshow(p) for p in self.pc])


class St:
    __slots__ = ("cells", "facts", "pc", "dead")

    def __init__(self):
        self.cells = {}
        self.facts = Facts()
        self.pc = ()
        self.dead = False

    def copy(self):
        s = St.__new__(St)
        s.cells = dict(self.cells)
        s.facts = self.facts.copy()
        s.pc = self.pc
        s.dead = self.dead
        return s

    def become(self, o):
        self.cells, self.facts, self.pc, self.dead = o.cells, o.facts, o.pc, o.dead

    def assume(self, f):
        """adds a path condition"""
        f = self.facts.simp(f)
        if f is True:
            return
        if f is False:
            self.dead = True
            return
        self.pc = self.pc + (f,)
        self.facts.assume(f)
        if self.facts.contradiction:
            self.dead = True


class Flow:
    __slots__ = ("b", "c", "r")

    def __init__(self):
        self.b, self.c, self.r = [], [], []


class Frame:
    def __init__(self, fn, fid, this, parent=None):
        self.fn, self.fid, self.this, self.parent = fn, fid, this, parent
        self.decl = set()
        self.va = None

    def find(self, vid):
        f = self
        while f is not None:
            if vid in f.decl:
                return f
            f = f.parent
        return None


def facts_join(a, b):
    if a is b:
        return a
    f = Facts()
    f.at = {k: v for k, v in a.at.items() if b.at.get(k) == v}
    for k, (lo, hi) in a.rng.items():
        r = b.rng.get(k)
        if r is not None:
            lo2, hi2 = min(lo, r[0]), max(hi, r[1])
            if lo2 != -INF or hi2 != INF:
                f.rng[k] = (lo2, hi2)
    f.ors = [o for o in a.ors if o in b.ors]
    return f


def chr_sym(key, idx):
    """a character of a variable text; its range comes from the characters the text can contain"""
    m = HOLE_META.get(key) if not isinstance(key, Str) else None
    cs = m.get("cs") if m else None
    if cs:
        vs = [_sc(c) for c in cs]
        if len(cs) == 1:
            return Lin(vs[0])
        return Lin.of(sym(("chr", key, idx), min(vs), max(vs)))
    return Lin.of(sym(("chr", key, idx), -128, 127))


def by_chars(f):
    """decides conditions on one character of a variable text from the set of characters it can have"""
    if f is True or f is False or f[0] not in ("a", "and", "or", "not"):
        return f
    fs = free_syms(f)
    if len(fs) <= 3:
        chrs = [i for i in fs if isinstance(Sym.byid[i].key, tuple) and Sym.byid[i].key[:1] == ("chr",) and not isinstance(Sym.byid[i].key[1], Str)]
        if len(chrs) == 1:
            cs = (HOLE_META.get(Sym.byid[chrs[0]].key[1]) or {}).get("cs")
            if cs:
                rs = {Subst({chrs[0]: Lin(_sc(x))}).do(f) for x in cs}
                if len(rs) == 1:
                    r = rs.pop()
                    if r is True or r is False:
                        return r
    if f[0] == "and":
        return f_and(*[by_chars(x) for x in f[1]])
    if f[0] == "or":
        return f_or(*[by_chars(x) for x in f[1]])
    return f


def is_length(v):
    """a sum of lengths of texts and containers (always below 2^63)"""
    if v.c < 0:
        return False
    for i, c in v.t:
        if c < 0 or c > 1 << 20:
            return False
        y = Sym.byid[i]
        if y.islen is None:
            k = y.key
            if not isinstance(k, tuple) or not k:
                y.islen = False
            elif k[0] == "ite":
                y.islen = len(k) == 4 and isinstance(k[2], Lin) and isinstance(k[3], Lin) and is_length(k[2]) and is_length(k[3])
            else:
                y.islen = k[0] in ("len", "slen", "nlen", "size", "setsize", "count")
        if not y.islen:
            return False
    return True


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.events = []
        self.dry = 0
        self.unrolled = 0
        self.sorts = {}
        self.loops = []
        self.frames = []
        self.stack = []
        self.cur = (None, None)
        self.hooks = {}          # function key -> handler(interp, st, fn, this, args)
        self.fids = {}
        self.dangling = set()   # pointers whose object an earlier turn of a loop may have deleted
        self.carry_cache = {}
        self.ids = {}
        self.nid = 0
        self.stats = {"fns": set(), "loops": set(), "calls": 0, "branches": 0, "obl": 0}
        self.unknown_calls = set()
        self.nonnull = []
        self.site_stack = []
        self.rec_calls = {}
        self.vty = {}
        self.recset = recursive_fns(prog)
        self.trips = {}
        self.force = {}          # decided tests: shown atom -> value
        from . import lib
        self.lib = lib
        VV.FIELD[0] = self.getfield0
        VV.ELEM[0] = lambda v, i: self.elem(v, i, None)

    # ------------------------------------------------------------ helpers
    def nodeid(self, n):
        i = n.get("_id")
        if i is None:
            self.nid += 1
            i = n["_id"] = self.nid
        return i

    @property
    def fr(self):
        return self.frames[-1]

    def emit(self, kind, st, data, e=None):
        if self.dry:
            return
        line = e.get("l") if e else self.cur[1]
        self.events.append(Event(kind, st.pc, tuple(self.loops), data, self.cur[0], line or self.cur[1],
                                 self.fr.fn["name"] if self.frames else "?",
                                 tuple(s for s in self.stack)))

    def oblige(self, kind, st, f, e=None, data=None):
        """An obligation of the run: f must follow from what is known here."""
        if self.dry:
            return
        self.stats["obl"] += 1
        f2 = st.facts.simp(f)
        if f2 is True:
            return
        self.emit("obl:" + kind, st, (f2, data), e)

    def trunc(self, st, cap, s, e, what):
        """a text that may not fit its buffer"""
        if self.dry:
            return
        self.emit("buffer", st, (cap, s, what), e)

    # ------------------------------------------------------------ symbolic values by type
    def mk(self, ty, key):
        t = ty["t"]
        if t == "int":
            if ty["signed"]:
                lo, hi = -2 ** (ty["bits"] - 1), 2 ** (ty["bits"] - 1) - 1
            else:
                lo, hi = 0, 2 ** ty["bits"] - 1
            return Lin.of(sym(key, lo, hi))
        if t == "bool":
            return ("a", ("b", key))
        if t == "enum":
            en = self.prog.enums.get(ty["name"])
            if en:
                vs = [c["v"] for c in en["consts"]]
                return Lin.of(sym(key, min(vs), max(vs)))
            return Lin.of(sym(key))
        if t == "float":
            return Flt(key)
        if t == "ptr":
            to = ty["to"]
            if to["t"] == "int" and to.get("char"):
                return CPtr(hole(key))
            return SPtr(key, to)
        if t == "rec":
            n = ty["name"]
            if n == "std::basic_string":
                return hole(key)
            if n in ("std::vector", "std::initializer_list"):
                return Vec((("sym", key, Lin.of(sym(("size", key), 0, I31)), _tkey(ty["args"][0])),))
            if n in ("std::set", "std::unordered_set"):
                return SetV((("sym", key),))
            if n == "std::pair":
                return Obj(pair_ty(ty["args"][0], ty["args"][1]), key, {})
            if n in self.prog.recs:
                return Obj(n, key, {})
            return Opq(("sym", n, key))
        if t == "arr":
            if ty["of"]["t"] == "int" and ty["of"].get("char"):
                return hole(key)
            return Vec((("sym", key, Lin(ty["n"]), _tkey(ty["of"])),))
        if t == "ref":
            return self.mk(ty["to"], key)
        return Opq(("sym", t, key))

    def default(self, ty, zero=False):
        t = ty["t"]
        if t in ("int", "enum"):
            return Lin(0) if zero else Undef()
        if t == "bool":
            return False if zero else Undef()
        if t == "float":
            return Flt(("fc", 0.0)) if zero else Undef()
        if t in ("ptr", "nullptr"):
            return NULL if zero else Undef()
        if t == "arr":
            of = ty["of"]
            if of["t"] == "int" and of.get("char"):
                return EMPTY if zero else Undef()
            if ty["n"] <= 64:
                return Vec(tuple(("one", self.default(of, zero)) for _ in range(ty["n"])))
            return Vec((("fill", Lin(ty["n"]), self.default(of, zero)),))
        if t == "rec":
            n = ty["name"]
            if n in self.prog.recs:
                r = self.prog.recs[n]
                ov = {}
                for f in r["fields"]:
                    if "init" in f:
                        ov[f["name"]] = self.rv_const(f["init"], f["ty"])
                    else:
                        ov[f["name"]] = self.default(f["ty"], zero)
                return Obj(n, None, ov)
            return self.lib.default(self, ty, zero)
        return Undef()

    def rv_const(self, e, ty):
        """initialiser of a member or global"""
        st = St()
        self.frames.append(Frame({"name": "<init>", "key": "<init>", "file": None}, ("init",), None))
        try:
            return self.init_value(e, ty, st)
        finally:
            self.frames.pop()

    def getfield0(self, o, f):
        return self.getfield(o, f)

    def getfield(self, v, f):
        if isinstance(v, Obj):
            x = v.ov.get(f)
            if x is not None:
                return x
            if v.key is not None:
                if v.ty.startswith("std::pair:"):
                    ty = _untkey(v.ty.split(":")[3 if f == "first" else 4])
                else:
                    ty = self.prog.field_type(v.ty, f)
                if ty is None:
                    return Opq(("field", v.key, f))
                return self.mk(ty, ("fld", v.key, f))
            return Undef()
        if isinstance(v, Phi):
            return ite(v.c, self.getfield(v.a, f), self.getfield(v.b, f))
        if isinstance(v, Undef):
            return v
        return Opq(("field", v, f))

    def setfield(self, v, f, x):
        if isinstance(v, Obj):
            ov = dict(v.ov)
            ov[f] = x
            return Obj(v.ty, v.key, ov)
        if isinstance(v, Phi):
            return ite(v.c, self.setfield(v.a, f, x), self.setfield(v.b, f, x))
        return Opq(("setfield", f))

    # ------------------------------------------------------------ containers
    def seg_elem(self, g, idx):
        """element idx of one segment"""
        t = g[0]
        if t == "one":
            return g[1]
        if t == "sym":
            return self.mk(_untkey(g[3]), ("at", g[1], idx))
        if t == "fill":
            return g[2]
        if t == "perm":
            pi = Lin.of(sym(("pi", g[1], idx), 0, I31))
            return self.segs_elem(g[2], pi, None)
        if t == "loop":
            body = g[4]
            if len(body) == 1 and body[0][0] == "one":
                return Subst({g[2].t[0][0]: idx}).do(body[0][1])
            leaf = self._leaf(canon_loop_named(g), idx, ())
            if leaf is not None:
                return leaf
        if t == "if":
            a = self.segs_elem(g[2], idx, None) if g[2] else None
            b = self.segs_elem(g[3], idx, None) if g[3] else None
            if a is None:
                return b
            if b is None:
                return a
            return ite(g[1], a, b)
        return None

    def _leaf(self, g, idx, sub):
        """selected element of a filtered comprehension: the only leaf, at symbolic positions"""
        cur = (g,)
        m = {}
        while True:
            if len(cur) != 1:
                return None
            s = cur[0]
            if s[0] == "loop":
                vid = s[2].t[0][0]
                m[vid] = Lin.of(sym(("sel", g, len(m), idx), 0, I31))
                cur = s[4]
            elif s[0] == "if":
                if s[2] and s[3]:
                    return None
                cur = s[2] or s[3]
            elif s[0] == "one":
                return Subst(m).do(s[1])
            else:
                return None

    def _anyleaf(self, segs):
        for s in segs:
            if s[0] == "one":
                return s[1]
            if s[0] == "sym":
                return self.mk(_untkey(s[3]), ("at", s[1], Lin(0)))
            sub = ()
            if s[0] == "loop":
                sub = s[4]
            elif s[0] == "if":
                sub = s[2] + s[3]
            elif s[0] == "perm":
                sub = s[2]
            elif s[0] == "fill":
                return s[2]
            r = self._anyleaf(sub)
            if r is not None:
                return r
        return None

    def segs_elem(self, segs, idx, facts):
        if len(segs) > 1 and not idx.is_const() and all(g[0] == "one" and isinstance(g[1], Str) and g[1].lit is not None for g in segs):
            return Str((("T", tuple(g[1].lit for g in segs), idx),))
        if len(segs) == 1:
            r = self.seg_elem(segs[0], idx)
            if r is not None:
                return r
            return self._opaque_elem(segs, idx)
        off = Lin(0)
        alts = []
        for i, g in enumerate(segs):
            n = segs_len((g,))
            inside = f_and(ge0(idx - off), ge0(off + n - idx - 1)) if i else ge0(off + n - idx - 1)
            r = facts.ask(inside) if facts is not None else (inside if isinstance(inside, bool) else None)
            if r is False:
                off = off + n
                continue
            v = self.seg_elem(g, idx - off)
            if v is None:
                return self._opaque_elem(segs, idx)
            alts.append((inside, v))
            if r is True:
                break
            off = off + n
        if not alts:
            return self._opaque_elem(segs, idx)
        v = alts[-1][1]
        for c, x in reversed(alts[:-1]):
            v = ite(c, x, v)
        return v

    def _opaque_elem(self, segs, idx):
        leaf = self._anyleaf(segs)
        key = ("elem", segs, idx)
        if isinstance(leaf, Str):
            return hole(key)
        if isinstance(leaf, Lin):
            return Lin.of(sym(key))
        if isinstance(leaf, (Ptr, SPtr)):
            return SPtr(key, getattr(leaf, "to", None) or {"t": "other"})
        if isinstance(leaf, Obj):
            return Obj(leaf.ty, key, {})
        if leaf is None and segs and segs[0][0] == "cy":
            ty = CY_TYPES.get(segs[0][1][:3])
            if ty is not None:
                return self.mk(ty, key)
        return Opq(key)

    def stored(self, v, st, base, idx, facts):
        """value at idx after these writes"""
        for s in st:
            if s[0] == "ite":
                base = ite(s[1], self.stored(v, s[2], base, idx, facts), self.stored(v, s[3], base, idx, facts))
                continue
            if s[0] in ("loopst", "ext"):
                base = Opq(("elem", v, idx)) if not isinstance(base, Str) else hole(("elem", v, idx))
                continue
            i, x = s
            f = eq0(i - idx)
            if facts is not None:
                f = facts.simp(f)
            base = ite(f, x, base)
        return base

    def elem(self, v, idx, facts):
        if isinstance(v, Vec):
            base = self.segs_elem(v.segs, idx, facts) if v.segs else Opq(("elem of empty", idx))
            return self.stored(v, v.st, base, idx, facts)
        if isinstance(v, Phi):
            return ite(v.c, self.elem(v.a, idx, facts), self.elem(v.b, idx, facts))
        if isinstance(v, Str):
            return self.charat(v, idx, facts)
        return Opq(("elem", v, idx))

    def charat(self, s, idx, facts):
        if len(s.segs) == 1 and s.segs[0][0] == "H":
            if idx == seg_len(s.segs[0]) and idx.t:
                return Lin(0)
            return chr_sym(s.segs[0][1], idx)
        off = Lin(0)
        for g in s.segs:
            n = seg_len(g)
            ins = ge0(off + n - idx - 1)
            r = facts.ask(ins) if facts is not None else (ins if isinstance(ins, bool) else None)
            if r is False:
                off = off + n
                continue
            if r is True:
                d = idx - off
                if g[0] == "L" and d.is_const() and 0 <= d.c < len(g[1]):
                    return Lin(_sc(g[1][d.c]))
                if g[0] == "C" and d.is_const():
                    return g[1]
                if g[0] == "F":
                    return g[2]
                if g[0] == "H":
                    return chr_sym(g[1], d)
                return Lin.of(sym(("chr", Str((g,)), d), -128, 127))
            break
        if idx == str_len(s) - 1 and s.segs:
            return self.lastchar(s)
        if idx == str_len(s):
            return Lin(0)
        return Lin.of(sym(("chr", s, idx), -128, 127))

    def lastchar(self, s):
        g = s.segs[-1]
        if g[0] == "L":
            return Lin(_sc(g[1][-1]))
        if g[0] == "C":
            return g[1]
        if g[0] == "H":
            m = HOLE_META.get(g[1], {})
            own = chr_sym(g[1], seg_len(g) - 1)
            if m.get("min", 0) >= 1 or len(s.segs) == 1:
                return own
            rest = Str(s.segs[:-1])
            return ite(ge0(seg_len(g) - 1), own, self.lastchar(rest))
        if g[0] == "N":
            return Lin.of(sym(("lastdigit", g), 32, 122))
        if g[0] == "I":
            rest = Str(s.segs[:-1])
            a, b = cat(rest, g[2]), cat(rest, g[3])
            if a.segs and b.segs:
                return ite(g[1], self.lastchar(a), self.lastchar(b))
        if g[0] == "T" and all(g[1]):
            cs = {x[-1] for x in g[1]}
            if len(cs) == 1:
                return Lin(_sc(cs.pop()))
        return Lin.of(sym(("lastc", s), -128, 127))

    def setelem(self, v, idx, x, facts=None):
        if isinstance(v, Vec):
            if idx.is_const() and not v.st:
                off = 0
                for i, g in enumerate(v.segs):
                    n = segs_len((g,))
                    if not n.is_const():
                        break
                    if off <= idx.c < off + n.c:
                        if g[0] == "one":
                            return Vec(v.segs[:i] + (("one", x),) + v.segs[i + 1:])
                        break
                    off += n.c
            if v.st and v.st[-1][0] not in ("ite", "loopst", "ext") and v.st[-1][0] == idx:
                return Vec(v.segs, v.st[:-1] + ((idx, x),))
            # update of an index that is stored already and not shadowed by another one
            for j, s in enumerate(v.st):
                if s[0] not in ("ite", "loopst", "ext") and s[0] == idx:
                    rest = v.st[j + 1:]
                    if all(t[0] not in ("ite", "loopst", "ext") and (eq0(t[0] - idx) is False or facts is not None and facts.ask(eq0(t[0] - idx)) is False) for t in rest):
                        return Vec(v.segs, v.st[:j] + ((idx, x),) + rest)
            return Vec(v.segs, v.st + ((idx, x),))
        if isinstance(v, Phi):
            return ite(v.c, self.setelem(v.a, idx, x, facts), self.setelem(v.b, idx, x, facts))
        if isinstance(v, Str):
            if v.lit is not None and idx.is_const() and 0 <= idx.c < len(v.lit):
                t = v.lit
                return mkstr([("L", t[:idx.c]), ("C", x), ("L", t[idx.c + 1:])])
            return hole(("setchr", v, idx, x))
        return Opq(("setelem", v))

    # ------------------------------------------------------------ locations
    def root(self, st, root):
        v = st.cells.get(root)
        if v is not None:
            return v
        t = root[0]
        if t == "sym":
            v = self.mk(SYMTY[root[1]], ("*", root[1])) if root[1] in SYMTY else Opq(("root", root))
        elif t == "g":
            g = self.prog.globals.get(root[1])
            if g is None:
                v = self.lib.global_value(self, root[1])
            elif "init" in g:
                v = self.rv_const(g["init"], g["ty"])
            else:
                v = self.default(g["ty"], True)
        elif t == "new":
            v = self._family(st, root)
            if v is None:
                return Opq(("root", root))
            return v
        else:
            return Undef(("uninitialised", root))
        st.cells[root] = v
        return v

    def _family(self, st, root):
        for r, v in st.cells.items():
            if r[0] == "new" and r[1] == root[1] and len(r[2]) == len(root[2]) and r[2]:
                ok = all(len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 for x in r[2])
                if ok:
                    return Subst({x.t[0][0]: y for x, y in zip(r[2], root[2])}).do(v)
        return None

    def read(self, st, loc):
        if isinstance(loc, Misc):
            if loc.kind == "philoc":
                return ite(loc.d[0], self.read(st, loc.d[1]), self.read(st, loc.d[2]))
            if loc.kind == "val":
                return loc.d[0]
            if loc.kind == "bad":
                return Opq(loc.d)
        v = self.root(st, loc[0])
        for step in loc[1]:
            if step[0] == "f":
                v = self.getfield(v, step[1])
            else:
                v = self.elem(v, step[1], st.facts)
        return v

    def write(self, st, loc, x):
        if isinstance(loc, Misc):
            if loc.kind == "philoc":
                c, a, b = loc.d
                if a != BAD:
                    self.write(st, a, ite(c, x, self.read(st, a)))
                if b != BAD:
                    self.write(st, b, ite(c, self.read(st, b), x))
            return
        if not loc[1]:
            st.cells[loc[0]] = x
            return
        v = self.root(st, loc[0])
        st.cells[loc[0]] = self._upd(v, loc[1], x, st.facts)

    def _upd(self, v, path, x, facts):
        if not path:
            return x
        s = path[0]
        if s[0] == "f":
            if isinstance(v, Phi):
                return ite(v.c, self._upd(v.a, path, x, facts), self._upd(v.b, path, x, facts))
            return self.setfield(v, s[1], self._upd(self.getfield(v, s[1]), path[1:], x, facts))
        return self.setelem(v, s[1], self._upd(self.elem(v, s[1], facts), path[1:], x, facts), facts)

    def sub(self, loc, step):
        if isinstance(loc, Misc):
            if loc.kind == "philoc":
                return Misc("philoc", loc.d[0], self.sub(loc.d[1], step), self.sub(loc.d[2], step))
            if loc.kind == "val":
                v = loc.d[0]
                return Misc("val", self.getfield(v, step[1]) if step[0] == "f" else self.elem(v, step[1], None))
            return loc
        return (loc[0], loc[1] + (step,))

    def alive(self, st, v, e):
        """an object that is used was not freed"""
        if isinstance(v, Phi):
            for c, x in phi_leaves(v):
                if x == DELETED:
                    self.oblige("use-after-free", st, f_not(c), e)
        elif v is not None and v == DELETED:
            self.emit("obl:use-after-free", st, (False, None), e)

    def deref(self, st, p, e=None):
        """location a pointer refers to"""
        if isinstance(p, Ptr):
            v = st.cells.get(p.loc[0])
            self.alive(st, v, e)
            return p.loc
        if isinstance(p, SPtr):
            self.oblige("null", st, f_not(isnull(p)), e, p)
            if p.key not in SYMTY and p.to is not None:
                SYMTY[p.key] = p.to
            self.alive(st, st.cells.get(("sym", p.key)), e)
            if p.key in self.dangling:
                self.oblige("use-after-free", st, f_not(("a", ("b", ("freed", p.key)))), e)
            return (("sym", p.key), ())
        if isinstance(p, Null):
            self.emit("obl:null", st, (False, p), e)
            return BAD
        if isinstance(p, Phi):
            c = st.facts.simp(p.c)
            if c is True:
                return self.deref(st, p.a, e)
            if c is False:
                return self.deref(st, p.b, e)
            # null alternatives must be excluded by what is known
            n = st.facts.simp(isnull(p))
            if n is not False:
                self.oblige("null", st, f_not(isnull(p)), e, p)
            live = []
            for cc, q in phi_leaves(p):
                if isinstance(q, Null):
                    continue
                if st.facts.ask(cc) is False:
                    continue
                live.append((cc, q))
            if not live:
                return BAD
            s2 = st.copy()
            d, self.dry = self.dry, self.dry + 1
            locs = []
            for cc, q in live:
                locs.append((cc, self.deref(s2, q, e)))
            self.dry = d
            r = locs[-1][1]
            for cc, l in reversed(locs[:-1]):
                r = Misc("philoc", cc, l, r)
            return r
        if isinstance(p, Misc) and p.kind == "it":
            return self.lib.it_loc(self, st, p, e)
        if isinstance(p, CPtr):
            return Misc("val", self.charat(p.s, Lin(p.off), st.facts))
        if isinstance(p, Undef):
            self.emit("obl:uninit", st, (False, p), e)
            return BAD
        return Misc("bad", p)

    # ------------------------------------------------------------ merging
    def merge(self, a, b):
        if a.dead:
            return b
        if b.dead:
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]:
            n += 1
        ca, cb = f_and(*a.pc[n:]), f_and(*b.pc[n:])
        if ca is True:
            c, neg = f_not(cb), True
            c = f_not(cb)
        else:
            c = ca
            if fsize(cb) < fsize(ca):
                c = f_not(cb)
        r = St.__new__(St)
        r.dead = False
        r.pc = a.pc[:n]
        r.facts = facts_join(a.facts, b.facts)
        cells = dict(a.cells)
        for k, vb in b.cells.items():
            va = cells.get(k)
            if va is vb:
                continue
            if va is None:
                if k[0] in ("sym", "g"):
                    va = self.root(a, k)
                else:
                    cells[k] = vb
                    continue
            if va is vb:
                continue
            cells[k] = ite(c, va, vb)
        for k, va in a.cells.items():
            if k[0] in ("sym", "g") and k not in b.cells:
                cells[k] = ite(c, va, self.root(b, k))
        r.cells = cells
        d = f_or(ca, cb)
        if d is not True:
            d = r.facts.simp(d)
            if d is not True:
                r.pc = r.pc + (d,)
                r.facts.assume(d)
        return r

    def merge_all(self, sts):
        sts = [s for s in sts if not s.dead]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = self.merge(r, s)
        return r

    # ------------------------------------------------------------ calls
    def call_fn(self, st, fn, this, args, e, parent=None):
        """args: list of values or Ref for reference parameters (already in callee form)"""
        h = self.hooks.get(fn["key"])
        if h is not None:
            r = h(self, st, fn, this, args, e)
            if r is not NotImplemented:
                return r
        if fn["key"] in self.recset:
            return self.opaque_call(st, fn, this, args, e)
        if any(f["key"] == fn["key"] for f, _ in self.stack):
            return self.recursive(st, fn, this, args, e)
        site = self.nodeid(e) if e else 0
        chain = tuple(s for _, s in self.stack) + ((fn["key"], site),)
        fid = self.fids.setdefault(chain, len(self.fids))
        fr = Frame(fn, fid, this, parent)
        self.stats["fns"].add(fn["key"])
        self.stats["calls"] += 1
        self.stack.append((fn, (fn["key"], site)))
        self.frames.append(fr)
        cur = self.cur
        try:
            ps = fn["params"]
            for p, a in zip(ps, args):
                fr.decl.add(p["id"])
                self.vty[("v", fid, p["id"])] = p["ty"]
                st.cells[("v", fid, p["id"])] = a
            if fn.get("variadic"):
                fr.va = tuple(args[len(ps):])
            self.cur = (fn["file"], fn["line"])
            if fn.get("ctor"):
                self.ctor_inits(st, fn, this)
            fl = Flow()
            self.exec(fn["body"], st, fl)
            outs = []
            if not st.dead:
                outs.append((st.copy(), None))
            outs += fl.r
            outs = [(s, v) for s, v in outs if not s.dead]
            if not outs:
                st.dead = True
                return Opq("dead")
            RV = ("ret", fid)
            for s, v in outs:
                if v is not None:
                    s.cells[RV] = v
            m = self.merge_all([s for s, _ in outs])
            v = m.cells.pop(RV, None)
            # locals are dead now
            st.become(m)
            for p in ps:
                pass
            return v
        except Exception as ex:
            if not hasattr(ex, "vx_stack"):
                ex.vx_stack = [f["name"] for f, _ in self.stack]
                ex.vx_at = self.cur
                ex.add_note("while analysing %s:%s in %s" % (self.cur[0], self.cur[1], " > ".join(ex.vx_stack)))
            raise
        finally:
            self.stack.pop()
            self.frames.pop()
            self.cur = cur

    def opaque_call(self, st, fn, this, args, e):
        """a call of a recursive function: uninterpreted result, its own members are havocked
        (the function itself is analysed separately, by structural induction)"""
        key = ("rec", fn["name"], self.nodeid(e) if e else 0, tuple(l[1] for l in self.loops))
        vals = [self.read(st, a.loc) if isinstance(a, Ref) else a for a in args]
        if not self.dry:
            self.rec_calls[key] = (fn, this, vals, st.copy(), e)
            self.emit("rec", st, (key, fn["name"], vals), e)
        if this is not None and fn.get("cls"):
            for f in own_fields(self.prog, fn):
                ty = self.prog.field_type(fn["cls"], f)
                if ty is not None:
                    self.write(st, self.sub(this, ("f", f)), self.mk(ty, ("recout", key, f)))
        for p, a in zip(fn["params"], args):
            if isinstance(a, Ref) and p["ty"]["t"] == "ref" and not p["ty"].get("const") and writes_param(self.prog, fn, p["id"]):
                self.write(st, a.loc, self.mk(p["ty"]["to"], ("recout", key, p["name"])))
        if fn["ret"]["t"] == "void":
            return None
        return self.mk(fn["ret"], key)

    def recursive(self, st, fn, this, args, e):
        raise AnalysisBroken("recursion in %s is not modelled" % fn["name"])

    def ctor_inits(self, st, fn, this):
        for i in fn.get("inits", []):
            if "field" in i:
                ty = None
                o = self.read(st, this)
                ty = self.prog.field_type(o.ty, i["field"]) if isinstance(o, Obj) else None
                if ty and ty["t"] == "ref":
                    l = self.lv(i["e"], st)
                    self.write(st, self.sub(this, ("f", i["field"])), Ref(l))
                else:
                    self.write(st, self.sub(this, ("f", i["field"])), self.init_value(i["e"], ty or i["e"].get("ty"), st))

    def bind_args(self, st, argexprs, pts, e, variadic_from=None):
        out = []
        for i, a in enumerate(argexprs):
            k = pts[i] if i < len(pts) else "val"
            if k in ("ref", "cref", "rref"):
                out.append(Ref(self.lv_or_tmp(a, st, ("arg", i, self.nodeid(e)))))
            else:
                out.append(self.rv(a, st))
        return out

    def lv_or_tmp(self, a, st, tag):
        if self.is_lv(a):
            return self.lv(a, st)
        v = self.rv(a, st)
        if isinstance(v, Ref):
            return v.loc
        root = ("tmp", self.fr.fid, tag)
        st.cells[root] = v
        return (root, ())

    def is_lv(self, e):
        k = e["k"]
        if k == "Ref":
            return e["kind"] in ("param", "local", "global", "static")
        if k in ("Member", "Index"):
            return True if k == "Index" or e["arrow"] else self.is_lv(e["base"]) or e["base"]["k"] in ("Member", "This", "MCall", "Call", "OpCall")
        if k == "Un":
            return e["op"] in ("*", "++", "--")
        if k in ("Assign", "CAssign"):
            return True
        if k in ("MCall", "OpCall", "Call"):
            t = e.get("rty") or {}
            return t.get("t") == "ref"
        if k == "Cond":
            return self.is_lv(e["a"]) and self.is_lv(e["b"])
        if k == "Str":
            return False
        return False

    # ------------------------------------------------------------ lvalues
    def varloc(self, e, st):
        if e["kind"] == "global":
            return (("g", e["id"]), ())
        f = self.fr.find(e["id"])
        if f is None:
            if e["kind"] == "static":
                r = ("v", -1, e["id"])
            else:
                raise AnalysisBroken("variable %s is not in scope (%s:%s)" % (e["id"], self.cur[0], e.get("l")))
        else:
            r = ("v", f.fid, e["id"])
        v = st.cells.get(r)
        if isinstance(v, Ref):
            return v.loc
        if isinstance(v, Phi) and isinstance(v.a, Ref) and isinstance(v.b, Ref):
            return Misc("philoc", v.c, v.a.loc, v.b.loc)
        return (r, ())

    def lv(self, e, st):
        k = e["k"]
        if k == "Ref":
            return self.varloc(e, st)
        if k == "This":
            raise AnalysisBroken("this as lvalue")
        if k == "Member":
            if e["arrow"]:
                base = self.deref(st, self.rv(e["base"], st), e) if e["base"]["k"] != "This" else self.fr_this()
            elif self.is_lv(e["base"]):
                base = self.lv(e["base"], st)
            else:
                base = Misc("val", self.rv(e["base"], st))
            loc = self.sub(base, ("f", e["field"]))
            if isinstance(loc, tuple):
                v = self.read(st, loc)
                if isinstance(v, Ref):
                    return v.loc
            return loc
        if k == "Index":
            b = e["base"]
            idx = self.rv(e["idx"], st)
            bt = b.get("ty", {})
            if bt.get("t") == "arr" or (b["k"] in ("Ref", "Member") and bt.get("t") == "arr"):
                base = self.lv(b, st)
                n = Lin(bt["n"])
                self.oblige("index", st, f_and(ge0(idx), ge0(n - idx - 1)), e, "array of %d" % bt["n"])
                return self.sub(base, ("i", idx))
            p = self.rv(b, st)
            return self.ptr_index(st, p, idx, e)
        if k == "Un" and e["op"] == "*":
            return self.deref(st, self.rv(e["e"], st), e)
        if k == "Un" and e["op"] in ("++", "--"):
            l = self.lv(e["e"], st)
            self.rv(e, st)
            return l
        if k in ("Assign", "CAssign"):
            self.rv(e, st)
            return self.lv(e["lhs"], st)
        if k in ("MCall", "OpCall", "Call"):
            v = self.rv_call(e, st, want_lv=True)
            if isinstance(v, Ref):
                return v.loc
            root = ("tmp", self.fr.fid, ("cr", self.nodeid(e)))
            st.cells[root] = v
            return (root, ())
        if k == "Cond":
            c = self.cond(e["c"], st)
            return Misc("philoc", c, self.lv(e["a"], st), self.lv(e["b"], st)) if c is not True and c is not False else (
                self.lv(e["a"], st) if c else self.lv(e["b"], st))
        if k == "Cast":
            return self.lv(e["e"], st)
        return self.lv_or_tmp(e, st, ("lv", self.nodeid(e)))

    def fr_this(self):
        f = self.fr
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise AnalysisBroken("this outside a method")
        return f.this

    def ptr_index(self, st, p, idx, e):
        if isinstance(p, CPtr):
            n = str_len(p.s)
            self.oblige("index", st, f_and(ge0(idx + p.off), ge0(n - idx - p.off)), e, "C string")
            c = st.facts.simp(eq0(n - idx - p.off))
            if c is True:
                return Misc("val", Lin(0))
            v = self.charat(p.s, idx + p.off, st.facts)
            return Misc("val", v)
        if isinstance(p, Ptr):
            if not (p.loc[1] and p.loc[1][-1][0] == "i") and p.loc[0] in st.cells:
                v = self.read(st, p.loc)
                if isinstance(v, Vec):
                    self.oblige("index", st, f_and(ge0(idx), ge0(segs_len(v.segs) - idx - 1)), e, p)
            if p.loc[1] and p.loc[1][-1][0] == "i":
                return (p.loc[0], p.loc[1][:-1] + (("i", p.loc[1][-1][1] + idx),))
            return self.sub(p.loc, ("i", idx))
        if isinstance(p, SPtr):
            self.oblige("null", st, f_not(isnull(p)), e, p)
            v = st.cells.get(("symarr", p.key))
            if v is None:
                v = Vec((("sym", p.key, Lin.of(sym(("size", p.key), 0, I31)), _tkey(p.to)),))
                st.cells[("symarr", p.key)] = v
            self.oblige("index", st, f_and(ge0(idx), ge0(segs_len(v.segs) - idx - 1)), e, p)
            return (("symarr", p.key), (("i", idx),))
        if isinstance(p, Phi):
            return Misc("philoc", p.c, self.ptr_index(st, p.a, idx, e), self.ptr_index(st, p.b, idx, e))
        if isinstance(p, Null):
            self.emit("obl:null", st, (False, p), e)
            return BAD
        return Misc("bad", p)

    # ------------------------------------------------------------ conditions
    def truth(self, v, st=None, e=None):
        if v is True or v is False or is_f(v):
            return v
        if isinstance(v, Lin):
            return f_not(eq0(v))
        if isinstance(v, (Ptr, SPtr, Null, CPtr)):
            return f_not(isnull(v))
        if isinstance(v, Phi):
            return f_ite(v.c, self.truth(v.a, st, e), self.truth(v.b, st, e))
        if isinstance(v, Undef):
            if st is not None:
                self.emit("obl:uninit", st, (False, v), e)
            return ("a", ("opq", ("uninit", self.cur)))
        if isinstance(v, Flt):
            return f_not(self.fcmp("==", v, Flt(("fc", 0.0))))
        r = self.lib.truth(self, v, st)
        if r is not None:
            return r
        return ("a", ("opq", v))

    def cond(self, e, st):
        c = st.facts.simp(self.truth(self.rv(e, st), st, e))
        c = self.decide(c, st)
        return by_chars(c) if c is not True and c is not False else c

    def decide(self, c, st):
        """a test in the chosen case of a case distinction"""
        if self.force and c is not True and c is not False:
            for a in L.f_atoms(c):
                v = self.force.get(vshow(a))
                if v is not None and st.facts.ask(a) is None:
                    st.assume(a if v else f_not(a))
            c = st.facts.simp(c)
        return c

    def fcmp(self, op, a, b):
        x, y = a.const, b.const
        if x is not None and y is not None:
            return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        if op == "!=":
            return f_not(self.fcmp("==", a, b))
        if op == ">":
            return self.fcmp("<", b, a)
        if op == ">=":
            return self.fcmp("<=", b, a)
        if op == "==" and y is None and x is not None:
            a, b = b, a
        return ("a", ("f" + op, a, b))

    # ------------------------------------------------------------ rvalues
    def conv(self, v, ty, st, e=None):
        t = ty["t"]
        if isinstance(v, Undef):
            return v
        if isinstance(v, Phi) and not is_f(v):
            return ite(v.c, self.conv(v.a, ty, st, e), self.conv(v.b, ty, st, e))
        if t == "int" or t == "enum":
            if is_f(v):
                return ite(v, Lin(1), Lin(0))
            if isinstance(v, Lin):
                bits, sg = ty["bits"], ty["signed"]
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
                if v.is_const():
                    c = v.c & ((1 << bits) - 1)
                    if sg and c >> (bits - 1):
                        c -= 1 << bits
                    return Lin(c)
                if bits == 64 and is_length(v):
                    return v
                a, b = st.facts.bound(v)
                if a >= lo and b <= hi:
                    return v
                x = expand_ite(v)
                if x:
                    return ite(x[0], self.conv(x[1], ty, st, e), self.conv(x[2], ty, st, e))
                if not sg and a >= -(1 << bits) and b <= hi and bits == 64 and a < 0 and b < 0:
                    return v + (1 << bits)
                return Lin.of(sym(("cast", bits, sg, v), lo, hi))
            if isinstance(v, Flt):
                if v.const is not None and v.const == v.const and abs(v.const) < 2 ** 62:
                    return self.conv(Lin(int(v.const)), ty, st, e)
                bits, sg = ty["bits"], ty["signed"]
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
                return Lin.of(sym(("ftoi", bits, sg, v), lo, hi))
            return v
        if t == "bool":
            return self.truth(v, st, e)
        if t == "float":
            if isinstance(v, Lin):
                if v.is_const():
                    return Flt(("fc", float(v.c)))
                return Flt(("itof", v))
            if is_f(v):
                return Flt(("itof", ite(v, Lin(1), Lin(0))))
            return v
        return v

    def rv(self, e, st):
        v = self.rv0(e, st)
        if isinstance(v, Ref):
            v = self.read(st, v.loc)
        if isinstance(v, Phi):
            v = self.resolve(v, e, st)
        return v

    def resolve(self, v, e, st):
        """a gated value where it is used"""
        c = st.facts.simp(v.c)
        if c is True or c is False:
            v = v.a if c is True else v.b
            return self.resolve(v, e, st) if isinstance(v, Phi) else v
        t = (e.get("ty") or {}).get("t")
        if t in ("int", "bool", "enum", "float", "ptr"):
            ls = phi_leaves(v)
            bad = [f for f, x in ls if isinstance(x, Undef)]
            if bad and len(bad) < len(ls):
                self.oblige("uninit", st, f_not(f_or(*bad)), e, v)
                ls = [(f, x) for f, x in ls if not isinstance(x, Undef)]
                r = ls[-1][1]
                for f, x in reversed(ls[:-1]):
                    r = ite(f, x, r)
                return r
        return v

    def rv0(self, e, st):
        k = e["k"]
        cv = e.get("cv")
        if cv is not None and k not in ("Assign", "CAssign", "MCall", "OpCall"):
            t = e["ty"]["t"]
            return bool(cv) if t == "bool" else Lin(cv)
        if "cvs" in e:
            return Lin(int(e["cvs"]))
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise AnalysisBroken("expression %s is not modelled (%s:%s)" % (e.get("cls", k), self.cur[0], e.get("l")))
        return m(e, st)

    def e_Int(self, e, st):
        return Lin(e["v"] if "v" in e else int(e["vs"]))

    def e_Bool(self, e, st):
        return bool(e["v"])

    def e_Float(self, e, st):
        return Flt(("fc", float(e["v"])))

    def e_Str(self, e, st):
        return CPtr(lit(e["v"]))

    def e_Null(self, e, st):
        return NULL

    def e_ZeroInit(self, e, st):
        return self.default(e["ty"], True)

    def e_This(self, e, st):
        return Ptr(self.fr_this())

    def e_SizeOf(self, e, st):
        return Opq(("sizeof", e.get("l")))

    def e_Ref(self, e, st):
        if e["kind"] == "func":
            return FnRef(e["name"], e["key"])
        if e["kind"] == "enumc":
            return Lin(e["v"])
        if e["kind"] == "other":
            return Opq(("ref", e["name"]))
        loc = self.varloc(e, st)
        if e.get("ty", {}).get("t") == "arr":
            return self.arr_value(st, loc, e)
        return self.read(st, loc)

    def arr_value(self, st, loc, e):
        """arrays decay to a pointer to their first element"""
        of = e["ty"]["of"]
        if of["t"] == "int" and of.get("char"):
            return Ptr(loc)
        return Ptr(self.sub(loc, ("i", Lin(0))))

    def e_Member(self, e, st):
        if not e["arrow"] and not self.is_lv(e["base"]):
            v = self.rv(e["base"], st)
            return self.getfield(v, e["field"])
        loc = self.lv(e, st)
        if e.get("ty", {}).get("t") == "arr":
            return self.arr_value(st, loc, e)
        return self.read(st, loc)

    def e_Index(self, e, st):
        return self.read(st, self.lv(e, st))

    def e_Cast(self, e, st):
        ck = e["ck"]
        v = self.rv(e["e"], st)
        if ck == "ToVoid":
            return Opq("void")
        if isinstance(v, Undef) and ck in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "IntegralToFloating", "FloatingToIntegral"):
            return v
        if ck == "FloatingToIntegral" and isinstance(v, Flt):
            self.oblige_ftoi(v, e["ty"], st, e)
        return self.conv(v, e["ty"], st, e)

    def oblige_ftoi(self, v, ty, st, e):
        self.emit("ftoi", st, (v, ty), e)

    def e_Un(self, e, st):
        op = e["op"]
        if op == "&":
            x = e["e"]
            loc = self.lv(x, st)
            return Ptr(loc) if not isinstance(loc, Misc) else (
                ite_ptr(loc))
        if op == "*":
            return self.read(st, self.deref(st, self.rv(e["e"], st), e))
        if op in ("++", "--", "post++", "post--"):
            loc = self.lv(e["e"], st)
            v = self.read(st, loc)
            d = 1 if "+" in op else -1
            if isinstance(v, Misc) and v.kind in ("it", "tokit"):
                n = self.lib.it_add(self, st, v, Lin(d))
            elif isinstance(v, Lin):
                n = self.arith_conv(v + d, e["ty"], st, e)
            elif isinstance(v, Ptr):
                n = self.ptr_add(v, Lin(d))
            elif isinstance(v, CPtr):
                n = CPtr(v.s, v.off + d, v.temp)
            elif isinstance(v, Undef):
                self.emit("obl:uninit", st, (False, v), e)
                n = v
            else:
                n = Opq(("inc", v))
            self.write(st, loc, n)
            return v if op.startswith("post") else n
        v = self.rv(e["e"], st)
        if op == "!":
            return f_not(self.truth(v, st, e["e"]))
        if op == "-":
            if isinstance(v, Lin):
                return self.arith_conv(-v, e["ty"], st, e)
            if isinstance(v, Flt):
                return Flt(("fc", -v.const)) if v.const is not None else Flt(("fneg", v))
        if op == "+":
            return v
        if op == "~":
            if isinstance(v, Lin):
                return self.conv(-v - 1, e["ty"], st, e)
        return Opq(("un", op, v))

    def arith_conv(self, v, ty, st, e=None):
        """result of integer arithmetic: unsigned wraps, signed overflow is an obligation"""
        if isinstance(v, Lin) and ty["t"] == "int":
            if ty["signed"]:
                hi = 1 << (ty["bits"] - 1)
                lo_, hi_ = st.facts.bound(v)
                if not (lo_ >= -hi and hi_ < hi):
                    f = st.facts.simp(f_and(ge0(v + hi), ge0(-v + (hi - 1))))
                    if f is not True:
                        self.emit("overflow", st, (f, v), e)
                return v
        return self.conv(v, ty, st, e)

    def ptr_add(self, p, d):
        if isinstance(p, Ptr) and p.loc[1] and p.loc[1][-1][0] == "i":
            return Ptr((p.loc[0], p.loc[1][:-1] + (("i", p.loc[1][-1][1] + d),)))
        if isinstance(p, CPtr) and d.is_const():
            return CPtr(p.s, p.off + d.c, p.temp)
        return Opq(("ptradd", p, d))

    def e_Bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(e["lhs"], st)
            if op == "&&" and a is False or op == "||" and a is True:
                return a
            if a is True or a is False:
                return self.cond(e["rhs"], st)
            s2 = st.copy()
            s2.assume(a if op == "&&" else f_not(a))
            if s2.dead:
                return a
            b = self.cond(e["rhs"], s2)
            if s2.dead:
                st.assume(f_not(a) if op == "&&" else a)
                return op == "||"
            s1 = st.copy()
            s1.assume(f_not(a) if op == "&&" else a)
            if same_cells(s1, s2):
                pass
            else:
                m = self.merge(s2, s1)
                st.become(m)
            return f_and(a, b) if op == "&&" else f_or(a, b)
        if op == ",":
            self.rv(e["lhs"], st)
            return self.rv(e["rhs"], st)
        a = self.rv(e["lhs"], st)
        b = self.rv(e["rhs"], st)
        return self.binop(op, a, b, e, st, e["ty"])

    def binop(self, op, a, b, e, st, ty):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.emit("obl:uninit", st, (False, None), e)
            return Opq(("uninit", self.cur[0], e.get("l")))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b, e, st)
        if isinstance(a, Phi) and not isinstance(b, Phi):
            return ite(a.c, self.binop(op, a.a, b, e, st, ty), self.binop(op, a.b, b, e, st, ty))
        if isinstance(b, Phi):
            return ite(b.c, self.binop(op, a, b.a, e, st, ty), self.binop(op, a, b.b, e, st, ty))
        if is_f(a):
            a = ite(a, Lin(1), Lin(0))
        if is_f(b):
            b = ite(b, Lin(1), Lin(0))
        if isinstance(a, Flt) or isinstance(b, Flt):
            if isinstance(a, Lin):
                a = self.conv(a, {"t": "float"}, st)
            if isinstance(b, Lin):
                b = self.conv(b, {"t": "float"}, st)
            if isinstance(a, Flt) and isinstance(b, Flt):
                x, y = a.const, b.const
                if x is not None and y is not None:
                    try:
                        return Flt(("fc", {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()))
                    except ZeroDivisionError:
                        pass
                return Flt(("f" + op, a, b))
            return Opq(("fop", op))
        if isinstance(a, (Ptr, CPtr, Misc)) and isinstance(b, Lin) and op in "+-":
            if isinstance(a, Misc) and a.kind == "it":
                return self.lib.it_add(self, st, a, b if op == "+" else -b)
            return self.ptr_add(a, b if op == "+" else -b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-":
            la, lb = a.loc, b.loc
            if la[0] == lb[0] and la[1][:-1] == lb[1][:-1] and la[1] and la[1][-1][0] == "i":
                return la[1][-1][1] - lb[1][-1][1]
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return Opq((op, a, b))
        return self.intop(op, a, b, ty, st, e)

    def intop(self, op, a, b, ty, st, e):
        F = st.facts
        if op == "+":
            return self.arith_conv(a + b, ty, st, e)
        if op == "-":
            return self.arith_conv(a - b, ty, st, e)
        if op == "*":
            if b.is_const():
                r = a.scale(b.c)
            elif a.is_const():
                r = b.scale(a.c)
            else:
                (l1, h1), (l2, h2) = F.bound(a), F.bound(b)
                ps = []
                for x in (l1, h1):
                    for y in (l2, h2):
                        ps.append(0 if x == 0 or y == 0 else x * y)
                if repr(a.key) > repr(b.key):
                    a, b = b, a
                r = Lin.of(sym(("mul", a, b), min(ps), max(ps)))
            return self.arith_conv(r, ty, st, e)
        if op in ("/", "%"):
            if a.is_const() and b.is_const() and b.c != 0:
                q = abs(a.c) // abs(b.c) * (1 if (a.c >= 0) == (b.c >= 0) else -1)
                return Lin(q) if op == "/" else Lin(a.c - q * b.c)
            self.oblige("div0", st, f_not(eq0(b)), e)
            if b.is_const() and b.c > 0:
                lo, hi = F.bound(a)
                if lo >= 0:
                    q = mk_div(a, b.c, lo, hi)
                    return q if op == "/" else a - q.scale(b.c)
                m = Lin(0) - a
                q = ite(ge0(a), mk_div(a, b.c, 0, hi), Lin(0) - mk_div(m, b.c, 0, INF))
                return q if op == "/" else a - q.scale(b.c)
            return Lin.of(sym((("div" if op == "/" else "mod"), a, b)))
        if op == "<<":
            if b.is_const():
                return self.arith_conv(a.scale(1 << b.c) if 0 <= b.c < 128 else a, ty, st, e)
            w = ty["bits"]
            self.oblige("shift", st, f_and(ge0(b), ge0(Lin(w - 1) - b)), e, b)
            lo, hi = F.bound(b)
            al, ah = F.bound(a)
            if al >= 0 and lo >= 0 and hi < 64 and ah != INF:
                return self.arith_conv(Lin.of(sym(("shl", a, b), 0 if al == 0 else al << int(lo), int(ah) << int(hi))), ty, st, e)
            return Lin.of(sym(("shl", a, b)))
        if op == ">>":
            lo, hi = F.bound(a)
            if b.is_const() and lo >= 0:
                n = b.c
                if hi != INF:
                    w = max(int(hi).bit_length() - n, 1)
                    return mk_bits(a, n, w)
            return Lin.of(sym(("shr", a, b), 0 if lo >= 0 else -INF, hi))
        if op == "&":
            if a.is_const() and not b.is_const():
                a, b = b, a
            if b.is_const():
                lo, hi = F.bound(a)
                if a.is_const():
                    return self.conv(Lin(a.c & b.c), ty, st)
                if b.c >= 0:
                    w = int(hi).bit_length() if lo >= 0 and hi != INF else 64
                    r = Lin(0)
                    i = 0
                    mk = b.c & ((1 << w) - 1)
                    while mk >> i:
                        if (mk >> i) & 1:
                            j = i
                            while (mk >> j) & 1:
                                j += 1
                            r = r + mk_bits(a, i, j - i).scale(1 << i)
                            i = j
                        else:
                            i += 1
                    return r
            return Lin.of(sym(("band", a, b), 0, min(F.bound(a)[1], F.bound(b)[1])))
        if op == "|":
            if a.is_const() and b.is_const():
                return self.conv(Lin(a.c | b.c), ty, st)
            for x, y in ((a, b), (b, a)):
                if x == Lin(0):
                    return y
                if x.is_const() and x.c > 0:
                    # other bits than those of the constant
                    lo, hi = F.bound(y)
                    if 0 <= lo and hi < (x.c & -x.c):
                        return x + y
            return Lin.of(sym(("bor", a, b)))
        if op == "^":
            if a.is_const() and b.is_const():
                return self.conv(Lin(a.c ^ b.c), ty, st)
            return Lin.of(sym(("bxor", a, b)))
        return Opq((op, a, b))

    def compare(self, op, a, b, e, st):
        if isinstance(a, Phi):
            return f_ite(a.c, self.compare(op, a.a, b, e, st), self.compare(op, a.b, b, e, st))
        if isinstance(b, Phi):
            return f_ite(b.c, self.compare(op, a, b.a, e, st), self.compare(op, a, b.b, e, st))
        if is_f(a):
            a = ite(a, Lin(1), Lin(0))
        if is_f(b):
            b = ite(b, Lin(1), Lin(0))
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == "==":
                return VV.eq0(a - b)
            if op == "!=":
                return f_not(VV.eq0(a - b))
            if op == ">=":
                return VV.ge0(a - b)
            if op == "<":
                return f_not(VV.ge0(a - b))
            if op == "<=":
                return VV.ge0(b - a)
            return f_not(VV.ge0(b - a))
        if isinstance(a, Flt) or isinstance(b, Flt):
            if isinstance(a, Lin):
                a = self.conv(a, {"t": "float"}, st)
            if isinstance(b, Lin):
                b = self.conv(b, {"t": "float"}, st)
            if isinstance(a, Flt) and isinstance(b, Flt):
                return self.fcmp(op, a, b)
        if isinstance(a, Null) or isinstance(b, Null):
            p = b if isinstance(a, Null) else a
            f = isnull(p)
            return f if op == "==" else f_not(f)
        if isinstance(a, Misc) and isinstance(b, Misc):
            r = self.lib.misc_compare(self, st, op, a, b)
            if r is not None:
                return r
        if op in ("==", "!="):
            if isinstance(a, (Ptr, SPtr)) and isinstance(b, (Ptr, SPtr)):
                f = True if a == b else ("a", ("ptreq", a, b))
                return f if op == "==" else f_not(f)
        return ("a", ("opq", (op, a, b)))

    def e_Assign(self, e, st):
        v = self.rv(e["rhs"], st)
        loc = self.lv(e["lhs"], st)
        v = self.adapt(v, e["lhs"].get("ty"), st)
        if isinstance(v, (Ptr, Phi)) and not self.dry and any(l[1] for l in self.lib.leaf_locs(loc)):
            # a pointer to an element of a container is kept
            for _, q in phi_leaves(v) if isinstance(v, Phi) else ((True, v),):
                if isinstance(q, Ptr):
                    f = [x[1] for x, y in zip(q.loc[1], q.loc[1][1:]) if x[0] == "f" and y[0] == "i"]
                    if f:
                        self.emit("eptr", st, f[-1], e)
        self.write(st, loc, v)
        return v

    def adapt(self, v, ty, st):
        """value as stored in an object of type ty"""
        if ty is None:
            return v
        if ty["t"] == "rec" and ty["name"] == "std::basic_string" and not isinstance(v, (Str, Undef)):
            return self.lib.to_str(self, st, v)
        return v

    def e_CAssign(self, e, st):
        r = self.rv(e["rhs"], st)
        loc = self.lv(e["lhs"], st)
        a = self.read(st, loc)
        cl = e.get("clty")
        if cl and isinstance(a, (Lin, Flt)):
            a = self.conv(a, cl, st, e)
        v = self.binop(e["op"], a, r, e, st, e["cty"])
        v = self.conv(v, e["lty"], st, e)
        self.write(st, loc, v)
        return v

    def e_Cond(self, e, st):
        c = self.cond(e["c"], st)
        if c is True:
            return self.rv(e["a"], st)
        if c is False:
            return self.rv(e["b"], st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(f_not(c))
        a = self.rv(e["a"], s1) if not s1.dead else None
        b = self.rv(e["b"], s2) if not s2.dead else None
        if s1.dead:
            st.become(s2)
            return b
        if s2.dead:
            st.become(s1)
            return a
        if not same_cells(s1, s2) or not same_cells(s1, st):
            st.become(self.merge(s1, s2))
        return ite(c, a, b)

    def e_Lambda(self, e, st):
        env = {}
        for c in e["captures"]:
            if c.get("this"):
                continue
            if "init" in c:
                env[c["id"]] = self.rv(c["init"], st)
            elif not c.get("ref"):
                f = self.fr.find(c["id"])
                if f is not None:
                    r = ("v", f.fid, c["id"])
                    v = st.cells.get(r)
                    env[c["id"]] = self.read(st, v.loc) if isinstance(v, Ref) else v
        return Lam(e, tuple(sorted(env.items(), key=lambda x: x[0])), self.fr.this, self.fr)

    def call_lam(self, st, lam, args, e):
        node = lam.node
        fn = {"name": self.fr.fn["name"] + "::<lambda>", "key": "<lambda>%d" % self.nodeid(node), "file": lam.fr.fn.get("file"),
              "line": node.get("l"), "params": node["params"], "body": node["body"]}
        chain = tuple(s for _, s in self.stack) + ((fn["key"], self.nodeid(e)),)
        fid = self.fids.setdefault(chain, len(self.fids))
        fr = Frame(fn, fid, None, lam.fr)
        for vid, v in lam.env:
            fr.decl.add(vid)
            st.cells[("v", fid, vid)] = v
        for p, a in zip(fn["params"], args):
            fr.decl.add(p["id"])
            if p["ty"]["t"] == "ref" and not isinstance(a, Ref):
                root = ("tmp", fid, p["id"])
                st.cells[root] = a
                a = Ref((root, ()))
            elif p["ty"]["t"] != "ref" and isinstance(a, Ref):
                a = self.read(st, a.loc)
            st.cells[("v", fid, p["id"])] = a
        self.stack.append((fn, (fn["key"], self.nodeid(e))))
        self.frames.append(fr)
        cur = self.cur
        try:
            fl = Flow()
            self.exec(fn["body"], st, fl)
            outs = ([(st.copy(), None)] if not st.dead else []) + fl.r
            outs = [(s, v) for s, v in outs if not s.dead]
            if not outs:
                st.dead = True
                return Opq("dead")
            RV = ("ret", fid)
            for s, v in outs:
                if v is not None:
                    s.cells[RV] = v
            m = self.merge_all([s for s, _ in outs])
            v = m.cells.pop(RV, None)
            st.become(m)
            return v
        finally:
            self.stack.pop()
            self.frames.pop()
            self.cur = cur

    def apply(self, st, f, args, e):
        """call a function value"""
        if isinstance(f, Lam):
            return self.call_lam(st, f, args, e)
        if isinstance(f, FnRef):
            fn = self.prog.fns.get(f.key)
            if fn:
                a2 = []
                for p, a in zip(fn["params"], args):
                    if p["ty"]["t"] == "ref" and not isinstance(a, Ref):
                        root = ("tmp", self.fr.fid, ("ap", p["id"]))
                        st.cells[root] = a
                        a = Ref((root, ()))
                    elif p["ty"]["t"] != "ref" and isinstance(a, Ref):
                        a = self.read(st, a.loc)
                    a2.append(a)
                return self.call_fn(st, fn, None, a2, e)
            return self.lib.call_named(self, st, f.name, [self.read(st, a.loc) if isinstance(a, Ref) else a for a in args], e)
        return Opq(("apply", f))

    def e_Call(self, e, st):
        return self.rv_call(e, st)

    e_MCall = e_OpCall = e_Call

    def rv_call(self, e, st, want_lv=False):
        k = e["k"]
        if "fn" in e and e["k"] != "MCall":
            f = self.rv(e["fn"], st)
            args = [self.rv(a, st) for a in e["args"]]
            return self.apply(st, f, args, e)
        if e.get("user") and e.get("key") in self.prog.fns:
            fn = self.prog.fns[e["key"]]
            this = None
            args = e["args"]
            if k == "MCall":
                o = e["obj"]
                if e["arrow"]:
                    this = self.fr_this() if o["k"] == "This" else self.deref(st, self.rv(o, st), e)
                elif o["k"] == "This":
                    this = self.fr_this()
                else:
                    this = self.lv_or_tmp(o, st, ("obj", self.nodeid(e)))
            elif k == "OpCall" and e.get("method"):
                this = self.lv_or_tmp(args[0], st, ("obj", self.nodeid(e)))
                args = args[1:]
            vals = []
            for i, a in enumerate(args):
                if i < len(fn["params"]):
                    pty = fn["params"][i]["ty"]
                    if pty["t"] == "ref":
                        vals.append(Ref(self.lv_or_tmp(a, st, ("arg", i, self.nodeid(e)))))
                        v = vals[-1].loc
                        if isinstance(v, tuple) and pty["to"].get("name") == "std::basic_string":
                            cur = self.read(st, v)
                            if isinstance(cur, (CPtr, Ptr)):
                                root = ("tmp", self.fr.fid, ("argc", i, self.nodeid(e)))
                                st.cells[root] = self.lib.to_str(self, st, cur)
                                vals[-1] = Ref((root, ()))
                    else:
                        vals.append(self.adapt(self.rv(a, st), pty, st))
                else:
                    vals.append(self.rv(a, st))
                if st.dead:
                    return Opq("dead")
            return self.call_fn(st, fn, this, vals, e)
        return self.lib.call(self, st, e, want_lv)

    def e_Construct(self, e, st):
        ty = e["ty"]
        args = e["args"]
        if e.get("copy") and len(args) == 1:
            return self.rv(args[0], st)
        if ty["t"] == "rec" and ty["name"] in self.prog.recs:
            o = self.default(ty, False)
            fn = self.prog.fns.get(e["key"])
            if fn is not None:
                root = ("tmp", self.fr.fid, ("ctor", self.nodeid(e)))
                st.cells[root] = o
                vals = []
                for i, a in enumerate(args):
                    pty = fn["params"][i]["ty"]
                    if pty["t"] == "ref":
                        vals.append(Ref(self.lv_or_tmp(a, st, ("arg", i, self.nodeid(e)))))
                    else:
                        vals.append(self.adapt(self.rv(a, st), pty, st))
                self.call_fn(st, fn, (root, ()), vals, e)
                return st.cells[root]
            return o
        return self.lib.construct(self, st, e)

    def e_InitList(self, e, st):
        ty = e["ty"]
        args = e["args"]
        if ty["t"] == "rec" and ty["name"] in self.prog.recs:
            o = self.default(ty, True)
            r = self.prog.recs[ty["name"]]
            ov = dict(o.ov)
            for f, a in zip(r["fields"], args):
                if a is not None:
                    ov[f["name"]] = self.init_value(a, f["ty"], st)
            return Obj(o.ty, None, ov)
        if ty["t"] == "arr":
            of = ty["of"]
            if of["t"] == "int" and of.get("char"):
                return EMPTY if not args or all(a.get("cv") == 0 for a in args) else Opq("chararr")
            vs = [("one", self.init_value(a, of, st)) for a in args]
            n = ty["n"] - len(vs)
            if n > 0:
                vs += [("one", self.default(of, True))] * n if n <= 64 else [("fill", Lin(n), self.default(of, True))]
            return Vec(tuple(vs))
        if ty["t"] in ("int", "bool", "float", "ptr", "enum"):
            return self.rv(args[0], st) if args else self.default(ty, True)
        if ty["t"] == "rec" and ty["name"] == "std::initializer_list":
            return Vec(tuple(("one", self.rv(a, st)) for a in args))
        return self.lib.init_list(self, st, e)

    def e_New(self, e, st):
        site = (self.nodeid(e), self.fr.fid)
        ks = tuple(l[1] for l in self.loops)
        root = ("new", site, ks)
        n = 1
        while self.unrolled and root in st.cells:
            # another turn of an unrolled loop: another object
            n += 1
            root = ("new", site + (n,), ks)
        of = e["of"]
        if e.get("array"):
            v = Vec((("fill", self.rv(e["size"], st), self.default(of, "init" in e)),))
            st.cells[root] = v
            return Ptr((root, (("i", Lin(0)),)))
        v = self.init_value(e["init"], of, st, this_root=root) if e.get("init") else self.default(of, False)
        st.cells[root] = v
        return Ptr((root, ()))

    def e_Delete(self, e, st):
        v = self.rv(e["e"], st)
        live = [(c, q) for c, q in phi_leaves(v) if not isinstance(q, Null)] if isinstance(v, Phi) else [(True, v)]
        for c, q in live:
            root = q.loc[0] if isinstance(q, Ptr) else ("sym", q.key) if isinstance(q, SPtr) else None
            if root is None:
                continue
            v0 = st.cells.get(root)
            if isinstance(q, SPtr) and q.key in self.dangling:
                self.oblige("use-after-free", st, f_not(f_and(c, ("a", ("b", ("freed", q.key))))), e)
            if v0 is None and isinstance(q, SPtr) and q.to is not None:
                v0 = self.mk(q.to, ("*", q.key))
            for cc, x in phi_leaves(v0) if isinstance(v0, Phi) else [(True, v0)]:
                if x == DELETED:
                    self.oblige("use-after-free", st, f_not(f_and(c, cc)), e)
            if isinstance(q, Ptr) and q.loc[0][0] != "new":
                self.emit("obl:free", st, (f_not(c), "object that was not allocated"), e)
            c = st.facts.simp(c)
            st.cells[root] = DELETED if c is True or v0 is None else Phi(c, DELETED, v0)
        return Opq("void")

    def e_Throw(self, e, st):
        self.emit("throw", st, ("throw", None), e)
        st.dead = True
        return Opq("dead")

    def e_UnknownExpr(self, e, st):
        raise AnalysisBroken("expression %s is not modelled (%s:%s)" % (e.get("cls"), self.cur[0], e.get("l")))

    def init_value(self, e, ty, st, this_root=None):
        if e["k"] == "Construct" and e.get("default") and ty and ty["t"] == "rec" and ty["name"] in self.prog.recs and e["key"] not in self.prog.fns:
            # value initialisation T() zero-fills only when written so; default construction does not
            return self.default(ty, False)
        v = self.rv(e, st)
        if ty:
            v = self.adapt(v, ty, st)
            if ty["t"] == "arr" and isinstance(v, CPtr):
                v = v.s
        return v

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fl):
        if s is None or st.dead:
            return
        if "l" in s:
            self.cur = (self.cur[0], s["l"])
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            # expression statements may come without wrapper
            raise AnalysisBroken("statement %s is not modelled (%s:%s)" % (s.get("cls", k), self.cur[0], s.get("l")))
        m(s, st, fl)

    def s_Block(self, s, st, fl):
        for x in s["b"]:
            if st.dead:
                return
            self.exec(x, st, fl)

    def s_Null(self, s, st, fl):
        pass

    def s_Expr(self, s, st, fl):
        e = s["e"]
        if e["k"] == "Lambda":
            return
        self.rv0(e, st)

    def s_Decl(self, s, st, fl):
        for d in s["d"]:
            self.declare(d, st)
            if st.dead:
                return

    def declare(self, d, st):
        ty = d["ty"]
        fid = self.fr.fid
        if d.get("static"):
            r = ("v", -1, d["id"])
            if r not in st.cells:
                self.fr.decl.discard(d["id"])
                st.cells[r] = self.mk(ty, ("static", d["id"])) if not d.get("const") else self.init_value(d["init"], ty, st)
            return
        root = ("v", fid, d["id"])
        self.vty[root] = ty
        if ty["t"] == "ref":
            if "init" in d:
                loc = self.lv_or_tmp(d["init"], st, ("decl", d["id"]))
                st.cells[root] = Ref(loc)
                self.fr.decl.add(d["id"])
            return
        if "init" in d:
            v = self.init_value(d["init"], ty, st)
            if isinstance(v, CPtr) and v.temp:
                self.emit("dangling", st, (False, d["name"]), d)
                v = CPtr(v.s, v.off)
        else:
            v = self.default(ty, False)
        self.fr.decl.add(d["id"])
        st.cells[root] = v

    def s_Return(self, s, st, fl):
        v = None
        if "e" in s:
            rt = self.fr.fn.get("ret")
            if rt and rt["t"] == "ref":
                v = Ref(self.lv_or_tmp(s["e"], st, ("ret", self.nodeid(s["e"]))))
            else:
                v = self.rv(s["e"], st)
                v = self.adapt(v, rt, st) if rt else v
        if st.dead:
            return
        fl.r.append((st.copy(), v))
        st.dead = True

    def s_Break(self, s, st, fl):
        fl.b.append(st.copy())
        st.dead = True

    def s_Continue(self, s, st, fl):
        fl.c.append(st.copy())
        st.dead = True

    def s_If(self, s, st, fl):
        if "init" in s:
            self.exec(s["init"], st, fl)
        if "cvar" in s:
            self.exec(s["cvar"], st, fl)
        c = self.cond(s["c"], st)
        if st.dead:
            return
        self.stats["branches"] += 1
        if c is True:
            self.exec(s["t"], st, fl)
            return
        if c is False:
            if s.get("e"):
                self.exec(s["e"], st, fl)
            return
        a, b = st.copy(), st
        b2 = st.copy()
        a.assume(c)
        b2.assume(f_not(c))
        if not a.dead:
            self.exec(s["t"], a, fl)
        if s.get("e") and not b2.dead:
            self.exec(s["e"], b2, fl)
        st.become(self.merge(a, b2)) if not (a.dead and b2.dead) else setattr(st, "dead", True)

    def branch(self, st, c, then):
        """run then(state) where c holds"""
        if c is True:
            then(st)
            return
        if c is False:
            return
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(f_not(c))
        if not a.dead:
            then(a)
        if a.dead and b.dead:
            st.dead = True
        else:
            st.become(self.merge(a, b))

    def s_Try(self, s, st, fl):
        self.try_depth = getattr(self, "try_depth", 0) + 1
        pre = st.copy()
        n = len(self.events)
        try:
            self.exec(s["b"], st, fl)
        finally:
            self.try_depth -= 1
        # events inside are caught; the handler runs from an unknown intermediate state
        caught = [ev for ev in self.events[n:] if ev.kind in ("throw", "obl:throw")]
        if caught:
            for ev in caught:
                ev.kind = "caught"
            for h in s["h"]:
                p2 = pre.copy()
                p2.assume(("a", ("opq", ("thrown", s.get("l")))))
                self.exec(h["b"], p2, fl)
                if st.dead:
                    st.become(p2)
                else:
                    st.assume(f_not(("a", ("opq", ("thrown", s.get("l"))))))
                    st.become(self.merge(p2, st))
                break

    def s_Switch(self, s, st, fl):
        if "init" in s:
            self.exec(s["init"], st, fl)
        v = self.rv(s["c"], st)
        body = s["b"]["b"] if s["b"]["k"] == "Block" else [s["b"]]
        flat = []
        labels = []
        for x in body:
            while x is not None and x["k"] in ("Case", "Default"):
                labels.append((x, len(flat)))
                x = x["b"]
            flat.append(x)
        conds = []
        for l, pos in labels:
            if l["k"] == "Case":
                conds.append((self.compare("==", v, self.rv(l["v"], st), l, st), pos))
        dpos = [pos for l, pos in labels if l["k"] == "Default"]
        conds.append((f_and(*[f_not(c) for c, _ in conds]), dpos[0] if dpos else len(flat)))
        outs = []
        for c, pos in conds:
            b = st.copy()
            b.assume(c)
            if b.dead:
                continue
            f2 = Flow()
            for x in flat[pos:]:
                if b.dead:
                    break
                self.exec(x, b, f2)
            outs.append(b)
            outs += f2.b
            fl.c += f2.c
            fl.r += f2.r
        m = self.merge_all(outs)
        if m is None:
            st.dead = True
        else:
            st.become(m)

    # ---- loops
    def s_For(self, s, st, fl):
        if "init" in s:
            self.exec(s["init"], st, fl)
        self.loop(s, st, fl,
                  (lambda z: self.cond(s["c"], z)) if "c" in s else (lambda z: True),
                  lambda z, f: self.exec(s["b"], z, f),
                  (lambda z: self.rv0(s["inc"], z)) if "inc" in s else (lambda z: None))

    def s_While(self, s, st, fl):
        def c(z):
            if "cvar" in s:
                self.exec(s["cvar"], z, Flow())
            return self.cond(s["c"], z)
        self.loop(s, st, fl, c, lambda z, f: self.exec(s["b"], z, f), lambda z: None)

    def s_Do(self, s, st, fl):
        f2 = Flow()
        self.exec(s["b"], st, f2)
        m = self.merge_all(([st.copy()] if not st.dead else []) + f2.c)
        fl.r += f2.r
        if m is None:
            st.dead = True
        else:
            st.become(m)
            self.loop(s, st, fl, lambda z: self.cond(s["c"], z), lambda z, f: self.exec(s["b"], z, f), lambda z: None)
        if f2.b:
            m = self.merge_all(f2.b + ([st.copy()] if not st.dead else []))
            st.become(m)

    def s_RangeFor(self, s, st, fl):
        r = s["range"]
        loc = self.lv_or_tmp(r, st, ("range", self.nodeid(s)))
        d = s["var"]
        ivar = ("v", self.fr.fid, "#i%d" % self.nodeid(s))
        st.cells[ivar] = Lin(0)
        root = ("v", self.fr.fid, d["id"])
        self.fr.decl.add(d["id"])

        def cond(z):
            n = self.lib.size_of(self, z, self.read(z, loc))
            return z.facts.simp(ge0(n - z.cells[ivar] - 1))

        def body(z, f):
            el = self.sub(loc, ("i", z.cells[ivar]))
            if d["ty"]["t"] == "ref":
                z.cells[root] = Ref(el)
            else:
                z.cells[root] = self.adapt(self.read(z, el), d["ty"], z)
            self.exec(s["b"], z, f)

        def inc(z):
            z.cells[ivar] = z.cells[ivar] + 1
        self.loop(s, st, fl, cond, body, inc)

    def loop(self, node, st, fl, cond, body, inc):
        if st.dead:
            return
        # ---- 1. unroll when every test is decided
        s = st.copy()
        f2 = Flow()
        brk = []
        rets = []
        ev0 = len(self.events)
        done = False
        n = 0
        while n <= UNROLL:
            s0 = s.copy()
            c = cond(s)
            if c is False or s.dead:
                done = True
                break
            if c is not True:
                break
            n += 1
            f3 = Flow()
            self.unrolled += 1
            try:
                body(s, f3)
            finally:
                self.unrolled -= 1
            brk += f3.b
            rets += f3.r
            m = self.merge_all(([s.copy()] if not s.dead else []) + f3.c)
            if m is None:
                s.dead = True
                done = True
                break
            s = m
            if brk or rets:
                # an exit that may or may not be taken: only continue while tests stay decided
                pass
            inc(s)
        if done:
            fl.r += rets
            m = self.merge_all(([s] if not s.dead else []) + brk)
            if m is None:
                st.dead = True
            else:
                st.become(m)
            return
        del self.events[ev0:]
        self.sym_loop(node, st, fl, cond, body, inc)

    def sym_loop(self, node, st, fl, cond, body, inc):
        nid = self.nodeid(node)
        lid = (nid, self.fr.fid)
        self.stats["loops"].add((self.cur[0], node.get("l")))
        ks = tuple(l[1] for l in self.loops)
        k = Lin.of(sym(("k", lid), 0, I31))
        kid = k.t[0][0]
        base = st
        base_pc = len(base.pc)
        ckey = lid
        carried = dict(self.carry_cache.get(ckey, {}))   # leaf -> kind
        # ---- 2. what does an iteration change?
        self.dry += 1
        try:
            for rounds in range(12):
                s0 = base.copy()
                s0.facts.set_range(((kid, 1),), 0, INF)
                self.install(s0, carried, lid, k, None)
                s = s0.copy()
                self.loops.append((lid, k, None))
                try:
                    c = cond(s)
                    s.assume(c)
                    f2 = Flow()
                    if not s.dead:
                        body(s, f2)
                    back = self.merge_all(([s.copy()] if not s.dead else []) + f2.c)
                    if back is not None:
                        inc(back)
                finally:
                    self.loops.pop()
                if back is None:
                    break
                new = []
                for root, v0 in s0.cells.items():
                    v1 = back.cells.get(root)
                    if v1 is None or v1 is v0 or root[0] in ("tmp", "ret"):
                        continue
                    self.diff((root, ()), v0, v1, carried, new)
                # symbolic objects first touched inside the loop
                for root, v1 in back.cells.items():
                    if root not in s0.cells and root[0] in ("sym", "g", "symarr"):
                        # initial value in the base state
                        v0 = self.root(base, root) if root[0] in ("sym", "g") else None
                        if v0 is not None:
                            self.diff((root, ()), v0, v1, carried, new)
                if not new:
                    break
                for leaf, kind in new:
                    carried[leaf] = kind
            else:
                raise AnalysisBroken("loop at %s:%s does not stabilise" % (self.cur[0], node.get("l")))
        finally:
            self.dry -= 1
        self.carry_cache[ckey] = dict(carried)
        if back is None:
            # the body never reaches its end: at most one iteration
            f2 = Flow()
            c = cond(st)
            a, b = st.copy(), st.copy()
            a.assume(c)
            b.assume(f_not(c))
            if not a.dead:
                body(a, f2)
            fl.r += f2.r
            m = self.merge_all(([b] if not b.dead else []) + f2.b)
            if m is None:
                st.dead = True
            else:
                st.become(m)
            return
        # ---- 3. classify
        cls, grow, gone = {}, {}, {}
        for leaf, kind in carried.items():
            v = uncast(self.read(back, leaf), back)
            if isinstance(v, Lin):
                # does it grow?
                grow[leaf] = grows(back, v, self.carry(kind, leaf, lid, k))
                grow[leaf, "end"] = bounded(back, v, self.carry(kind, leaf, lid, k))
            elif kind in ("str", "vec") and isinstance(v, (Str, Vec)):
                cv = self.carry(kind, leaf, lid, k)
                n = [pre_len(x) if isinstance(x, Str) else segs_len(x.segs) for x in (v, cv)]
                grow[leaf, "end"] = None not in n and within(back.facts, back.pc, n[0] - n[1], -INF, -1)
            cls[leaf] = self.classify(leaf, kind, v, self.carry(kind, leaf, lid, k), self.read(base, leaf))
            if kind == "ptr":
                from .cgen import sat
                gone[leaf] = any(sat(f_and(cc, freed(back.cells.get(q.loc[0] if isinstance(q, Ptr) else ("sym", q.key)))))
                                 for cc, q in (phi_leaves(v) if isinstance(v, Phi) else [(True, v)]) if isinstance(q, (Ptr, SPtr)))
        # ---- 4. final pass with inductions in closed form
        s0 = base.copy()
        for leaf in carried:
            self.read(s0, leaf)
        s0.facts.set_range(((kid, 1),), 0, INF)
        self.install(s0, carried, lid, k, cls, base)
        for leaf, kind in carried.items():
            x, y = self.read(base, leaf), self.read(s0, leaf)
            if kind == "int" and grow.get(leaf) is True and isinstance(x, Lin) and isinstance(y, Lin):
                s0.facts.assume(ge0(y - x))     # it only grows
        for leaf in gone:
            v = self.read(s0, leaf)
            if gone[leaf] and isinstance(v, SPtr):
                # an earlier turn may have deleted what it points to
                self.dangling.add(v.key)
        s = s0.copy()
        ev0 = len(self.events)
        rec = [lid, k, None]
        self.loops.append(rec)
        c = cond(s)
        if s.dead:
            self.loops.pop()
            st.dead = True
            return
        trip, rest = self.trip(c, k, kid, s, lid, ks)
        rec[2] = trip
        self.emit("loop", s, (trip, rest, lid, kid, grow), node)
        s_cond = s.copy()
        s.facts.assume(ge0(trip - k - 1))
        body_entry_pc = len(s.pc)
        if rest is not True:
            s.assume(rest)
        f2 = Flow()
        if not s.dead:
            body(s, f2)
        back = self.merge_all(([s.copy()] if not s.dead else []) + f2.c)
        if back is not None:
            inc(back)
        self.loops.pop()
        for ev in self.events[ev0:]:
            ev.loops = tuple(tuple(x) if isinstance(x, list) else x for x in ev.loops)
        # ---- 5. closed forms
        placeholders = {}
        final = {}
        vals = {}
        for leaf, kind in carried.items():
            vals[leaf] = self.read(back, leaf) if back is not None else self.read(s0, leaf)
        for leaf, kind in carried.items():
            if back is None:
                final[leaf] = lambda n, leaf=leaf: self.read(base, leaf)
                continue
            c2 = self.classify(leaf, kind, vals[leaf], self.installed(kind, leaf, lid, k, cls.get(leaf), self.read(base, leaf)), self.read(base, leaf), final=True)
            final[leaf] = self.closed(leaf, kind, cls[leaf] if cls[leaf][0] == "ind" else c2, self.read(base, leaf), lid, k, trip, ks, s0)
        # substitution that replaces placeholders of iteration x by closed forms
        def closer(x):
            h = {}
            for leaf, kind in carried.items():
                if cls[leaf][0] == "ind":
                    continue
                key = ("cy", lid, leaf, k)
                v = final[leaf](k)
                self.placeholder_entry(h, kind, key, v, x)
            return h
        hmap = closer(k)
        S0 = Subst({}, hmap)
        # twice: closed forms may mention other placeholders
        def close(v, at=None):
            for _ in range(3):
                w = S0.do(v)
                if w is v or w == v:
                    break
                v = w
            if at is not None:
                v = Subst({kid: at}).do(v)
            return v
        for ev in self.events[ev0:]:
            ev.data = close(ev.data)
            ev.pc = tuple(close(p) for p in ev.pc)
        # ---- 6. exits
        exits = []
        for b in f2.b:
            if not b.dead:
                exits.append((b, None, "b"))
        for b, v in f2.r:
            if not b.dead:
                exits.append((b, v, "r"))
        outs = []
        EX = False
        conds = []
        for b, v, kd in exits:
            ec = close(f_and(*b.pc[base_pc:]))
            conds.append(ec)
        if rest is not True:
            # leaving through an additional test of the loop condition
            b = s_cond.copy()
            b.facts.assume(ge0(trip - k - 1))
            b.assume(f_not(rest))
            if not b.dead:
                exits.append((b, None, "b"))
                conds.append(close(f_and(*b.pc[base_pc:])))
        anyexit = f_or(*conds)
        EX = exists(k, trip, anyexit) if exits else False
        # normal exit
        nrm = base.copy()
        for leaf in carried:
            self.write(nrm, leaf, final[leaf](trip))
        # heap cells and symbolic cells created inside
        if back is not None:
            for root, v in back.cells.items():
                if root not in nrm.cells and root[0] == "new":
                    nrm.cells[root] = close(v)
        endc = None
        if EX is not False:
            nrm.assume(f_not(EX))
        nrm_ok = not nrm.dead
        if nrm_ok:
            # the test is false at the end
            f = f_not(Subst({kid: trip}).do(close(c))) if c is not True else None
            if f is not None and EX is False:
                nrm.facts.assume(f) if f is not True and f is not False else None
            if c is True:
                nrm.dead = True   # only left through exits
            elif trip.t:
                nrm.facts.assume(ge0(trip))
        if not nrm.dead:
            outs.append(nrm)
        if exits:
            ks_ = Lin.of(sym(("first", canon_ex(k, anyexit), trip) + ((ks,) if not anyexit else ()), 0, I31))
            at = Subst({kid: ks_})
            rlist = []
            for (b, v, kd), ec in zip(exits, conds):
                z = base.copy()
                if EX is not True:
                    z.assume(EX)
                if z.dead:
                    continue
                z.facts.assume(ge0(ks_))
                z.facts.assume(ge0(trip - ks_ - 1))
                if len(exits) > 1:
                    z.assume(at.do(ec))
                else:
                    z.facts.assume(z.facts.simp(at.do(ec)))
                for leaf in carried:
                    self.write(z, leaf, close(self.read(b, leaf), ks_))
                # what only the leaving iteration changes
                extra = []
                for root, v1 in b.cells.items():
                    if root[0] in ("tmp", "ret"):
                        continue
                    if root in s0.cells:
                        v0 = s0.cells[root]
                    elif root[0] in ("sym", "g"):
                        v0 = self.root(base.copy(), root)
                    else:
                        continue
                    if v0 is not v1:
                        self.diff((root, ()), v0, v1, dict(carried), extra)
                for leaf, _ in extra:
                    self.write(z, leaf, close(self.read(b, leaf), ks_))
                for root, x in b.cells.items():
                    if root not in z.cells and root[0] == "new":
                        z.cells[root] = close(x, ks_)
                    elif root[0] in ("v",) and root not in z.cells:
                        z.cells[root] = close(x, ks_)
                if kd == "r":
                    fl.r.append((z, close(v, ks_) if v is not None else None))
                else:
                    outs.append(z)
        m = self.merge_all(outs)
        if m is None:
            st.dead = True
        else:
            st.become(m)

    def placeholder_entry(self, h, kind, key, v, x):
        if kind == "str":
            h[("H", key)] = v
        elif kind in ("vec", "set"):
            h[("cy", key)] = v.segs if isinstance(v, (Vec, SetV)) else (("opq", v),)
        elif kind == "bool":
            if is_f(v):
                h[("bool", key)] = v
        elif kind == "ptr":
            h[("ptr", key)] = v
        elif kind == "flt":
            h[("flt", key)] = v
        elif kind == "any":
            h[("opq", key)] = v
        elif kind == "int":
            pass

    def diff(self, loc, v0, v1, carried, out):
        if loc in carried:
            return
        if v0 is v1 or (type(v0) is type(v1) and v0 == v1):
            return
        if isinstance(v0, Obj) and isinstance(v1, Obj) and v0.ty == v1.ty and v0.key == v1.key:
            for f in set(v0.ov) | set(v1.ov):
                self.diff((loc[0], loc[1] + (("f", f),)), self.getfield(v0, f), self.getfield(v1, f), carried, out)
            return
        kind = self.kind(v1)
        k0 = self.kind(v0)
        if kind != k0 and not isinstance(v0, Undef):
            kind = "any" if {kind, k0} != {"ptr"} else "ptr"
        # a carried sub-location would be shadowed
        for l in list(carried):
            if l[0] == loc[0] and l[1][:len(loc[1])] == loc[1] and l != loc:
                del carried[l]
        out.append((loc, kind))

    def kind(self, v):
        if isinstance(v, Lin):
            return "int"
        if is_f(v):
            return "bool"
        if isinstance(v, Str):
            return "str"
        if isinstance(v, Vec):
            return "vec"
        if isinstance(v, SetV):
            return "set"
        if isinstance(v, (Ptr, SPtr, Null)):
            return "ptr"
        if isinstance(v, Phi) and all(isinstance(q, (Ptr, SPtr, Null)) for _, q in phi_leaves(v)):
            return "ptr"
        if isinstance(v, Flt):
            return "flt"
        if isinstance(v, Misc) and v.kind in ("it", "tokit"):
            return "it"
        return "any"

    def leaf_type(self, st, leaf):
        root, path = leaf
        if path and path[-1][0] == "f":
            p = self.read(st, (root, path[:-1]))
            return self.prog.field_type(p.ty, path[-1][1]) if isinstance(p, Obj) and not p.ty.startswith("std::") else None
        if path:
            return None
        if root[0] == "v":
            return self.vty.get(root)
        if root[0] == "g" and root[1] in self.prog.globals:
            return self.prog.globals[root[1]].get("ty")
        return None

    def carry(self, kind, leaf, lid, k, ty=None):
        key = ("cy", lid, leaf, k)
        if kind == "int":
            if ty is not None and ty["t"] == "int":
                if ty["signed"]:
                    return Lin.of(sym(key, -2 ** (ty["bits"] - 1), 2 ** (ty["bits"] - 1) - 1))
                return Lin.of(sym(key, 0, 2 ** ty["bits"] - 1))
            return Lin.of(sym(key))
        if kind == "bool":
            return ("a", ("b", key))
        if kind == "str":
            return hole(key)
        if kind == "vec":
            return Vec((("cy", key),))
        if kind == "set":
            return SetV((("cy", key),))
        if kind == "ptr":
            return SPtr(key, None)
        if kind == "flt":
            return Flt(key)
        return Opq(key)

    def installed(self, kind, leaf, lid, k, cl, init):
        if cl is not None and cl[0] == "ind":
            return init + k.scale(cl[1]) if kind == "int" else Misc(init.kind, *(init.d[:1] + (init.d[1] + k.scale(cl[1]),) + init.d[2:]))
        if kind == "it":
            return Opq(("cy", lid, leaf, k))
        return self.carry(kind, leaf, lid, k)

    def install(self, s, carried, lid, k, cls, base=None):
        for leaf, kind in carried.items():
            cur = self.read(base if base is not None else s, leaf)
            if kind == "it" and isinstance(cur, Misc) and cls is None:
                v = Misc(cur.kind, cur.d[0], Lin.of(sym(("cy", lid, leaf, k), 0, I31)), *cur.d[2:])
            elif cls is not None and cls[leaf][0] == "ind":
                v = self.installed(kind, leaf, lid, k, cls[leaf], cur)
            elif kind == "vec" and isinstance(cur, Vec):
                v = self.carry(kind, leaf, lid, k)
                lf = self._anyleaf(cur.segs)
                n = segs_len(cur.segs)
                if cls is not None and cls[leaf][0] == "store":
                    v = Vec((("cyn", ("cy", lid, leaf, k), n, self._vecty(cur)),)) if False else v
            else:
                v = self.carry(kind, leaf, lid, k, self.leaf_type(s, leaf) if kind == "int" else None)
                if kind == "int" and cls is not None and cls[leaf][0] == "mono":
                    pass
                if kind == "ptr" and isinstance(v, SPtr):
                    to = next((getattr(q, "to", None) for _, q in phi_leaves(cur) if isinstance(q, SPtr)), None)
                    v = SPtr(v.key, to)
            self.write(s, leaf, v)

    def classify(self, leaf, kind, v, cy, init, final=False):
        """('ind',delta) | ('app', tail) | ('ow', v) | ('cond', c, x) | ('store', ...) | ('opq',)"""
        if kind == "int" and isinstance(v, Lin):
            d = v - cy if isinstance(cy, Lin) else None
            if d is not None and d.is_const() and isinstance(init, Lin):
                return ("ind", d.c)
        if kind == "it" and isinstance(v, Misc):
            d = None
            if isinstance(init, Misc) and isinstance(v.d[1], Lin) and init.d[0] == v.d[0]:
                for i, c in v.d[1].t:
                    kk = Sym.byid[i].key
                    if isinstance(kk, tuple) and kk[0] == "cy":
                        d = v.d[1] - Lin.of(Sym.byid[i])
                if d is not None and d.is_const():
                    return ("ind", d.c)
                if isinstance(cy, Misc) and isinstance(cy.d[1], Lin):
                    d = v.d[1] - cy.d[1]
                    if d.is_const():
                        return ("ind", d.c)
            return ("opq",)
        if kind == "str" and isinstance(v, Str) and isinstance(cy, Str) and len(cy.segs) == 1:
            if v.segs and v.segs[0] == cy.segs[0]:
                tail = Str(v.segs[1:])
                if not mentions_key(tail, cy.segs[0][1]):
                    return ("app", tail)
                return ("apps", tail)
        if kind in ("vec", "set") and isinstance(v, (Vec, SetV)) and v.segs and isinstance(cy, (Vec, SetV)) and v.segs[0] == cy.segs[0]:
            if isinstance(v, Vec) and v.st:
                if len(v.segs) == 1:
                    return ("store", v.st)
                return ("opq",)
            return ("app", v.segs[1:])
        ck = self.cykey(kind, cy)
        if ck is not None and not mentions_key(v, ck):
            return ("ow", v)
        g = gated(v)
        if g is not None and ck is not None:
            c, a, b = g
            for cc, x, y in ((c, a, b), (f_not(c), b, a)):
                if y == cy and not mentions_key(x, ck) and not mentions_key(cc, ck):
                    return ("cond", cc, x)
        if kind == "bool" and is_f(v):
            # v = c or carry / c and carry
            if v[0] == "or" and cy in v[1]:
                r = f_or(*[g for g in v[1] if g != cy])
                if not mentions_key(r, ck):
                    return ("cond", r, True)
            if v[0] == "and" and cy in v[1]:
                r = f_and(*[g for g in v[1] if g != cy])
                if not mentions_key(r, ck):
                    return ("cond", f_not(r), False)
        return ("opq", v)

    def cykey(self, kind, cy):
        if isinstance(cy, Lin):
            return Sym.byid[cy.t[0][0]].key if len(cy.t) == 1 else None
        if isinstance(cy, Str):
            return cy.segs[0][1]
        if isinstance(cy, (Vec, SetV)):
            return cy.segs[0][1]
        if is_f(cy) and cy not in (True, False):
            return cy[1][1]
        if isinstance(cy, (SPtr, Flt)):
            return cy.key
        if isinstance(cy, Opq):
            return cy.why
        return None

    def closed(self, leaf, kind, cl, init, lid, k, trip, ks, s0):
        """function n -> value of the leaf before iteration n"""
        kid = k.t[0][0]
        t = cl[0]
        if t == "ind":
            if kind == "int":
                return lambda n: init + n.scale(cl[1])
            return lambda n: Misc(init.kind, *(init.d[:1] + (init.d[1] + n.scale(cl[1]),) + init.d[2:]))
        if t in ("app", "apps") and kind == "str":
            return lambda n: cat(init, mkstr((("R", lid, k, n, cl[1]),)))
        if t == "app":
            if not cl[1]:
                return lambda n: init
            def f(n):
                s = init.segs + (("loop", lid, k, n, cl[1]),)
                return Vec(s, init.st) if isinstance(init, Vec) else SetV(s)
            return f
        if t == "ow":
            def f(n):
                if isinstance(init, Undef):
                    return Subst({kid: n - 1}).do(cl[1])
                return ite(ge0(n - 1), Subst({kid: n - 1}).do(cl[1]), init)
            return f
        if t == "cond":
            def f(n):
                last = Lin.of(sym(("last", canon_ex(k, cl[1]), n), 0, I31))
                x = cl[2]
                x = Subst({kid: last}).do(x) if not isinstance(x, bool) else x
                return ite(exists(k, n, cl[1]), x, init)
            return f
        if t == "store":
            return lambda n: Vec(init.segs, init.st + (("loopst", lid, k, n, cl[1]),)) if isinstance(init, Vec) else Opq(("store", lid))
        # unknown: one symbol per iteration count
        def f(n):
            key = ("fin", lid, leaf, n, ks, init if not isinstance(init, Undef) else None)
            if kind == "int":
                return Lin.of(sym(key))
            if kind == "str":
                return hole(key)
            if kind == "bool":
                return ("a", ("b", key))
            if kind == "vec":
                CY_TYPES[("fin", lid, leaf)] = None
                return Vec((("cy", key),))
            if kind == "set":
                return SetV((("cy", key),))
            if kind == "ptr":
                return SPtr(key, None)
            if kind == "flt":
                return Flt(key)
            return Opq(key)
        return f

    def trip(self, c, k, kid, s, lid, ks, depth=4):
        """(number of iterations allowed by the counting part of the test, remaining test)"""
        if c is True:
            return Lin.of(sym(("inf", lid, ks), 0, INF)), True
        if c is False:
            return Lin(0), True
        cs = c[1] if c[0] == "and" else (c,)
        for i, g in enumerate(cs):
            neg = g[0] == "not"
            a = g[1] if neg else g
            if a[0] != "a" or a[1][0] not in ("ge", "eq"):
                continue
            ln = Lin(a[1][2], a[1][1])
            co = dict(ln.t).get(kid, 0)
            if not co or mentions(Lin(0, tuple((x, y) for x, y in ln.t if x != kid)), kid):
                continue
            at0 = Lin(ln.c, tuple((x, y) for x, y in ln.t if x != kid))
            if a[1][0] == "ge":
                if neg:           # ln < 0  <=>  -ln-1 >= 0
                    at0, co = -at0 - 1, -co
                if co >= 0:
                    continue
                d = -co           # holds while at0 - d*k >= 0
                if d == 1:
                    n = at0 + 1
                    lo, hi = s.facts.bound(n)
                    if lo < 0:
                        n = ite(s.facts.simp(ge0(n)), n, Lin(0))
                else:
                    lo, hi = s.facts.bound(at0)
                    if lo >= 0:
                        n = mk_div(at0, d, lo, hi) + 1
                    elif lo >= -d:
                        n = mk_div(at0 + d, d, lo + d, hi + d if hi != INF else INF)
                    else:
                        continue
            else:
                if not neg or abs(co) != 1:
                    continue
                n = at0.scale(-co)   # at0 + co*k == 0
                lo, hi = s.facts.bound(n)
                if lo < 0:
                    continue
            rest = f_and(*[x for j, x in enumerate(cs) if j != i])
            return n, rest
        # a test whose form depends on what the loop does not change
        if depth:
            for a in L.f_atoms(c):
                if a[1][0] not in ("ge", "eq") or not mentions(a, kid):
                    if mentions(a, kid) or s.facts.ask(a) is not None:
                        continue
                    r = []
                    for x in (a, f_not(a)):
                        s2 = s.copy()
                        s2.assume(x)
                        r.append(self.trip(s2.facts.simp(c), k, kid, s2, lid, ks, depth - 1) if not s2.dead else None)
                    if None in r:
                        break
                    for n, _ in r:
                        if n in (Lin.of(sym(("trip", lid, ks), 0, I31)), Lin.of(sym(("inf", lid, ks), 0, INF))):
                            break
                    else:
                        (n1, r1), (n2, r2) = r
                        return ite(a, n1, n2), L.f_ite(a, r1, r2)
                    break
        return Lin.of(sym(("trip", lid, ks), 0, I31)), c

    # ------------------------------------------------------------ entry
    def run(self, fn, st, this, args):
        self.frames.append(Frame({"name": "<entry>", "key": "<entry>", "file": None}, ("entry",), None))
        try:
            return self.call_fn(st, fn, this, args, None)
        finally:
            self.frames.pop()


def freed(v):
    """the condition under which an object was deleted"""
    return v is DELETED or isinstance(v, Phi) and f_or(*[c for c, x in phi_leaves(v) if x is DELETED])


class _D(Val):
    def __repr__(self):
        return "DELETED"


DELETED = _D()
BAD = Misc("bad", "null")
SYMTY = {}
CY_TYPES = {}
_tk = {}
_tk_rev = []


def _tkey(ty):
    import json
    s = json.dumps(ty, sort_keys=True)
    if s not in _tk:
        _tk[s] = len(_tk_rev)
        _tk_rev.append(ty)
    return "ty%d" % _tk[s]


def pair_ty(a, b):
    return "std::pair:%s:%s" % (_tkey(a), _tkey(b))


def _untkey(k):
    return _tk_rev[int(k[2:])]


def _sc(ch):
    c = ord(ch)
    return c if c < 128 else (c - 256 if c < 256 else 63)


def canon_loop_named(g):
    return g


def canon_ex(k, f):
    bv = Lin.of(sym(("bv", VV._depth(f)), 0, I31))
    return Subst({k.t[0][0]: bv}).do(f)


def ite_ptr(loc):
    if loc.kind == "philoc":
        a, b = loc.d[1], loc.d[2]
        return ite(loc.d[0], ite_ptr(a) if isinstance(a, Misc) else Ptr(a), ite_ptr(b) if isinstance(b, Misc) else Ptr(b))
    return Opq(("addr", loc))


def uncast(v, st):
    """a conversion that changes nothing, with what is known after the test of the loop"""
    if isinstance(v, Lin) and len(v.t) == 1:
        i, c = v.t[0]
        k = Sym.byid[i].key
        if isinstance(k, tuple) and k and k[0] == "cast" and isinstance(k[3], Lin):
            if within(st.facts, st.pc, k[3], Sym.byid[i].lo, Sym.byid[i].hi):
                return k[3].scale(c) + v.c
    return v


def grows(st, v, cv):
    v = uncast(v, st)
    if not isinstance(cv, Lin):
        return False
    x = expand_ite(v - cv)
    if x:
        a, b = st.copy(), st.copy()
        a.assume(x[0])
        b.assume(f_not(x[0]))
        return (a.dead or grows(a, cv + x[1], cv)) and (b.dead or grows(b, cv + x[2], cv))
    return within(st.facts, st.pc, v - cv, 1, INF)


def pre_len(s):
    if len(s.segs) == 1 and s.segs[0][0] == "H" and isinstance(s.segs[0][1], tuple) and s.segs[0][1][0] == "pre":
        return s.segs[0][1][2]
    return str_len(s)


def bounded(st, v, cv):
    """a counter that moves one way without leaving the range of its type"""
    if not isinstance(cv, Lin) or len(cv.t) != 1:
        return False
    s = Sym.byid[cv.t[0][0]]
    v = uncast(v, st)
    if not within(st.facts, st.pc, v, s.lo, s.hi) or s.lo == -INF or s.hi == INF:
        return False
    return grows(st, v, cv) or grows(st, -v, -cv)


def within(facts, pc, x, lo, hi, depth=2):
    a, b = facts.bound(x)
    if a >= lo and b <= hi:
        return True
    if not depth:
        return False
    for q in reversed(pc):
        if not isinstance(q, tuple) or q[0] not in ("and", "or") or fsize(q) > 12:
            continue
        for at in L.f_atoms(q):
            if at[1][0] in ("ge", "eq") or facts.ask(at) is not None:
                continue
            for y in (at, f_not(at)):
                f = facts.copy()
                f.assume(y)
                for z in pc:
                    f.assume(z)
                if not f.contradiction and not within(f, pc, x, lo, hi, depth - 1):
                    return False
            return True
    return False


def phi_leaves(v, c=True):
    if isinstance(v, Phi):
        return phi_leaves(v.a, f_and(c, v.c)) + phi_leaves(v.b, f_and(c, f_not(v.c)))
    return [(c, v)]


def callees(f):
    out = set()

    def v(n):
        if n["k"] in ("Call", "MCall", "OpCall", "Construct") and n.get("key"):
            out.add(n["key"])
    walk(f["body"], v)
    for i in f.get("inits", []):
        walk(i, v)
    return out


def recursive_fns(prog):
    """functions that can call themselves"""
    g = {k: [c for c in callees(f) if c in prog.fns] for k, f in prog.fns.items() if f.get("body")}
    rec = set()
    for k in g:
        seen, todo = set(), list(g[k])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += g.get(x, [])
        if k in seen:
            rec.add(k)
    return rec


def own_fields(prog, fn):
    """members of the own object mentioned by the function or by methods of its class it calls"""
    seen, todo, out = set(), [fn["key"]], []
    while todo:
        k = todo.pop()
        if k in seen or k not in prog.fns:
            continue
        seen.add(k)
        f = prog.fns[k]
        if f.get("cls") != fn.get("cls"):
            continue

        def v(n):
            if n["k"] == "Member" and n["base"]["k"] == "This" and n["field"] not in out:
                out.append(n["field"])
        walk(f["body"], v)
        todo += list(callees(f))
    return sorted(out)


def writes_param(prog, fn, pid, seen=None):
    """can the function change this reference parameter (conservative)"""
    seen = seen or set()
    if (fn["key"], pid) in seen:
        return False
    seen.add((fn["key"], pid))
    ok = [True]
    res = [False]

    def rec(n, safe):
        if isinstance(n, list):
            for x in n:
                rec(x, False)
            return
        if not isinstance(n, dict):
            return
        if n.get("k") == "Ref" and n.get("id") == pid and not safe:
            res[0] = True
        if n.get("k") in ("Call", "MCall") and n.get("key") in prog.fns:
            g = prog.fns[n["key"]]
            for a, p in zip(n["args"], g["params"]):
                if a.get("k") == "Ref" and a.get("id") == pid:
                    if p["ty"]["t"] == "ref" and not p["ty"].get("const") and writes_param(prog, g, p["id"], seen):
                        res[0] = True
                else:
                    rec(a, False)
            if n["k"] == "MCall":
                rec(n.get("obj"), False)
            return
        if n.get("k") == "OpCall" and n.get("cm"):
            for a in n["args"]:
                rec(a, True)
            return
        if n.get("k") == "MCall" and n.get("mconst"):
            rec(n.get("obj"), True)
            rec(n.get("args"), False)
            return
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k not in ("ty", "rty"):
                rec(v, False)
    rec(fn["body"], False)
    return res[0]


_FS = {}


def fsize(f):
    if f is True or f is False:
        return 0
    if f[0] == "a":
        return 1
    if f[0] == "not":
        return fsize(f[1])
    r = _FS.get(f)
    if r is None:
        r = _FS[f] = sum(fsize(g) for g in f[1])
    return r


def same_cells(a, b):
    if len(a.cells) != len(b.cells):
        return False
    for k, v in a.cells.items():
        if b.cells.get(k) is not v:
            return False
    return True


def gated(v):
    """(c, a, b) of a value that is a choice"""
    if isinstance(v, Phi):
        return v.c, v.a, v.b
    if isinstance(v, Lin):
        e = expand_ite(v)
        return e
    if isinstance(v, Str) and len(v.segs) == 1 and v.segs[0][0] == "I":
        return v.segs[0][1], v.segs[0][2], v.segs[0][3]
    if is_f(v) and v[0] == "or" and len(v[1]) == 2:
        # (c and x) or (not c and y)
        a, b = v[1]
        for g in (a[1] if a[0] == "and" else (a,)):
            n = f_not(g)
            bs = b[1] if b[0] == "and" else (b,)
            if n in bs:
                return g, f_and(*[z for z in (a[1] if a[0] == "and" else (a,)) if z != g]), f_and(*[z for z in bs if z != n])
    return None


def mentions_key(x, key):
    """does placeholder `key` occur in x"""
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            if y == key:
                return True
            if len(y) == 3 and y[0] in ("ge", "eq") and isinstance(y[1], tuple) and (not y[1] or isinstance(y[1][0], tuple)):
                for i, _ in y[1]:
                    if i not in seen:
                        seen.add(i)
                        stack.append(Sym.byid[i].key)
                continue
            stack.extend(z for z in y if not isinstance(z, (str, int)))
        elif isinstance(y, Lin):
            for i, _ in y.t:
                if i not in seen:
                    seen.add(i)
                    stack.append(Sym.byid[i].key)
        elif isinstance(y, Str):
            stack.append(y.segs)
        elif isinstance(y, Vec):
            stack.append(y.segs)
            stack.append(y.st)
        elif isinstance(y, SetV):
            stack.append(y.segs)
        elif isinstance(y, Obj):
            stack.append(y.key)
            stack.extend(y.ov.values())
        elif isinstance(y, Phi):
            stack.extend((y.c, y.a, y.b))
        elif isinstance(y, (Ptr, Ref)):
            stack.append(y.loc)
        elif isinstance(y, (SPtr, Flt)):
            stack.append(y.key)
        elif isinstance(y, CPtr):
            stack.append(y.s)
        elif isinstance(y, Misc):
            stack.append(y.d)
        elif isinstance(y, Opq):
            stack.append(y.why)
    return False


# ------------------------------------------------------------ derived integer terms
def mk_bits(x, lo, n):
    """bits lo..lo+n-1 of a non-negative term"""
    if x.is_const():
        return Lin((x.c >> lo) & ((1 << n) - 1))
    a, b = Facts().bound(x)
    if a >= 0 and b != INF and a >> lo == b >> lo:
        return Lin((a >> lo) & ((1 << n) - 1))
    if lo == 0 and a >= 0 and b != INF and a >> n == b >> n:
        return x - ((a >> n) << n)
    if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        s = Sym.byid[x.t[0][0]]
        if lo == 0 and s.lo >= 0 and s.hi < (1 << n):
            return x
        if isinstance(s.key, tuple) and s.key[0] == "bits":
            _, y, l2, n2 = s.key
            if lo >= n2:
                return Lin(0)
            return mk_bits(y, l2 + lo, min(n, n2 - lo))
        if isinstance(s.key, tuple) and s.key[0] == "cast" and lo + n <= s.key[1] and not s.key[2]:
            a = s.key[3]
            if Facts().bound(a)[0] >= 0:
                return mk_bits(a, lo, n)
        if isinstance(s.key, tuple) and s.key[0] == "ite":
            return ite(s.key[1], mk_bits(s.key[2], lo, n), mk_bits(s.key[3], lo, n))
    # drop addends that are multiples of 2^(lo+n) / combine single bit field scale
    if x.c == 0 and len(x.t) == 1:
        i, c = x.t[0]
        s = Sym.byid[i]
        if c & (c - 1) == 0 and c > 1:
            sh = c.bit_length() - 1
            if sh >= lo + n:
                return Lin(0)
            if sh <= lo:
                return mk_bits(Lin.of(s), lo - sh, n)
    return Lin.of(sym(("bits", x, lo, n), 0, (1 << n) - 1))


def mk_div(a, d, lo, hi):
    """floor(a / d)"""
    # split multiples
    q = Lin(a.c // d, tuple((i, c // d) for i, c in a.t if c % d == 0))
    r = Lin(a.c % d, tuple((i, c) for i, c in a.t if c % d != 0))
    if not r.t:
        return q
    f = Facts()
    l2, h2 = f.bound(r)
    if l2 >= 0 and h2 < d:
        return q
    if l2 != -INF and h2 != INF and l2 // d == h2 // d:
        return q + l2 // d
    # the range and the facts hold for every value (rounded down)
    s = sym(("div", r, d), l2 // d if l2 != -INF else -INF, h2 // d if h2 != INF else INF)
    x = Lin.of(s)
    body = r - x.scale(d)
    b = body.t
    neg = False
    if b and b[0][1] < 0:
        b = tuple((i, -c) for i, c in b)
        neg = True
    # 0 <= r - d*q <= d-1   (body + const)
    lo_, hi_ = -body.c, d - 1 - body.c
    if neg:
        lo_, hi_ = -hi_, -lo_
    L.DEF_FACTS[b] = (lo_, hi_)
    return q + x


SYM_REBUILD["bits"] = lambda k, o: mk_bits(k[1], k[2], k[3])


def _rb_div(k, o):
    if isinstance(k[2], int):
        f = Facts()
        lo, hi = f.bound(k[1])
        if k[1].is_const() and k[1].c >= 0:
            return Lin(k[1].c // k[2])
        return mk_div(k[1], k[2], max(lo, 0), hi)
    return None


SYM_REBUILD["div"] = _rb_div


def _rb_cast(k, o):
    _, bits, sg, v = k
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    a, b = Facts().bound(v)
    if a >= lo and b <= hi:
        return v
    return None


SYM_REBUILD["cast"] = _rb_cast


def _rb_len(k, o):
    if isinstance(k[1], tuple) and k[1] and k[1][0] in ("L", "H", "N", "C", "F", "I", "R", "T") and not isinstance(k[1][0], Lin):
        return None
    return None


SYM_REBUILD["len"] = _rb_len
