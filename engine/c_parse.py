"""The reading of the DBC file: DbcScanner::TrimDbcText interpreted on abstract files.

A file is a sequence of template lines: fixed text and variable parts (names, numbers, texts) that stand for every text
over their set of characters; numbers are symbols with a range.  The interpretation yields the message list with every
field as a term over the variable parts; it is compared with what the DBC rules say for that sequence of lines."""
import itertools, json, os, signal, sys, traceback
from . import interp, lib, genrun, model, rx, values as VV, lin as L
from .values import *
from .lin import Lin, Facts, ge0, eq0, f_and, f_or, f_not, Sym, sym
from .c_tree import first_atom, resolve
from .model import AnalysisBroken
from .c_eff import reg as _reg

CHECKS = {}

DIG = frozenset("0123456789")
ALPHA = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
PRINT = frozenset(chr(c) for c in range(32, 127))
TEXT = frozenset(chr(c) for c in range(33, 127)) - frozenset('"\\_;<>:')      # free text without white space at the ends
LOWER = frozenset("abcdefghijklmnopqrstuvwxyz")
UNIT = PRINT - frozenset('"')
BYTES = frozenset(chr(c) for c in range(33, 256)) - frozenset('"\\_;<>:\x7f')
BIG = (1 << 63) - 1
LIMIT = int(os.environ.get("VERIF_LIMIT", "150"))
JOBS = max(2, min(8, os.cpu_count() or 2))
STD = (0, 0x1FFFFFFF)
EXT = (0x80000000, 0x9FFFFFFF)


def H(n, cs=None, mn=1, **k):
    key = ("dbc", n)
    VV.HOLE_META[key] = dict(cs=IDENT if cs is None else cs, min=mn, **k)
    return VV.hole(key)


def N(n, lo=0, hi=BIG):
    """digits of a number in a range"""
    return H(n, DIG, 1, num=(lo, hi))


def T(*p):
    return VV.cat(*[VV.lit(x) if isinstance(x, str) else x for x in p])


def val(n):
    """number written by the variable part n"""
    m = VV.HOLE_META[("dbc", n)]["num"]
    lo, hi = max(m[0], -(1 << 63)), min(m[1], (1 << 63) - 1)
    return Lin.of(sym(("ato", ("dbc", n), 10), lo, hi))


class Undecided(Exception):
    pass


class Scan:
    """result of reading one abstract file"""
    def __init__(self, P, lines, facts=()):
        self.P = P
        self.lines = lines
        I = self.I = genrun.start(P)
        fn = P.fn("DbcScanner::TrimDbcText")
        ctor = [f for f in P.fns.values() if f["name"] == "DbcScanner::DbcScanner" and not f["params"]]
        st = self.st = interp.St()
        SC, SM = ("h", "scanner"), ("h", "strm")
        st.cells[SC] = I.default({"t": "rec", "name": "DbcScanner", "args": []}, False)
        st.cells[SM] = lib.new_stream("std::basic_istream")
        lines = [build(x) for x in lines]
        self.built = lines
        for x in (facts() if callable(facts) else facts):
            st.assume(x)
        if st.dead:
            raise AnalysisBroken("the assumptions of an abstract file contradict each other")
        self.starts = 0

        def h_getline(I, st, e):
            loc = I.lv_or_tmp(e["args"][0], st, ("obj", I.nodeid(e)))
            dst = I.lv(e["args"][1], st)
            n = lib.stf(I, st, loc, "lines")
            if not (isinstance(n, Lin) and n.is_const()):
                raise AnalysisBroken("the number of lines read is not known (%s:%s)" % (I.cur[0], e.get("l")))
            if len([a for a in e["args"] if not a.get("defarg")]) > 2 and I.rv(e["args"][2], st) != Lin(10):
                raise AnalysisBroken("lines are not read up to line ends (%s:%s)" % (I.cur[0], e.get("l")))
            end = n.c >= len(lines)
            I.write(st, dst, EMPTY if end else lines[n.c])
            lib.stw(I, st, loc, "lines", n if end else n + 1)
            lib.stw(I, st, loc, "bad", end)
            return Ref(loc)
        I.hooks["getline"] = h_getline
        old = interp.UNROLL
        interp.UNROLL = 80
        try:
            if ctor:
                I.run(ctor[0], st, (SC, ()), [])
            I.run(fn, st, (SC, ()), [Ref((SM, ()))])
        finally:
            interp.UNROLL = old
        if st.dead:
            raise AnalysisBroken("reading does not return")
        self.dl = st.cells[SC].ov["dblist"]

    def field(self, o, f):
        return self.I.getfield(o, f)

    def items(self, v, facts):
        """elements of a list whose length is known under the facts"""
        if isinstance(v, Phi):
            c = facts.simp(v.c)
            if c is True or c is False:
                return self.items(v.a if c else v.b, facts)
            raise Undecided(v.c)
        if not isinstance(v, Vec):
            raise Undecided("list " + vshow(v)[:120])
        out = []

        def rec(segs):
            for g in segs:
                if g[0] == "one":
                    out.append(g[1])
                elif g[0] == "if":
                    c = facts.simp(g[1])
                    if c is True or c is False:
                        rec(g[2] if c else g[3])
                    else:
                        raise Undecided(g[1])
                elif g[0] == "fill" and isinstance(g[1], Lin):
                    n = resolve(g[1], facts)
                    if not n.is_const():
                        raise Undecided(g[1])
                    out.extend([g[2]] * n.c)
                elif g[0] == "perm":
                    k = len(out)
                    rec(g[2])
                    if len(out) > k + 1:
                        raise Undecided("order of sorted elements")
                else:
                    raise Undecided("part of a list of unknown length")
        rec(v.segs)
        def writes(st):
            for w in st:
                if len(w) == 4:
                    c = facts.simp(w[1])
                    if c is not True and c is not False:
                        raise Undecided(w[1])
                    writes(w[2] if c else w[3])
                    continue
                i, x = w
                k = resolve(i, facts) if isinstance(i, Lin) else i
                if not isinstance(k, Lin) or not k.is_const():
                    raise Undecided("list element written at %s" % vshow(k)[:100])
                if not 0 <= k.c < len(out):
                    raise Undecided("list element written out of range")
                out[k.c] = x
        writes(v.st)
        return out

    def value(self, v, facts):
        a = first_atom(v, facts)
        if a is not None:
            raise Undecided(a)
        r = resolve(v, facts)
        if isinstance(r, Flt):
            r = flt(r, facts)
        if isinstance(r, tuple) and VV.is_f(r) or r is True or r is False:
            f = facts.simp(r)
            if f is True or f is False:
                return f
            raise Undecided(f)
        return r

    def deref(self, p, facts):
        while isinstance(p, Phi):
            c = facts.simp(p.c)
            if c is not True and c is not False:
                raise Undecided(p.c)
            p = p.a if c else p.b
        if isinstance(p, Null):
            return None
        if isinstance(p, Ptr):
            return self.I.read(self.st, p.loc)
        raise Undecided("message pointer %s" % vshow(p)[:100])

    def messages(self, facts):
        out = []
        for p in self.items(self.field(self.dl, "msgs"), facts):
            m = self.deref(p, facts)
            while isinstance(m, Phi):
                c = facts.simp(m.c)
                if c is not True and c is not False:
                    raise Undecided(m.c)
                m = m.a if c else m.b
            out.append((p, m))
        return out


def flt(v, facts):
    k = v.key
    if isinstance(k, tuple) and k and k[0] == "ite":
        c = facts.simp(k[1])
        if c is True or c is False:
            return flt(k[2] if c else k[3], facts)
        raise Undecided(k[1])
    return v


def build(x):
    return x if isinstance(x, Str) else T(*x) if isinstance(x, (list, tuple)) else T(x)


def same(a, b, facts):
    if isinstance(b, bool):
        if isinstance(a, Lin):
            a = facts.simp(f_not(VV.eq0(a)))
        return a is b
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = a - b
        if d.is_const():
            return d.c == 0
        return facts.simp(VV.eq0(d)) is True
    if isinstance(a, bool) and isinstance(b, Lin):
        return b == Lin(1 if a else 0)
    if isinstance(a, Str) and isinstance(b, Str):
        return a == b or facts.simp(lib.streq(a, b)) is True
    if isinstance(a, CPtr):
        return same(a.s, b, facts)
    return a == b


# ---- template lines and what they mean
class M:
    """message header i"""
    def __init__(self, i, rng=STD, dlc=(1, 64), tx=True):
        self.i, self.rng, self.dlcr, self.tx = i, rng, dlc, tx

    def line(self):
        i = self.i
        return T("BO_ ", N("id%d" % i, *self.rng), " ", H("name%d" % i), ": ", N("dlc%d" % i, *self.dlcr), *((" ", H("tx%d" % i)) if self.tx else ()))

    def expect(self):
        i = self.i
        ext = self.rng[0] >= 0x80000000
        return {"Name": H("name%d" % i), "MsgID": val("id%d" % i) - (0x80000000 if ext else 0), "DLC": val("dlc%d" % i), "IsExt": ext,
                "Cycle": Lin(0), "CommentText": EMPTY, "RollSig": None, "CsmSig": None, "CsmMethod": EMPTY, "TranS": [H("tx%d" % i)] if self.tx else [],
                "RecS": [], "Signals": [], "hasPhys": False, "frameNotEmpty": False}


SIGF = {  # order, sign, factor, offset, min, max -> flags
    "plain": ("1", "+", "1", "0", "0", "0"),
    "motorola": ("0", "-", "1", "0", "-7", "12.5"),
    "unsigned motorola": ("0", "+", "1", "0", "0", "0"),
    "scaled": ("1", "-", "4", "-3", "-100", "100"),
    "offset": ("0", "+", "1", "7", "0", "9"),
    "real": ("1", "+", "0.25", "0", "0", "1"),
    "exp": ("1", "+", "1E-3", "0", "0", "1"),
    "expl": ("1", "+", "2e2", "0", "0", "1"),
    "realoff": ("0", "-", "1", "0.5", "0", "1"),
    "expoff": ("0", "-", "1", "5E1", "0", "1"),
    "neg": ("1", "-", "-1", "0", "0", "1"),
}


class S:
    """signal i of a message"""
    def __init__(self, i, form="plain", sb=(0, 511), ln=(1, 64), mux="", recs=2, unit=UNIT, name=None):
        self.i, self.form, self.sb, self.ln, self.mux, self.recs, self.unit, self.name = i, form, sb, ln, mux, recs, unit, name

    def nm(self):
        return H("sig%d" % self.i) if self.name is None else self.name

    def line(self):
        i = self.i
        o, s, f, of, mn, mx = SIGF[self.form]
        mux = {"": "", "M": " M", "m": " m"}[self.mux]
        return T(" SG_ ", self.nm(), mux, N("mx%d" % i) if self.mux == "m" else "", " : ", N("sb%d" % i, *self.sb), "|", N("len%d" % i, *self.ln), "@", o, s,
                 " (", f, ",", of, ") [", mn, "|", mx, "] \"", H("unit%d" % i, self.unit, 0), "\" ",
                 *itertools.chain(*[((",", " , ", ", ")[j % 3] if j else "", H("rec%d_%d" % (i, j))) for j in range(self.recs)]))

    def expect(self):
        i = self.i
        o, s, f, of, mn, mx = SIGF[self.form]
        dbl = any(c in x for c in ".eE" for x in (f, of))
        simple = not dbl and float(f) == 1 and float(of) == 0
        n = self.nm()
        return {"Name": n if simple else T(n, "_ro"), "NameFloat": EMPTY if simple else T(n, "_phys"), "StartBit": val("sb%d" % i), "LengthBit": val("len%d" % i),
                "IsDoubleSig": dbl, "IsSimpleSig": simple, "Factor": Flt(("fc", float(f))), "Offset": Flt(("fc", float(of))),
                "Order": Lin(self.enum("BitLayout", "kIntel" if o == "1" else "kMotorolla")), "Signed": s == "-",
                "MinValue": Flt(("fc", float(mn))), "MaxValue": Flt(("fc", float(mx))), "Unit": H("unit%d" % i, self.unit, 0),
                "RecS": [H("rec%d_%d" % (i, j)) for j in range(self.recs)], "CommentText": EMPTY, "ValueText": EMPTY,
                "Multiplex": Lin(self.enum("MultiplexType", {"": "kNone", "M": "kMaster", "m": "kMulValue"}[self.mux])), "vpairs": []}

    def enum(self, en, name):
        for c in S.P.enums.get(en, {}).get("consts", ()):
            if c["name"] == name:
                return c["v"]
        raise AnalysisBroken("constant %s of %s not found" % (name, en))


class Raw:
    """a line that is no definition of its own"""
    def __init__(self, *p):
        self.p = p

    def line(self):
        return T(*[x() if callable(x) else x for x in self.p])


def fresh(P):
    """the variable parts of a scenario are made before the interpretation, with fresh symbols"""
    genrun.start(P)


class Judge:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.n = 0
        self.run = []
        self.res = []

    def scan(self, key, rule, items, facts=()):
        S.P = self.P
        self.n += 1
        self.c.count("abstract files")
        return Scan(self.P, [lambda_line(x) for x in items], facts)

    def check(self, key, rule, items, expect, facts=(), only=None, extra=None):
        """the message list read from the lines equals the expected one under the facts; scenarios are independent, each is interpreted
        in a process of its own"""
        self.n += 1
        self.c.count("abstract files")
        while len(self.run) >= JOBS:
            self.join()
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            os.close(w)
            self.run.append((pid, r, len(self.res)))
            self.res.append((key, rule, None))
            return
        out = ("broken", "internal error")
        def late(*_):
            if os.environ.get("VERIF_TRACE"):
                traceback.print_stack(limit=40)
            raise AnalysisBroken("not decided in %d s" % LIMIT)
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, late)
            signal.alarm(LIMIT)
            S.P = self.P
            s = Scan(self.P, [lambda_line(x) for x in items], facts)
            e = self.compare(s, expect(s) if callable(expect) else expect, mkfacts(facts() if callable(facts) else facts), only, extra)
            out = ("ok", (e or "") and "%s; lines: %s" % (e, " / ".join(sshow(x) for x in s.built)[:300]))
        except AnalysisBroken as x:
            out = ("broken", "%s: %s" % (key, x))
        except BaseException:
            traceback.print_exc()
        finally:
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
            sys.stderr.flush()
            os._exit(0)

    def join(self):
        pid, r, k = self.run.pop(0)
        with os.fdopen(r) as f:
            t = f.read()
        os.waitpid(pid, 0)
        self.res[k] = self.res[k][:2] + (json.loads(t) if t else ["broken", "a worker ended early"],)

    def done(self):
        while self.run:
            self.join()
        broken = None
        for key, rule, (kind, text) in self.res:
            if kind == "ok":
                self.c.ob(key, rule, text == "", "src/parser/dbcscanner.cpp (DbcScanner::TrimDbcText)", text)
            else:
                broken = broken or text
        self.res = []
        if broken:
            raise AnalysisBroken(broken)

    def compare(self, s, exp, facts, only=None, extra=None):
        try:
            ms = s.messages(facts)
        except Undecided as u:
            return "the list of messages depends on %s" % ush(u)
        if len(ms) != len(exp):
            return "%d message(s) are kept, expected %d" % (len(ms), len(exp))
        for k, ((p, m), x) in enumerate(zip(ms, exp)):
            if not isinstance(m, Obj):
                return "message %d: %s" % (k + 1, vshow(m)[:100])
            e = self.fields(s, m, x, facts, only, "message %d" % (k + 1), p)
            if e:
                return e
        if extra:
            try:
                return extra(s, facts)
            except Undecided as u:
                return "depends on %s" % ush(u)
        return None

    def fields(self, s, o, x, facts, only, what, ptr):
        for f, v in x.items():
            if only is not None and f not in only and f != "Signals":
                continue
            try:
                if f == "vpairs":
                    got = s.items(s.field(s.field(o, "ValDefs"), "vpairs"), facts)
                else:
                    got = s.field(o, f)
                if f == "Signals":
                    gs = s.items(got, facts)
                    if len(gs) != len(v):
                        return "%s: %d signal(s), expected %d" % (what, len(gs), len(v))
                    for k, (g, y) in enumerate(zip(gs, v)):
                        while isinstance(g, Phi):
                            c = facts.simp(g.c)
                            if c is not True and c is not False:
                                raise Undecided(g.c)
                            g = g.a if c else g.b
                        e = self.fields(s, g, y, facts, only, "%s signal %d" % (what, k + 1), None)
                        if e:
                            return e
                    continue
                if f in ("RollSig", "CsmSig"):
                    e = self.sigptr(s, got, v, facts, ptr)
                    if e:
                        return "%s: %s %s" % (what, f, e)
                    continue
                if isinstance(v, list):
                    gs = s.items(got, facts) if f != "vpairs" else got
                    if len(gs) != len(v):
                        return "%s: %s has %d element(s), expected %d" % (what, f, len(gs), len(v))
                    for g, y in zip(gs, v):
                        if isinstance(y, tuple) and len(y) == 2 and not VV.is_f(y):
                            for z, fld in zip(y, ("first", "second")):
                                g1 = s.value(s.field(g, fld), facts)
                                if not (z(g1) if callable(z) else same(g1, z, facts)):
                                    return "%s: %s %s is %s, expected %s" % (what, f, fld, vshow(g1)[:120], "another value" if callable(z) else vshow(z)[:120])
                            continue
                        g1 = s.value(g, facts)
                        if not same(g1, y, facts):
                            return "%s: %s is %s, expected %s" % (what, f, vshow(g1)[:120], vshow(y)[:120])
                    continue
                got = s.value(got, facts)
            except Undecided as u:
                return "%s: %s depends on %s" % (what, f, ush(u))
            if callable(v):
                if not v(got):
                    return "%s: %s is %s" % (what, f, vshow(got)[:160])
            elif not same(got, v, facts):
                return "%s: %s is %s, expected %s" % (what, f, vshow(got)[:120], vshow(v)[:120] if not isinstance(v, bool) else v)
        return None

    def sigptr(self, s, got, v, facts, ptr):
        while isinstance(got, Phi):
            c = facts.simp(got.c)
            if c is not True and c is not False:
                raise Undecided(got.c)
            got = got.a if c else got.b
        if v is None:
            return None if isinstance(got, Null) else "is set"
        if not isinstance(got, Ptr):
            return "is not set"
        while isinstance(ptr, Phi):
            ptr = ptr.a if facts.simp(ptr.c) is True else ptr.b
        want = s.I.sub(s.I.sub(ptr.loc, ("f", "Signals")), ("i", Lin(v)))
        if got.loc[0] == want[0] and len(got.loc[1]) == len(want[1]) == 2 and got.loc[1][0] == want[1][0] and resolve(got.loc[1][1][1], facts) == Lin(v):
            return None
        return "points to another signal: %s" % vshow(got)[:100]


def ush(u):
    x = u.args[0]
    return (L.fshow(x) if not isinstance(x, str) else x)[:200]


def mkfacts(fs):
    f = Facts()
    for x in fs:
        f.assume(x)
    return f


def lambda_line(x):
    return x.line() if hasattr(x, "line") else build(x)


def program(c):
    P = model.load()
    S.P = P
    return P


from . import c_gen


def check(prop):
    def deco(f):
        g = c_gen.check(prop)(f)
        CHECKS[prop] = c_gen.CHECKS.pop(prop)
        return g
    return deco


def fold(ms):
    """expected message list from [(M, [S ...])]"""
    out = []
    for m, ss in ms:
        x = m.expect()
        es = [(s, s.expect()) for s in ss]
        order = sorted(range(len(ss)), key=lambda k: ss[k].sb[0])
        x["Signals"] = [es[k][1] for k in order]
        x["frameNotEmpty"] = bool(ss)
        x["hasPhys"] = any(not e["IsSimpleSig"] for _, e in es)
        if ss:
            x.pop("RecS")
        out.append(x)
    return out


# identifier ranges, aligned to the reserved bits 29 and 30
IDS_OK = (("standard", STD), ("extended", EXT))
IDS_BAD = tuple(("reserved bits %d" % k, (k << 29, ((k + 1) << 29) - 1)) for k in (1, 2, 3, 5, 6, 7)) + (
    ("above 32 bits", (1 << 32, BIG)),)
DLC_OK = (("1..64", (1, 64)),)
DLC_BAD = (("zero", (0, 0)), ("65..255", (65, 255)), ("256..", (256, 256 + 64)), ("above 32 bits", (1 << 32, BIG)))


def bad_headers():
    out = []
    for n, r in IDS_BAD:
        out.append(("identifier " + n, lambda i, r=r: M(i, r)))
    for n, r in DLC_BAD:
        out.append(("length " + n, lambda i, r=r: M(i, STD, r)))
    out += [("negative identifier", lambda i: Raw("BO_ -", N("id%d" % i, 1), " ", H("name%d" % i), ": ", N("dlc%d" % i, 1, 8), " ", H("tx%d" % i))),
            ("negative length", lambda i: Raw("BO_ ", N("id%d" % i, *STD), " ", H("name%d" % i), ": -", N("dlc%d" % i, 1, 8), " ", H("tx%d" % i))),
            ("no length", lambda i: Raw("BO_ ", N("id%d" % i, *STD), " ", H("name%d" % i), ":")),
            ("no length and colon", lambda i: Raw("BO_ ", N("id%d" % i, *STD), " ", H("name%d" % i))),
            ("no name", lambda i: Raw("BO_ ", N("id%d" % i, *STD))),
            ("nothing", lambda i: Raw("BO_ x"))]
    return out


SB_BAD = (("start above 511", dict(sb=(512, 65535))), ("start above 16 bits", dict(sb=(65536, 65536 + 511))), ("start above 32 bits", dict(sb=(1 << 32, BIG))),
          ("length zero", dict(ln=(0, 0))), ("length above 64", dict(ln=(65, 255))), ("length above 8 bits", dict(ln=(256, 256 + 64))),
          ("length above 32 bits", dict(ln=(1 << 32, BIG))))


def bad_signals():
    out = [(n, lambda i, k=k: S(i, "plain", **k)) for n, k in SB_BAD]
    sg = lambda i: [" SG_ ", H("sig%d" % i)]
    out += [("negative start", lambda i: Raw(*sg(i), " : -", N("sb%d" % i, 1), "|", N("len%d" % i, 1, 64), '@1+ (1,0) [0|0] "" ', H("rec%d_0" % i))),
            ("negative length", lambda i: Raw(*sg(i), " : ", N("sb%d" % i, 0, 511), "|-", N("len%d" % i, 1), '@1+ (1,0) [0|0] "" ', H("rec%d_0" % i))),
            ("no body", lambda i: Raw(*sg(i))),
            ("no name", lambda i: Raw(" SG_ : ", N("sb%d" % i, 0, 511), "|", N("len%d" % i, 1, 64), '@1+ (1,0) [0|0] "" ', H("rec%d_0" % i))),
            ("no limits", lambda i: Raw(*sg(i), " : ", N("sb%d" % i, 0, 511), "|", N("len%d" % i, 1, 64), '@1+ (1,0) "" ', H("rec%d_0" % i))),
            ("no factor and limits", lambda i: Raw(*sg(i), " : ", N("sb%d" % i, 0, 511), "|", N("len%d" % i, 1, 64), '@1+ "" ', H("rec%d_0" % i))),
            ("no unit", lambda i: Raw(*sg(i), " : ", N("sb%d" % i, 0, 511), "|", N("len%d" % i, 1, 64), '@1+ (1,0) [0|0]')),
            ("no receivers", lambda i: Raw(*sg(i), " : ", N("sb%d" % i, 0, 511), "|", N("len%d" % i, 1, 64), '@1+ (1,0) [0|0] ""'))]
    return out


OTHER = [lambda: Raw(), lambda: Raw("BU_: ", H("n1"), " ", H("n2")), lambda: Raw("NS_ :"), lambda: Raw("\tNS_DESC_"), lambda: Raw("BS_:"),
         lambda: Raw("VAL_TABLE_ ", H("vt"), " 0 \"", H("d1", TEXT), "\" ;"), lambda: Raw("EV_ ", H("ev"), ": 0 [0|1] \"\" 0 1 DUMMY_NODE_VECTOR0 Vector__XXX;"),
         lambda: Raw("BA_DEF_ BO_ \"", H("at"), "\" INT 0 100;"), lambda: Raw("SIG_GROUP_ ", N("sgid"), " ", H("sg"), " 1 : ", H("s"), ";"),
         lambda: Raw("SIG_VALTYPE_ ", N("svid"), " ", H("svs"), " : 1;"), lambda: Raw("BA_DEF_DEF_ \"", H("at"), "\" 0;"), lambda: Raw("   ")]


def spread(n):
    """disjoint start bit ranges; later signals may lie before earlier ones"""
    order = [2, 0, 3, 1, 5, 4, 7, 6]
    return [(order[k % 8] * 8 + 64 * (k // 8), order[k % 8] * 8 + 64 * (k // 8) + 7) for k in range(n)]


def seq_file(kinds, seed=0):
    """lines and kept definitions of a sequence of kinds: M good message, B bad message, S good signal, s bad signal, o other"""
    bh, bs = bad_headers(), bad_signals()
    forms = list(SIGF)
    lines, kept = [], []
    cur = None
    places = spread(len(kinds))
    for k, x in enumerate(kinds):
        i = k + 1
        if x == "M":
            m = M(i, *((STD,) if (seed + k) % 3 else (EXT,)))
            lines.append(m)
            cur = (m, [])
            kept.append(cur)
        elif x == "B":
            lines.append(bh[(seed + k) % len(bh)][1](i))
            cur = None
        elif x == "S":
            s = S(i, forms[(seed + k) % len(forms)], sb=places[k], mux=("", "M", "m")[(seed + k) % 3], recs=1 + (seed + k) % 3)
            lines.append(s)
            if cur is not None:
                cur[1].append(s)
        elif x == "s":
            lines.append(bs[(seed + k) % len(bs)][1](i))
        elif x == "o":
            lines.append(OTHER[(seed + k) % len(OTHER)]())
    return lines, kept


MSGF = ("Name", "MsgID", "DLC", "IsExt", "Signals", "TranS", "frameNotEmpty", "hasPhys", "RecS", "Cycle", "RollSig", "CsmSig")


@check("C13")
def c13(c):
    """Every kind of message header and signal line is read on its own (all values of every range at once), then in sequences of good and bad
    definitions; the kept definitions and their fields are compared with what the file says."""
    P = program(c)
    J = Judge(c, P)
    tail = [S(9, "plain", sb=(500, 511))]
    # ---- headers
    for n, r in IDS_OK:
        for d, dr in DLC_OK:
            m = M(1, r, dr)
            J.check("message %s, length %s" % (n, d), "a message in range is kept with the values of the file", [m] + tail, lambda s: fold([(m, tail)]))
    m2 = M(1, STD, (1, 64), tx=False)
    J.check("message without transmitter", "a message in range is kept with the values of the file", [m2], lambda s: fold([(m2, [])]))
    sp = Raw("BO_ ", N("id1", *STD), "  ", H("name1"), " :  ", N("dlc1", 1, 64), "   ", H("tx1"))
    J.check("message with other spacing", "a message in range is kept with the values of the file", [sp], lambda s: fold([(M(1), [])]))
    for n, mk in bad_headers():
        # a good message before and after; signals of the bad one belong to nobody
        a, b, sa, sb = M(2), M(3), S(4, sb=(0, 7)), S(5, sb=(8, 15))
        bad = mk(1)
        J.check("message dropped: " + n, "a message definition out of range or with missing parts is dropped and leaves the others untouched",
                [a, sa, bad] + tail + [b, sb], lambda s: fold([(a, [sa]), (b, [sb])]))
    # ---- signals
    for f in SIGF:
        for mux in ("", "M", "m"):
            m, s1 = M(1), S(2, f, mux=mux)
            J.check("signal %s %s" % (f, mux), "a signal in range is kept with the values of the file", [m, s1], lambda s: fold([(m, [s1])]))
    # numbers of any spelling keep their value
    for fn, fo in (("factor", '("F",0)'), ("offset", '(1,"F")')):
        for kind, cs in (("digits", DIG), ("decimal", None)):
            m = M(1)
            num = H("num", DIG, 1) if cs else T(H("ni", DIG, 1), ".", H("nf", DIG, 1))
            a, b = fo.split('"F"')
            ln = Raw(" SG_ ", H("sig2"), " : ", N("sb2", 0, 511), "|", N("len2", 1, 64), "@1+ ", a, num, b, ' [0|0] "" ', H("rec2_0"))

            def numeric(s, facts, num=num, fn=fn):
                (p, o), = s.messages(facts)
                for sg in s.items(s.field(o, "Signals"), facts):
                    v = s.field(sg, "Factor" if fn == "factor" else "Offset")
                    want = Flt(("atof", num))
                    leaves = set()
                    collect_flt(v.key if isinstance(v, Flt) else v, leaves)
                    if want.key not in leaves:
                        return "%s is not the number in the file: %s" % (fn, vshow(v)[:200])
                    other = {x for x in leaves if x != want.key and x != ("fc", 1.0 if fn == "factor" else 0.0)}
                    if other:
                        return "%s can be another number: %s" % (fn, vshow(v)[:200])
                return None
            s = J.scan("", "", [m, ln])
            try:
                e = numeric(s, mkfacts(()))
            except (Undecided, ValueError) as u:
                e = "the signal is not kept always: %s" % (ush(u) if isinstance(u, Undecided) else u)
            c.ob("signal %s written as %s" % (fn, kind), "the %s is the number written in the file (or 1 and 0 for numbers too small)" % fn, e is None, "src/parser/dbclineparser.cpp (ParseSignalLine)", e or "")
    alts = [("no spaces at the colon", [" SG_ ", H("sig2"), ":", N("sb2", 0, 511), "|", N("len2", 1, 64), '@1+ (1,0) [0|0] "', H("unit2", UNIT, 0), '" ', H("rec2_0")]),
            ("more spaces", ["  SG_   ", H("sig2"), "  :  ", N("sb2", 0, 511), "|", N("len2", 1, 64), '@1+  (1,0)  [0|0]   "', H("unit2", UNIT, 0), '"   ', H("rec2_0"), "  "]),
            ("tab", ["\tSG_ ", H("sig2"), " : ", N("sb2", 0, 511), "|", N("len2", 1, 64), '@1+ (1,0) [0|0] "', H("unit2", UNIT, 0), '" ', H("rec2_0")]),
            ("carriage return", [" SG_ ", H("sig2"), " : ", N("sb2", 0, 511), "|", N("len2", 1, 64), '@1+ (1,0) [0|0] "', H("unit2", UNIT, 0), '" ', H("rec2_0"), "\r"])]
    for n, p in alts:
        m, s1 = M(1), S(2, "plain", recs=1)
        J.check("signal with other spacing: " + n, "a signal in range is kept with the values of the file", [m, Raw(*p)], lambda s: fold([(m, [s1])]))
    for n, mk in bad_signals():
        m, a, b = M(1), S(3, sb=(16, 23)), S(4, "scaled", sb=(0, 7))
        J.check("signal dropped: " + n, "a signal definition out of range or with missing parts is dropped and leaves the others untouched",
                [m, a, mk(2), b], lambda s: fold([(m, [a, b])]))
    # ---- sequences
    depth = 4 if c.tier == "thorough" else 3
    for n in range(1, depth + 1):
        for q, kinds in enumerate(itertools.product("MBSso", repeat=n)):
            if n >= 3 and "M" not in kinds and "B" not in kinds:
                continue
            lines, kept = seq_file(kinds, q)
            J.check("sequence %s" % "".join(kinds), "every good definition is kept once, in its message, in any sequence of good and bad definitions",
                    lines, lambda s: fold(kept), only=MSGF + ("StartBit", "Name", "LengthBit"))
    for q, kinds in enumerate(("MSSMSSBSsS", "MSsSoMoSBoSMS", "BSMSBSMSsMs")):
        lines, kept = seq_file(kinds, q)
        J.check("sequence %s" % kinds, "every good definition is kept once, in its message, in any sequence of good and bad definitions", lines, lambda s: fold(kept))
    # ---- many of everything
    RM = "every good definition is kept once, however many there are"
    m, a = M(1), S(2, recs=14)
    J.check("fourteen receivers of a signal", RM, [m, a], lambda s: fold([(m, [a])]))
    nr = 12
    m, ss = M(1), [S(10 + k, ("plain", "scaled", "unsigned motorola")[k % 3], sb=q, recs=1) for k, q in enumerate(spread(nr))]
    J.check("%d signals of a message" % nr, RM, [m] + ss, lambda s: fold([(m, ss)]), only=MSGF + ("StartBit", "Name", "LengthBit"))
    ms = [(M(k, *((STD,) if k % 2 else (EXT,))), [S(20 + k, recs=1)] if k % 3 else []) for k in range(1, 11)]
    J.check("ten messages", RM, [l for q, zs in ms for l in [q] + zs], lambda s: fold(ms), only=MSGF + ("StartBit", "Name", "LengthBit"))
    # ---- receivers of a message
    for eq in (True, False):
        m, a, b = M(1), S(2, sb=(0, 7), recs=1), S(3, sb=(8, 15), recs=1)

        def fs():
            e = lib.streq(H("rec2_0"), H("rec3_0"))
            return [e if eq else f_not(e)]

        def ex(s):
            x = fold([(m, [a, b])])[0]
            x["RecS"] = [H("rec2_0")] if eq else [H("rec2_0"), H("rec3_0")]
            return [x]
        J.check("receivers of a message, %s" % ("equal" if eq else "different"), "the receivers of a message are the receivers of its signals, each once", [m, a, b], ex, fs)
    J.done()
    c.need(J.n, "abstract files", 60)


def collect_flt(k, out):
    if isinstance(k, Flt):
        k = k.key
    if isinstance(k, tuple) and k and k[0] == "ite":
        collect_flt(k[2], out)
        collect_flt(k[3], out)
    elif isinstance(k, Phi):
        collect_flt(k.a, out)
        collect_flt(k.b, out)
    else:
        out.add(k)


# ---------------------------------------------------------------------------- annotations
def ne(a, b):
    return f_not(VV.eq0(a - b))


def sne(a, b):
    e = lib.streq(a, b)
    return f_not(e)


class Scene:
    """two messages with three signals; the annotations of a scenario refer to them or to nothing"""
    def __init__(self, r1=STD, r2=STD, forms=("plain", "scaled", "plain"), same_name=False, place=None):
        place = place or ((16, 23), (0, 7), (8, 15))
        self.m1, self.m2 = M(1, r1), M(2, r2)
        self.s = [S(3, forms[0], sb=place[0], ln=(1, 64)), S(4, forms[1], sb=place[1]), S(5, forms[2], sb=place[2], name=H("sig3") if same_name else None)]
        self.lines = [self.m1, self.s[0], self.s[1], self.m2, self.s[2]]
        self.same = same_name
        self.std = r1 == r2

    def facts(self):
        a, b, c = [x.nm() for x in self.s]
        f = [sne(a, b)]
        if not self.same:
            f += [sne(a, c), sne(b, c)]
        if self.std:
            f.append(ne(val("id1"), val("id2")))
        return f

    def expect(self):
        return fold([(self.m1, self.s[:2]), (self.m2, self.s[2:])])

    def sig(self, ex, k):
        """expected signal k in the expected list, its message and its place"""
        mi = 0 if k < 2 else 1
        want = self.s[k].sb
        for j, e in enumerate(ex[mi]["Signals"]):
            if e["StartBit"] == val("sb%d" % self.s[k].i):
                return ex[mi], e, j
        raise AnalysisBroken("scene")


# identifiers an annotation can give: (name, text, number of the message or None, facts)
def ids(sc, none=True):
    out = [("the first message", lambda: N("id1", *sc.m1.rng), 0, lambda: []), ("the second message", lambda: N("id2", *sc.m2.rng), 1, lambda: [])]
    if none:
        for n, r in (("another standard frame", STD), ("another extended frame", EXT)):
            def fs(r=r):
                f = []
                for m, i in ((sc.m1, 1), (sc.m2, 2)):
                    if m.rng == r:
                        f.append(ne(val("aid"), val("id%d" % i)))
                return f
            out.append(("nothing: " + n, lambda r=r: N("aid", *r), None, fs))
        for k, r in IDS_BAD:
            out.append(("nothing: identifier " + k, lambda r=r: N("aid", *r), None, lambda: []))
        out.append(("nothing: negative identifier", lambda: T("-", N("aid", 1)), None, lambda: []))
        for m, i, o in ((sc.m1, 1, "standard"), (sc.m2, 2, "extended")):
            if sc.m1.rng != sc.m2.rng:
                # the number of the frame with the other format
                out.append(("nothing: number of the %s frame in the other format" % o, lambda m=m, i=i: ("other", i), None, lambda: []))
    return out


def names(sc):
    """signal names an annotation can give: (name, text, signal per message, facts)"""
    def other():
        return [sne(H("an"), H("sig%d" % i)) for i in ((3, 4) if sc.same else (3, 4, 5))] + [
            sne(H("an"), T(H("sig%d" % i), "_ro")) for i in ((3, 4) if sc.same else (3, 4, 5))]
    out = [("the first signal", lambda: H("sig3"), {0: 0, 1: 2} if sc.same else {0: 0}, lambda: []),
           ("the second signal", lambda: H("sig4"), {0: 1}, lambda: []),
           ("another name", lambda: H("an"), {}, other)]
    if not sc.same:
        out.append(("the signal of the second message", lambda: H("sig5"), {1: 2}, lambda: []))
    return out


def n_ro(sc):
    # the name of a generated field is not a name of a signal
    return [("the generated name of the second signal", lambda: T(H("sig4"), "_ro"), {}, lambda: [sne(T(H("sig4"), "_ro"), H("sig%d" % i)) for i in (3, 5)] + [
        sne(T(H("sig4"), "_ro"), T(H("sig%d" % i), "_ro")) for i in (3, 5)])]


def a_comment(idt, nm):
    return [Raw("CM_ BO_ ", idt, " \"", H("text", TEXT), "\";")]


def a_sigcomment(idt, nm):
    return [Raw("CM_ SG_ ", idt, " ", nm, " \"", H("text", TEXT), "\";")]


def a_values(idt, nm):
    return [Raw("VAL_ ", idt, " ", nm, " ", N("v1", 0, 1000), " \"", H("d1", IDENT), "\" ", N("v2", 0, 0xFFFFFFFF), " \"", H("d2", IDENT), "\" ;")]


def a_cycle(idt, nm):
    return [Raw("BA_ \"GenMsgCycleTime\" BO_ ", idt, " ", N("cyc", 1, 65535), ";")]


def a_tx(idt, nm):
    return [Raw("BO_TX_BU_ ", idt, " : ", H("n1"), ",", H("n2"), ";")]


def a_roll(idt, nm):
    return [Raw("CM_ SG_ ", idt, " ", nm, " \"", H("text", TEXT), "<RollingCounter>\";")]


def a_csm(idt, nm):
    return [Raw("CM_ SG_ ", idt, " ", nm, " \"", H("text", TEXT), " <Checksum:", H("meth", ALPHA), ":", N("op", 0, 255), ">\";")]


def e_comment(sc, ex, mi, si):
    ex[mi]["CommentText"] = H("text", TEXT)


def e_sigcomment(sc, ex, mi, si):
    sc.sig(ex, si)[1]["CommentText"] = H("text", TEXT)


def e_values(sc, ex, mi, si):
    s = sc.sig(ex, si)[1]
    s["ValueText"] = T(" ", N("v1", 0, 1000), " : \"", H("d1"), "\"\n ", N("v2", 0, 0xFFFFFFFF), " : \"", H("d2"), "\"")
    s["vpairs"] = [(lambda v: isinstance(v, Str), val("v1")), (lambda v: isinstance(v, Str), val("v2"))]


def e_cycle(sc, ex, mi, si):
    ex[mi]["Cycle"] = val("cyc")


def e_tx(sc, ex, mi, si):
    ex[mi]["TranS"] = ex[mi]["TranS"] + [H("n1"), H("n2")]


def e_roll(sc, ex, mi, si):
    m, s, j = sc.sig(ex, si)
    s["CommentText"] = T(H("text", TEXT), "<RollingCounter>")
    m["RollSig"] = j


def e_csm(sc, ex, mi, si):
    m, s, j = sc.sig(ex, si)
    s["CommentText"] = T(H("text", TEXT), " <Checksum:", H("meth", ALPHA), ":", N("op", 0, 255), ">")
    if s["IsSimpleSig"] and not s["Signed"]:
        m["CsmSig"] = j
        m["CsmMethod"] = H("meth", ALPHA)
        m["CsmOp"] = val("op")


def e_csmtext(sc, ex, mi, si):
    sc.sig(ex, si)[1]["CommentText"] = T(H("text", TEXT), " <Checksum:", H("meth", ALPHA), ":", N("op", 0, 255), ">")


UNRELATED = (
    ("comment of a node", lambda i: [["CM_ BU_ ", H("node", ALPHA), " \"", H("text", TEXT), "\";"]]),
    ("comment of an environment variable", lambda i: [["CM_ EV_ ", H("ev", ALPHA), " \"", H("text", TEXT), "\";"]]),
    ("comment of the network", lambda i: [["CM_ \"", H("text", TEXT), "\";"]]),
    ("comment without a text", lambda i: [["CM_ BO_ ", i, ";"]]),
    ("comment of a signal without a name", lambda i: [["CM_ SG_ ", i, " \"", H("text", TEXT), "\";"]]),
    ("other attribute of a message", lambda i: [["BA_ \"", H("at"), "\" BO_ ", i, " ", N("av"), ";"]]),
    ("attribute of a signal", lambda i: [["BA_ \"", H("at"), "\" SG_ ", i, " ", H("sig3"), " ", N("av"), ";"]]),
    ("cycle time of a signal", lambda i: [["BA_ \"GenMsgCycleTime\" SG_ ", i, " ", H("sig3"), " ", N("av"), ";"]]),
    ("cycle time of a node", lambda i: [["BA_ \"GenMsgCycleTime\" BU_ ", H("node", ALPHA), " ", i, ";"]]),
    ("cycle time of the network", lambda i: [["BA_ \"GenMsgCycleTime\" ", i, ";"]]),
    ("definition of the cycle time", lambda i: [["BA_DEF_ BO_ \"GenMsgCycleTime\" INT 0 ", i, ";"]]),
    ("default of the cycle time", lambda i: [["BA_DEF_DEF_ \"GenMsgCycleTime\" ", i, ";"]]),
    ("values of an environment variable", lambda i: [["VAL_ ", H("ev", ALPHA), " 0 \"", H("d1", ALPHA), "\" 1 \"", H("d2", ALPHA), "\" ;"]]),
    ("value table without a signal", lambda i: [["VAL_TABLE_ ", H("vt", ALPHA), " 0 \"", H("d1", ALPHA), "\" ;"]]),
    ("value table without the end", lambda i: [["VAL_ ", i, " ", H("sig3"), " 0 \"", H("d1", ALPHA), "\""]]),
    ("value table with a part missing", lambda i: [["VAL_ ", i, " ", H("sig3"), " 0 \"", H("d1", ALPHA), "\" 1 ;"]]),
    ("transmitters without a node", lambda i: [["BO_TX_BU_ ", i, " :;"]]),
    ("group of signals", lambda i: [["SIG_GROUP_ ", i, " ", H("sg", ALPHA), " 1 : ", H("sig3"), ";"]]),
    ("value type of a signal", lambda i: [["SIG_VALTYPE_ ", i, " ", H("sig3"), " : 1;"]]),
)


def txfacts():
    f = [sne(H("n1"), H("n2"))]
    for i in (1, 2):
        f += [sne(H("n1"), H("tx%d" % i)), sne(H("n2"), H("tx%d" % i))]
    return f


ANN = (("message comment", a_comment, e_comment, False), ("signal comment", a_sigcomment, e_sigcomment, True), ("value table", a_values, e_values, True),
       ("cycle time", a_cycle, e_cycle, False), ("further transmitters", a_tx, e_tx, False), ("rolling counter mark", a_roll, e_roll, True), ("checksum mark", a_csm, e_csm, True))
R_REACH = "an annotation changes exactly the message or signal it names"
R_NONE = "an annotation that names no known message or signal changes nothing"


@check("C12")
def c12(c):
    """Every kind of annotation with every way its identifier and name can (not) match is read after two messages; the message list is compared
    with the one without the annotation plus the change of the named message or signal."""
    P = program(c)
    J = Judge(c, P)
    n = 0
    for scn, mk in (("two standard frames", lambda: Scene()), ("a standard and an extended frame", lambda: Scene(STD, EXT, ("scaled", "motorola", "real"))),
                    ("an extended and a standard frame, equal signal names", lambda: Scene(EXT, STD, ("exp", "plain", "scaled"), True))):
        S.P = P
        sc = mk()
        for kind, a, e, bysig in ANN:
            if bysig and kind == "checksum mark":
                for k in range(3):
                    sc.s[k].sb, sc.s[k].ln = ((16, 16), (0, 0), (8, 8))[k], (1, 1)
            for idn, idt, mi, idf in ids(sc):
                todo = names(sc) + (n_ro(sc) if scn == "two standard frames" and mi is not None else []) if bysig else [("", lambda: EMPTY, {}, lambda: [])]
                if bysig and mi is None and c.tier == "quick":
                    todo = todo[:1]
                for nn, nt, who, nf in todo:
                    n += 1

                    def fs():
                        f = sc.facts() + idf() + nf()
                        if kind == "further transmitters":
                            f += txfacts()
                        if other is not None:
                            o = Lin.of(sym(("ato", ("dbc", "aid"), 10), 0, BIG))
                            f += [VV.eq0(o - val("id%d" % other[0]) - other[1]), ne(o, val("id%d" % (3 - other[0])))]
                        return f
                    t = idt()
                    other = None
                    if isinstance(t, tuple):
                        i = t[1]
                        ext = (sc.m1, sc.m2)[i - 1].rng == EXT
                        t = N("aid", *(STD if ext else EXT))
                        other = (i, -0x80000000 if ext else 0x80000000)
                    si = who.get(mi) if bysig else None
                    hit = mi is not None and (si is not None or not bysig)

                    def ex(s):
                        x = sc.expect()
                        if hit:
                            e(sc, x, mi, si)
                        return x
                    J.check("%s of %s%s; %s" % (kind, idn, (", " + nn) if nn else "", scn), R_REACH if hit else R_NONE, sc.lines + a(t, nt()), ex, fs)
    # ---- a checksum lies in one byte
    spots = [(16, 8), (19, 5), (20, 5), (16, 9), (39, 1), (31, 2), (23, 8), (20, 4)]
    if c.tier == "thorough":
        spots = [(a, b) for a in range(16, 24) for b in range(1, 11)]
    for form in ("plain", "unsigned motorola"):
        for sb, ln in spots:
            sc = Scene(forms=(form, "scaled", "plain"))
            sc.s[0].sb, sc.s[0].ln = (sb, sb), (ln, ln)
            end = sb + ln - 1 if form == "plain" else sb - ln + 1
            ok = end // 8 == sb // 8

            def ex(s):
                x = sc.expect()
                (e_csm if ok else e_csmtext)(sc, x, 0, 0)
                return x
            J.check("checksum mark of a %s signal, start %d, length %d" % (form, sb, ln), "a checksum mark is taken for unsigned plain signals that lie in one byte",
                    sc.lines + a_csm(N("id1", *STD), H("sig3")), ex, sc.facts)
    # ---- what is no annotation of a message or signal
    for scn, mk in (("standard", lambda: Scene()), ("mixed", lambda: Scene(EXT, STD, ("scaled", "plain", "real")))):
        for k, (n1, ls) in enumerate(UNRELATED):
            sc = mk()
            i1 = N("id1", *sc.m1.rng)
            J.check("%s; %s" % (n1, scn), "text that is no annotation of a message or signal changes none", sc.lines + [Raw(*l) for l in ls(i1)], lambda s: sc.expect(),
                    lambda: sc.facts() + [sne(H("at"), T("GenMsgCycleTime"))])
    # ---- several annotations
    sc = Scene()
    al = []
    for k, (kind, a, e, bysig) in enumerate(ANN):
        if kind == "checksum mark":
            continue
        sc2 = k % 2
        al.append((a, e, sc2, (2 if sc2 else k // 2 % 2)))

    def exall(s):
        x = sc.expect()
        for a, e, mi, si in al:
            e(sc, x, mi, si)
        return x
    lines = []
    for a, e, mi, si in al:
        lines += a(N("id%d" % (mi + 1), *STD), H("sig%d" % (3 + si)))
    J.check("annotations of every kind, mixed", R_REACH, sc.lines + lines, exall, lambda: sc.facts() + txfacts())
    sc = Scene(STD, EXT)
    J.check("two comments of one message", "the last annotation of a kind counts", sc.lines + [Raw("CM_ BO_ ", N("id1", *STD), " \"", H("t0", TEXT), "\";")] + a_comment(N("id1", *STD), None)
            + [Raw("CM_ BO_ ", N("id2", *EXT), " \"", H("t2", TEXT), "\";")], lambda s: [dict(sc.expect()[0], CommentText=H("text", TEXT)), dict(sc.expect()[1], CommentText=H("t2", TEXT))], sc.facts)
    # ---- transmitters given twice
    for k in range(2):
        sc = Scene()
        J.check("transmitter named again, %d" % k, "further transmitters are added once", sc.lines + [Raw("BO_TX_BU_ ", N("id1", *STD), " : ", H("tx1"), ",", H("n1"), ";")] * (k + 1),
                lambda s: [dict(sc.expect()[0], TranS=[H("tx1"), H("n1")]), sc.expect()[1]], lambda: sc.facts() + [sne(H("n1"), H("tx1"))])
    # ---- many of everything
    RM = "annotations are taken as a whole, however many parts they have"
    sc = Scene()
    NT = 11
    J.check("%d further transmitters" % NT, RM, sc.lines + [T("BO_TX_BU_ ", N("id1", *STD), " : ", VV.cat(*[T(H("n%d" % k), "," if k < NT - 1 else ";") for k in range(NT)]))],
            lambda s: [dict(sc.expect()[0], TranS=[H("tx1")] + [H("n%d" % k) for k in range(NT)]), sc.expect()[1]],
            lambda: sc.facts() + [sne(H("n%d" % k), q) for k in range(NT) for q in [H("tx1")] + [H("n%d" % j) for j in range(k)]])
    sc = Scene(STD, EXT)
    NV = 12
    vp = lambda: VV.cat(*[T(N("v%d" % k, 1000 * k, 1000 * k + 999), " \"", H("dt%d" % k, ALPHA), "\" ") for k in range(NV)])

    def exv(s):
        x = sc.expect()
        sc.sig(x, 0)[1].update(ValueText=VV.cat(*[T("\n " if k else " ", N("v%d" % k, 1000 * k, 1000 * k + 999), " : \"", H("dt%d" % k, ALPHA), "\"") for k in range(NV)]),
                               vpairs=[(lambda v, k=k: made_of(v, "dt%d" % k), val("v%d" % k)) for k in range(NV)])
        return x
    J.check("%d values" % NV, RM, sc.lines + [T("VAL_ ", N("id1", *STD), " ", H("sig3"), " ", vp(), ";")], exv, sc.facts)
    # ---- a cycle time that is no positive number
    for v in ("0", "-5"):
        sc = Scene()
        J.check("cycle time %s" % v, "a cycle time that is not positive counts as none", sc.lines + [Raw("BA_ \"GenMsgCycleTime\" BO_ ", N("id1", *STD), " ", v, ";")], lambda s: sc.expect(), sc.facts)
    J.done()
    c.need(n, "annotations", 150)


# ---------------------------------------------------------------------------- definitions over several lines
def inner(k, i):
    """line i inside of a comment, of kind k"""
    return {
        "text": lambda: T(H("t%d" % i, TEXT)),
        "empty": lambda: EMPTY,
        "message": lambda: T("BO_ ", N("iid%d" % i, *STD), " ", H("iname%d" % i), ": ", N("idlc%d" % i, 1, 8), " ", H("itx%d" % i)),
        "signal": lambda: T(" SG_ ", H("isig%d" % i), " : 0|8@1+ (1,0) [0|0]"),
        "transmitters": lambda: T("BO_TX_BU_ ", N("id1", *STD), " : ", H("itx%d" % i)),
        "version": lambda: T("VERSION 7.8"),
        "cycle": lambda: T("BA_ GenMsgCycleTime BO_ ", N("id1", *STD), " 100"),
        "values": lambda: T("VAL_ ", N("id1", *STD), " ", H("sig3"), " 0 x"),
        "spaces": lambda: T("   ", H("t%d" % i, TEXT)),
    }[k]()


INNER = ("text", "empty", "message", "signal", "transmitters", "version", "cycle", "values", "spaces")
R_ML = "a comment over several lines is read once, with its line breaks, and its lines define nothing"
R_LEAK = "nothing of a finished or abandoned definition reaches a later one"


def made_of(v, d):
    """a text that is made from the part d alone"""
    return isinstance(v, Str) and [k for k in ["d1", "d2"] + ["dt%d" % k for k in range(12)] if interp.mentions_key(v, ("dbc", k))] == [d]


def low():
    """names in lower case letters, which no keyword of the format begins with"""
    sc = Scene()
    for x in sc.s:
        x.name = H("low%d" % x.i, LOWER)
    return sc


def is_text(t):
    return lambda v: isinstance(v, Str) and (v == t or lib.streq(v, t) is True)


def verof(s, facts, hi, lo):
    v = s.field(s.dl, "ver")
    for f, x in (("hi", hi), ("low", lo)):
        g = s.value(s.field(v, f), facts)
        if not same(g, x if isinstance(x, Lin) else Lin(x), facts):
            return "the version %s is %s, expected %s" % (f, vshow(g)[:100], x)
    return None


@check("C20")
def c20(c):
    """Comments, attributes and value tables over several lines, closed and abandoned ones, in sequences."""
    P = program(c)
    J = Judge(c, P)
    nover = lambda s, f: verof(s, f, 0, 0)

    def run(key, rule, lines, change, more=(), extra=nover, mk=None, front=()):
        sc = (mk or Scene)()

        def ex(s):
            x = sc.expect()
            if change:
                change(sc, x)
            return x
        J.check(key, rule, [Raw(l) for l in front] + sc.lines + [Raw(l) for l in lines], ex, lambda: sc.facts() + [f() for f in more], extra=extra)

    # ---- comments of one to several lines with anything inside
    depth = 3 if c.tier == "thorough" else 2
    for n in range(0, depth + 1):
        for kinds in itertools.product(INNER, repeat=n):
            if n == 2 and c.tier == "quick" and "text" not in kinds and "empty" not in kinds:
                continue
            for target in ("message", "signal"):
                if target == "signal" and n > 1:
                    continue
                fr = Scene()
                first = T("CM_ BO_ ", N("id1", *STD), " \"", H("a", TEXT)) if target == "message" else T("CM_ SG_ ", N("id1", *STD), " ", H("sig4"), " \"", H("a", TEXT))
                body = [inner(k, i + 1) for i, k in enumerate(kinds)]
                lines = [first] + body + [T(H("z", TEXT), "\";")]
                want = first.__class__
                text = T(*itertools.chain([H("a", TEXT)], *[("\n", b) for b in body], ["\n", H("z", TEXT)]))

                def change(sc, x):
                    (x[0] if target == "message" else sc.sig(x, 1)[1])["CommentText"] = text
                run("comment of a %s with %s lines inside" % (target, ", ".join(kinds) or "no"), R_ML, lines, change)
    # the closing line has the quote and the semicolon only
    run("comment closed on a line of its own", R_ML, [T("CM_ BO_ ", N("id1", *STD), " \"", H("a", TEXT)), T("\";")], lambda sc, x: x[0].__setitem__("CommentText", is_text(H("a", TEXT))))
    run("comment with white space at line ends", R_ML, [T("CM_ BO_ ", N("id1", *STD), " \"", H("a", TEXT), "  \t"), T(H("z", TEXT), "\";  \r")],
        lambda sc, x: x[0].__setitem__("CommentText", T(H("a", TEXT), "\n", H("z", TEXT))))
    run("comment that starts on the next line", R_ML, [T("CM_ BO_ ", N("id1", *STD), " \""), T(H("z", TEXT), "\";")], lambda sc, x: x[0].__setitem__("CommentText", T("\n", H("z", TEXT))))
    # ---- an abandoned definition and a new one of the same kind
    id1, id2 = (lambda: N("id1", *STD)), (lambda: N("id2", *STD))
    for k in ("text", "empty", None):
        mid = [inner(k, 1)] if k else []
        run("comment abandoned (%s), then another comment" % k, R_LEAK, [T("CM_ BO_ ", id1(), " \"", H("a", TEXT))] + mid + [T("CM_ BO_ ", id2(), " \"", H("b", TEXT), "\";")],
            lambda sc, x: x[1].__setitem__("CommentText", H("b", TEXT)))
        run("comment abandoned (%s), then another one over two lines" % k, R_LEAK,
            [T("CM_ SG_ ", id1(), " ", H("sig3"), " \"", H("a", TEXT))] + mid + [T("CM_ BO_ ", id2(), " \"", H("b", TEXT)), T(H("z", TEXT), "\";")],
            lambda sc, x: x[1].__setitem__("CommentText", T(H("b", TEXT), "\n", H("z", TEXT))))
        mid = [T(H("w", LOWER)) if k == "text" else EMPTY] if k else []
        run("attribute abandoned (%s), then another one" % k, R_LEAK, [T("BA_ \"GenMsgCycleTime\" BO_ ", id1())] + mid + [T("BA_ \"GenMsgCycleTime\" BO_ ", id2(), " 77;")],
            lambda sc, x: x[1].__setitem__("Cycle", Lin(77)))
        run("value table abandoned (%s), then another one" % k, R_LEAK, [T("VAL_ ", id1(), " ", H("sig3"), " 5 \"", H("d1", ALPHA), "\"")] + mid + [
            T("VAL_ ", id2(), " ", H("sig5"), " 6 \"", H("d2", ALPHA), "\" ;")],
            lambda sc, x: sc.sig(x, 2)[1].update(ValueText=T(" 6 : \"", H("d2", ALPHA), "\""), vpairs=[(lambda v: isinstance(v, Str), Lin(6))]))
    run("comment abandoned at the end of the file", R_LEAK, [T("CM_ BO_ ", id1(), " \"", H("a", TEXT)), T(H("z", TEXT))], None)
    run("attribute abandoned at the end of the file", R_LEAK, [T("BA_ \"GenMsgCycleTime\" BO_ ", id1()), T("77")], None)
    run("value table abandoned at the end of the file", R_LEAK, [T("VAL_ ", id1(), " ", H("sig3"), " 5 \"", H("d1", ALPHA), "\"")], None)
    # ---- attributes and value tables over several lines
    for n, ls in (("after the name", ["BA_ \"GenMsgCycleTime\"", ("BO_ ", id1, " 77;")]), ("after the kind", ["BA_ \"GenMsgCycleTime\" BO_", (id1, " 77;")]),
                  ("before the value", [("BA_ \"GenMsgCycleTime\" BO_ ", id1), "77;"]), ("before the semicolon", [("BA_ \"GenMsgCycleTime\" BO_ ", id1, " 77"), ";"]),
                  ("everywhere", ["BA_ \"GenMsgCycleTime\"", "BO_", (id1,), "77", ";"]), ("with an empty line", [("BA_ \"GenMsgCycleTime\" BO_ ", id1), "", "77;"]),
                  ("with indented lines", [("BA_ \"GenMsgCycleTime\" BO_ ", id1, "  "), "   77;"])):
        run("attribute broken " + n, "an attribute over several lines is read once as a whole", [T(*[p() if callable(p) else p for p in (l if isinstance(l, tuple) else (l,))]) for l in ls],
            lambda sc, x: x[0].__setitem__("Cycle", Lin(77)))
    d1, d2 = (lambda: H("d1", ALPHA)), (lambda: H("d2", ALPHA))
    s3 = lambda: H("low3", LOWER)

    def vt(sc, x, t=""):
        sc.sig(x, 0)[1].update(ValueText=T(" 5 : \"", d1(), t, "\"\n 6 : \"", d2(), "\""), vpairs=[(lambda v: made_of(v, "d1"), Lin(5)), (lambda v: made_of(v, "d2"), Lin(6))])
    for n, ls in (("in one line", [("VAL_ ", id1, " ", s3, " 5 \"", d1, "\" 6 \"", d2, "\" ;")]), ("after the identifier", [("VAL_ ", id1), (s3, " 5 \"", d1, "\" 6 \"", d2, "\" ;")]),
                  ("between the values", [("VAL_ ", id1, " ", s3, " 5 \"", d1, "\""), ("6 \"", d2, "\" ;")]), ("before the semicolon", [("VAL_ ", id1, " ", s3, " 5 \"", d1, "\" 6 \"", d2, "\""), (";",)]),
                  ("inside of a value", [("VAL_ ", id1, " ", s3, " 5"), ("\"", d1, "\""), ("6",), ("\"", d2, "\" ;")]), ("with an empty line", [("VAL_ ", id1, " ", s3, " 5 \"", d1, "\""), (), ("6 \"", d2, "\" ;")]),
                  ("with indented lines", [("VAL_ ", id1, " ", s3, " 5 \"", d1, "\"  "), ("    6 \"", d2, "\" ;")]),
                  ("after a text with a semicolon", [("VAL_ ", id1, " ", s3, " 5 \"", d1, ";x\""), ("6 \"", d2, "\" ;")])):
        run("value table broken " + n, "a value table over several lines is read once as a whole", [T(*[p() if callable(p) else p for p in l]) for l in ls], (lambda sc, x: vt(sc, x, ";x")) if "semicolon" in n and "text" in n else vt, mk=low)
    # ---- after the end
    def full(k):
        return {"comment": [T("CM_ BO_ ", id1(), " \"", H("a", TEXT)), T(H("z", TEXT), "\";")], "attribute": [T("BA_ \"GenMsgCycleTime\" BO_ ", id1()), T("77;")],
                "value table": [T("VAL_ ", id1(), " ", s3(), " 5 \"", d1(), "\""), T("6 \"", d2(), "\" ;")]}[k]

    def effect(k):
        return {"comment": lambda sc, x: x[0].__setitem__("CommentText", T(H("a", TEXT), "\n", H("z", TEXT))), "attribute": lambda sc, x: x[0].__setitem__("Cycle", Lin(77)), "value table": vt}[k]
    stray = (("a text", lambda: T(H("w", LOWER))), ("a closing text", lambda: T(H("w", LOWER), "\";")), ("a number and semicolon", lambda: T("88;")), ("a semicolon", lambda: T(";")),
             ("a value and semicolon", lambda: T("7 \"", H("w", ALPHA), "\" ;")), ("an attribute without start", lambda: T("\"GenMsgCycleTime\" BO_ ", id1(), " 88;")), ("an empty line", lambda: EMPTY))
    for k in ("comment", "attribute", "value table"):
        for n, l in stray:
            run("%s after a complete %s" % (n, k), R_LEAK, full(k) + [l(), l()], effect(k), mk=low)
        for k2 in ("comment", "attribute", "value table"):
            if k != k2:
                run("%s after a complete %s" % (k2, k), R_LEAK, full(k) + full(k2), lambda sc, x: (effect(k)(sc, x), effect(k2)(sc, x)), mk=low)
    for n, l in stray:
        run("%s alone" % n, "lines outside of a definition change nothing", [l(), l()], None)
        run("%s at the start of the file" % n, "lines outside of a definition change nothing", [], None, front=[l(), l()])
    J.done()
    c.need(J.n, "abstract files", 100)


# ---------------------------------------------------------------------------- parts of C14 and C21 that are decided while reading
def dlc_rules(c):
    P = program(c)
    J = Judge(c, P)

    def run(key, lines, dls, facts, want):
        J.check(key, "the largest frame length is the maximum over the kept messages", lines, lambda s: [{}] * dls, facts,
                extra=lambda s, f: None if same(s.value(s.field(s.dl, "maxDlcValue"), f), want(), f) else "the largest length is %s" % vshow(s.value(s.field(s.dl, "maxDlcValue"), f))[:150])
    for n in range(0, 4):
        for perm in itertools.permutations(range(1, n + 1)):
            for tie in ((False, True) if n > 1 else (False,)):
                ms = [M(i + 1, EXT if i == 1 else STD) for i in range(n)]

                def fs():
                    f = []
                    for a, b in zip(perm, perm[1:]):
                        d = val("dlc%d" % a) - val("dlc%d" % b)
                        f.append(VV.eq0(d) if tie else VV.ge0(d - 1))
                    return f
                lines = []
                for k, m in enumerate(ms):
                    lines += [m] + ([S(10 + k)] if k % 2 else [])
                run("longest frame, %d message(s), %s%s" % (n, ">".join(map(str, perm)), ", equal" if tie else ""), lines, n, fs, lambda: val("dlc%d" % perm[0]) if perm else Lin(0))
    # dropped messages do not count, a list of transmitters ends the messages
    for nm, mk in bad_headers():
        run("longest frame, dropped message: " + nm, [M(1), mk(2), S(3)], 1, (), lambda: val("dlc1"))
    run("longest frame, then transmitters", [M(1), S(3), Raw("BO_TX_BU_ ", N("id1", *STD), " : ", H("n1"), ";"), M(2, EXT)], 2, lambda: [VV.ge0(val("dlc2") - val("dlc1") - 1)], lambda: val("dlc2"))
    J.done()


def version_rules(c):
    P = program(c)
    J = Judge(c, P)

    def num(n):
        return H(n, DIG, 1, max=9, num=(0, 999999999))

    def vline(kw="VERSION", a=" \"", sep=".", b="\"", nums=("vh", "vl"), front=""):
        return Raw(front, kw, a, lambda: num(nums[0]), sep, lambda: num(nums[1]), b)

    def run(key, lines, pos, hi, lo):
        base = [M(1), S(2)]
        k = {"first": 0, "middle": 1, "last": 2}[pos]

        def ver(s, f):
            return verof(s, f, hi(), lo())
        J.check(key, "the version of the version line is taken, without one 0 and 0", base[:k] + lines + base[k:], lambda s: fold([(base[0], [base[1]])]), (), extra=ver)
    vh, vl = (lambda: (num("vh"), val("vh"))[1]), (lambda: (num("vl"), val("vl"))[1])
    zero = lambda: Lin(0)
    for kw in ("VERSION", "version", "Version", "vErSiOn"):
        for pos in ("first", "middle", "last"):
            run("version line %s, %s" % (kw, pos), [vline(kw)], pos, vh, vl)
    for n, k in (("without quotes", dict(a=" ", b="")), ("separated by a space", dict(sep=" ")), ("separated by a text", dict(sep=" rev ")), ("separated by a comma", dict(sep=",")),
                 ("without a space", dict(a="\"")), ("with more spaces", dict(a="   \"")), ("with a tab", dict(a="\t\"")), ("with white space at the end", dict(b="\"  \r"))):
        run("version line " + n, [vline(**k)], "first", vh, vl)
    run("no version line", [], "first", zero, zero)
    for n, k in (("an empty text", [Raw("VERSION \"\"")]), ("one number", [Raw("VERSION \"", lambda: num("vh"), "\"")]), ("a text", [Raw("VERSION \"", lambda: H("vt", LOWER), "\"")]),
                 ("nothing", [Raw("VERSION")]), ("three numbers", [Raw("VERSION \"", lambda: num("vh"), ".", lambda: num("vl"), ".", lambda: num("vx"), "\"")])):
        run("version line with " + n, k, "first", zero, zero)
    for kw in ("VERSIO", "VERSIONS", "VER", "BS", "NS", "V", "VERSIONVERSION", "AVERSION"):
        run("line that begins with " + kw, [vline(kw)], "first", zero, zero)
        run("line that begins with %s after the version line" % kw, [vline(), vline(kw, nums=("xh", "xl"))], "first", vh, vl)
    for n, l in (("a comment", lambda: Raw("CM_ BU_ ", H("node", ALPHA), " \"version 7.8\";")), ("a value table", lambda: Raw("VAL_ ", H("ev", ALPHA), " 7 \"version 8.9\" ;")), ("an attribute", lambda: Raw("BA_ \"version\" 7.8;"))):
        run("version in " + n, [l()], "last", zero, zero)
    for n, nh, nl in (("major", 10, 1), ("minor", 1, 10)):
        run("version line with a %s number of ten digits and more" % n, [Raw("VERSION \"", lambda: H("vh", DIG, nh, **({} if nh > 1 else {"max": 9})), ".", lambda: H("vl", DIG, nl, **({} if nl > 1 else {"max": 9})), "\"")], "first", zero, zero)
    J.done()
