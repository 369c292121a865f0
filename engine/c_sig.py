"""Signal bit layout: the expressions built by PrintSignalExpr, partitioned by byte order, start bit modulo 8 and length;
the byte index, the frame length and the earlier content of every byte expression stay symbolic."""
import re
from . import interp, lib, genrun, lin as L
from .values import *
from .lin import Lin, Facts, ge0, eq0, f_and, f_or, f_not, Sym
from .rules import *
from .model import AnalysisBroken, rel
from .cexpr import parse, nopar, Syntax, show, subs
from .c_tree import first_atom, resolve
from .c_lib import body, tree, fname, BUFS, drop_dedup
from .c_gen import pack_fns, unpack_fn, H, C, CS
from .view import spec
from . import c_gen

CHECKS = {}


def reg(prop):
    def deco(f):
        g = c_gen.check(prop)(f)
        CHECKS[prop] = c_gen.CHECKS.pop(prop)
        return g
    return deco


# ------------------------------------------------------------------ C bit semantics
class Undef_(Exception):
    """undefined or lossy arithmetic"""


class BV:
    """C integer: width, signedness, bits from the least significant; a bit is 0, 1, a name, ('~', name) or 'x'"""
    def __init__(self, w, s, bits):
        self.w, self.s, self.b = w, s, list(bits)[:w] + [0] * (w - len(bits))

    def to(self, w, s):
        if w <= self.w:
            return BV(w, s, self.b[:w])
        return BV(w, s, self.b + [self.b[-1] if self.s else 0] * (w - self.w))


def promote(v):
    return v.to(32, True) if v.w < 32 else v


def common(a, b):
    a, b = promote(a), promote(b)
    if a.w == b.w:
        s = a.s and b.s
        w = a.w
    else:
        w = max(a.w, b.w)
        s = (a if a.w > b.w else b).s
    return a.to(w, s), b.to(w, s)


def cst(n, s, w=32):
    return BV(w, s, [(n >> i) & 1 for i in range(w)])


def cval(v):
    if any(x not in (0, 1) or isinstance(x, tuple) for x in v.b):
        raise AnalysisBroken("a shift count is not constant")
    n = sum(x << i for i, x in enumerate(v.b))
    return n - (1 << v.w) if v.s and v.b[-1] == 1 else n


def neg(x):
    return 1 - x if x in (0, 1) and not isinstance(x, tuple) else "x" if x == "x" else x[1] if x[0] == "~" else ("~", x)


def b_and(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1 or x == y:
        return x
    return "x"


def b_or(x, y):
    if x == 1 or y == 1:
        return 1
    if x == 0:
        return y
    if y == 0 or x == y:
        return x
    return "x"


def b_xor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x == 1:
        return neg(y)
    if y == 1:
        return neg(x)
    return 0 if x == y and x != "x" else "x"


CT = {"uint8_t": (8, False), "int8_t": (8, True), "uint16_t": (16, False), "int16_t": (16, True), "uint32_t": (32, False), "int32_t": (32, True),
      "uint64_t": (64, False), "int64_t": (64, True), "int": (32, True), "unsigned": (32, False), "unsigned int": (32, False), "char": (8, True),
      "unsigned char": (8, False), "uint_fast8_t": (8, False), "unsigned long long": (64, False), "long long": (64, True)}


def number(t):
    m = re.fullmatch(r"(0[xX][0-9a-fA-F]+|\d+)([uU]?)([lL]{0,2})([uU]?)", t)
    if not m:
        return None
    n = int(m.group(1), 16 if m.group(1)[:2] in ("0x", "0X") else 8 if re.match(r"0\d", m.group(1)) else 10)
    u = bool(m.group(2) or m.group(4))
    big = n >> 32 or m.group(3)
    hexa = m.group(1)[0] == "0"
    if not big and n >> 31 and not u:
        if hexa:
            u = True
        else:
            big = True
    return cst(n, not u, 64 if big else 32)


def ev(e, env):
    k = e[0]
    if k == "par":
        return ev(e[1], env)
    if k == "t":
        n = number(e[1])
        if n is not None:
            return n
        r = env(e)
        if r is None:
            raise AnalysisBroken("value in a signal expression: " + show(e))
        return r
    if k in ("idx", "mem"):
        r = env(e)
        if r is None:
            raise AnalysisBroken("value in a signal expression: " + show(e))
        return r
    if k == "cast":
        if e[1] not in CT:
            r = env(e)
            if r is None:
                raise AnalysisBroken("cast to " + e[1])
            return r
        return ev(e[2], env).to(*CT[e[1]])
    if k == "un":
        a = promote(ev(e[2], env))
        if e[1] == "~":
            return BV(a.w, a.s, [neg(x) for x in a.b])
        if e[1] == "+":
            return a
        if e[1] == "-" and all(x in (0, 1) and not isinstance(x, tuple) for x in a.b):
            return cst(-cval(a), a.s, a.w)
        raise AnalysisBroken("operator %s in a signal expression" % e[1])
    if k == "bin":
        op = e[1]
        a, b = ev(e[2], env), ev(e[3], env)
        if op in ("<<", ">>"):
            a = promote(a)
            n = cval(b)
            if not 0 <= n < a.w:
                raise Undef_("shift by %d of a %d bit value" % (n, a.w))
            if op == ">>":
                return BV(a.w, a.s, a.b[n:] + [a.b[-1] if a.s else 0] * n)
            r = [0] * n + a.b
            if a.s and any(x != 0 for x in r[a.w - 1:]):
                raise Undef_("bits are shifted into the sign or out of a signed %d bit value" % a.w)
            return BV(a.w, a.s, r[:a.w])
        a, b = common(a, b)
        if op == "+" or op == "|":
            if op == "+" and any(x != 0 and y != 0 for x, y in zip(a.b, b.b)):
                raise AnalysisBroken("sum of overlapping bits")
            return BV(a.w, a.s, [b_or(x, y) for x, y in zip(a.b, b.b)])
        if op == "&":
            return BV(a.w, a.s, [b_and(x, y) for x, y in zip(a.b, b.b)])
        if op == "^":
            return BV(a.w, a.s, [b_xor(x, y) for x, y in zip(a.b, b.b)])
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if all(t in (0, 1) and not isinstance(t, tuple) for t in x.b) and sum(x.b) == 1:
                    n = x.b.index(1)
                    r = [0] * n + y.b
                    if y.s and any(t != 0 for t in r[y.w - 1:]):
                        raise Undef_("signed overflow")
                    return BV(y.w, y.s, r[:y.w])
    raise AnalysisBroken("operator %s in a signal expression" % (e[1] if k == "bin" else k))


# ------------------------------------------------------------------ text of one expression
TOK = re.compile(r"[A-Za-z_]\w*|0[xX][0-9a-fA-F]+\w*|\d+\w*|->|<<|>>|&&|\|\||==|!=|<=|>=|\S")


def text(v):
    """C text of a string value; holes as identifiers"""
    if not isinstance(v, Str):
        raise AnalysisBroken("expression text: %s" % vshow(v)[:200])
    t, m = "", {}
    for g in v.segs:
        if g[0] == "L":
            t += g[1]
        elif g[0] == "C" and isinstance(g[1], Lin) and g[1].is_const():
            t += chr(g[1].c)
        elif g[0] == "N" and isinstance(g[2], Lin):
            if g[2].is_const() and re.fullmatch(r"%?[du]", g[1]):
                t += str(g[2].c)
            else:
                n = "N__%d" % len(m)
                m[n] = (g[1], g[2])
                t += n
        elif g[0] == "H":
            n = "H__%d" % len(m)
            m[n] = g[1]
            t += n
        else:
            raise AnalysisBroken("expression text: %s" % vshow(v)[:200])
    return t, m


SIGK = ("in", "sig")
NAMEKEY = ("fld", SIGK, "Name")


class Layout:
    """PrintSignalExpr for one byte order, start % 8 and length"""
    def __init__(self, P, I, fn, consts):
        self.P, self.I, self.fn = P, I, fn
        self.order = consts
        self.q = Lin.of(L.sym(("in", "q"), 0, 63))
        self.n = Lin.of(L.sym(("in", "n"), 1, 255))
        self.runs = 0
        st = None

    def run(self, order, r, ln, fact=None, n=None):
        I = self.I
        n = self.n if n is None else n
        st = interp.St()
        if fact is not None:
            st.facts.assume(fact)
        st.cells[("h", "sp")] = Obj(self.fn["cls"], ("in", "sp"), {})
        st.cells[("h", "sig")] = Obj("SignalDescriptor_t", SIGK, {"StartBit": self.q.scale(8) + r, "LengthBit": Lin(ln), "Order": Lin(order)})
        ps = self.fn["params"]
        vec0 = Vec((("sym", ("in", "tb"), n, interp._tkey({"t": "rec", "name": "std::basic_string", "args": []})),)) if not n.is_const() else Vec(())
        st.cells[("h", "tb")] = vec0
        args = []
        for p in ps:
            t = p["ty"]
            if t["t"] in ("ptr", "ref") and t["to"].get("name") == "SignalDescriptor_t":
                args.append(Ptr((("h", "sig"), ())) if t["t"] == "ptr" else Ref((("h", "sig"), ())))
            elif t["t"] == "ref" and t["to"].get("name") == "std::vector":
                args.append(Ref((("h", "tb"), ())))
            else:
                raise AnalysisBroken("parameter %s of PrintSignalExpr" % p["name"])
        ev0 = len(I.events)
        v = I.run(self.fn, st, (("h", "sp"), ()), args)
        self.runs += 1
        return v, st, vec0, st.cells[("h", "tb")], I.events[ev0:]

    def cases(self, v, st, vec, facts):
        """split on remaining conditions"""
        raise NotImplementedError


def splits(vals, facts, depth=0):
    """(facts, resolved values) for every combination of the conditions left in the values"""
    for v in vals:
        a = first_atom(v, facts)
        if a is not None:
            if depth > 12:
                raise AnalysisBroken("too many cases in a signal expression")
            out = []
            for x in (a, f_not(a)):
                ff = facts.copy()
                ff.assume(x)
                if not ff.contradiction:
                    out += splits(vals, ff, depth + 1)
            return out
    return [(facts, [resolve(v, facts) for v in vals])]


def positions(order, r, ln, intel):
    """payload position (byte offset, bit) of every bit of the signal, as DBC defines it"""
    out = []
    for j in range(ln):
        if order == intel:
            p = r + j
            out.append((p // 8, p % 8))
        else:
            p = 7 - r + (ln - 1 - j)
            out.append((p // 8, 7 - p % 8))
    return out


def find_fn(P, end):
    fs = [f for f in P.fns.values() if f["name"].endswith(end)]
    if len(fs) != 1:
        raise AnalysisBroken("%s: %d definitions" % (end, len(fs)))
    return fs[0]


def orders(P):
    ks = P.enums.get("BitLayout")
    if not ks:
        raise AnalysisBroken("enumeration BitLayout")
    d = {c["name"].lower(): c["v"] for c in ks["consts"]}
    i = [v for n, v in d.items() if "intel" in n or "little" in n]
    m = [v for n, v in d.items() if "moto" in n or "big" in n]
    if len(i) != 1 or len(m) != 1 or len(d) != 2:
        raise AnalysisBroken("enumeration BitLayout: %s" % d)
    return i[0], m[0]


class Rep:
    """violations of one rule, gathered over the partitions"""
    def __init__(self, c, fn, key):
        self.c, self.fn, self.key = c, fn, key
        self.n, self.bad = {}, {}

    def ob(self, rule, ok, what):
        self.n[rule] = self.n.get(rule, 0) + 1
        if not ok:
            self.bad.setdefault(rule, []).append(what)
        return ok

    def done(self):
        w = "%s:%s (%s)" % (rel(self.fn["file"]), self.fn["line"], self.fn["name"])
        for r, n in self.n.items():
            b = self.bad.get(r, [])
            self.c.ob(self.key, r, not b, w, "%d of %d cases, first: %s" % (len(b), n, b[0]) if b else "")
            self.c.count("signal expression obligations", n)


def dataenv(q, m, name_only=False):
    """values of the tokens of an unpack expression"""
    def env(e):
        if e[0] == "idx" and e[1] == ("t", "_d"):
            k = offset(e[2], m, q)
            if k is None:
                return None
            return BV(8, False, [("d", k, i) for i in range(8)])
        return None
    return env


def offset(e, m, q):
    """byte index minus q"""
    while e[0] == "par":
        e = e[1]
    if e[0] == "t" and e[1] in m and isinstance(m[e[1]], tuple) and isinstance(m[e[1]][1], Lin):
        if not re.fullmatch(r"%?l*[diu]", m[e[1]][0]):
            return None
        d = m[e[1]][1] - q
        return d.c if d.is_const() else None
    return None


def sigenv(m, ln, w, signed):
    def env(e):
        if e[0] == "mem" and e[1] == "->" and e[2] == ("t", "_m") and m.get(e[3]) == NAMEKEY:
            return BV(w, signed, [("s", i) for i in range(ln)] + ["x"] * (w - ln))
        return None
    return env


def terms(e):
    """operands of a chain of |"""
    if e[0] == "bin" and e[1] == "|":
        return terms(e[2]) + terms(e[3])
    return [e]


def ptree(t):
    return parse(TOK.findall(t))


def expected_bytes(pos):
    d = {}
    for j, (k, b) in enumerate(pos):
        d.setdefault(k, {})[b] = ("s", j)
    return d


def check_layout(c, what):
    """all partitions; what: 'bits' (C01) or 'fit' (C02)"""
    from . import model
    P = model.load() if not hasattr(c, "_g") else c.g.P
    I = genrun.start(P)
    fn = find_fn(P, "PrintSignalExpr")
    lay = Layout(P, I, fn, None)
    intel, moto = orders(P)
    q, n = lay.q, lay.n
    rep = {o: Rep(c, fn, "%s signals" % nm) for o, nm in ((intel, "Intel"), (moto, "Motorola"))}
    for o in (intel, moto):
        R_ = rep[o]
        for r in range(8):
            for ln in range(1, 65):
                pos = positions(o, r, ln, intel)
                last = max(k for k, _ in pos)
                case = "%s, start %% 8 = %d, length %d" % ("Intel" if o == intel else "Motorola", r, ln)
                fit = ge0(n - q - last - 1)
                if what == "bits":
                    v, st, v0, v1, _ = lay.run(o, r, ln, fit)
                    for ff, (x,) in splits([v], st.facts.copy()):
                        unpack_bits(R_, q, x, pos, ln, case)
                    pack_bits(R_, I, q, v0, v1, st, pos, ln, case)
                else:
                    v, st, v0, v1, _ = lay.run(o, r, ln, fit)
                    for ff, (x,) in splits([v], st.facts.copy()):
                        t, m = text(x)
                        R_.ob("a signal inside the frame never causes the error text", compiles(t), "%s: %s" % (case, t[:120]))
                    for ff, idx, x in final(I, v0, v1, st):
                        t, m = text(x)
                        R_.ob("a signal inside the frame never causes the error text", compiles(t), "%s: %s" % (case, t[:120]))
                        R_.ob("an error text that is already in a byte expression stays", keeps(t, m, ("elem", v0.segs, idx), idx), "%s: %s" % (case, t[:120]))
                    v, st, v0, v1, _ = lay.run(o, r, ln, f_not(fit))
                    for ff, (x,) in splits([v], st.facts.copy()):
                        t, m = text(x)
                        R_.ob("the unpack expression of a signal outside the frame cannot compile", not compiles(t) and not comment(t), "%s: %s" % (case, t[:120]))
                    for z in elem_cases(I, v1, Lin(0), st):
                        t, m = text(z)
                        R_.ob("the frame's pack code cannot compile if a signal is outside the frame", not compiles(t) and not comment(t) and bool(t), "%s: first byte is %s" % (case, t[:120]))
    if what == "fit":
        for o in (intel, moto):
            for r in range(8):
                for ln in range(1, 65):
                    v, st, v0, v1, _ = lay.run(o, r, ln, None, Lin(0))
                    for ff, (x,) in splits([v], st.facts.copy()):
                        t, m = text(x)
                        rep[o].ob("a signal of a frame without payload cannot compile", not compiles(t) and not comment(t), "%s: %s" % ("frame length 0", t[:120]))
    for R_ in rep.values():
        R_.done()
    c.count("layout partitions", 2 * 8 * 64)
    c.count("interpretations of the expression builder", lay.runs)
    c.notes["partition"] = "byte order (2) x start bit modulo 8 (8) x length (1..64); start byte 0..63, frame length 1..255 and earlier byte expressions symbolic"
    return I, lay


def compiles(t):
    try:
        ptree(t)
        return True
    except Syntax:
        return False


def comment(t):
    return "//" in t or "/*" in t


def elem_cases(I, v, idx, st):
    x = I.elem(v, idx, st.facts)
    return [noempty(y, ff) for ff, (y,) in splits([x], st.facts.copy())]


def written(v):
    """indices written in a vector"""
    out = []

    def go(st):
        for s in st:
            if s[0] == "ite":
                go(s[2])
                go(s[3])
            elif s[0] in ("loopst", "ext"):
                raise AnalysisBroken("byte expressions are written in a loop that was not unrolled")
            elif s[0] not in out:
                out.append(s[0])
    if not isinstance(v, Vec):
        raise AnalysisBroken("byte expressions: %s" % vshow(v)[:200])
    go(v.st)
    return out


def final(I, v0, v1, st):
    """(facts, index, text) of every byte expression written"""
    if v1.segs != v0.segs:
        raise AnalysisBroken("the list of byte expressions changes its length")
    for i in written(v1):
        x = I.elem(v1, i, st.facts)
        for ff, (y,) in splits([x], st.facts.copy()):
            yield ff, i, noempty(y, ff)


def noempty(x, ff):
    """without texts that are known to be empty"""
    if not isinstance(x, Str):
        return x
    return mkstr(tuple(g for g in x.segs if not (g[0] == "H" and ff.ask(L.ge0(str_len(mkstr((g,))) - 1)) is False)))


def keeps(t, m, key, idx, old=None):
    """the earlier text, if any, is one operand of the | chain"""
    hs = [n for n, k in m.items() if n.startswith("H__") and is_old(k, idx)]
    if not hs:
        return True     # decided by the caller's condition (empty before)
    try:
        ts = terms(ptree(t))
    except Syntax:
        return False
    return sum(1 for e in ts if e[0] == "t" and e[1] in hs) == 1


def is_old(k, idx):
    return isinstance(k, tuple) and k and k[0] in ("at", "elem") and k[-1] == idx


def unpack_bits(R_, q, x, pos, ln, case):
    t, m = text(x)
    rule = "unpack reads exactly the signal's payload bits, each at its significance"
    try:
        e = ptree(t)
        b = ev(e, dataenv(q, m))
    except Syntax as s:
        R_.ob(rule, False, "%s: %s (%s)" % (case, t[:200], s))
        return
    except Undef_ as u:
        R_.ob("no bits are lost in the intermediate C arithmetic", False, "%s: %s: %s" % (case, u, t[:300]))
        return
    R_.ob("no bits are lost in the intermediate C arithmetic", b.w >= ln, "%s: result has %d bits" % (case, b.w))
    want = [("d",) + p for p in pos]
    got = b.b + [b.b[-1] if b.s else 0] * (64 - b.w)
    want = want + [0] * (64 - ln)
    bad = [j for j in range(64) if got[j] != want[j]]
    R_.ob(rule, not bad, "%s: bit %s is %s instead of %s in %s" % (case, bad[:1], got[bad[0]] if bad else "", want[bad[0]] if bad else "", t[:300]))


def ctype(ln):
    return next(w for w in (8, 16, 32, 64) if w >= ln)


def pack_bits(R_, I, q, v0, v1, st, pos, ln, case):
    want = expected_bytes(pos)
    seen = {}
    rule = "pack writes exactly the signal's payload bits, each with its significance, and no other bit"
    for ff, i, x in final(I, v0, v1, st):
        d = i - q
        if not d.is_const():
            R_.ob(rule, False, "%s: byte %s is written" % (case, vshow(i)))
            continue
        t, m = text(x)
        old = [nm for nm, k in m.items() if nm.startswith("H__") and is_old(k, i)]
        try:
            e = ptree(t)
            ts = terms(e)
            olds = [z for z in ts if z[0] == "t" and z[1] in old]
            # was the expression empty before?
            le = L.ge0(Lin.of(L.sym(("len", ("at", ("in", "tb"), i)), 0, I31)) - 1)
            empty = oldempty(I, v0, i, ff)
            R_.ob("contributions of other signals to a byte are kept", (len(olds) == 1) if empty is not True else not olds, "%s: %s" % (case, t[:200]))
            if empty is None and not olds:
                R_.ob("contributions of other signals to a byte are kept", False, "%s: %s" % (case, t[:200]))
            rest = [z for z in ts if z not in olds]
            for w, s in {(ctype(ln), False), (ctype(ln), True)}:
                b = None
                for z in rest:
                    y = ev(z, sigenv(m, ln, w, s))
                    b = y if b is None else ev(("bin", "|", ("t", "0"), ("t", "0")), lambda e: None) if False else join(b, y)
                g = (b.b if b is not None else []) + [0] * 8
                ex = want.get(d.c, {})
                bad = [k for k in range(8) if g[k] != ex.get(k, 0)]
                R_.ob(rule, not bad, "%s: byte %+d bit %s is %s instead of %s in %s" % (case, d.c, bad[:1], g[bad[0]] if bad else "", ex.get(bad[0], 0) if bad else "", t[:200]))
        except Syntax as s:
            R_.ob(rule, False, "%s: %s (%s)" % (case, t[:200], s))
        except Undef_ as u:
            R_.ob("no bits are lost in the intermediate C arithmetic", False, "%s: %s: %s" % (case, u, t[:300]))
        seen[d.c] = True
    R_.ob(rule, set(want) <= set(seen), "%s: bytes %s are not written" % (case, sorted(set(want) - set(seen))))


def join(a, b):
    a, b = common(a, b)
    return BV(a.w, a.s, [b_or(x, y) for x, y in zip(a.b, b.b)])


def oldempty(I, v0, i, ff):
    x = I.elem(v0, i, ff)
    z = ff.ask(L.ge0(str_len(x) - 1))
    return None if z is None else not z


# ------------------------------------------------------------------ use of the expressions in the templates
def pse_of(r, tok):
    """key of the expression hole a token shows"""
    for i, g in enumerate(r.es[0].segs if hasattr(r.es[0], "segs") else ()):
        pass
    nm = r.file.c.namer(r.loops)
    out = []
    for e in r.es:
        for g in e.segs:
            if g[0] == "H" and "«%s»" % nm(g[1]) == tok:
                out.append(g[1])
    return out[0] if out else None


def unpack_templates(c, R, rep):
    """assignments of the raw fields in the unpack function -> [(statement, pse key, extended?, arguments)]"""
    f = unpack_fn(R)
    out = []
    for s in body(c, f):
        if s.lhs not in ("_m -> «S.Name»",):
            continue
        a = assign(s.toks)
        e = tree(a[2])
        casts = []
        while e[0] == "cast":
            casts.append(e[1])
            e = e[2]
        ext = None
        if e[0] == "call":
            ext = e
            e = e[2][0] if e[2] else e
            while e[0] == "cast":
                e = e[2]
        k = pse_of(s.row, e[1]) if e[0] == "t" else None
        out.append((s, a[1], casts, ext, k))
    return f, out


def sname(r, key):
    return r.file.c.namer(r.loops)(key)


def use_rules(c, R):
    """the builder's expressions are what the generated functions assign"""
    f, us = unpack_templates(c, R, None)
    key = "unpack function"
    c.ob(key, "every signal is assigned once, from its own expression, whenever the frame is generated",
         bool(us) and drop_and_union([u[0] for u in us], f.head.guard) and all(u[0].extra == (SIGS,) and not u[0].inner for u in us),
         us[0][0].where() if us else f.head.where(), "%d assignments: %s" % (len(us), "; ".join(repr(u[0])[:120] for u in us)))
    lids = set()
    for s, op, casts, ext, k in us:
        ok = isinstance(k, tuple) and k[0] == "pse" and sname(s.row, k[1]) == "S" and op == "="
        c.ob(key, "the assigned value is the signal's own expression", ok, s.where(), repr(s)[:300])
        if ok:
            lids.add(pse_size(s.row, k))
    fns = pack_fns(R)
    for f, buf in zip(fns, BUFS):
        key = fname(f)
        el = []
        for s in body(c, f):
            a = assign(s.toks)
            if not a or not joined_(a[0]).startswith(" ".join(buf) + " [") or a[1] == "=":
                continue
            if s.row.loops and loopnames(s.row)[-1:] == ("M.DLC",):
                el.append((s, a))
                continue
            csm = implies(s.guard, f_not(spec("null(M.CsmSig)"))) and CS.replace("USE_CANSTRUCT", "AUTO_CSM") in s.inner
            c.ob(key, "no other payload bits are written", csm and a[1] == "|=", s.where(), repr(s)[:200])
        if not c.ob(key, "the payload bytes are written in one place", len(el) == 1, f.head.where(), "%d places" % len(el)):
            continue
        s, a = el[0]
        r = s.row
        e = tree(a[2])
        casts = []
        while e[0] == "cast":
            casts.append(e[1])
            e = e[2]
        k = pse_of(r, e[1]) if e[0] == "t" else None
        i = r.loops[-1][1]
        idx = tree(a[0])
        good = isinstance(k, tuple) and k[0] == "elem" and isinstance(k[1], Vec) and k[2] == i and idx[0] == "idx"
        if not c.ob(key, "each payload byte receives the byte expression of its own number", good and numtok_(idx[2], i, r) and a[1] == "|=", s.where(), repr(s)[:300]):
            continue
        c.ob(key, "a byte receives its whole expression", all(x == "uint8_t" for x in casts), s.where(), repr(s)[:200])
        c.ob(key, "a payload byte is written whenever it has an expression", not s.inner and len(s.extra) == 1 and nonempty_guard(r, f.head.guard, k), s.where(), "")
        v = k[1]
        nm = r.file.c.namer(r.loops)
        size = segs_len(v.segs)
        c.ob(key, "there is one byte expression per payload byte, empty at first", nm(size) == "M.DLC" and all(g[0] == "fill" and g[2] == Str(()) for g in v.segs), s.where(), vshow(v)[:300])
        okl = len(v.st) == 1 and v.st[0][0] == "loopst" and nm(v.st[0][3]) == "#M.Signals"
        if okl:
            _, lid, kv, n, ws = v.st[0]
            okl = len(ws) == 1 and ws[0][0] == "ext" and ws[0][1][0] == "pse" and nm(ws[0][1][1]) == "M.Signals[%s]" % nm(kv)
            lids.add(("cy", lid) if okl else None)
        c.ob(key, "all signals of the frame, and nothing else, contribute to its byte expressions", okl, s.where(), vshow(v)[:400])
    return lids


def joined_(t):
    return " ".join(t)


def numtok_(e, i, r):
    nm = r.file.c.namer(r.loops)
    return e[0] == "t" and numtok(e[1], nm(i)) is None


def nonempty_guard(r, head, k):
    from .view import named
    nm = r.file.c.namer(r.loops)
    for least in range(1, 11):
        g = named(L.ge0(Lin.of(L.sym(("len", k), 0, I31)) - least), nm)
        if equiv(r.guard, f_and(head, g)):
            return True
    return False


def pse_size(r, k):
    """what the builder is told as number of payload bytes"""
    nm = r.file.c.namer(r.loops)
    n = k[2]
    if nm(n) == "M.DLC":
        return "M.DLC"
    s = Sym.byid[n.t[0][0]] if isinstance(n, Lin) and len(n.t) == 1 and n.c == 0 else None
    if s is not None and s.key[0] == "size" and isinstance(s.key[1], tuple) and s.key[1][0] == "cy":
        x = s.key[1]
        while isinstance(x, tuple) and x and x[0] == "cy" and isinstance(x[1], tuple) and x[1] and x[1][0] == "cy":
            x = x[1]
        return ("cy", x[1])
    return "other: " + nm(n)


def drop_and_union(ss, guard):
    from .c_lib import once_each
    return once_each(ss, guard)


@reg("C01")
def c01(c):
    """PrintSignalExpr is interpreted for every byte order, start bit modulo 8 and length with symbolic start byte, frame
    length and earlier expressions; the resulting C expressions are evaluated in a domain of symbolic bits with C's
    promotion and shift rules and compared with the DBC bit positions."""
    R = Rules(c)
    c.assumes("start bits up to 511 (the parser rejects larger ones, C13), lengths 1..64", "int has 32 bits, unsigned long long 64 bits in the generated code's compiler")
    use_rules(c, R)
    check_layout(c, "bits")


@reg("C02")
def c02(c):
    """The same partitions, once under the condition that all bits lie inside the frame and once under its negation: the
    built texts must parse, respectively must not parse, as C expressions."""
    R = Rules(c)
    lids = use_rules(c, R)
    cy = {x for x in lids if isinstance(x, tuple)}
    c.ob("frame length", "signals are fitted against the length of their own frame", lids <= cy | {"M.DLC"} and len(cy) <= 1, "", "%s" % sorted(map(str, lids)))
    check_layout(c, "fit")


# ------------------------------------------------------------------ C03
def ext_value(stmts, W, b, pname, bname):
    """the helper's result for a value of b bits, as weights of its bits (modulo 2^W)"""
    vars_ = {}

    def lin(x):
        """weights of a bit list"""
        cst_, w = 0, {}
        for i, t in enumerate(x.b):
            if t == 1 and not isinstance(t, tuple):
                cst_ += 1 << i
            elif t == 0 and not isinstance(t, tuple):
                pass
            elif isinstance(t, tuple) and t[0] == "~":
                cst_ += 1 << i
                w[t[1]] = w.get(t[1], 0) - (1 << i)
            elif t == "x":
                raise AnalysisBroken("value in the sign extension helper")
            else:
                w[t] = w.get(t, 0) + (1 << i)
        return cst_, w

    def go(e):
        """BV or (const, weights)"""
        if e[0] == "par":
            return go(e[1])
        if e[0] == "cast":
            t = {"ubitext_t": (W, False), "bitext_t": (W, True)}.get(e[1]) or CT.get(e[1])
            if t is None:
                raise AnalysisBroken("cast to %s in the sign extension helper" % e[1])
            v = go(e[2])
            if isinstance(v, tuple):
                if t[0] < W:
                    raise AnalysisBroken("narrowing in the sign extension helper")
                return v
            return v.to(*t)
        if e[0] == "bin" and e[1] in ("+", "-"):
            a, b_ = go(e[2]), go(e[3])
            if isinstance(a, BV) and isinstance(b_, BV) and all(t in (0, 1) and not isinstance(t, tuple) for t in a.b + b_.b):
                a, b_ = common(a, b_)
                n = cval(a) + cval(b_) if e[1] == "+" else cval(a) - cval(b_)
                return cst(n, a.s, a.w)
            a = lin(a) if isinstance(a, BV) else a
            b_ = lin(b_) if isinstance(b_, BV) else b_
            s = 1 if e[1] == "+" else -1
            w = dict(a[1])
            for k, x in b_[1].items():
                w[k] = w.get(k, 0) + s * x
            return a[0] + s * b_[0], w
        if e[0] == "t" and e[1] in vars_:
            return vars_[e[1]]
        if e[0] in ("bin", "un"):
            xs = [go(x) for x in e[2:]]
            if any(isinstance(x, tuple) for x in xs):
                raise AnalysisBroken("arithmetic in the sign extension helper: " + show(e))
            names = {"@%d" % i: x for i, x in enumerate(xs)}
            return ev((e[0], e[1]) + tuple(("t", "@%d" % i) for i in range(len(xs))), lambda z: names.get(z[1]) if z[0] == "t" else None)
        if e[0] == "?:":
            raise AnalysisBroken("conditional in the sign extension helper")
        return ev(e, lambda z: None)
    vars_[pname] = BV(W, False, [("v", i) for i in range(b)])
    vars_[bname] = cst(b, True)
    for t in stmts:
        if t[0] == "return":
            r = go(parse(t[1:-1]))
            k, w = lin(r) if isinstance(r, BV) else r
            return k % (1 << W), {x: y % (1 << W) for x, y in w.items() if y % (1 << W)}
        a = assign(t)
        if a is None or a[1] != "=":
            raise AnalysisBroken("statement in the sign extension helper: " + joined_(t))
        vs = [x for x in a[0] if re.fullmatch(r"[A-Za-z_]\w*", x)]
        v = go(parse(a[2]))
        ty = [x for x in vs[:-1] if x != "const"]
        if ty and isinstance(v, BV):
            tt = {"ubitext_t": (W, False), "bitext_t": (W, True)}.get(" ".join(ty)) or CT.get(" ".join(ty))
            if tt is None:
                raise AnalysisBroken("type in the sign extension helper: " + joined_(t))
            v = v.to(*tt)
        vars_[vs[-1]] = v
    raise AnalysisBroken("the sign extension helper does not return")


@reg("C03")
def c03(c):
    """The parser's type selection is interpreted for every length and signedness with symbolic factor and offset; struct
    fields, casts and sign extension are template rules; the helper is evaluated as a linear form over the value's bits."""
    R = Rules(c)
    c.assumes("bitext_t/ubitext_t are configured at least as wide as the widest signed signal (documented in the generated source)")
    f, us = unpack_templates(c, R, None)
    key = "unpack function"
    sg = spec("S.Signed")
    name = None
    for s, op, casts, ext, k in us:
        c.ob(key, "raw values are converted to the signal's own type", casts[:1] == ["«type S.TypeRo»"] or not casts, s.where(), repr(s)[:200])
        if ext is None:
            c.ob(key, "signed signals are sign-extended", not sat(f_and(s.guard, sg)), s.where(), repr(s)[:200])
        else:
            c.ob(key, "unsigned signals are not sign-extended", not sat(f_and(s.guard, f_not(sg))), s.where(), repr(s)[:200])
            bits = ext[2][1] if len(ext[2]) == 2 else ("t", "")
            while bits[0] == "cast":
                bits = bits[2]
            c.ob(key, "sign extension starts at the signal's length", bits[0] == "t" and numtok(bits[1], "S.LengthBit") is None, s.where(), repr(s)[:200])
            name = show(ext[1])
    c.need(len(us), "assignments of raw values")
    if name:
        fs = [g for g in R.functions(R.v.file(C)) if name in g.head.toks]
        if c.ob("sign extension helper", "defined once in the source", len(fs) == 1, us[0][0].where(), "%d definitions" % len(fs)):
            g = fs[0]
            i = g.head.toks.index("(")
            ps, cur = [], []
            for t in g.head.toks[i + 1:]:
                if t in (",", ")"):
                    ps.append(cur)
                    cur = []
                else:
                    cur.append(t)
            st = [s for r, s in g.stmts()]
            bad = []
            okp = len(ps) == 2 and ps[0][:-1] == ["ubitext_t"] and g.head.toks[i - 2] == "bitext_t"
            c.ob("sign extension helper", "works on the configured types", okp and g.head.guard is True, g.head.where(), g.head.code)
            if okp:
                n = 0
                for W in (32, 64):
                    for b in range(1, W + 1):
                        try:
                            k, w = ext_value(st, W, b, ps[0][-1], ps[1][-1])
                        except (Syntax, Undef_) as e:
                            bad.append("%d bits: %s" % (b, e))
                            continue
                        want = {("v", i): (1 << i) % (1 << W) for i in range(b - 1)}
                        want[("v", b - 1)] = (-(1 << (b - 1))) % (1 << W)
                        n += 1
                        if k or w != want:
                            bad.append("%d bits in a %d bit type: bit weights %s" % (b, W, {x: y for x, y in w.items() if want.get(x) != y}))
                c.count("sign extension widths", n)
                c.ob("sign extension helper", "gives the top bit of a value of any length its negative weight", not bad, g.head.where(), str(bad[:1])[:300])
    # struct fields
    h = R.v.file(H)
    rows = [r for r in h.rows if r.toks[:1] == ["«type S.TypeRo»"] or r.toks[1:2] == ["«S.Name»"] and not r.code.startswith("#")]
    rows = [r for r in rows if loopnames(r) == (MSGS, SIGS) and "«S.Name»" in r.toks]
    B = "«DRV»_USE_BITS_SIGNAL"
    for pp in ((B,), ("!" + B,)):
        rs = [r for r in rows if tuple(r.pp) == pp]
        key = "struct field (%s)" % pp[0]
        g = spec("M.frameNotEmpty")
        ok = bool(rs) and equiv(f_or(*[r.guard for r in rs]), g) and not any(sat(f_and(a.guard, b.guard)) for i, a in enumerate(rs) for b in rs[:i])
        c.ob(key, "every signal has one field", ok, rs[0].where() if rs else h.where(), "%d lines" % len(rs))
        for r in rs:
            t = r.toks
            okf = t[0] == "«type S.TypeRo»" and t[1] == "«S.Name»" and (t[2:] == [";"] or len(t) == 5 and t[2] == ":" and t[4] == ";" and numtok(t[3], "S.LengthBit") is None)
            c.ob(key, "the field has the signal's type, a bit-field the signal's width", okf, r.where(), r.code)
            c.count("field lines")
    for r in rows:
        c.ob("struct fields", "only under the bit-field option", tuple(r.pp) in ((B,), ("!" + B,)), r.where(), str(r.pp))
    types(c)


def types(c):
    """type selection of the parser"""
    P = c.g.P
    I = genrun.start(P)
    fn = find_fn(P, "::GetSigType")
    ks = P.enums.get("SigType")
    if not ks:
        raise AnalysisBroken("enumeration SigType")
    val = {c_["name"]: c_["v"] for c_ in ks["consts"]}
    R_ = Rep(c, fn, "type selection")
    rule = "the type is the smallest standard integer of the signal's signedness that holds its length"
    for s in (False, True):
        for ln in range(1, 65):
            st = interp.St()
            st.cells[("h", "lp")] = Obj(fn["cls"] or "?", ("in", "lp"), {})
            st.cells[("h", "sig")] = Obj("SignalDescriptor_t", SIGK, {"LengthBit": Lin(ln), "Signed": s})
            I.run(fn, st, (("h", "lp"), ()), [Ptr((("h", "sig"), ())) if fn["params"][0]["ty"]["t"] == "ptr" else Ref((("h", "sig"), ()))])
            o = st.cells[("h", "sig")]
            want = val.get("%s%d" % ("i" if s else "u", ctype(ln)))
            got = I.read(st, I.sub((("h", "sig"), ()), ("f", "TypeRo")))
            for ff, (x,) in splits([got], st.facts.copy()):
                R_.ob(rule, isinstance(x, Lin) and x.is_const() and x.c == want, "%s signal of %d bits: type %s instead of %s" % ("signed" if s else "unsigned", ln, vshow(x), want))
            for fld, v0 in (("LengthBit", Lin(ln)), ("Signed", s)):
                x = I.read(st, I.sub((("h", "sig"), ()), ("f", fld)))
                R_.ob("type selection does not change the length or the sign", x == v0 or (isinstance(x, Lin) and x == Lin(int(v0)) if not isinstance(v0, Lin) else False), "%s %s" % (fld, vshow(x)))
    R_.done()
