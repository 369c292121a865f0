"""Models of the standard library calls that the analysed program uses."""
import re
from .values import *
from . import values as VV
from .model import AnalysisBroken
from . import interp as IP

NPOS = 2 ** 64 - 1


def base_name(callee):
    """std::vector<X>::push_back -> std::vector::push_back"""
    out, d = [], 0
    i = 0
    s = callee or ""
    if "operator" in s:
        p = s.rindex("operator")
        head, tail = s[:p], s[p:]
    else:
        head, tail = s, ""
    for ch in head:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    n = "".join(out) + tail
    return n.replace("std::__cxx11::", "std::")


def tyname(ty):
    while ty and ty.get("t") == "ref":
        ty = ty["to"]
    return ty.get("name") if ty and ty.get("t") == "rec" else None


def is_char(ty):
    while ty and ty.get("t") == "ref":
        ty = ty["to"]
    return bool(ty) and ty.get("t") == "int" and ty.get("bits") == 8


STREAMS = {"std::basic_stringstream", "std::basic_ostringstream", "std::basic_istringstream", "std::basic_ofstream",
           "std::basic_ifstream", "std::basic_fstream", "std::basic_ostream", "std::basic_istream", "std::basic_iostream",
           "std::basic_ios", "std::ios_base"}


# ------------------------------------------------------------------ defaults
def new_stream(name):
    return Obj("#" + name, None, {"buf": EMPTY, "read": EMPTY, "bad": False, "path": EMPTY, "opened": False, "fmt": Misc("fmt", "", 6),
                                  "lines": Lin(0)})


def default(I, ty, zero):
    n = ty["name"]
    if n == "std::basic_string":
        return EMPTY
    if n in ("std::vector", "std::initializer_list"):
        return Vec()
    if n in ("std::set", "std::unordered_set"):
        return SetV()
    if n == "std::pair":
        a, b = ty["args"][0], ty["args"][1]
        return Obj(IP.pair_ty(a, b), None, {"first": I.default(a, True), "second": I.default(b, True)})
    if n in STREAMS:
        return new_stream(n)
    if n == "std::error_code":
        return Misc("ec", False)
    if n == "std::match_results":
        return Misc("match", False, ())
    if n == "std::regex_token_iterator":
        return Misc("tokend")
    return Opq(("default", n))


def global_value(I, name):
    if name in ("std::cout", "std::cerr", "std::clog"):
        o = new_stream("console")
        o.ov["path"] = lit(name)
        return o
    return Opq(("global", name))


# ------------------------------------------------------------------ strings
def to_str(I, st, v):
    if isinstance(v, Str):
        return v
    if isinstance(v, CPtr):
        if v.off == 0:
            return v.s
        return substr(I, st, v.s, Lin(v.off), None)
    if isinstance(v, Ptr):
        loc = v.loc
        off = None
        if loc[1] and loc[1][-1][0] == "i":
            off = loc[1][-1][1]
            loc = (loc[0], loc[1][:-1])
        x = I.read(st, loc)
        if isinstance(x, Undef):
            I.emit("obl:uninit", st, (False, None))
            return hole(("uninit", loc))
        if isinstance(x, (Str, CPtr, Phi)):
            x = to_str(I, st, x)
            if off is not None and off != Lin(0):
                return substr(I, st, x, off, None)
            return x
        if isinstance(x, Vec) and len(x.st) == 1 and x.st[0][0] == "chars":
            x = x.st[0][1]
            return x if off is None or off == Lin(0) else substr(I, st, x, off, None)
        return hole(("str", v))
    if isinstance(v, Ref):
        return to_str(I, st, I.read(st, v.loc))
    if isinstance(v, Phi):
        n = st.facts.simp(v.c)
        if n is True:
            return to_str(I, st, v.a)
        if n is False:
            return to_str(I, st, v.b)
        return ite(v.c, to_str(I, st, v.a), to_str(I, st, v.b))
    if isinstance(v, Null):
        I.emit("obl:null", st, (False, v))
        return hole(("nullstr",))
    if isinstance(v, Undef):
        I.emit("obl:uninit", st, (False, v))
        return hole(("uninit", I.cur))
    if isinstance(v, Lin):
        return chr_str(v)
    if isinstance(v, Misc) and v.kind == "sub":
        return v.d[0]
    if isinstance(v, Misc) and v.kind == "path":
        return v.d[0]
    return hole(("opqstr", v))


def chr_str(v):
    if v.is_const():
        return lit(chr(v.c & 255))
    e = expand_ite(v)
    if e:
        return str_ite(e[0], chr_str(e[1]), chr_str(e[2]))
    return Str((("C", v),))


def split_at(s, pos):
    """(left, right) when the position falls on a known place of the template, else None"""
    off = Lin(0)
    for i, g in enumerate(s.segs):
        d = pos - off
        if d.is_const():
            if d.c == 0:
                return Str(s.segs[:i]), Str(s.segs[i:])
            if g[0] == "L" and 0 < d.c < len(g[1]):
                return mkstr(s.segs[:i] + (("L", g[1][:d.c]),)), mkstr((("L", g[1][d.c:]),) + s.segs[i + 1:])
            if d.c < 0:
                return None
        if g[0] == "F":
            # inside a run of fill characters
            pass
        off = off + seg_len(g)
    if pos == off:
        return s, EMPTY
    # a suffix counted from the end
    return None


def opaque_part(tag, s, *a):
    return hole((tag, s) + a)


def substr(I, st, s, pos, n, e=None):
    L_ = str_len(s)
    I.oblige("throw", st, ge0(L_ - pos), e, "substr position")
    r = split_at(s, pos)
    if r is None:
        h = ("sub", s, pos, n)
        HOLE_META.setdefault(h, {"min": 0, "cs": str_cs(s)})
        return hole(h)
    right = r[1]
    if n is None or n == Lin(NPOS):
        return right
    if st.facts.ask(ge0(n - str_len(right))) is True:
        return right
    r2 = split_at(right, n)
    if r2 is not None:
        return r2[0]
    if n.is_const() and n.c >= 0 and right.segs:
        # the known beginning, then the first characters of what follows
        out, rem, i = (), n.c, 0
        for i, g in enumerate(right.segs):
            ln = seg_len(g)
            if not ln.is_const() or ln.c > rem:
                break
            out, rem = out + (g,), rem - ln.c
        rest = Str(right.segs[i:])
        g = rest.segs[0]
        if min_len(g) >= rem:
            rest = Str((g,))
            lo = rem
        else:
            lo, _ = st.facts.bound(str_len(rest))
            lo = max(0, min(rem, lo))
        h = ("sub", rest, Lin(0), Lin(rem))
        HOLE_META.setdefault(h, {"min": lo, "max": rem, "cs": str_cs(rest)})
        return mkstr(out + (("H", h),))
    h = ("sub", s, pos, n)
    HOLE_META.setdefault(h, {"min": 0, "cs": str_cs(s)})
    return hole(h)


def seg_cs(g):
    """set of characters a segment can contain (None: any)"""
    t = g[0]
    if t == "L":
        return frozenset(g[1])
    if t == "H":
        m = HOLE_META.get(g[1])
        return m.get("cs") if m else None
    if t == "N":
        sp = g[1]
        if sp.endswith(("x", "X")):
            return frozenset("0123456789abcdefABCDEFxX ")
        return frozenset("0123456789-+.einfa ")
    if t == "C":
        if g[1].is_const():
            return frozenset(chr(g[1].c & 255))
        return None
    if t == "F":
        return frozenset(chr(g[2].c & 255)) if g[2].is_const() else None
    if t == "I":
        a, b = str_cs(g[2]), str_cs(g[3])
        return None if a is None or b is None else a | b
    if t == "R":
        return str_cs(g[4])
    if t == "T":
        return frozenset("".join(g[1]))
    return None


def str_cs(s):
    r = frozenset()
    for g in s.segs:
        c = seg_cs(g)
        if c is None:
            return None
        r |= c
    return r


def min_len(g):
    n = seg_len(g)
    return Facts().bound(n)[0]


def find_set(s, want, start=None, last=False):
    """first (last) position of a character in/not in a set: Lin, None (never), or 'unknown'.
    want: function char -> bool"""
    def kind(g):
        cs = seg_cs(g)
        if cs is None:
            return "?"
        w = [want(c) for c in cs]
        if not w or not any(w):
            return "none"
        if all(w):
            return "all"
        return "?"
    offs = []
    off = Lin(0)
    for g in s.segs:
        offs.append(off)
        off = off + seg_len(g)
    it = list(zip(s.segs, offs))
    if last:
        it.reverse()
    started = start is None or start == Lin(0)
    for g, o in it:
        if g[0] == "L":
            rng = range(len(g[1]))
            if last:
                rng = reversed(rng)
            for j in rng:
                if not started:
                    d = o + j - start
                    if d.is_const():
                        if d.c < 0:
                            continue
                    else:
                        lo, hi = Facts().bound(d)
                        if hi < 0:
                            continue
                        if lo < 0:
                            return "unknown"
                if want(g[1][j]):
                    return o + j
            continue
        k = kind(g)
        if k == "none":
            continue
        if not started:
            lo, hi = Facts().bound(o + seg_len(g) - start - 1)
            if hi < 0:
                continue
            lo2, _ = Facts().bound(o - start)
            if lo2 < 0:
                return "unknown"
        if k == "all" and min_len(g) >= 1:
            return o + (seg_len(g) - 1) if last else o
        return "unknown"
    return None


def starts(s, w):
    """does s start with the literal w: True, False or None"""
    for g in s.segs:
        if not w:
            return True
        if g[0] == "L":
            n = min(len(w), len(g[1]))
            if g[1][:n] != w[:n]:
                return False
            w = w[n:]
            continue
        cs = seg_cs(g)
        if cs is None or w[0] in cs:
            return None
        if min_len(g) >= 1:
            return False
        # only an empty part lets it go on
        k = s.segs.index(g)
        return False if starts(Str(s.segs[k + 1:]), w) is False else None
    return not w


def find_sub(s, w, start=None):
    """position of literal w in s: Lin, None or 'unknown'"""
    if len(w) == 1:
        return find_set(s, lambda c: c == w, start)
    if s.lit is not None and (start is None or start.is_const()):
        p = s.lit.find(w, start.c if start is not None else 0)
        return Lin(p) if p >= 0 else None
    # match over segments: all segments around must be literal or unable to take part
    off = Lin(0)
    chars = set(w)
    for i, g in enumerate(s.segs):
        if g[0] == "L":
            t = g[1]
            b = 0
            if start is not None:
                d = start - off
                if d.is_const():
                    b = max(0, d.c)
                else:
                    return "unknown"
            p = t.find(w, b)
            if p >= 0:
                return off + p
            # straddling the end: the next segment can continue it
            for j in range(1, len(w)):
                if t.endswith(w[:j]) and i + 1 < len(s.segs):
                    nx = s.segs[i + 1]
                    cs = seg_cs(nx)
                    if cs is None or w[j] in cs or min_len(nx) < 1:
                        return "unknown"
        else:
            cs = seg_cs(g)
            if cs is None:
                return "unknown"
            if w[0] in cs and (min_len(g) < 1 or len(w) > 1) and set(w) <= cs:
                return "unknown"
            if i + 1 < len(s.segs):
                for j in range(1, len(w)):
                    if set(w[:j]) <= cs:
                        nx = s.segs[i + 1]
                        if nx[0] == "L":
                            if nx[1].startswith(w[j:]) or w[j:].startswith(nx[1]):
                                return "unknown"
                        else:
                            return "unknown"
        off = off + seg_len(g)
    return None


def streq(a, b):
    if a == b:
        return True
    x, y = list(a.segs), list(b.segs)
    # common prefix
    while x and y:
        if x[0] == y[0]:
            x.pop(0), y.pop(0)
            continue
        if x[0][0] == "L" and y[0][0] == "L":
            p, q = x[0][1], y[0][1]
            n = min(len(p), len(q))
            if p[:n] != q[:n]:
                return False
            x[0], y[0] = ("L", p[n:]), ("L", q[n:])
            if not p[n:]:
                x.pop(0)
            if not q[n:]:
                y.pop(0)
            continue
        break
    while x and y:
        if x[-1] == y[-1]:
            x.pop(), y.pop()
            continue
        if x[-1][0] == "L" and y[-1][0] == "L":
            p, q = x[-1][1], y[-1][1]
            n = min(len(p), len(q))
            if p[-n:] != q[-n:]:
                return False
            x[-1], y[-1] = ("L", p[:-n]), ("L", q[:-n])
            if not p[:-n]:
                x.pop()
            if not q[:-n]:
                y.pop()
            continue
        break
    a, b = Str(tuple(x)), Str(tuple(y))
    if a == b:
        return True
    if not b.segs:
        a, b = b, a
    if not a.segs:
        return f_not(ge0(str_len(b) - 1))
    for p, q in ((a, b), (b, a)):
        if len(p.segs) == 1 and p.segs[0][0] == "I":
            g = p.segs[0]
            return f_ite(g[1], streq(g[2], q), streq(g[3], q))
        if len(p.segs) == 1 and p.segs[0][0] == "C" and not p.segs[0][1].is_const() and q.lit is not None:
            if len(q.lit) != 1:
                return False
            return eq0(p.segs[0][1] - IP._sc(q.lit))
    # a leading literal the other side cannot produce
    for p, q in ((a, b), (b, a)):
        if p.segs[0][0] == "L":
            g = q.segs[0]
            if g[0] in ("H", "N") and min_len(g) >= 1:
                cs = seg_cs(g)
                if cs is not None and p.segs[0][1][0] not in cs:
                    return False
        if p.lit is not None:
            cs = str_cs(q)
            if cs is not None and not set(p.lit) <= cs:
                return False
            lo, hi = Facts().bound(str_len(q))
            if len(p.lit) < lo or len(p.lit) > hi:
                return False
            if len(q.segs) == 1 and q.segs[0][0] == "H":
                return ("a", ("streq", q.segs[0][1], p.lit))
    if repr(a) > repr(b):
        a, b = b, a
    return ("a", ("seq", a, b))


VV.REBUILD["seq"] = lambda k: streq(k[1], k[2])


def _rb_streq(k):
    if isinstance(k[1], Str):
        return streq(k[1], lit(k[2]))
    return ("a", k)


VV.REBUILD["streq"] = _rb_streq


def prefix_of(s, n):
    """first n characters"""
    if n == str_len(s):
        return s
    r = split_at(s, n)
    if r is not None:
        return r[0]
    h = ("pre", s, n)
    HOLE_META.setdefault(h, {"min": 0, "cs": str_cs(s)})
    return hole(h)


def fill(n, ch):
    return mkstr([("F", n, ch)])


UP = {"upper": str.upper, "lower": str.lower}


def map_case(s, kd):
    out = []
    for g in s.segs:
        if g[0] == "L":
            out.append(("L", "".join(UP[kd](c) if ord(c) < 128 else c for c in g[1])))
        elif g[0] == "H":
            k = g[1]
            while isinstance(k, tuple) and len(k) == 2 and k[0] in ("upper", "lower"):
                k = k[1]
            h = (kd, k)
            m = HOLE_META.get(g[1])
            if m and h not in HOLE_META:
                m2 = dict(m)
                if m.get("cs"):
                    m2["cs"] = frozenset(UP[kd](c) for c in m["cs"])
                HOLE_META[h] = m2
            out.append(("H", h))
        elif g[0] == "I":
            out.append(("I", g[1], map_case(g[2], kd), map_case(g[3], kd)))
        elif g[0] == "R":
            out.append(g[:4] + (map_case(g[4], kd),))
        elif g[0] == "N" and g[1][-1] in "diu":
            out.append(g)
        elif g[0] == "T":
            out.append(("T", tuple(UP[kd](x) for x in g[1]), g[2]))
        else:
            out.append(("H", (kd, Str((g,)))))
    return mkstr(out)


# ('upper', x) keeps the length of x
_old_seg_len = VV.seg_len


def _seg_len(g):
    if g[0] == "H" and isinstance(g[1], tuple) and len(g[1]) == 2 and g[1][0] in ("upper", "lower"):
        return _seg_len(("H", g[1][1])) if not isinstance(g[1][1], Str) else str_len(g[1][1])
    return _old_seg_len(g)


VV.seg_len = _seg_len
seg_len = _seg_len
IP.seg_len = _seg_len


def _rb_case(k):
    if isinstance(k[1], Str):
        return map_case(k[1], k[0])
    return hole(k)


VV.HOLE_REBUILD["upper"] = VV.HOLE_REBUILD["lower"] = _rb_case

# ------------------------------------------------------------------ printf
SPEC = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXcsfgeEGFp%])")


def fmt_num(spec, v):
    """text of an integer printed with spec"""
    if v.is_const():
        return lit(pyfmt(spec, v.c))
    e = expand_ite(v)
    if e:
        return str_ite(e[0], fmt_num(spec, e[1]), fmt_num(spec, e[2]))
    return num(spec, v)


def pyfmt(spec, n):
    m = SPEC.fullmatch("%" + spec)
    fl, w, pr, _, c = m.groups()
    if c == "i":
        c = "d"
    if c == "u":
        c = "d"
    f = "%" + fl + (w or "") + (("." + pr) if pr else "") + c
    if c in "xX" and "#" in fl and n == 0:
        return ("%" + fl.replace("#", "") + (w or "") + c) % n
    return f % n


def format_str(I, st, fmt, args, e=None):
    """text produced by printf with a known format"""
    f = fmt.lit
    if f is None:
        # conditional formats
        if len(fmt.segs) == 1 and fmt.segs[0][0] == "I":
            g = fmt.segs[0]
            return str_ite(g[1], format_str(I, st, g[2], args, e), format_str(I, st, g[3], args, e))
        cs = str_cs(fmt)
        if cs is not None and "%" not in cs:
            return fmt
        I.emit("obl:format", st, (False, "the format string is not constant"), e)
        return hole(("fmt", fmt, tuple(args)))
    out = []
    pos = 0
    args = list(args)
    while True:
        p = f.find("%", pos)
        if p < 0:
            out.append(("L", f[pos:]))
            break
        if p > pos:
            out.append(("L", f[pos:p]))
        m = SPEC.match(f, p)
        if not m:
            I.emit("obl:format", st, (False, "conversion %r" % f[p:p + 4]), e)
            out.append(("H", ("badfmt", f[p:])))
            break
        pos = m.end()
        fl, w, pr, ln, c = m.groups()
        if c == "%":
            out.append(("L", "%"))
            continue
        star = []
        for x in (w, pr):
            if x == "*":
                star.append(args.pop(0) if args else Undef())
        if not args:
            I.emit("obl:format", st, (False, "missing argument of %s" % m.group(0)), e)
            out.append(("H", ("noarg", f)))
            continue
        a = args.pop(0)
        out.extend(fmt_one(I, st, fl, w, pr, ln, c, star, a, m.group(0), e).segs)
    return mkstr(out)


def fmt_one(I, st, fl, w, pr, ln, c, star, a, text, e):
    if isinstance(a, Phi) and not is_f(a):
        return str_ite(a.c, fmt_one(I, st, fl, w, pr, ln, c, star, a.a, text, e), fmt_one(I, st, fl, w, pr, ln, c, star, a.b, text, e))
    if isinstance(a, Undef):
        I.emit("obl:uninit", st, (False, "argument of %s" % text), e)
        return hole(("uninit", I.cur))
    if c == "s":
        if isinstance(a, (Lin, Flt)) or is_f(a):
            I.emit("obl:format", st, (False, "%s gets a number" % text), e)
            return hole(("badarg", a))
        s = to_str(I, st, a)
        if pr is not None and pr != "*":
            if s.lit is not None:
                s = lit(s.lit[:int(pr)])
            else:
                return hole(("prec", s, int(pr)))
        if star or w:
            if w and w != "*":
                wl = Lin(int(w))
            elif star and isinstance(star[0], Lin):
                wl = star[0]
            else:
                return hole(("pad", s, tuple(star)))
            pad = wl - str_len(s)
            pad = ite(st.facts.simp(ge0(pad)), pad, Lin(0))
            return cat(s, fill(pad, Lin(32))) if "-" in fl else cat(fill(pad, Lin(32)), s)
        return s
    if c == "c":
        if isinstance(a, Lin):
            return chr_str(a)
        return hole(("chr", a))
    if c in "diouxX":
        if is_f(a):
            a = ite(a, Lin(1), Lin(0))
        if not isinstance(a, Lin):
            if isinstance(a, (Flt, CPtr, Ptr, Str, SPtr)):
                I.emit("obl:format", st, (False, "%s does not fit its argument" % text), e)
            return hole(("badarg", a, c))
        bits = 64 if ln in ("l", "ll", "z", "j", "t") else 32
        if ln == "hh":
            bits = 8
        if ln == "h":
            bits = 16
        v = I.conv(a, {"t": "int", "bits": bits, "signed": c in "di"}, st)
        sp = fl + (w or "") + (("." + pr) if pr else "") + ("d" if c in "diu" else c)
        if star:
            return hole(("fmtstar", sp, v, tuple(star)))
        return fmt_num(sp, v)
    if c in "fgeEGF":
        if isinstance(a, Lin):
            I.emit("obl:format", st, (False, "%s gets an integer" % text), e)
        return num(fl + (w or "") + (("." + pr) if pr else "") + c, a if isinstance(a, Flt) else Flt(("opq", a)))
    return hole(("address", vshow(a)[:60]))


def real_len(n):
    """the length in terms of the text behind a length that was returned as an int"""
    for i, c in n.t:
        k = Sym.byid[i].key
        if isinstance(k, tuple) and k[0] == "slen":
            return real_len(n - Lin.of(Sym.byid[i], c) + str_len(k[1]).scale(c))
    return n


def room_of(I, st, dst):
    """characters that can be written behind a pointer"""
    if not isinstance(dst, Ptr):
        return None
    loc, off = dst.loc, Lin(0)
    if loc[1] and loc[1][-1][0] == "i":
        off = loc[1][-1][1]
        loc = (loc[0], loc[1][:-1])
    ty = I.leaf_type(st, loc)
    if ty and ty["t"] == "arr":
        return Lin(ty["n"]) - off
    v = I.read(st, loc)
    if isinstance(v, Str):
        return real_len(str_len(v)) + 1 - off
    if isinstance(v, Vec):
        return real_len(size_of(I, st, v)) - off
    return None


def buf_write(I, st, dst, cap, s, e, what):
    """snprintf into dst"""
    n = str_len(s)
    if st.facts.bound(n)[1] > I31 - 1:
        # the length that is returned is an int: texts are shorter than 2^31 (documented assumption)
        n = Lin.of(sym(("slen", s), max(0, st.facts.bound(n)[0]), I31 - 1))
    if isinstance(dst, Null):
        return n
    text = s
    room = room_of(I, st, dst)
    if room is not None:
        if isinstance(cap, Lin):
            I.oblige("buffer", st, f_or(ge0(room - real_len(cap)), ge0(room - real_len(n) - 1)), e, what)
        else:
            I.oblige("buffer", st, ge0(room - real_len(n) - 1), e, what)
    if isinstance(cap, Lin):
        I.trunc(st, cap, s, e, what)
    if isinstance(dst, Ptr):
        loc = dst.loc
        if loc[1] and loc[1][-1][0] == "i":
            off = loc[1][-1][1]
            loc = (loc[0], loc[1][:-1])
            cur = I.read(st, loc)
            if isinstance(cur, Str) and cur.segs:
                # a std::string that is filled in place keeps its size
                total = str_len(cur)
                if off == Lin(0):
                    rest = real_len(total) - real_len(n)
                    if rest.is_const() and rest.c >= 1:
                        text = cat(s, lit("\0" * rest.c))
                    elif rest.is_const() and rest.c == 0:
                        text = prefix_of(s, n - 1)
                    else:
                        text = hole(("filled", s, total))
                else:
                    text = hole(("filledat", s, off))
            elif isinstance(cur, Vec):
                # a vector of characters keeps its size
                if off != Lin(0):
                    raise AnalysisBroken("text written into the middle of a vector (%s:%s)" % (I.cur[0], e.get("l")))
                text = Vec(cur.segs, (("chars", s),))
        I.write(st, loc, text)
    elif isinstance(dst, Opq):
        raise AnalysisBroken("snprintf into an unknown buffer (%s:%s)" % (I.cur[0], e.get("l")))
    return n


# ------------------------------------------------------------------ containers
def size_of(I, st, v):
    if isinstance(v, Vec):
        return segs_len(v.segs)
    if isinstance(v, Str):
        return str_len(v)
    if isinstance(v, Phi):
        return ite(v.c, size_of(I, st, v.a), size_of(I, st, v.b))
    if isinstance(v, SetV):
        return Lin.of(sym(("setsize", v), 0, I31))
    if isinstance(v, Undef):
        return Lin.of(sym(("size", "undef"), 0, I31))
    return Lin.of(sym(("size", v), 0, I31))


def it_loc(I, st, it, e=None):
    loc, idx = it.d[0], it.d[1]
    n = size_of(I, st, I.read(st, loc))
    I.oblige("index", st, f_and(ge0(idx), ge0(n - idx - 1)), e, "iterator")
    return I.sub(loc, ("i", idx))


def it_add(I, st, it, d):
    if it.kind == "it":
        return Misc("it", it.d[0], it.d[1] + d, *it.d[2:])
    if it.kind == "tokit":
        return Misc("tokit", it.d[0], it.d[1] + d, *it.d[2:])
    return Opq(("itadd", it))


def truth(I, v, st):
    if isinstance(v, Misc):
        if v.kind == "ec":
            return v.d[0]
        if v.kind == "bool":
            return v.d[0]
    return None


def misc_compare(I, st, op, a, b):
    f = None
    if a.kind == "it" and b.kind == "it" and a.d[0] == b.d[0]:
        if op in ("==", "!="):
            f = VV.eq0(a.d[1] - b.d[1])
        elif op == "<":
            return st.facts.simp(f_not(VV.ge0(a.d[1] - b.d[1])))
        elif op == ">":
            return st.facts.simp(f_not(VV.ge0(b.d[1] - a.d[1])))
        elif op == "<=":
            return st.facts.simp(VV.ge0(b.d[1] - a.d[1]))
        else:
            return st.facts.simp(VV.ge0(a.d[1] - b.d[1]))
    elif a.kind == "setit" and b.kind == "setend" or b.kind == "setit" and a.kind == "setend":
        it = a if a.kind == "setit" else b
        f = f_not(it.d[1])
    elif a.kind == "tokit" and b.kind == "tokend" or b.kind == "tokit" and a.kind == "tokend":
        it = a if a.kind == "tokit" else b
        n = segs_len(it.d[0].segs)
        f = VV.eq0(n - it.d[1])
    elif a.kind == b.kind == "tokend":
        f = True
    if f is None:
        return None
    f = st.facts.simp(f)
    return f if op == "==" else f_not(f)


def equals(I, st, a, b):
    """formula a == b for element values"""
    if isinstance(a, Ref):
        a = I.read(st, a.loc)
    if isinstance(b, Ref):
        b = I.read(st, b.loc)
    if isinstance(a, Str) or isinstance(b, Str):
        return streq(to_str(I, st, a), to_str(I, st, b))
    if isinstance(a, Phi):
        return f_ite(a.c, equals(I, st, a.a, b), equals(I, st, a.b, b))
    if isinstance(b, Phi):
        return f_ite(b.c, equals(I, st, a, b.a), equals(I, st, a, b.b))
    if isinstance(a, Lin) and isinstance(b, Lin):
        return VV.eq0(a - b)
    return I.compare("==", a, b, {}, st)


def first_idx(k, n, f):
    s = sym(("first", IP.canon_ex(k, f), n), 0, I31)
    x = Lin.of(s)
    L.DEF_FACTS.below(x - n, VV.exists(k, n, f))
    return x


def _rb_first(k, o):
    if len(k) >= 3 and isinstance(k[2], Lin):
        n = k[2]
        s = sym(k, 0, I31)
        v = Lin.of(sym(("bv", VV._depth(k[1])), 0, I31))
        L.DEF_FACTS.below(Lin.of(s) - n, VV.exists(v, n, k[1]))
        return Lin.of(s)
    return None


VV.SYM_REBUILD["first"] = _rb_first


def _rb_pos(k, o):
    s = k[2]
    if not isinstance(s, Str):
        return None
    x = Lin.of(sym(k, 0, I31))
    L.DEF_FACTS.below(x - str_len(s), ("a", ("has", k[1], s, k[3])))
    return x


VV.SYM_REBUILD["pos"] = _rb_pos


def find_pred(I, st, b, e_, pred, e):
    """index of the first element in [b,e) for which pred holds, else e"""
    loc = b.d[0]
    v = I.read(st, loc)
    n = e_.d[1] - b.d[1]
    n = n
    if n.is_const() and n.c <= 16:
        r = e_.d[1]
        for i in reversed(range(max(0, n.c))):
            idx = b.d[1] + i
            c = st.facts.simp(pred(I.sub(loc, ("i", idx)), st))
            r = ite(c, idx, r)
        return Misc("it", loc, r)
    k = Lin.of(sym(("fk", I.nodeid(e), I.fr.fid), 0, I31))
    s2 = st.copy()
    s2.facts.assume(ge0(n - k - 1))
    c = pred(I.sub(loc, ("i", b.d[1] + k)), s2)
    for root, x in s2.cells.items():
        if root not in st.cells and root[0] in ("sym", "g"):
            st.cells[root] = x
    found = st.facts.simp(exists(k, n, s2.facts.simp(c)))
    if found is False:
        return Misc("it", loc, e_.d[1])
    return Misc("it", loc, ite(found, b.d[1] + first_idx(k, n, c), e_.d[1]))


def member(S, x):
    """formula: x in S"""
    return _mem(S.segs, x)


def _mem(segs, x):
    fs = []
    for g in segs:
        t = g[0]
        if t == "one":
            fs.append(streq(g[1], x) if isinstance(g[1], Str) and isinstance(x, Str) else (VV.eq0(g[1] - x) if isinstance(g[1], Lin) and isinstance(x, Lin) else ("a", ("opq", ("mem", g[1], x)))))
        elif t == "if":
            fs.append(f_ite(g[1], _mem(g[2], x), _mem(g[3], x)))
        elif t == "loop":
            fs.append(exists(g[2], g[3], _mem(g[4], x)))
        else:
            fs.append(("a", ("mem", SetV((g,)), x)))
    return f_or(*fs)


VV.REBUILD["mem"] = lambda k: member(k[1], k[2]) if not (len(k[1].segs) == 1 and k[1].segs[0][0] in ("cy", "sym", "opq")) else ("a", k)
_old_ite = VV.ite


def _ite(c, a, b):
    if isinstance(a, SetV) and isinstance(b, SetV) and not isinstance(c, bool):
        for x, y, neg in ((a, b, True), (b, a, False)):
            if len(x.segs) == len(y.segs) + 1 and x.segs[:-1] == y.segs and x.segs[-1][0] == "one":
                m = member(y, x.segs[-1][1])
                # x is chosen when the element is missing
                if c == (f_not(m) if neg else m):
                    return x
    return _old_ite(c, a, b)


VV.ite = _ite
ite = _ite
IP.ite = _ite


def vec_append(v, *segs):
    if isinstance(v, Phi):
        return ite(v.c, vec_append(v.a, *segs), vec_append(v.b, *segs))
    if isinstance(v, Vec):
        return Vec(v.segs + tuple(segs), v.st)
    return Opq(("append", v))


# ------------------------------------------------------------------ dispatch
def obj_loc(I, st, e):
    o = e["obj"]
    if e.get("arrow"):
        return I.deref(st, I.rv(o, st), e)
    return I.lv_or_tmp(o, st, ("obj", I.nodeid(e)))


def call(I, st, e, want_lv=False):
    k = e["k"]
    n = base_name(e.get("callee") or "")
    if k == "MCall":
        cls, _, m = n.rpartition("::")
        if m.startswith("operator"):
            pass
        h = METHODS.get((CLS.get(cls, cls), e.get("name") or m))
        if h is None:
            return unknown(I, st, e, n)
        loc = obj_loc(I, st, e)
        if st.dead:
            return Opq("dead")
        if CLS.get(cls, cls) == "vec" and (e.get("name") or m) in VMUT and not I.dry:
            # elements may be moved or removed
            for l in leaf_locs(loc):
                if l[1] and l[1][-1][0] == "f":
                    I.emit("vmut", st, (l[1][-1][1], e.get("name") or m), e)
        return h(I, st, e, loc)
    if k == "OpCall":
        op = e["op"]
        args = e["args"]
        t0 = tyname(args[0].get("ty")) if args else None
        return opcall(I, st, e, op, args, t0)
    h = FUNCS.get(n) or FUNCS.get(n.split("::")[-1] if n.startswith(("std::", "__builtin_")) else n)
    if h is None:
        return unknown(I, st, e, n)
    return h(I, st, e)


def unknown(I, st, e, n):
    raise AnalysisBroken("library call %s is not modelled (%s:%s)" % (n, I.cur[0], e.get("l")))


def call_named(I, st, name, args, e):
    n = base_name(name).split("::")[-1]
    if n in ("toupper", "tolower"):
        return case_char(args[0], "upper" if n == "toupper" else "lower")
    if n in CTYPE:
        return ctype(n, args[0])
    raise AnalysisBroken("library function %s as a value is not modelled" % name)


CLS = {"std::basic_ofstream": "S", "std::basic_ifstream": "S", "std::basic_ios": "S", "std::basic_istream": "S", "std::basic_ostream": "S",
       "std::basic_stringstream": "S", "std::basic_ostringstream": "S", "std::basic_istringstream": "S", "std::ios_base": "S", "std::basic_fstream": "S",
       "std::basic_iostream": "S",
       "std::basic_string": "str", "std::vector": "vec", "std::set": "set", "std::unordered_set": "set"}
def leaf_locs(loc):
    if isinstance(loc, Misc):
        return leaf_locs(loc.d[1]) + leaf_locs(loc.d[2]) if loc.kind == "philoc" else []
    return [loc]


METHODS = {}
VMUT = {"push_back", "emplace_back", "pop_back", "insert", "emplace", "erase", "clear", "resize", "assign", "reserve", "shrink_to_fit", "swap"}
FUNCS = {}


def meth(c, *names):
    def d(f):
        for n in names:
            METHODS[(c, n)] = f
        return f
    return d


def func(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f
    return d


def arg(I, st, e, i):
    return I.rv(e["args"][i], st)


def nargs(e):
    return len([a for a in e["args"] if not a.get("defarg")])


# ---- string methods
def rdstr(I, st, loc):
    v = I.read(st, loc)
    if isinstance(v, Undef):
        return EMPTY
    return to_str(I, st, v)


@meth("str", "c_str", "data")
def s_cstr(I, st, e, loc):
    s = rdstr(I, st, loc)
    tmp = not I.is_lv(e["obj"]) if not e.get("arrow") else False
    return CPtr(s, 0, tmp)


@meth("str", "size", "length")
def s_size(I, st, e, loc):
    return str_len(rdstr(I, st, loc))


@meth("str", "empty")
def s_empty(I, st, e, loc):
    return f_not(ge0(str_len(rdstr(I, st, loc)) - 1))


@meth("str", "clear")
def s_clear(I, st, e, loc):
    I.write(st, loc, EMPTY)
    return Opq("void")


@meth("str", "back")
def s_back(I, st, e, loc):
    s = rdstr(I, st, loc)
    I.oblige("index", st, ge0(str_len(s) - 1), e, "back() of a string")
    if not s.segs:
        return Lin(0)
    return I.lastchar(s)


@meth("str", "front")
def s_front(I, st, e, loc):
    s = rdstr(I, st, loc)
    I.oblige("index", st, ge0(str_len(s) - 1), e, "front() of a string")
    if not s.segs:
        return Lin(0)
    return I.charat(s, Lin(0), st.facts)


@meth("str", "at")
def s_at(I, st, e, loc):
    s = rdstr(I, st, loc)
    i = arg(I, st, e, 0)
    I.oblige("throw", st, ge0(str_len(s) - i - 1), e, "at()")
    return Ref(I.sub(loc, ("i", i)))


@meth("str", "begin", "cbegin")
def s_begin(I, st, e, loc):
    return Misc("it", loc, Lin(0))


@meth("str", "end", "cend")
def s_end(I, st, e, loc):
    return Misc("it", loc, str_len(rdstr(I, st, loc)))


@meth("str", "append", "assign", "push_back")
def s_append(I, st, e, loc):
    s = rdstr(I, st, loc)
    nm = e["name"]
    if nm == "push_back":
        t = chr_str(arg(I, st, e, 0))
    else:
        na = nargs(e)
        a0 = arg(I, st, e, 0)
        if na == 1:
            t = to_str(I, st, a0)
        elif na == 2 and isinstance(a0, Lin):
            t = fill(a0, arg(I, st, e, 1))
        elif na == 2:
            t = prefix_of(to_str(I, st, a0), arg(I, st, e, 1)) if isinstance(a0, (CPtr, Ptr)) else substr(I, st, to_str(I, st, a0), arg(I, st, e, 1), None, e)
        else:
            t = substr(I, st, to_str(I, st, a0), arg(I, st, e, 1), arg(I, st, e, 2), e)
    I.write(st, loc, t if nm == "assign" else cat(s, t))
    return Ref(loc)


@meth("str", "compare")
def s_compare(I, st, e, loc):
    s = rdstr(I, st, loc)
    if nargs(e) == 3:
        s = substr(I, st, s, arg(I, st, e, 0), arg(I, st, e, 1), e)
        t = to_str(I, st, arg(I, st, e, 2))
    elif nargs(e) == 1:
        t = to_str(I, st, arg(I, st, e, 0))
    else:
        return unknown(I, st, e, "std::string::compare/%d" % nargs(e))
    q = st.facts.simp(streq(s, t))
    return ite(q, Lin(0), Lin.of(sym(("cmp", s, t), -I31, I31)))


def earliest(s, what, tag):
    """smallest place where a match can start"""
    if tag not in ("find", "find_first_of", "find_first_not_of") or what[1] is not None or not s.segs or s.segs[0][0] != "L" \
       or isinstance(what[0], Str):
        return 0
    t, w = s.segs[0][1], what[0]
    for k in range(len(t)):
        if tag == "find" and (w.startswith(t[k:k + len(w)])):
            return k
        if tag == "find_first_of" and t[k] in w or tag == "find_first_not_of" and t[k] not in w:
            return k
    return len(t)


def find_result(I, st, r, s, what, tag):
    if r is None:
        return Lin(NPOS)
    if isinstance(r, Lin):
        return r
    f = ("a", ("has", tag, s, what))
    x = Lin.of(sym(("pos", tag, s, what), earliest(s, what, tag), I31))
    L.DEF_FACTS.below(x - str_len(s), f)
    return ite(f, x, Lin(NPOS))


@meth("str", "find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of")
def s_find(I, st, e, loc):
    s = rdstr(I, st, loc)
    a = arg(I, st, e, 0)
    w = chr_str(a) if isinstance(a, Lin) else to_str(I, st, a)
    start = arg(I, st, e, 1) if nargs(e) > 1 else None
    nm = e["name"]
    if len(s.segs) == 1 and s.segs[0][0] == "I" and start is None:
        pass
    if w.lit is None:
        if nm == "find" and start is None:
            return find_result(I, st, "unknown", s, (w, start), nm)
        return find_result(I, st, "unknown", s, (w, start), nm)
    t = w.lit
    if nm == "find":
        r = find_sub(s, t, start)
    elif nm == "rfind":
        r = find_set(s, lambda c: c == t, None, True) if len(t) == 1 and start is None else (
            (Lin(s.lit.rfind(t)) if t in s.lit else None) if s.lit is not None and start is None else "unknown")
        if nm == "rfind" and start is not None and start == Lin(0):
            # prefix test
            q = starts(s, t)
            r = Lin(0) if q is True else None if q is False else "unknown"
    elif nm == "find_first_of":
        r = find_set(s, lambda c: c in t, start)
    elif nm == "find_first_not_of":
        r = find_set(s, lambda c: c not in t, start)
    elif nm == "find_last_of":
        r = find_set(s, lambda c: c in t, None, True) if start is None else "unknown"
    else:
        r = find_set(s, lambda c: c not in t, None, True) if start is None else "unknown"
    return find_result(I, st, r, s, (t, start), nm)


@meth("str", "substr")
def s_substr(I, st, e, loc):
    s = rdstr(I, st, loc)
    pos = arg(I, st, e, 0) if nargs(e) > 0 else Lin(0)
    n = arg(I, st, e, 1) if nargs(e) > 1 else None
    return substr(I, st, s, pos, n, e)


@meth("str", "erase")
def s_erase(I, st, e, loc):
    s = rdstr(I, st, loc)
    a = arg(I, st, e, 0) if nargs(e) > 0 else Lin(0)
    if isinstance(a, Misc) and a.kind == "it":
        b = arg(I, st, e, 1) if nargs(e) > 1 else Misc("it", a.d[0], a.d[1] + 1)
        pos, n = a.d[1], b.d[1] - a.d[1]
        ret = a
    else:
        pos = a
        n = arg(I, st, e, 1) if nargs(e) > 1 else None
        if n == Lin(NPOS):
            n = None
        I.oblige("throw", st, ge0(str_len(s) - pos), e, "erase position")
        ret = Ref(loc)
    r = split_at(s, pos)
    if r is None and (n is None or pos + n == str_len(s)):
        r2 = prefix_of(s, pos)
        I.write(st, loc, r2)
        return ret
    if r is None:
        h = ("erased", s, pos, n)
        HOLE_META.setdefault(h, {"min": 0, "cs": str_cs(s)})
        I.write(st, loc, hole(h))
        return ret
    if n is None:
        I.write(st, loc, r[0])
        return ret
    r2 = split_at(r[1], n)
    if r2 is None:
        h = ("erased", s, pos, n)
        HOLE_META.setdefault(h, {"min": 0, "cs": str_cs(s)})
        I.write(st, loc, hole(h))
        return ret
    I.write(st, loc, cat(r[0], r2[1]))
    return ret


@meth("str", "insert")
def s_insert(I, st, e, loc):
    s = rdstr(I, st, loc)
    pos = arg(I, st, e, 0)
    if isinstance(pos, Misc):
        pos = pos.d[1]
    I.oblige("throw", st, ge0(str_len(s) - pos), e, "insert position")
    if nargs(e) == 3:
        t = fill(arg(I, st, e, 1), arg(I, st, e, 2))
    else:
        t = to_str(I, st, arg(I, st, e, 1))
    r = split_at(s, pos)
    I.write(st, loc, cat(r[0], t, r[1]) if r else hole(("inserted", s, pos, t)))
    return Ref(loc)


@meth("str", "resize")
def s_resize(I, st, e, loc):
    s = rdstr(I, st, loc)
    n = arg(I, st, e, 0)
    ch = arg(I, st, e, 1) if nargs(e) > 1 else Lin(0)
    n = real_len(n)
    d = n - str_len(s)
    if st.facts.ask(ge0(d)) is True or s == EMPTY:
        I.write(st, loc, cat(s, fill(d, ch)))
    elif st.facts.ask(ge0(-d)) is True:
        I.write(st, loc, prefix_of(s, n))
    else:
        I.write(st, loc, hole(("resized", s, n, ch)))
    return Opq("void")


@meth("str", "reserve", "shrink_to_fit")
def s_reserve(I, st, e, loc):
    return Opq("void")


@meth("str", "pop_back")
def s_pop(I, st, e, loc):
    s = rdstr(I, st, loc)
    I.oblige("index", st, ge0(str_len(s) - 1), e, "pop_back() of a string")
    if s.segs and s.segs[-1][0] == "L":
        I.write(st, loc, mkstr(s.segs[:-1] + (("L", s.segs[-1][1][:-1]),)))
    else:
        I.write(st, loc, prefix_of(s, str_len(s) - 1))
    return Opq("void")


# ---- vector methods
@meth("vec", "data")
def v_data(I, st, e, loc):
    return Ptr(I.sub(loc, ("i", Lin(0))))


@meth("vec", "size")
def v_size(I, st, e, loc):
    return size_of(I, st, I.read(st, loc))


@meth("vec", "empty")
def v_empty(I, st, e, loc):
    return f_not(ge0(size_of(I, st, I.read(st, loc)) - 1))


@meth("vec", "clear")
def v_clear(I, st, e, loc):
    I.write(st, loc, Vec())
    return Opq("void")


@meth("vec", "reserve", "shrink_to_fit")
def v_reserve(I, st, e, loc):
    return Opq("void")


@meth("vec", "push_back", "emplace_back")
def v_push(I, st, e, loc):
    ety = None
    t = e["obj"].get("ty")
    if t and t.get("t") == "ptr":
        t = t["to"]
    if t and t.get("t") == "rec":
        ety = t["args"][0]
    if e["name"] == "emplace_back" and nargs(e) != 1:
        return unknown(I, st, e, "emplace_back/%d" % nargs(e))
    x = I.adapt(arg(I, st, e, 0), ety, st)
    v = I.read(st, loc)
    if isinstance(x, (Ptr, SPtr, Null, Phi)) and ety and ety.get("t") == "ptr":
        I.oblige("null element", st, f_not(IP.isnull(x)), e, x)
        made(I, st, x, e)
    if isinstance(v, Undef):
        v = Vec()
    I.write(st, loc, vec_append(v, ("one", x)))
    return Opq("void")


def made(I, st, x, e):
    """a new object that is stored: its pointers are set"""
    for c, q in IP.phi_leaves(x) if isinstance(x, Phi) else [(True, x)]:
        if not isinstance(q, Ptr) or q.loc[0][0] != "new":
            continue
        v = st.cells.get(q.loc[0])
        for c1, o in IP.phi_leaves(v) if isinstance(v, Phi) else [(True, v)]:
            r = I.prog.recs.get(o.ty) if isinstance(o, Obj) else None
            for f in r["fields"] if r else ():
                if f["ty"]["t"] == "ptr":
                    w = I.read(st, I.sub(q.loc, ("f", f["name"])))
                    for c2, y in IP.phi_leaves(w) if isinstance(w, Phi) else [(True, w)]:
                        if isinstance(y, Undef):
                            I.oblige("uninit", st, f_not(f_and(c, c1, c2)), e, "%s of a stored object" % f["name"])


@meth("vec", "begin", "cbegin")
def v_begin(I, st, e, loc):
    return Misc("it", loc, Lin(0))


@meth("vec", "end", "cend")
def v_end(I, st, e, loc):
    return Misc("it", loc, size_of(I, st, I.read(st, loc)))


@meth("vec", "back")
def v_back(I, st, e, loc):
    n = size_of(I, st, I.read(st, loc))
    I.oblige("index", st, ge0(n - 1), e, "back()")
    return Ref(I.sub(loc, ("i", n - 1)))


@meth("vec", "front")
def v_front(I, st, e, loc):
    n = size_of(I, st, I.read(st, loc))
    I.oblige("index", st, ge0(n - 1), e, "front()")
    return Ref(I.sub(loc, ("i", Lin(0))))


@meth("vec", "at")
def v_at(I, st, e, loc):
    n = size_of(I, st, I.read(st, loc))
    i = arg(I, st, e, 0)
    I.oblige("throw", st, f_and(ge0(i), ge0(n - i - 1)), e, "at()")
    return Ref(I.sub(loc, ("i", i)))


@meth("vec", "pop_back")
def v_pop(I, st, e, loc):
    v = I.read(st, loc)
    n = size_of(I, st, v)
    I.oblige("index", st, ge0(n - 1), e, "pop_back()")
    if isinstance(v, Vec) and v.segs and v.segs[-1][0] == "one" and not v.st:
        I.write(st, loc, Vec(v.segs[:-1]))
    else:
        I.write(st, loc, Vec((("cy", ("popped", v)),)))
    return Opq("void")


def elty(e):
    t = e["obj"].get("ty")
    if t and t.get("t") == "ptr":
        t = t["to"]
    return t["args"][0]


@meth("vec", "resize", "assign")
def v_resize(I, st, e, loc):
    v = I.read(st, loc)
    n = arg(I, st, e, 0)
    x = arg(I, st, e, 1) if nargs(e) > 1 else I.default(elty(e), True)
    if e["name"] == "assign":
        if not isinstance(n, Lin):
            return unknown(I, st, e, "vector::assign")
        I.write(st, loc, Vec((("fill", n, x),)))
        return Opq("void")
    ln = size_of(I, st, v)
    d = n - ln
    if isinstance(v, Vec) and st.facts.ask(ge0(d)) is True:
        I.write(st, loc, Vec(v.segs + ((("fill", d, x),) if d != Lin(0) else ()), v.st))
    elif isinstance(v, Vec) and n.is_const() and len(v.segs) >= n.c and all(g[0] == "one" for g in v.segs[:n.c]) and not v.st:
        I.write(st, loc, Vec(v.segs[:n.c]))
    else:
        key = ("resized", v, n)
        I.write(st, loc, Vec((("sym", key, n, IP._tkey(elty(e))),)))
    return Opq("void")


@meth("vec", "erase")
def v_erase(I, st, e, loc):
    v = I.read(st, loc)
    a = arg(I, st, e, 0)
    if nargs(e) == 1 and isinstance(v, Vec) and a.d[1].is_const() and all(g[0] == "one" for g in v.segs[:a.d[1].c + 1]) and not v.st:
        i = a.d[1].c
        if i < len(v.segs):
            I.write(st, loc, Vec(v.segs[:i] + v.segs[i + 1:]))
            return a
    if nargs(e) == 2 and a.d[1] == Lin(0) and arg(I, st, e, 1).d[1] == size_of(I, st, v):
        I.write(st, loc, Vec())
        return a
    I.write(st, loc, Vec((("cy", ("erased", v, a)),)))
    return a


@meth("vec", "insert")
def v_insert(I, st, e, loc):
    v = I.read(st, loc)
    a = arg(I, st, e, 0)
    if nargs(e) == 2 and a.d[1] == size_of(I, st, v):
        I.write(st, loc, vec_append(v, ("one", I.adapt(arg(I, st, e, 1), elty(e), st))))
        return a
    if nargs(e) == 3 and a.d[1] == size_of(I, st, v):
        b, c = arg(I, st, e, 1), arg(I, st, e, 2)
        if isinstance(b, Misc) and b.kind == "it":
            w = I.read(st, b.d[0])
            if b.d[1] == Lin(0) and c.d[1] == size_of(I, st, w) and isinstance(w, Vec) and not w.st:
                I.write(st, loc, vec_append(v, *w.segs))
                return a
    return unknown(I, st, e, "vector::insert")


# ---- set methods
@meth("set", "find")
def set_find(I, st, e, loc):
    S = I.read(st, loc)
    x = arg(I, st, e, 0)
    return Misc("setit", loc, st.facts.simp(member(S, x)) if isinstance(S, SetV) else ("a", ("opq", ("mem", S, x))))


@meth("set", "count", "contains")
def set_count(I, st, e, loc):
    S = I.read(st, loc)
    f = st.facts.simp(member(S, arg(I, st, e, 0)))
    return ite(f, Lin(1), Lin(0)) if e["name"] == "count" else f


@meth("set", "end", "cend")
def set_end(I, st, e, loc):
    return Misc("setend", loc)


@meth("set", "insert", "emplace")
def set_insert(I, st, e, loc):
    S = I.read(st, loc)
    x = arg(I, st, e, 0)
    f = member(S, x)
    m = st.facts.simp(f)
    if m is not True:
        I.write(st, loc, SetV(S.segs + (("one", x),)))
    return Obj("#inspair", None, {"first": Opq("setit"), "second": f_not(m)})


@meth("set", "clear")
def set_clear(I, st, e, loc):
    I.write(st, loc, SetV())
    return Opq("void")


@meth("set", "size")
def set_size(I, st, e, loc):
    return size_of(I, st, I.read(st, loc))


@meth("set", "empty")
def set_empty(I, st, e, loc):
    S = I.read(st, loc)
    return f_not(ge0(size_of(I, st, S) - 1)) if S.segs else True


# ---- streams
def stf(I, st, loc, f):
    return I.read(st, I.sub(loc, ("f", f)))


def stw(I, st, loc, f, v):
    I.write(st, I.sub(loc, ("f", f)), v)


@meth("S", "str")
def ss_str(I, st, e, loc):
    if nargs(e) == 0:
        r, b = stf(I, st, loc, "read"), stf(I, st, loc, "buf")
        if isinstance(r, Str) and isinstance(b, Str):
            return cat(r, b)
        return hole(("ssstr", r, b))
    stw(I, st, loc, "buf", to_str(I, st, arg(I, st, e, 0)))
    stw(I, st, loc, "read", EMPTY)
    return Opq("void")


@meth("S", "clear")
def ss_clear(I, st, e, loc):
    stw(I, st, loc, "bad", False)
    return Opq("void")


@meth("S", "imbue", "flush", "setf", "precision", "width", "unsetf", "exceptions")
def ss_nop(I, st, e, loc):
    return Opq("void")


@meth("S", "rdbuf")
def ss_rdbuf(I, st, e, loc):
    return Misc("rdbuf", loc)


@meth("S", "open")
def fs_open(I, st, e, loc):
    p = to_str(I, st, arg(I, st, e, 0))
    mode = arg(I, st, e, 1) if len(e["args"]) > 1 else None
    do_open(I, st, e, loc, p, mode, not e.get("callee", "").startswith("std::basic_ifstream"))
    return Opq("void")


def do_open(I, st, e, loc, p, mode, out):
    ok = ("a", ("b", ("openok", p, I.fr.fid)))
    if mode is None:
        mode = Lin(16 if out else 8)
    elif out and isinstance(mode, Lin) and mode.is_const() and (I.read(st, loc).ty.startswith("#std::basic_ofstream") or "basic_ofstream" in I.read(st, loc).ty):
        mode = Lin(mode.c | 16)
    I.emit("open", st, ("w" if out else "r", p, mode), e)
    stw(I, st, loc, "path", p)
    stw(I, st, loc, "opened", ok)
    stw(I, st, loc, "bad", f_not(ok))
    if not out:
        stw(I, st, loc, "lines", Lin(0))


@meth("S", "close")
def fs_close(I, st, e, loc):
    o = stf(I, st, loc, "opened")
    I.emit("close", st, (stf(I, st, loc, "path"),), e)
    bad = stf(I, st, loc, "bad")
    c = ("a", ("b", ("closefail", stf(I, st, loc, "path"), I.fr.fid)))
    stw(I, st, loc, "bad", f_or(truthy(bad), c))
    stw(I, st, loc, "opened", False)
    return Opq("void")


def truthy(v):
    return v if is_f(v) else ("a", ("opq", v))


@meth("S", "write", "put")
def fs_write(I, st, e, loc):
    o = I.read(st, loc)
    a = arg(I, st, e, 0)
    if e["name"] == "put":
        t = chr_str(a)
    else:
        t = to_str(I, st, a)
        x = e["args"][1]
        while x.get("k") == "Cast" and x["ck"] in ("IntegralCast", "NoOp") and isinstance(x["ty"], dict) and x["ty"].get("bits") == 64:
            x = x["e"]          # a length below 2^63
        n = I.rv(x, st)
        if n != str_len(t) and real_len(n) != real_len(str_len(t)):
            if isinstance(n, Lin):
                I.oblige("index", st, ge0(str_len(t) + 1 - n), e, "characters written")
            t = prefix_of(t, n)
    put(I, st, loc, o, t, e)
    return Ref(loc)


@meth("S", "is_open")
def fs_isopen(I, st, e, loc):
    return truthy(stf(I, st, loc, "opened"))


@meth("S", "operator bool", "good")
def fs_bool(I, st, e, loc):
    return f_not(truthy(stf(I, st, loc, "bad")))


@meth("S", "fail", "bad", "operator!")
def fs_fail(I, st, e, loc):
    return truthy(stf(I, st, loc, "bad"))


@meth("S", "eof")
def fs_eof(I, st, e, loc):
    return ("a", ("b", ("eof", loc, stf(I, st, loc, "lines"))))


@meth("S", "seekg", "seekp")
def fs_seek(I, st, e, loc):
    I.emit("seek", st, (arg(I, st, e, 0),), e)
    stw(I, st, loc, "lines", Lin(0))
    return Ref(loc)


METHODS[("std::fpos", "operator long")] = lambda I, st, e, loc: Opq("fpos")
METHODS[("std::error_code", "operator bool")] = lambda I, st, e, loc: truth(I, I.read(st, loc), st) if truth(I, I.read(st, loc), st) is not None else ("a", ("opq", I.read(st, loc)))
METHODS[("std::error_code", "clear")] = lambda I, st, e, loc: I.write(st, loc, Misc("ec", False))
METHODS[("std::filesystem::path", "string")] = METHODS[("std::filesystem::path", "generic_string")] = lambda I, st, e, loc: to_str(I, st, I.read(st, loc))
METHODS[("std::filesystem::path", "c_str")] = lambda I, st, e, loc: CPtr(to_str(I, st, I.read(st, loc)))


def stream_out(I, st, loc, v, aty, e):
    """stream << v"""
    o = I.read(st, loc)
    if isinstance(v, FnRef):
        if v.name.split("::")[-1].split("<")[0] == "endl":
            t = lit("\n")
        elif v.name.split("::")[-1].split("<")[0] in ("flush", "ends"):
            return
        else:
            f = stf(I, st, loc, "fmt")
            nm = v.name.split("::")[-1]
            if isinstance(f, Misc) and f.kind == "fmt":
                stw(I, st, loc, "fmt", Misc("fmt", nm, f.d[1]))
            return
    elif isinstance(v, Misc) and v.kind == "setprec":
        f = stf(I, st, loc, "fmt")
        if isinstance(f, Misc) and f.kind == "fmt":
            stw(I, st, loc, "fmt", Misc("fmt", f.d[0], v.d[0]))
        return
    elif isinstance(v, Misc) and v.kind == "manip":
        return
    elif isinstance(v, Misc) and v.kind == "rdbuf":
        src = v.d[0]
        t = stf(I, st, src, "buf")
        okk = truthy(stf(I, st, loc, "opened")) if isinstance(o, Obj) and "fstream" in o.ty else True
        t = to_str(I, st, t)
        put(I, st, loc, o, t, e)
        n = str_len(t)
        # nothing to insert sets the fail bit
        bad = truthy(stf(I, st, loc, "bad"))
        stw(I, st, loc, "bad", f_or(bad, st.facts.simp(f_not(ge0(n - 1)))))
        cons = cat(to_str(I, st, stf(I, st, src, "read")), t)
        okk = st.facts.simp(okk)
        stw(I, st, src, "read", ite(okk, cons, stf(I, st, src, "read")))
        stw(I, st, src, "buf", ite(okk, EMPTY, t))
        return
    elif isinstance(v, Misc) and v.kind == "time":
        t = hole(("time",) + v.d)
        HOLE_META.setdefault(("time",) + v.d, {"min": 1, "cs": frozenset("0123456789.: ")})
    elif isinstance(v, Lin):
        if is_char(aty):
            t = chr_str(v)
        else:
            t = fmt_num("d", v)
    elif is_f(v):
        t = str_ite(v, lit("1"), lit("0")) if not isinstance(v, bool) else lit("1" if v else "0")
    elif isinstance(v, Flt):
        f = stf(I, st, loc, "fmt")
        p = f.d[1] if isinstance(f, Misc) else 6
        if isinstance(p, Lin) and p.is_const():
            p = p.c
        t = num("%s.%s" % (f.d[0] if isinstance(f, Misc) else "", p), v)
    elif isinstance(v, Obj) and v.ty.startswith("#"):
        raise AnalysisBroken("a stream is written to a stream (%s:%s)" % (I.cur[0], e.get("l")))
    else:
        t = to_str(I, st, v)
    put(I, st, loc, o, t, e)


def put(I, st, loc, o, t, e):
    if isinstance(o, Obj) and o.ty == "#console":
        I.emit("print", st, (o.ov["path"], t), e)
        return
    if isinstance(o, Obj) and "fstream" in o.ty:
        I.emit("write", st, (stf(I, st, loc, "path"), t), e)
        c = ("a", ("b", ("writefail", stf(I, st, loc, "path"), I.fr.fid)))
        stw(I, st, loc, "bad", f_or(truthy(stf(I, st, loc, "bad")), c))
        return
    if isinstance(o, Obj) and o.ty.startswith("#"):
        stw(I, st, loc, "buf", cat(to_str(I, st, stf(I, st, loc, "buf")), t))
        return
    if isinstance(o, Opq):
        I.emit("print", st, (lit("?"), t), e)
        return
    raise AnalysisBroken("output to %r is not modelled (%s:%s)" % (o, I.cur[0], e.get("l")))


# ---- operators
def vec_fields(P, rec, seen=()):
    out = []
    if rec in P.recs and rec not in seen:
        for x in P.recs[rec]["fields"]:
            n = x["ty"].get("name") if x["ty"]["t"] == "rec" else None
            if n == "std::vector":
                out.append(x["name"])
            elif n:
                out += vec_fields(P, n, seen + (rec,))
    return out


def opcall(I, st, e, op, args, t0):
    t1 = tyname(args[1].get("ty")) if len(args) > 1 else None
    if op == "<<":
        loc = I.lv_or_tmp(args[0], st, ("obj", I.nodeid(e)))
        v = I.rv(args[1], st)
        if st.dead:
            return Opq("dead")
        stream_out(I, st, loc, v, args[1].get("ty"), e)
        return Ref(loc)
    if op == "!" and t0 in STREAMS:
        loc = I.lv_or_tmp(args[0], st, ("obj", I.nodeid(e)))
        return truthy(stf(I, st, loc, "bad"))
    if op == "=":
        if t0 == "std::basic_string":
            loc = I.lv_or_tmp(args[0], st, ("obj", I.nodeid(e)))
            v = I.rv(args[1], st)
            I.write(st, loc, to_str(I, st, v))
            return Ref(loc)
        loc = I.lv_or_tmp(args[0], st, ("obj", I.nodeid(e)))
        v = I.rv(args[1], st)
        if not I.dry:
            # the lists in an object are replaced with it
            fs = [l[1][-1][1] for l in leaf_locs(loc) if l[1] and l[1][-1][0] == "f"] if t0 == "std::vector" else vec_fields(I.prog, t0)
            for f in dict.fromkeys(fs):
                I.emit("vmut", st, (f, "="), e)
        if t0 in ("std::vector", "std::set", "std::pair", "__gnu_cxx::__normal_iterator", "std::error_code", "std::filesystem::path") or t0 is None or t0 in I.prog.recs:
            I.write(st, loc, v)
            return Ref(loc)
        I.write(st, loc, v)
        return Ref(loc)
    if op == "+=" and t0 == "std::basic_string":
        loc = I.lv_or_tmp(args[0], st, ("obj", I.nodeid(e)))
        v = I.rv(args[1], st)
        s = rdstr(I, st, loc)
        I.write(st, loc, cat(s, to_str(I, st, v)))
        return Ref(loc)
    if op == "+" and "std::basic_string" in (t0, t1):
        a, b = I.rv(args[0], st), I.rv(args[1], st)
        return cat(to_str(I, st, a), to_str(I, st, b))
    if op == "[]":
        if t0 in ("std::vector", "std::basic_string", "std::array"):
            loc = I.lv_or_tmp(args[0], st, ("obj", I.nodeid(e)))
            i = I.rv(args[1], st)
            v = I.read(st, loc)
            if isinstance(v, Undef):
                v = EMPTY if t0 == "std::basic_string" else Vec()
            n = size_of(I, st, v)
            if not isinstance(i, Lin):
                raise AnalysisBroken("index %r (%s:%s)" % (i, I.cur[0], e.get("l")))
            up = n - i if t0 == "std::basic_string" else n - i - 1
            I.oblige("index", st, f_and(ge0(i), ge0(up)), e, ("size", n))
            return Ref(I.sub(loc, ("i", i)))
        if t0 == "std::match_results":
            v = I.rv(args[0], st)
            i = I.rv(args[1], st)
            if isinstance(v, Misc) and v.kind == "match" and i.is_const():
                return Misc("sub", msub(v, i))
            return Misc("sub", hole(("group", v, i)))
    if op in ("==", "!=", "<", ">", "<=", ">="):
        a, b = I.rv(args[0], st), I.rv(args[1], st)
        if isinstance(a, Misc) and isinstance(b, Misc):
            r = misc_compare(I, st, op, a, b)
            if r is not None:
                return r
        if op in ("==", "!=") and (isinstance(a, (Str, CPtr)) or isinstance(b, (Str, CPtr)) or "std::basic_string" in (t0, t1)):
            f = st.facts.simp(streq(to_str(I, st, a), to_str(I, st, b)))
            return f if op == "==" else f_not(f)
        if isinstance(a, (Str, CPtr)) and isinstance(b, (Str, CPtr)):
            x, y = to_str(I, st, a), to_str(I, st, b)
            q = streq(x, y)
            lt = ("a", ("slt", x, y)) if x.lit is None or y.lit is None else x.lit < y.lit
            return {"<": f_and(lt, f_not(q)), "<=": f_or(lt, q), ">": f_and(f_not(lt), f_not(q)), ">=": f_not(f_and(lt, f_not(q)))}[op]
        if isinstance(a, Phi) or isinstance(b, Phi):
            if op in ("==", "!="):
                f = equals(I, st, a, b)
                return f if op == "==" else f_not(f)
        return ("a", ("opq", (op, a, b)))
    if op in ("*", "->"):
        v = I.rv(args[0], st)
        if isinstance(v, Misc) and v.kind == "it":
            l = it_loc(I, st, v, e)
            return Ref(l) if op == "*" else Ptr(l)
        if isinstance(v, Misc) and v.kind == "tokit":
            n = segs_len(v.d[0].segs)
            # positions start at the first token and every step is from a token, so none is behind the end
            I.oblige("index", st, f_not(VV.eq0(n - v.d[1])), e, "token")
            return Misc("sub", I.elem(v.d[0], v.d[1], st.facts))
        if isinstance(v, (Ptr, SPtr)):
            return Ref(I.deref(st, v, e))
        if isinstance(v, Misc) and v.kind == "bool":
            return v
        if isinstance(v, Opq) or isinstance(v, Misc):
            return Opq(("deref", v))
        if isinstance(v, Phi):
            return Ref(I.deref(st, v, e))
    if op in ("++", "--"):
        loc = I.lv_or_tmp(args[0], st, ("obj", I.nodeid(e)))
        v = I.read(st, loc)
        d = Lin(1 if op == "++" else -1)
        if isinstance(v, Misc):
            I.write(st, loc, it_add(I, st, v, d))
        else:
            I.write(st, loc, Opq(("inc", v)))
        return v if len(args) > 1 else Ref(loc)
    if op in ("+", "-", "+=", "-="):
        a, b = I.rv(args[0], st), I.rv(args[1], st)
        if isinstance(a, Misc) and a.kind == "it":
            if isinstance(b, Lin):
                r = it_add(I, st, a, b if op[0] == "+" else -b)
                if op.endswith("="):
                    I.write(st, I.lv(args[0], st), r)
                return r
            if isinstance(b, Misc) and b.kind == "it" and a.d[0] == b.d[0]:
                return a.d[1] - b.d[1]
    if op == "/":
        a, b = I.rv(args[0], st), I.rv(args[1], st)
        if t0 == "std::filesystem::path":
            return Misc("path", cat(to_str(I, st, a), lit("/"), to_str(I, st, b)))
    if op == "|":
        a, b = I.rv(args[0], st), I.rv(args[1], st)
        if isinstance(a, Lin) and isinstance(b, Lin) and a.is_const() and b.is_const():
            return Lin(a.c | b.c)
        return Opq(("or", a, b))
    if op == "()":
        f = I.rv(args[0], st)
        if isinstance(f, (Lam, FnRef)):
            return I.apply(st, f, [I.rv(a, st) for a in args[1:]], e)
    raise AnalysisBroken("operator %s on %s is not modelled (%s:%s)" % (op, t0, I.cur[0], e.get("l")))


# ---- functions
@func("va_start", "va_end", "va_copy", "__builtin_va_start", "__builtin_va_end", "__builtin_va_copy")
def f_va(I, st, e):
    return Opq("void")


def find_va(I, v, e):
    """arguments of the variadic function whose va_list is used here"""
    for fr in reversed(I.frames):
        f = fr
        while f is not None:
            if f.va is not None:
                return f.va
            f = f.parent
    raise AnalysisBroken("va_list without a variadic function (%s:%s)" % (I.cur[0], e.get("l")))


@func("vsnprintf")
def f_vsnprintf(I, st, e):
    dst = arg(I, st, e, 0)
    cap = arg(I, st, e, 1)
    fmt = to_str(I, st, arg(I, st, e, 2))
    s = format_str(I, st, fmt, find_va(I, None, e), e)
    return buf_write(I, st, dst, cap, s, e, fmt)


@func("snprintf")
def f_snprintf(I, st, e):
    dst = arg(I, st, e, 0)
    cap = arg(I, st, e, 1)
    fmt = to_str(I, st, arg(I, st, e, 2))
    s = format_str(I, st, fmt, [I.rv(a, st) for a in e["args"][3:]], e)
    return buf_write(I, st, dst, cap, s, e, fmt)


@func("sprintf")
def f_sprintf(I, st, e):
    dst = arg(I, st, e, 0)
    fmt = to_str(I, st, arg(I, st, e, 1))
    s = format_str(I, st, fmt, [I.rv(a, st) for a in e["args"][2:]], e)
    I.emit("obl:unbounded", st, (False, "sprintf"), e)
    return buf_write(I, st, dst, None, s, e, fmt)


@func("printf", "puts", "fprintf")
def f_printf(I, st, e):
    vs = [I.rv(a, st) for a in e["args"]]
    n = base_name(e["callee"])
    if n == "fprintf":
        t = format_str(I, st, to_str(I, st, vs[1]), vs[2:], e)
    elif n == "puts":
        t = cat(to_str(I, st, vs[0]), lit("\n"))
    else:
        t = format_str(I, st, to_str(I, st, vs[0]), vs[1:], e)
    I.emit("print", st, (lit("stdio"), t), e)
    return Lin(0)


@func("to_string")
def f_tostring(I, st, e):
    v = arg(I, st, e, 0)
    if isinstance(v, Lin):
        return fmt_num("d", v)
    if isinstance(v, Flt):
        return num("f", v)
    return hole(("tostr", v))


def digits_only(s):
    cs = str_cs(s)
    return cs is not None and cs <= frozenset("0123456789")


@func("atoi", "atoll", "atol", "strtol", "strtoll", "strtoul", "strtoull", "stoul", "stoi", "stol", "stoll", "stoull")
def f_ato(I, st, e):
    a = arg(I, st, e, 0)
    s = to_str(I, st, a)
    n = base_name(e["callee"]).split("::")[-1]
    base = 10
    if n.startswith("sto") or n.startswith("strto"):
        if len(e["args"]) > 2:
            b = arg(I, st, e, 2)
            base = b.c if isinstance(b, Lin) and b.is_const() else None
    bits, sg = {"atoi": (32, True), "stoi": (32, True), "stoul": (64, False), "strtoul": (64, False), "stoull": (64, False),
                "strtoull": (64, False)}.get(n, (64, True))
    if n.startswith("sto"):
        # throws unless the text starts with a number that fits
        I.emit("obl:throw", st, (st.facts.simp(("a", ("b", ("isnum", s, base, bits)))), "%s" % n), e)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    if s.lit is not None and base in (10, 16):
        m = re.match(r"\s*([-+]?)(0[xX])?([0-9a-fA-F]+)" if base == 16 else r"\s*([-+]?)()([0-9]+)", s.lit)
        v = int(m.group(3), base) * (-1 if m.group(1) == "-" else 1) if m else 0
        return Lin(max(lo, min(hi, v)))
    if len(s.segs) == 1 and s.segs[0][0] == "N" and s.segs[0][1] == "d" and base == 10 and isinstance(s.segs[0][2], Lin):
        return I.conv(s.segs[0][2], {"t": "int", "bits": bits, "signed": sg}, st)
    if len(s.segs) == 1 and s.segs[0][0] == "I":
        g = s.segs[0]
        return ite(g[1], num_of(I, st, g[2], base, n, lo, hi), num_of(I, st, g[3], base, n, lo, hi))
    return num_of(I, st, s, base, n, lo, hi)


def num_of(I, st, s, base, n, lo, hi):
    # leading digits decide: cut behind a segment that cannot continue the number
    if s.lit is not None:
        m = re.match(r"\s*([-+]?)([0-9]+)", s.lit)
        return Lin(max(lo, min(hi, int(m.group(0)))) if m else 0)
    if s.segs[0] == ("L", "-") and len(s.segs) > 1 and s.segs[1][0] == "H" and lo < 0:
        m = HOLE_META.get(s.segs[1][1]) or {}
        if m.get("cs") and m["cs"] <= frozenset("0123456789") and m.get("min", 0) >= 1:
            return -num_of(I, st, Str(s.segs[1:]), base, n, 0, -lo)
    g = s.segs[0]
    if len(s.segs) > 1 and g[0] == "H":
        cs = seg_cs(g)
        nx = s.segs[1]
        ncs = frozenset(nx[1][0]) if nx[0] == "L" else seg_cs(nx)
        if cs is not None and ncs is not None and not (ncs & frozenset("0123456789")) and cs <= frozenset("0123456789+-"):
            s = Str((g,))
    if len(s.segs) == 1 and s.segs[0][0] == "H":
        m = HOLE_META.get(s.segs[0][1]) or {}
        if m.get("num"):
            lo, hi = max(lo, m["num"][0]), min(hi, m["num"][1])
        return Lin.of(sym(("ato", s.segs[0][1], base), lo, hi))
    return Lin.of(sym(("ato", s, base), lo, hi))


@func("atof", "strtod", "stod")
def f_atof(I, st, e):
    s = to_str(I, st, arg(I, st, e, 0))
    if s.lit is not None:
        m = re.match(r"\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)", s.lit)
        return Flt(("fc", float(m.group(0)) if m else 0.0))
    if base_name(e["callee"]).endswith("stod"):
        I.emit("obl:throw", st, (("a", ("b", ("isnum", s, 10, 0))), "stod"), e)
    return Flt(("atof", s))


@func("exit", "abort", "_Exit", "terminate")
def f_exit(I, st, e):
    I.emit("exit", st, (tuple(I.rv(a, st) for a in e["args"]),), e)
    st.dead = True
    return Opq("dead")


@func("fabs", "abs", "labs", "llabs")
def f_abs(I, st, e):
    v = arg(I, st, e, 0)
    if isinstance(v, Flt):
        return Flt(("fc", abs(v.const))) if v.const is not None else Flt(("fabs", v))
    if isinstance(v, Lin):
        lo, hi = st.facts.bound(v)
        if lo >= 0:
            return v
        return ite(st.facts.simp(ge0(v)), v, -v)
    return Opq(("abs", v))


@func("pow", "floor", "ceil", "round", "trunc", "ldexp", "log", "exp", "sqrt")
def f_math(I, st, e):
    vs = tuple(I.rv(a, st) for a in e["args"])
    return Flt(("call", base_name(e["callee"]).split("::")[-1]) + vs)


CTYPE = {"isalpha": lambda c: c.isalpha() and ord(c) < 128, "isdigit": lambda c: c in "0123456789", "isspace": lambda c: c in " \t\n\r\v\f",
         "isalnum": lambda c: c.isalnum() and ord(c) < 128, "isupper": lambda c: "A" <= c <= "Z", "islower": lambda c: "a" <= c <= "z",
         "isxdigit": lambda c: c in "0123456789abcdefABCDEF", "isprint": lambda c: " " <= c <= "~"}


def ctype(n, v):
    if isinstance(v, Lin) and v.is_const():
        return Lin(1 if CTYPE[n](chr(v.c & 255)) else 0)
    if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
        # a character of a part whose character set is known
        k = Sym.byid[v.t[0][0]].key
        while isinstance(k, tuple) and k[0] == "cast":
            k = Sym.byid[k[3].t[0][0]].key if len(k[3].t) == 1 else None
        if isinstance(k, tuple) and k[0] == "chr":
            m = HOLE_META.get(k[1]) if not isinstance(k[1], Str) else {"cs": str_cs(k[1])}
            cs = m.get("cs") if m else None
            if cs:
                w = {bool(CTYPE[n](c)) for c in cs}
                if len(w) == 1:
                    return Lin(1 if w.pop() else 0)
    return ite(("a", ("b", (n, v))), Lin(1), Lin(0))


@func("isalpha", "isdigit", "isspace", "isalnum", "isupper", "islower", "isxdigit", "isprint")
def f_ctype(I, st, e):
    return ctype(base_name(e["callee"]).split("::")[-1], arg(I, st, e, 0))


def case_char(v, kd):
    if isinstance(v, Lin) and v.is_const():
        c = chr(v.c & 255)
        return Lin(ord(UP[kd](c)) if ord(c) < 128 else v.c)
    return Lin.of(sym(("chcase", kd, v), -128, 255))


@func("toupper", "tolower")
def f_case(I, st, e):
    return case_char(arg(I, st, e, 0), "upper" if base_name(e["callee"]).endswith("toupper") else "lower")


@func("setlocale")
def f_setlocale(I, st, e):
    vs = [I.rv(a, st) for a in e["args"]]
    I.emit("setlocale", st, tuple(vs), e)
    return CPtr(hole(("locale",)))


@func("classic")
def f_classic(I, st, e):
    return Misc("locale", "classic")


@func("setprecision")
def f_setprecision(I, st, e):
    return Misc("setprec", arg(I, st, e, 0))


@func("setw", "setfill", "setbase")
def f_manip(I, st, e):
    raise AnalysisBroken("stream manipulator %s is not modelled" % e["callee"])


@func("time", "clock")
def f_time(I, st, e):
    I.emit("time", st, (), e)
    return Lin.of(sym(("time",), 0, 2 ** 40))


@func("localtime", "gmtime")
def f_localtime(I, st, e):
    for a in e["args"]:
        I.rv(a, st)
    return SPtr(("localtime",), {"t": "rec", "name": "tm"})


@func("put_time")
def f_puttime(I, st, e):
    return Misc("time", to_str(I, st, arg(I, st, e, 1)))


@func("getenv", "secure_getenv")
def f_getenv(I, st, e):
    I.emit("env", st, (), e)
    return CPtr(hole(("env", I.nodeid(e))))


@func("rand", "random")
def f_rand(I, st, e):
    I.emit("random", st, (), e)
    return Lin.of(sym(("rand", I.nodeid(e)), 0, I31))


@func("stat", "lstat")
def f_stat(I, st, e):
    p = to_str(I, st, arg(I, st, e, 0))
    d = arg(I, st, e, 1)
    ks = tuple(l[1] for l in I.loops)
    I.emit("fs", st, ("stat", p), e)
    if isinstance(d, Ptr):
        I.write(st, d.loc, Obj("#stat", ("stat", p, I.fr.fid), {}))
    return Lin.of(sym(("stat", p, I.nodeid(e), I.fr.fid, ks), -1, 0))


def path_arg(I, st, e, i):
    return to_str(I, st, arg(I, st, e, i))


def set_ec(I, st, e, i, val):
    if len(e["args"]) > i and tyname(e["args"][i].get("ty")) == "std::error_code":
        I.write(st, I.lv(e["args"][i], st), Misc("ec", val))
        return True
    return False


@func("create_directory", "create_directories")
def f_mkdir(I, st, e):
    p = path_arg(I, st, e, 0)
    fail = ("a", ("b", ("mkdirfail", p, I.fr.fid, I.nodeid(e))))
    old = ("a", ("b", ("mkdirexists", p, I.fr.fid, I.nodeid(e))))
    I.emit("mkdir", st, (p, fail, old), e)
    if not set_ec(I, st, e, 1, fail):
        I.emit("obl:throw", st, (f_not(fail), "create_directory"), e)
    return f_and(f_not(fail), f_not(old))


@func("exists", "is_directory", "is_regular_file")
def f_exists(I, st, e):
    p = path_arg(I, st, e, 0)
    I.emit("fs", st, ("exists", p), e)
    if not set_ec(I, st, e, 1, ("a", ("b", ("existsfail", p)))):
        I.emit("obl:throw", st, (f_not(("a", ("b", ("existsfail", p)))), "exists"), e)
    return ("a", ("b", ("exists", base_name(e["callee"]), p)))


@func("remove", "remove_all", "unlink", "rmdir", "rename", "copy_file", "copy", "mkdir", "truncate", "resize_file")
def f_remove(I, st, e):
    if base_name(e["callee"]) in ("std::remove", "std::copy", "std::move", "std::swap") and nargs(e) >= 3:
        return unknown(I, st, e, e["callee"])
    p = path_arg(I, st, e, 0)
    I.emit("fsmod", st, (base_name(e["callee"]), p), e)
    return ("a", ("b", ("fsmod", base_name(e["callee"]), p, I.nodeid(e))))


@func("system", "popen", "execl", "execv", "fork")
def f_system(I, st, e):
    vs = [I.rv(a, st) for a in e["args"]]
    I.emit("process", st, (base_name(e["callee"]),) + tuple(vs), e)
    return Lin(0)


@func("fopen")
def f_fopen(I, st, e):
    p, m = path_arg(I, st, e, 0), path_arg(I, st, e, 1)
    I.emit("open", st, (m.lit or "w", p, m), e)
    return SPtr(("file", p), {"t": "rec", "name": "FILE"})


@func("min", "max")
def f_min(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    if isinstance(a, Lin) and isinstance(b, Lin):
        c = I.decide(st.facts.simp(VV.ge0(b - a)), st)   # a <= b
        return ite(c, a, b) if base_name(e["callee"]).endswith("min") else ite(c, b, a)
    return Opq(("min", a, b))


@func("move", "forward")
def f_move(I, st, e):
    a = e["args"][0]
    if I.is_lv(a):
        return Ref(I.lv(a, st))
    return I.rv(a, st)


@func("swap")
def f_swap(I, st, e):
    la, lb = I.lv(e["args"][0], st), I.lv(e["args"][1], st)
    a, b = I.read(st, la), I.read(st, lb)
    I.write(st, la, b)
    I.write(st, lb, a)
    return Opq("void")


@func("make_pair")
def f_mkpair(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    t = e["ty"]
    o = Obj(IP.pair_ty(t["args"][0], t["args"][1]), None, {"first": I.adapt(a, t["args"][0], st), "second": I.adapt(b, t["args"][1], st)})
    return o


@func("begin", "cbegin")
def f_begin(I, st, e):
    return Misc("it", I.lv_or_tmp(e["args"][0], st, ("b", I.nodeid(e))), Lin(0))


@func("end", "cend")
def f_end(I, st, e):
    loc = I.lv_or_tmp(e["args"][0], st, ("b", I.nodeid(e)))
    return Misc("it", loc, size_of(I, st, I.read(st, loc)))


@func("next", "prev", "advance")
def f_next(I, st, e):
    a = arg(I, st, e, 0)
    d = arg(I, st, e, 1) if len(e["args"]) > 1 else Lin(1)
    n = base_name(e["callee"])
    if isinstance(a, Misc) and a.kind == "it" and isinstance(d, Lin):
        r = it_add(I, st, a, -d if n.endswith("prev") else d)
        if n.endswith("advance"):
            I.write(st, I.lv(e["args"][0], st), r)
        return r
    return unknown(I, st, e, n)


@func("distance")
def f_distance(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    return b.d[1] - a.d[1]


@func("find")
def f_find(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    x = arg(I, st, e, 2)
    return find_pred(I, st, a, b, lambda loc, s: equals(I, s, I.read(s, loc), x), e)


def pred_of(I, f, e):
    def p(loc, s):
        return s.facts.simp(I.truth(I.apply(s, f, [Ref(loc)], e), s))
    return p


@func("find_if", "find_if_not")
def f_find_if(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    f = arg(I, st, e, 2)
    p = pred_of(I, f, e)
    if base_name(e["callee"]).endswith("not"):
        return find_pred(I, st, a, b, lambda l, s: f_not(p(l, s)), e)
    return find_pred(I, st, a, b, p, e)


def quant(I, st, e, p):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    it = find_pred(I, st, a, b, p, e)
    return st.facts.simp(f_not(VV.eq0(it.d[1] - b.d[1])))


@func("any_of")
def f_any(I, st, e):
    return quant(I, st, e, pred_of(I, arg(I, st, e, 2), e))


@func("count", "count_if")
def f_count(I, st, e):
    """number of matches: positive exactly if one exists"""
    if base_name(e["callee"]).endswith("count"):
        x = arg(I, st, e, 2)
        ex = quant(I, st, e, lambda loc, s: equals(I, s, I.read(s, loc), x))
    else:
        ex = quant(I, st, e, pred_of(I, arg(I, st, e, 2), e))
    if ex is False:
        return Lin(0)
    ks = tuple(l[1] for l in I.loops)
    return _ite(ex, Lin.of(sym(("countif", I.nodeid(e), I.fr.fid, ks, ex), 1, I31)), Lin(0))


@func("back_inserter")
def f_backins(I, st, e):
    return Misc("binsert", I.lv(e["args"][0], st))


@func("copy_if")
def f_copyif(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    o, f = arg(I, st, e, 2), arg(I, st, e, 3)
    if not (isinstance(o, Misc) and o.kind == "binsert" and isinstance(a, Misc)):
        return unknown(I, st, e, "copy_if without back_inserter")
    loc = a.d[0]
    ivar = ("v", I.fr.fid, "#ci%d" % I.nodeid(e))
    st.cells[ivar] = a.d[1]
    n = b.d[1]

    def inc(z):
        z.cells[ivar] = z.cells[ivar] + 1

    def body(z, fl):
        el = I.sub(loc, ("i", z.cells[ivar]))
        c = z.facts.simp(I.truth(I.apply(z, f, [Ref(el)], e), z))
        I.branch(z, c, lambda y: I.write(y, o.d[0], vec_append(I.read(y, o.d[0]), ("one", I.read(y, el)))))
    I.loop(e, st, IP.Flow(), lambda z: z.facts.simp(ge0(n - z.cells[ivar] - 1)), body, inc)
    return o


@func("none_of")
def f_none(I, st, e):
    return f_not(quant(I, st, e, pred_of(I, arg(I, st, e, 2), e)))


@func("all_of")
def f_all(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    f = arg(I, st, e, 2)
    v = I.read(st, a.d[0])
    if isinstance(v, Str) and a.d[1] == Lin(0) and b.d[1] == str_len(v):
        return allchars(I, st, v, f, e)
    p = pred_of(I, f, e)
    it = find_pred(I, st, a, b, lambda l, s: f_not(p(l, s)), e)
    return st.facts.simp(VV.eq0(it.d[1] - b.d[1]))


def allchars(I, st, s, f, e):
    cs = str_cs(s)

    def test(c):
        return st.facts.ask(I.truth(I.apply(st.copy(), f, [Lin(IP._sc(c))], e), st))
    if cs is not None:
        r = [test(c) for c in cs]
        if all(x is True for x in r):
            return True
        if s.lit is not None and any(x is False for x in r):
            return False
    for g in s.segs:
        if g[0] == "L" and any(test(c) is False for c in g[1]):
            return False
        if g[0] == "H" and min_len(g) >= 1:
            c2 = seg_cs(g)
            if c2 and all(test(c) is False for c in c2):
                return False
    # what the predicate accepts, as a character class
    acc = "".join(chr(c) for c in range(1, 128) if test(chr(c)) is True)
    return ("a", ("b", ("allin", s, acc)))


@func("for_each")
def f_foreach(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    f = arg(I, st, e, 2)
    loc = a.d[0]
    ivar = ("v", I.fr.fid, "#fe%d" % I.nodeid(e))
    st.cells[ivar] = a.d[1]
    n = b.d[1]

    def inc(z):
        z.cells[ivar] = z.cells[ivar] + 1
    I.loop(e, st, IP.Flow(), lambda z: z.facts.simp(ge0(n - z.cells[ivar] - 1)),
           lambda z, fl: I.apply(z, f, [Ref(I.sub(loc, ("i", z.cells[ivar])))], e), inc)
    return f


@func("sort", "stable_sort")
def f_sort(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    loc = a.d[0]
    v = I.read(st, loc)
    if a.d[1] != Lin(0) or b.d[1] != size_of(I, st, v):
        return unknown(I, st, e, "sort of a part of a container")
    if isinstance(v, Vec) and segs_len(v.segs).is_const() and segs_len(v.segs).c <= 1:
        return Opq("void")
    if isinstance(v, Vec) and not v.st and len(v.segs) <= 24 and all(g[0] == "one" for g in v.segs):
        # few known elements: sort them when every comparison is decided
        def less(x, y):
            s2 = st.copy()
            if len(e["args"]) > 2:
                c = I.truth(I.apply(s2, arg(I, s2, e, 2), [Ref(I.sub(loc, ("i", Lin(x)))), Ref(I.sub(loc, ("i", Lin(y))))], e), s2)
            else:
                va, vb = v.segs[x][1], v.segs[y][1]
                if not (isinstance(va, Lin) and isinstance(vb, Lin)):
                    return None
                c = f_not(VV.ge0(va - vb))
            return st.facts.simp(c)
        n = len(v.segs)
        lt = {(x, y): less(x, y) for x in range(n) for y in range(n) if x != y}
        if all(c is True or c is False for c in lt.values()):
            order = []
            for x in range(n):
                k = len(order)
                while k > 0 and lt[(x, order[k - 1])]:
                    k -= 1
                order.insert(k, x)
            I.write(st, loc, Vec(tuple(v.segs[x] for x in order)))
            return Opq("void")
    ks = tuple(l[1] for l in I.loops)
    key = ("sort", I.nodeid(e), I.fr.fid, ks)
    i, j = Lin.of(sym(("si", key), 0, I31)), Lin.of(sym(("sj", key), 0, I31))
    s2 = st.copy()
    n = size_of(I, st, v)
    for x in (i, j):
        s2.facts.assume(ge0(n - x - 1))
    if len(e["args"]) > 2:
        f = arg(I, st, e, 2)
        c = I.truth(I.apply(s2, f, [Ref(I.sub(loc, ("i", i))), Ref(I.sub(loc, ("i", j)))], e), s2)
        c = s2.facts.simp(c)
    else:
        c = ("a", ("opq", ("less", I.read(s2, I.sub(loc, ("i", i))), I.read(s2, I.sub(loc, ("i", j))))))
    def perm(v):
        if isinstance(v, Phi):
            # one of several lists
            return Phi(v.c, perm(v.a), perm(v.b))
        if isinstance(v, Opq):
            # of an object that does not exist: an obligation of the access to it
            return v
        if isinstance(v, Vec) and not v.segs:
            return v
        if isinstance(v, Vec) and not v.st:
            return Vec((("perm", key, v.segs, ("cmp", i, j, c)),))
        raise AnalysisBroken("sort of %s %r" % (type(v), v,))
    r = perm(v)
    I.sorts[key] = r
    I.write(st, loc, r)
    return Opq("void")


@func("reverse", "unique", "partition", "shuffle", "rotate", "accumulate", "remove_if")
def f_alg(I, st, e):
    return unknown(I, st, e, e["callee"])


@func("transform")
def f_transform(I, st, e):
    a, b = arg(I, st, e, 0), arg(I, st, e, 1)
    o, f = arg(I, st, e, 2), arg(I, st, e, 3)
    s = I.read(st, a.d[0])
    if isinstance(s, Str) and a.d[1] == Lin(0) and b.d[1] == str_len(s) and isinstance(o, Misc) and o.kind == "it" and o.d[1] == Lin(0):
        ch = Lin.of(sym(("anychar", I.nodeid(e)), -128, 127))
        r = I.apply(st.copy(), f, [ch], e)
        kd = None
        if isinstance(r, Lin) and len(r.t) == 1 and r.c == 0 and r.t[0][1] == 1:
            k = Sym.byid[r.t[0][0]].key
            while k[0] == "cast":
                k = Sym.byid[k[3].t[0][0]].key
            if k[0] == "chcase":
                x = k[2]
                while x != ch and len(x.t) == 1 and Sym.byid[x.t[0][0]].key[0] == "cast":
                    x = Sym.byid[x.t[0][0]].key[3]
                if x == ch:
                    kd = k[1]
        if kd is None and isinstance(r, Lin):
            # decide the mapping character by character
            tab = {}
            for c in range(1, 127):
                y = I.apply(st.copy(), f, [Lin(c)], e)
                tab[c] = y.c if isinstance(y, Lin) and y.is_const() else None
            if all(tab[c] == ord(chr(c).upper()) for c in tab):
                kd = "upper"
            elif all(tab[c] == ord(chr(c).lower()) for c in tab):
                kd = "lower"
        I.write(st, o.d[0], map_case(s, kd) if kd else hole(("mapped", s, r)))
        return Misc("it", o.d[0], str_len(s))
    return unknown(I, st, e, "transform")


# ------------------------------------------------------------------ construction
def construct(I, st, e):
    ty = e["ty"]
    n = ty.get("name")
    args = [a for a in e["args"] if not a.get("defarg")]
    if n == "std::basic_string":
        if not args:
            return EMPTY
        a = I.rv(args[0], st)
        if len(args) == 1:
            if isinstance(a, Vec):   # initializer list of characters
                return cat(*[chr_str(g[1]) for g in a.segs])
            return to_str(I, st, a)
        b = I.rv(args[1], st)
        if isinstance(a, Lin):
            I.oblige("throw", st, ge0(a), e, "string length")
            return fill(a, b)
        if isinstance(a, Misc) and a.kind == "it":
            s = I.read(st, a.d[0])
            if isinstance(s, Str):
                return substr(I, st, s, a.d[1], b.d[1] - a.d[1], e)
            return hole(("range", a, b))
        if isinstance(a, (CPtr, Ptr)):
            if isinstance(b, Lin):
                x = to_str(I, st, a)
                return x if real_len(b) == real_len(str_len(x)) else prefix_of(x, b)
            return to_str(I, st, a)
        if isinstance(b, Lin):
            return substr(I, st, to_str(I, st, a), b, I.rv(args[2], st) if len(args) > 2 else None, e)
        return to_str(I, st, a)
    if n == "std::vector":
        if not args:
            return Vec()
        a = I.rv(args[0], st)
        if isinstance(a, Lin):
            x = I.rv(args[1], st) if len(args) > 1 else I.default(ty["args"][0], True)
            return Vec((("fill", a, x),)) if not (a.is_const() and a.c <= 64) else Vec(tuple(("one", x) for _ in range(a.c)))
        if isinstance(a, Misc) and a.kind == "it" and len(args) > 1:
            b = I.rv(args[1], st)
            v = I.read(st, a.d[0])
            if a.d[1] == Lin(0) and b.d[1] == size_of(I, st, v):
                return v
            return unknown(I, st, e, "vector(range)")
        if isinstance(a, Misc) and a.kind == "tokit":
            return a.d[0]
        if isinstance(a, Vec):
            return a
        if isinstance(a, Phi):
            return a
    if n in ("std::set", "std::unordered_set"):
        return SetV() if not args else I.rv(args[0], st)
    if n == "std::pair":
        if not args:
            return default(I, ty, True)
        if len(args) == 1:
            return I.rv(args[0], st)
        a, b = I.rv(args[0], st), I.rv(args[1], st)
        return Obj(IP.pair_ty(ty["args"][0], ty["args"][1]), None,
                   {"first": I.adapt(a, ty["args"][0], st), "second": I.adapt(b, ty["args"][1], st)})
    if n in STREAMS:
        o = new_stream(n)
        root = ("tmp", I.fr.fid, ("strm", I.nodeid(e)))
        st.cells[root] = o
        if args:
            p = I.rv(args[0], st)
            if "stringstream" in n:
                stw(I, st, (root, ()), "buf", to_str(I, st, p))
            else:
                do_open(I, st, e, (root, ()), to_str(I, st, p), I.rv(args[1], st) if len(args) > 1 else None, "ifstream" not in n)
        return st.cells[root]
    if n == "std::filesystem::path":
        return Misc("path", to_str(I, st, I.rv(args[0], st)) if args else EMPTY)
    if n == "std::error_code":
        return Misc("ec", False)
    if n in ("std::allocator", "std::locale", "std::fpos"):
        for a in args:
            I.rv(a, st)
        return Misc("misc", n)
    if n == "std::basic_regex":
        p = to_str(I, st, I.rv(args[0], st)) if args else EMPTY
        fl = [I.rv(a, st) for a in args[1:]]
        return Misc("regex", p, tuple(fl))
    if n == "std::match_results":
        return Misc("match", False, ())
    if n == "std::regex_token_iterator":
        if not args:
            return Misc("tokend")
        from . import rx
        return rx.token_iterator(I, st, e, args)
    if n == "stat" or n is None or ty["t"] != "rec":
        if not args:
            return I.default(ty, bool(e.get("default") and e.get("list")))
    if n == "stat":
        return Obj("#stat", ("stat0",), {})
    if n == "std::initializer_list":
        return I.rv(args[0], st) if args else Vec()
    if (e.get("copy") or n in ("__gnu_cxx::__normal_iterator", "std::_Rb_tree_const_iterator")) and len(args) == 1:
        return I.rv(args[0], st)
    raise AnalysisBroken("construction of %s is not modelled (%s:%s)" % (n, I.cur[0], e.get("l")))


def init_list(I, st, e):
    ty = e["ty"]
    n = ty.get("name")
    args = e["args"]
    if n == "std::pair" and len(args) == 2:
        return Obj(IP.pair_ty(ty["args"][0], ty["args"][1]), None,
                   {"first": I.adapt(I.rv(args[0], st), ty["args"][0], st), "second": I.adapt(I.rv(args[1], st), ty["args"][1], st)})
    if n == "std::vector":
        return Vec(tuple(("one", I.adapt(I.rv(a, st), ty["args"][0], st)) for a in args))
    if not args:
        return I.default(ty, True)
    if len(args) == 1:
        return I.rv(args[0], st)
    raise AnalysisBroken("initialiser list of %s (%s:%s)" % (n, I.cur[0], e.get("l")))


# ---- regular expressions
def msub(v, i):
    if isinstance(v, Misc) and v.kind == "match" and isinstance(i, Lin) and i.is_const():
        g = v.d[1]
        return g[i.c] if 0 <= i.c < len(g) else EMPTY
    return hole(("group", v, i))


def mobj(I, st, loc):
    v = I.read(st, loc)
    return v.s if isinstance(v, Misc) and v.kind == "phi" else v


@meth("match", "size")
def m_size(I, st, e, loc):
    v = mobj(I, st, loc)
    if isinstance(v, Misc) and v.kind == "match":
        if v.d[0] is False:
            return Lin(0)
        return Lin(len(v.d[1])) if v.d[0] is True else ite(v.d[0], Lin(len(v.d[1])), Lin(0))
    return Lin.of(sym(("msize", v), 0, 99))


@meth("match", "empty", "ready")
def m_empty(I, st, e, loc):
    v = mobj(I, st, loc)
    f = v.d[0] if isinstance(v, Misc) and v.kind == "match" else ("a", ("opq", ("mempty", v)))
    return f_not(f) if e["name"] == "empty" else True


@meth("match", "prefix", "suffix")
def m_prefix(I, st, e, loc):
    v = mobj(I, st, loc)
    if isinstance(v, Misc) and v.kind == "match" and len(v.d) > 3:
        return Misc("sub", v.d[2 if e["name"] == "prefix" else 3])
    return Misc("sub", hole((e["name"], v)))


@meth("match", "str", "length")
def m_str(I, st, e, loc):
    s = msub(mobj(I, st, loc), arg(I, st, e, 0) if nargs(e) else Lin(0))
    return s if e["name"] == "str" else str_len(s)


@meth("submatch", "str", "length", "operator basic_string", "compare")
def sm_str(I, st, e, loc):
    s = to_str(I, st, I.read(st, loc))
    if e["name"] == "length":
        return str_len(s)
    if e["name"] == "compare":
        return ite(streq(s, to_str(I, st, arg(I, st, e, 0))), Lin(0), Lin(1))
    return s


CLS["std::match_results"] = "match"
CLS["std::sub_match"] = "submatch"


@func("regex_replace", "regex_match", "regex_search")
def f_regex(I, st, e):
    from . import rx
    return rx.call(I, st, e, base_name(e["callee"]).split("::")[-1])


@func("getline")
def f_getline(I, st, e):
    h = I.hooks.get("getline")
    if h is not None:
        return h(I, st, e)
    loc = I.lv_or_tmp(e["args"][0], st, ("obj", I.nodeid(e)))
    dst = I.lv(e["args"][1], st)
    n = stf(I, st, loc, "lines")
    p = stf(I, st, loc, "path")
    delim = arg(I, st, e, 2) if nargs(e) > 2 else Lin(10)
    if not isinstance(n, Lin):
        n = Lin.of(sym(("lineno", n), 0, I31))
    ok = ("a", ("b", ("line", p, n)))
    I.emit("getline", st, (p, n, delim), e)
    I.write(st, dst, ite(ok, hole(("line", p, n)), EMPTY))
    stw(I, st, loc, "lines", n + 1)
    stw(I, st, loc, "bad", f_not(ok))
    return Misc("bool", ok)
