"""Regular expressions on text templates.

The text of a template is split in fixed text and variable segments with a known set of characters.  The character
classes of the pattern partition that set; one character stands for each part.  The pattern is applied to every
choice of words over these characters (lengths up to 4; all of them, or one variable segment at a time when there are
too many) and the places of the matches are mapped back to the borders of the segments.  When all choices agree the
result is known; otherwise it is an unknown fact, or a list with an unknown rest."""
import re, itertools
try:
    from re import _parser as sre_parse
except ImportError:
    import sre_parse
from .values import *
from . import values as VV
from . import lin as L
from .lin import *
from .model import AnalysisBroken

LITERAL = re.compile(r"^(\\?[^\\.^$*+?()\[\]{}|]|\\[.^$*+?()\[\]{}|\\])$")
ALL = frozenset(chr(c) for c in range(1, 256))
WORDS = 400


def pattern(I, st, v):
    if isinstance(v, Ref):
        v = I.read(st, v.loc)
    if isinstance(v, Misc) and v.kind == "regex":
        if len(v.d) > 1 and v.d[1]:
            raise AnalysisBroken("regex with flags (%s)" % (I.cur[0],))
        p = v.d[0]
        if isinstance(p, Str):
            p = p.lit
        return p
    return None


def one_char(p):
    if p is None:
        return None
    if len(p) == 1 and LITERAL.match(p):
        return p
    return {"\\n": "\n", "\\t": "\t", "\\r": "\r"}.get(p) or (p[1] if LITERAL.match(p) and not p[1].isalnum() else None)


def map_char(s, ch, rep):
    """every character ch of the text s replaced by the text rep"""
    out = []
    for g in s.segs:
        t = g[0]
        cs = I_cs(g)
        if cs is not None and ch not in cs:
            out.append(g)
        elif t == "L":
            out.append(("L", g[1].replace(ch, rep)))
        elif t == "I":
            out += list(VV.str_ite(g[1], map_char(g[2], ch, rep), map_char(g[3], ch, rep)).segs)
        elif t == "R":
            out.append(("R", g[1], g[2], g[3], map_char(g[4], ch, rep)))
        elif t == "T":
            out.append(("T", tuple(x.replace(ch, rep) for x in g[1]), g[2]))
        elif t == "H":
            k = ("map", g[1], ch, rep)
            m = VV.HOLE_META.get(g[1]) or {}
            c = m.get("cs")
            if c is not None:
                VV.HOLE_META.setdefault(k, {})["cs"] = (c - {ch}) | frozenset(rep)
            out.append(("H", k))
        else:
            out.append(("H", ("map", g, ch, rep)))
    return VV.mkstr(out)


def I_cs(g):
    from .lib import seg_cs
    return seg_cs(g)


def py(p):
    """ECMAScript pattern as a Python pattern (same meaning for the constructs accepted here)"""
    if re.search(r"\\[A-CE-RT-VX-Zbuxc]", p.replace("\\\\", "")) or "(?" in p.replace("(?:", "").replace("(?=", "").replace("(?!", ""):
        raise AnalysisBroken("regex construct not modelled: %r" % p)
    return re.compile(re.sub(r"((?:^|[^\\])(?:\\\\)*)\$", r"\1\\Z", p), re.ASCII)


def classes(p):
    """the sets of characters that the pattern tests"""
    out = []

    def rec(seq):
        for op, av in seq:
            o = str(op)
            if o in ("LITERAL", "NOT_LITERAL"):
                out.append(frozenset(chr(av)) if av < 256 else frozenset())
            elif o == "ANY":
                out.append(frozenset("\n"))
            elif o == "IN":
                out.append(frozenset(c for c in ALL if in_set(av, c)))
            elif o in ("MAX_REPEAT", "MIN_REPEAT"):
                rec(av[2])
            elif o == "SUBPATTERN":
                rec(av[-1])
            elif o == "BRANCH":
                for b in av[1]:
                    rec(b)
            elif o in ("ASSERT", "ASSERT_NOT"):
                rec(av[1])
            elif o == "AT":
                pass
            elif o == "CATEGORY":
                out.append(frozenset(c for c in ALL if in_set([(op, av)], c)))
            else:
                raise AnalysisBroken("regex construct %s not modelled: %r" % (o, p.pattern))
    rec(sre_parse.parse(p.pattern, re.ASCII))
    return out


def in_set(av, c):
    neg = False
    r = False
    for op, a in av:
        o = str(op)
        if o == "NEGATE":
            neg = True
        elif o == "LITERAL":
            r = r or ord(c) == a
        elif o == "RANGE":
            r = r or a[0] <= ord(c) <= a[1]
        elif o == "CATEGORY":
            n = str(a)
            t = {"DIGIT": r"\d", "SPACE": r"\s", "WORD": r"\w"}[n.split("_")[-1]]
            m = bool(re.match(t, c, re.ASCII))
            r = r or (m != ("_NOT_" in n))
        else:
            raise AnalysisBroken("regex class %s not modelled" % o)
    return r != neg


def words(g, cl):
    """words that stand for the texts of a variable segment; second: one class only"""
    from . import lib
    cs = lib.seg_cs(g)
    if cs is None:
        cs = ALL
    rep = {}
    for c in sorted(cs):
        rep.setdefault(tuple(c in k for k in cl), c)
    reps = list(rep.values())
    lo, hi = Facts().bound(VV.seg_len(g))
    lo = max(0, lo)
    if not reps:
        return [""], True
    if lo > 40:
        raise AnalysisBroken("long variable text in a pattern search")
    out = []
    for n in range(lo, int(min(hi, max(lo + 3, 4))) + 1):
        if len(reps) ** n > 200 and n > lo + 1:
            # beyond the full words: a block of one class after another
            for a in reps:
                for b in reps:
                    out.append(a * (n // 2) + b * (n - n // 2))
            continue
        out += ["".join(w) for w in itertools.product(reps, repeat=n)]
    return out, len(reps) == 1


def variants(s, cl):
    """concrete texts with the borders of the segments: list of (text, starts)"""
    segs = s.segs
    ws = []
    for g in segs:
        if g[0] == "L":
            ws.append([g[1]])
        else:
            w, uni = words(g, cl)
            ws.append(w)
    total = 1
    for w in ws:
        total *= len(w)
    if total <= WORDS:
        combos = list(itertools.product(*ws))
    else:
        # the first word that is not too short stands for the others
        base = [w[min(len(w) - 1, 1)] for w in ws]
        combos = [tuple(base), tuple(w[0] for w in ws), tuple(w[-1] for w in ws)]
        for i, w in enumerate(ws):
            for x in w:
                for b in (base, [v[0] for v in ws]):
                    combos.append(tuple(b[:i]) + (x,) + tuple(b[i + 1:]))
    out = []
    seen = set()
    for c in combos:
        if c in seen:
            continue
        seen.add(c)
        st, o = [], 0
        for x in c:
            st.append(o)
            o += len(x)
        out.append(("".join(c), st + [o], c))
    return out


def border(s, starts, pos):
    """set of names of a place in the text, canonical: (segment, offset)"""
    r = []
    for i, g in enumerate(s.segs):
        if starts[i] == pos:
            r.append((i, 0))
        if g[0] == "L" and starts[i] < pos <= starts[i + 1]:
            r.append((i, pos - starts[i]))
        if g[0] != "L" and starts[i + 1] == pos:
            r.append((i + 1, 0))
    if pos == starts[-1]:
        r.append((len(s.segs), 0))
    out = set()
    for i, o in r:
        # the end of a segment is the start of the next one
        if i < len(s.segs) and s.segs[i][0] == "L" and o == len(s.segs[i][1]):
            i, o = i + 1, 0
        out.add((i, o))
    return frozenset(out)


def agree(lists):
    """the places that all choices agree on: position by position the common names; None when there is none"""
    n = min(len(x) for x in lists)
    out = []
    for i in range(n):
        c = frozenset.intersection(*[x[i] for x in lists])
        if not c:
            break
        out.append(min(c))
    return out, all(len(x) == len(out) for x in lists)


def cut(s, a, b):
    """part of the template between two borders"""
    if a >= b:
        return VV.EMPTY
    (i, o), (j, q) = a, b
    out = []
    for k in range(i, min(j, len(s.segs) - 1) + 1):
        g = s.segs[k]
        if g[0] == "L":
            x = g[1][o if k == i else 0:(q if k == j else None)]
            if x:
                out.append(("L", x))
        elif k < j:
            out.append(g)
    return VV.mkstr(out)


def dist(s):
    """first alternative segment of a template: (condition, then, else)"""
    for i, g in enumerate(s.segs):
        if g[0] == "I":
            return g[1], VV.mkstr(s.segs[:i] + g[2].segs + s.segs[i + 1:]), VV.mkstr(s.segs[:i] + g[3].segs + s.segs[i + 1:])
    return None


def spans_split(r, t, sub):
    """places of the tokens in a concrete text as list of positions a, b, a, b ..."""
    out = []
    if sub == -1:
        p = 0
        found = False
        for m in r.finditer(t):
            out += [p, m.start()]
            p = m.end()
            found = True
        if p < len(t) or not found:
            out += [p, len(t)]
        return out
    for m in r.finditer(t):
        a, b = m.span(sub)
        if a < 0:
            a = b = len(t)
        out += [a, b]
    return out


STRT = None


def tokens(s, p, sub):
    """(known tokens, complete?)"""
    r = py(p)
    cl = classes(r)
    vs = variants(s, cl)
    lists = []
    for t, starts, _ in vs:
        lists.append([border(s, starts, x) for x in spans_split(r, t, sub)])
    ends, full = agree(lists)
    if len(ends) % 2:
        ends = ends[:-1]
    toks = [cut(s, ends[i], ends[i + 1]) for i in range(0, len(ends), 2)]
    return toks, full, min(len(x) for x in lists) // 2 - len(toks)


def token_iterator(I, st, e, args):
    a, b = I.rv(args[0], st), I.rv(args[1], st)
    p = pattern(I, st, I.rv(args[2], st))
    sub = I.rv(args[3], st) if len(args) > 3 else Lin(0)
    if not (isinstance(a, Misc) and a.kind == "it" and isinstance(b, Misc) and b.kind == "it" and a.d[0] == b.d[0]):
        raise AnalysisBroken("range of a token iterator (%s:%s)" % (I.cur[0], e.get("l")))
    from . import lib, interp
    s = lib.rdstr(I, st, a.d[0])
    if not (a.d[1] == Lin(0) and b.d[1] == VV.str_len(s)):
        raise AnalysisBroken("token iterator over a part of a text (%s:%s)" % (I.cur[0], e.get("l")))
    if p is None or not isinstance(sub, Lin) or not sub.is_const():
        raise AnalysisBroken("pattern of a token iterator is not constant (%s:%s)" % (I.cur[0], e.get("l")))
    I.emit("regex", st, (p, "token", s), e)
    return Misc("tokit", tokvec(s, p, sub.c), Lin(0))


def tokvec(s, p, sub):
    from . import interp
    d = dist(s)
    if d is not None:
        x, y = tokvec(d[1], p, sub), tokvec(d[2], p, sub)
        return x if x == y else Vec((("if", d[0], x.segs, y.segs),))
    toks, full, rest = tokens(s, p, sub)
    segs = tuple(("one", t) for t in toks)
    if not full:
        k = ("toks", s, p, sub, len(toks))
        segs += (("sym", k, Lin.of(sym(("size", k), max(0, rest), I31)), interp._tkey({"t": "rec", "name": "std::basic_string", "args": []})),)
    return Vec(segs)


def opaque(kind, s, p, extra=()):
    k = (kind, s, p) + extra
    VV.HOLE_META.setdefault(k, {"min": 0, "cs": str_cs0(s)})
    return VV.hole(k)


def str_cs0(s):
    from . import lib
    return lib.str_cs(s)


def search(s, p, full):
    """(decided result or formula, groups, prefix, suffix)"""
    d = dist(s)
    if d is not None:
        f1, g1, a1, b1 = search(d[1], p, full)
        f2, g2, a2, b2 = search(d[2], p, full)
        n = max(len(g1), len(g2))
        gs = tuple(VV.str_ite(d[0], g1[i] if i < len(g1) else VV.EMPTY, g2[i] if i < len(g2) else VV.EMPTY) for i in range(n))
        return f_ite(d[0], f1, f2), gs, VV.str_ite(d[0], a1, a2), VV.str_ite(d[0], b1, b2)
    r = py(p)
    vs = variants(s, classes(r))
    ms = [(r.fullmatch(t) if full else r.search(t)) for t, _, _ in vs]
    if not any(ms):
        return False, (), VV.EMPTY, VV.EMPTY
    f = True if all(ms) else ("a", ("b", ("rxm", p, s, full)))
    lists = []
    for m, (t, starts, _) in zip(ms, vs):
        if m is None:
            continue
        ps = []
        for i in range(r.groups + 1):
            a, b = m.span(i)
            ps.append((border(s, starts, a), border(s, starts, b)) if a >= 0 else None)
        lists.append(ps)
    gs = []
    for i in range(r.groups + 1):
        col = [x[i] for x in lists]
        if all(c is None for c in col):
            gs.append(VV.EMPTY)
            continue
        v = None
        if all(c is not None for c in col):
            a = frozenset.intersection(*[c[0] for c in col])
            b = frozenset.intersection(*[c[1] for c in col])
            if a and b:
                v = cut(s, min(a), min(b))
        gs.append(v if v is not None else opaque("group", s, p, (i, full)))
    a = frozenset.intersection(*[x[0][0] for x in lists])
    b = frozenset.intersection(*[x[0][1] for x in lists])
    pre = cut(s, (0, 0), min(a)) if a else opaque("prefix", s, p)
    suf = cut(s, min(b), (len(s.segs), 0)) if b else opaque("suffix", s, p)
    return f, tuple(gs), pre, suf


def replace(s, p, rep):
    d = dist(s)
    if d is not None:
        return VV.str_ite(d[0], replace(d[1], p, rep), replace(d[2], p, rep))
    ch = one_char(p)
    if ch is not None and "$" not in rep:
        return map_char(s, ch, rep)
    parts = re.findall(r"\$\d|\$\$|\$&|[^$]+|\$", rep)
    if any(x == "$" for x in parts):
        raise AnalysisBroken("replacement text not modelled: %r" % rep)
    r = py(p)
    vs = variants(s, classes(r))
    gi = sorted({int(x[1]) for x in parts if re.match(r"\$\d", x)} | ({0} if "$&" in parts else set()))
    lists = []
    for t, starts, _ in vs:
        o = []
        for m in r.finditer(t):
            o += [border(s, starts, m.start()), border(s, starts, m.end())]
            for i in gi:
                a, b = m.span(i)
                if a < 0:
                    a = b = m.end()
                o += [border(s, starts, a), border(s, starts, b)]
        lists.append(o)
    ps, full = agree(lists)
    if not full:
        k = ("rxr", s, p, rep)
        c = str_cs0(s)
        if c is not None:
            VV.HOLE_META.setdefault(k, {"min": 0, "cs": c | frozenset(rep)})
        return VV.hole(k)
    w = 2 + 2 * len(gi)
    out = []
    at = (0, 0)
    for k in range(0, len(ps), w):
        out.append(cut(s, at, ps[k]))
        for x in parts:
            if x == "$$":
                out.append(VV.lit("$"))
            elif x == "$&" or re.match(r"\$\d", x):
                i = gi.index(0 if x == "$&" else int(x[1]))
                out.append(cut(s, ps[k + 2 + 2 * i], ps[k + 3 + 2 * i]))
            else:
                out.append(VV.lit(x))
        at = ps[k + 1]
    out.append(cut(s, at, (len(s.segs), 0)))
    return VV.cat(*out)


def call(I, st, e, name):
    from . import lib
    args = [a for a in e["args"] if not a.get("defarg")]
    if name == "regex_replace":
        s = lib.to_str(I, st, I.rv(args[0], st))
        p = pattern(I, st, I.rv(args[1], st))
        r = lib.to_str(I, st, I.rv(args[2], st)).lit
        if len(args) > 3:
            return hole(("rxr", s, p, r, "flags"))
        I.emit("regex", st, (p, name, s), e)
        if p is not None and r is not None:
            return replace(s, p, r)
        return hole(("rxr", s, p, r))
    full = name == "regex_match"
    s = lib.to_str(I, st, I.rv(args[0], st))
    dst = None
    if len(args) == 3:
        dst = I.lv(args[1], st)
        p = pattern(I, st, I.rv(args[2], st))
    else:
        p = pattern(I, st, I.rv(args[1], st))
    if p is None or len(args) > 3:
        raise AnalysisBroken("%s: pattern or form not modelled (%s:%s)" % (name, I.cur[0], e.get("l")))
    I.emit("regex", st, (p, name, s), e)
    f, gs, pre, suf = search(s, p, full)
    if dst is not None:
        I.write(st, dst, Misc("match", f, gs, pre, suf))
    return Misc("bool", f)
