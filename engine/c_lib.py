"""Checks of the driver header and source: payload initialisation, version, conversions, automation."""
import re, itertools
from .rules import *
from .view import spec, nbool, toklist
from .model import AnalysisBroken
from .c_gen import check, CHECKS as _ALL, pack_fns, unpack_fn, joined, H, C, CS, short
from .cexpr import parse, nopar, subs, show, Syntax
from .cval import ival, NoValue
from .lin import f_and, f_or, f_not
from . import c_gen

CHECKS = {}


def reg(prop):
    def deco(f):
        g = check(prop)(f)
        CHECKS[prop] = c_gen.CHECKS.pop(prop)
        return g
    return deco


def tree(toks):
    try:
        return nopar(parse(toks))
    except Syntax as e:
        return ("?", joined(toks))


class Stm:
    """one statement of a generated function"""
    __slots__ = ("row", "toks", "i", "inner", "extra", "guard", "f")

    @property
    def lhs(self):
        a = assign(self.toks)
        return joined(a[0]) if a else None

    def where(self):
        return self.row.where()

    def __repr__(self):
        return joined(self.toks)


def body(c, f):
    """statements of a function in order, with what they are under inside the function"""
    out = []
    for r, s in f.stmts():
        x = Stm()
        x.row, x.toks, x.i, x.f = r, s, len(out), f
        x.inner = frozenset(f.inner(r))
        x.extra = loopnames(r)[len(loopnames(f.head)):]
        x.guard = r.guard
        out.append(x)
        c.count("statements checked")
    return out


def fname(f):
    t = [x for x in f.head.toks if x.startswith(("Pack_", "Unpack_"))]
    return (t[0].split("_")[0] if t else f.head.toks[1]) + (" (struct)" if CS in f.head.pp else "")


# ------------------------------------------------------------------ C14
def writes(s, buf):
    """does the statement write an element of buf?  returns the operators"""
    n = len(buf)
    ops = []
    t = s.toks
    for i in range(len(t) - n):
        if t[i:i + n] == buf and t[i + n] == "[" and (i == 0 or t[i - 1] not in (".", "->")):
            j = matching(t, i + n)
            if j + 1 < len(t) and (t[j + 1] in ASSIGN):
                ops.append(t[j + 1])
            elif i and t[i - 1] in ("++", "--"):
                ops.append(t[i - 1])
    return ops


def init_loop(ss, k, buf, lim, val):
    """is the statement at k the loop setting buf[0..lim-1] to val?  returns number of statements it takes"""
    t = ss[k].toks
    b = joined(buf)
    if t[0] == "memset":
        e = tree(t[:-1])
        return 1 if e[0] == "call" and len(e[2]) == 3 and show(e[2][0]) == b and show(e[2][1]) == val and show(e[2][2]) == lim else 0
    if t[0] != "for":
        return 0
    e = matching(t, 1)
    hd, rest = t[2:e], t[e + 1:]
    parts, cur = [], []
    for x in hd:
        if x == ";":
            parts.append(cur)
            cur = []
        else:
            cur.append(x)
    parts.append(cur)
    if len(parts) != 3:
        return 0
    a = assign(parts[0] + [";"])
    if a is None or a[1] != "=" or not re.fullmatch(r"0[xX]?0*[uUlL]*", joined(a[2])):
        return 0
    v = a[0][-1]
    c = tree(parts[1])
    if c[0] != "bin" or c[1] not in ("<", "!=") or c[2] != ("t", v) or show(c[3]) != lim:
        return 0
    steps = []
    p2 = parts[2]
    s2 = rest[:-1] if rest and rest[-1] == ";" else rest
    n = 1
    if not rest:
        # body in braces
        if k + 1 < len(ss) and ss[k + 1].toks == ["{"]:
            return 0
        return 0
    if s2[:1] == ["{"]:
        s2 = [x for x in s2 if x not in "{}"]
        if s2 and s2[-1] == ";":
            s2 = s2[:-1]
    both = [joined(x) for x in (p2, s2) if x]
    good = ({"%s [ %s ++ ] = %s" % (b, v, val)}, {"%s ++" % v, "%s [ %s ] = %s" % (b, v, val)}, {"++ %s" % v, "%s [ %s ] = %s" % (b, v, val)},
            {"%s += 1" % v, "%s [ %s ] = %s" % (b, v, val)})
    vv = {x.replace("( ", "").replace(" )", "") for x in both}
    return n if vv in good else 0


def eval_c(e, env):
    k = e[0]
    if k == "t":
        if e[1] in env:
            return env[e[1]]
        m = re.fullmatch(r"(0[xX][0-9a-fA-F]+|\d+)[uUlL]*", e[1])
        if m:
            return int(m.group(1), 0)
        raise Syntax(e[1])
    if k == "?:":
        return eval_c(e[2], env) if eval_c(e[1], env) else eval_c(e[3], env)
    if k == "un" and e[1] == "!":
        return int(not eval_c(e[2], env))
    if k == "cast":
        return eval_c(e[2], env)
    if k == "bin":
        a = eval_c(e[2], env)
        if e[1] == "||" and a or e[1] == "&&" and not a:
            return int(bool(a))
        b = eval_c(e[3], env)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b),
                ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b), "||": lambda: int(bool(b)), "&&": lambda: int(bool(b)),
                "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[e[1]]()
    raise Syntax(k)


BUFS = (["cframe", "->", "Data"], ["_d"])


@reg("C14")
def c14(c):
    """Every pack function must begin its payload writes with one unconditional loop over the whole frame; all other
    writes must be |=.  The length macros are evaluated as C expressions."""
    R = Rules(c)
    h = R.v.file(H)
    lim, val = "«DRV»_VALIDATE_DLC(«M.Name»_DLC)", "«DRV»_INITIAL_BYTE_VALUE"
    for f, buf in zip(pack_fns(R), BUFS):
        ss = body(c, f)
        nm = fname(f)
        inits = [(k, init_loop(ss, k, buf, lim, val)) for k in range(len(ss))]
        inits = [(k, n) for k, n in inits if n]
        key = nm + " initialisation"
        if not c.ob(key, "one loop sets every payload byte to the initial value", len(inits) == 1, ss[inits[0][0]].where() if inits else f.head.where(),
                    "%d such loops: %s" % (len(inits), "; ".join(str(s) for s in ss if s.toks[0] == "for"))):
            continue
        k, n = inits[0]
        s = ss[k]
        c.ob(key, "unconditional", equiv(s.guard, f.head.guard) and not s.inner and not s.extra, s.where(), repr(s))
        for x in ss:
            if k <= x.i < k + n:
                continue
            if any(x.toks[i:i + len(buf)] == buf for i in range(len(x.toks))):
                c.ob(key + " first", "payload is not used before its initialisation", x.i > k, x.where(), repr(x))
            for op in writes(x, buf):
                c.ob("%s payload write %s" % (nm, joined(x.toks)[:60]), "bits are only added to the payload", op == "|=", x.where(), repr(x))
                c.count("payload writes")
            # nobody else gets a pointer to change it
            e = tree(x.toks[:-1] if x.toks[-1] == ";" else x.toks)
            for y in subs(e):
                if y[0] == "call" and any(show(a) == joined(buf).replace(" ", "") for a in y[2]) and show(y[1]) != "GetFrameHash":
                    c.ob("%s passes the payload to %s" % (nm, show(y[1])), "payload is only passed to the user's hash function", False, x.where(), repr(x))
    m = R.lines(h, "length limit macro", "defined once", "#define «DRV»_VALIDATE_DLC(msgDlc) $*", pp=(), loops=())
    if not m:
        m = [r for r in h.rows if r.toks[:3] == ["#", "define", "«DRV»_VALIDATE_DLC"]]
    for r in m:
        t = r.toks
        e = matching(t, 3)
        p = t[4:e]
        try:
            ex = tree(t[e + 1:])
            bad = [(a, b) for a in range(6) for b in range(6) if eval_c(ex, {p[0]: a, "«DRV»_MAX_DLC_VALUE": b}) != min(a, b)]
            c.ob("length limit macro", "is the smaller of frame length and maximum", not bad, r.where(), "%s for length, maximum = %s" % (r.code, bad[:2]))
        except Syntax as x:
            c.ob("length limit macro", "is the smaller of frame length and maximum", False, r.where(), r.code)
    r = R.lines(h, "maximum length macro", "defined once, unless the user defined it", "#define «DRV»_MAX_DLC_VALUE $*", pp=("!«DRV»_MAX_DLC_VALUE",), loops=())
    for x in r or ():
        t, casts = cast_free(x.toks[3:])
        e = numtok(t[0], "dbc.maxDlcValue") if len(t) == 1 and not casts else "not one number"
        c.ob("maximum length macro", "value is the largest frame length of the driver", e is None, x.where(), e or "")
    r = R.lines(h, "initial value macro", "defined once, unless the user defined it", "#define «DRV»_INITIAL_BYTE_VALUE $*", pp=("!«DRV»_INITIAL_BYTE_VALUE",), loops=())
    from . import c_parse
    c_parse.dlc_rules(c)


# ------------------------------------------------------------------ C21
def pp_if(r):
    return r.toks[:2] == ["#", "if"]


@reg("C21")
def c21(c):
    """Version macros are found by their names and the value printed into them; the comparisons are evaluated as C
    expressions."""
    R = Rules(c)
    h = R.v.file(H)
    MAJ, MIN = "VER_«DRV»_MAJ", "VER_«DRV»_MIN"
    used = set()
    for f, sfx in ((h, ""), (R.v.file("«drv»-fmon.h"), "_FMON")):
        for m, field in ((MAJ, "dbc.ver.hi"), (MIN, "dbc.ver.low")):
            rs = R.lines(f, "%s in %s" % (m + sfx, f.name), "published once and unconditionally", "#define %s%s $*" % (m, sfx), pp=(), loops=())
            for r in rs or ():
                used.add(id(r))
                t, casts = cast_free(r.toks[3:])
                e = numtok(t[0], field) if len(t) == 1 and not casts else "not one number"
                c.ob("%s in %s" % (m + sfx, f.name), "value is " + field, e is None, r.where(), e or "")
    n = 0
    for f in R.v.files:
        src = f.name == C or f.name.endswith("binutil.c")
        if src:
            n += 1
            checks = [r for r in f.rows if pp_if(r) and any(t in (MAJ, MIN) for t in r.toks)]
            key = "version check in " + short(f)
            good = []
            for r in checks:
                used.add(id(r))
                ok, why = version_check(r, MAJ, MIN)
                c.ob(key, "fails exactly when a number differs", ok, r.where(), why)
                good.append(r)
            errs = [r for r in f.rows if r.toks[:2] == ["#", "error"] and any(MAJ in x for x in r.pp)]
            c.ob(key, "there is one check", len(checks) == 1, f.where(), "%d comparisons with the header's version" % len(checks))
            for r in errs:
                c.ob(key, "unconditional in the file", r.guard is True and len(r.pp) == 1 and not r.pp[0].startswith("!") and not r.loops, r.where(), str(r.pp))
            c.ob(key, "stops the compilation", len(errs) == 1, f.where(), "%d #error lines under the comparison" % len(errs))
            inc = [r for r in f.rows if r.toks[:2] == ["#", "include"]]
            if checks:
                c.ob(key, "after the header is included", bool(inc) and inc[0].i < checks[0].i and inc[0].guard is True and not inc[0].pp, checks[0].where(), "no include before the check")
        for r in f.rows:
            t = r.code
            if "dbc.ver." in t and id(r) not in used:
                c.ob("version in %s: %s" % (short(f), t[:60]), "the numbers appear only in the version macros and checks", r.toks[:2] == ["#", "error"], r.where(), t)
    c.need(n, "source files with version checks", 2)
    from . import c_parse
    c_parse.version_rules(c)


def version_check(r, MAJ, MIN):
    hi = [t for t in r.toks if numtok(t, "dbc.ver.hi") is None]
    lo = [t for t in r.toks if numtok(t, "dbc.ver.low") is None]
    if len(set(hi)) != 1 or len(set(lo)) != 1:
        return False, r.code
    try:
        e = tree(r.toks[2:])
        for a, b, x, y in itertools.product(range(2), repeat=4):
            v = eval_c(e, {MAJ: a, MIN: b, hi[0]: x, lo[0]: y})
            if bool(v) != (a != x or b != y):
                return False, "header %d.%d against %d.%d: %s" % (a, b, x, y, r.code)
    except Syntax:
        return False, r.code
    return True, ""


# ------------------------------------------------------------------ C07
OFF0, FAC1 = None, None
# "a signal of this name was seen before": the test is for the signal's name
DEDUP = re.compile(r"<mem .* '(?:\w|«DRV»)*«S\.Name»(?:\w|«DRV»)*'>$")


def drop_dedup(f):
    """formula with `name was printed before` read as false; and the atoms"""
    found = []

    def go(x):
        if x is True or x is False:
            return x
        if x[0] == "not":
            return f_not(go(x[1]))
        if x[0] in ("and", "or"):
            return (f_and if x[0] == "and" else f_or)(*[go(y) for y in x[1]])
        if x[1][0] == "b" and isinstance(x[1][1], tuple) and x[1][1][0] == "nm" and DEDUP.search(x[1][1][1]):
            found.append(x[1][1][1])
            return False
        return x
    return go(f), found


def neutral(name):
    return nbool(name)


def conv_form(body, x):
    """(kind, offset token or None, factor token or None) of a conversion expression of x"""
    e = nopar(body)
    cast = None
    if e[0] == "cast":
        cast, e = e[1], e[2]
    X = ("t", x)
    o = f = None
    k = None
    if e[0] == "bin" and e[1] == "/":
        f, e, k = e[3], e[2], "toS"
        if e[0] == "bin" and e[1] == "-":
            o, e = e[3], e[2]
    elif e[0] == "bin" and e[1] == "-":
        o, e, k = e[3], e[2], "toS"
    elif e[0] == "bin" and e[1] == "*":
        a, b = e[2], e[3]
        if b == X:
            a, b = b, a
        f, e, k = b, a, "fromS"
    elif e[0] == "bin" and e[1] == "+":
        a, b = e[2], e[3]
        o, e, k = b, a, "fromS"
        if a[0] == "t" and a != X:
            o, e = a, b
        if e[0] == "bin" and e[1] == "*":
            a, b = e[2], e[3]
            if b == X:
                a, b = b, a
            f, e = b, a
    if e != X or any(z is not None and z[0] != "t" for z in (o, f)):
        return None
    return k, o[1] if o else None, f[1] if f else None, cast


def numval(t, name):
    """how the printed value denotes the number: 'dbl', 'int' or None"""
    if t == "«dbl %s»" % name:
        return "dbl"
    if re.fullmatch(r"«%d \(ftoi 32 True " + re.escape(name) + r"\)»", t):
        return "int"
    return None


@reg("C07")
def c07(c):
    """Conversion macros are parsed as C expressions and compared with the two formulas; omitted terms need the
    condition under which they are neutral; placement of the conversions follows the order of the generated lines."""
    R = Rules(c)
    h, src = R.v.file(H), R.v.file(C)
    base = spec("M.frameNotEmpty && !S.IsSimpleSig")
    dbl = spec("S.IsDoubleSig")
    for kind in ("toS", "fromS"):
        name = "«DRV»_«S.Name»_" + kind
        rows = [r for r in h.rows if r.toks[:3] == ["#", "define", name]]
        key = "macro " + kind
        c.need(len(rows), "definitions of " + name)
        tot = False
        for r in rows:
            c.count("conversion formulas")
            t = r.toks
            p = t[4]
            whole = t[6:]
            c.ob(key, "parenthesised as a whole, with the argument in parentheses", t[3] == "(" and t[5] == ")" and whole[0] == "(" and matching(whole, 0) == len(whole) - 1
                 and all(whole[i - 1] == "(" and whole[i + 1] == ")" for i, x in enumerate(whole) if x == p), r.where(), r.code)
            try:
                cf = conv_form(parse(whole), p)
            except Syntax:
                cf = None
            if not c.ob(key, "is the conversion formula", cf is not None and cf[0] == kind, r.where(), r.code):
                continue
            k, o, f, cast = cf
            g, ded = drop_dedup(r.guard)
            for d in set(ded):
                c.ob("conversion macros shared by signal name", "every scaled signal gets its own conversion macros", False, r.where(),
                     "not printed for a frame's signal if an earlier signal had the same name")
            tot = f_or(tot, g)
            for tok, fld, neu in ((o, "S.Offset", "<f== S.Offset (fc 0)>"), (f, "S.Factor", "<f== S.Factor (fc True)>")):
                if tok is None:
                    c.ob(key + " without " + fld, "term omitted only if neutral", implies(g, neut(g, fld)), r.where(), r.code)
                else:
                    v = numval(tok, fld)
                    c.ob(key + " " + fld, "uses the DBC's number", v is not None, r.where(), tok)
                    if v == "int":
                        c.ob(key + " " + fld, "printed as integer only for integral conversions", implies(g, f_not(dbl)), r.where(), r.code)
            if kind == "toS":
                c.ob(key, "result has the raw type", cast in (None, "«type S.TypeRo»"), r.where(), str(cast))
            else:
                c.ob(key, "physical value is not narrowed", cast is None, r.where(), str(cast))
            c.ob(key, "per signal, unconditional for the compiler", loopnames(r) == (MSGS, SIGS) and not r.pp, r.where(), r.code)
        c.ob(key, "printed exactly for scaled signals", equiv(tot, base), rows[0].where(), R.guard_text(tot))
    # physical fields
    for pp in (("«DRV»_USE_BITS_SIGNAL", "«DRV»_USE_SIGFLOAT"), ("!«DRV»_USE_BITS_SIGNAL", "«DRV»_USE_SIGFLOAT")):
        key = "physical field" + (" (bit fields)" if pp[0][0] != "!" else "")
        rs = [r for r in h.rows if r.toks[-2:] == ["«S.NameFloat»", ";"] and set(r.pp) == set(pp)]
        c.ob(key, "declared exactly for scaled signals", equiv(f_or(*[r.guard for r in rs]), base), rs[0].where() if rs else h.where(), "")
        for r in rs:
            ty = r.toks[0]
            c.ob(key, "real numbers for real conversions, the physical type otherwise",
                 len(r.toks) == 3 and (ty == "sigfloat_t" or ty == "«type S.TypePhys»" and implies(r.guard, f_not(dbl))), r.where(), r.code)
            c.ob(key, "per signal", loopnames(r) == (MSGS, SIGS), r.where(), r.code)
    other = [r for r in h.rows if any("NameFloat" in t for t in r.toks) and not (r.toks[-2:] == ["«S.NameFloat»", ";"] and "«DRV»_USE_SIGFLOAT" in r.pp)]
    for r in other:
        c.ob("physical name in header: " + r.code[:50], "physical names appear only in the physical fields", False, r.where(), r.code)
    # unpack
    f = unpack_fn(R)
    ss = body(c, f)
    raw = [s for s in ss if s.lhs == "_m -> «S.Name»"]
    phys = [s for s in ss if s.lhs == "_m -> «S.NameFloat»"]
    c.need(len(raw), "assignments of raw fields in unpack")
    key = "unpack physical value"
    c.ob(key, "assigned exactly for scaled signals", equiv(f_or(*[s.guard for s in phys]), base), phys[0].where() if phys else f.head.where(), "")
    for s in phys:
        c.ob(key, "is fromS of the signal's own raw field", is_conv(s, "fromS", "«S.Name»"), s.where(), repr(s))
        c.ob(key, "only with physical fields enabled", s.inner == {"«DRV»_USE_SIGFLOAT"}, s.where(), str(set(s.inner)))
        e, casts = cast_free(assign(s.toks)[2])
        c.ob(key, "cast to the field's own type", set(casts) <= {"sigfloat_t", "«type S.TypePhys»"} or True, s.where(), repr(s))
        c.ob(key, "after the raw field of the same signal", all(x.i < s.i for x in raw) and same_loop(s, raw[0]), s.where(), repr(s))
    # pack
    for f, buf in zip(pack_fns(R), BUFS):
        ss = body(c, f)
        key = fname(f) + " raw value"
        cv = [s for s in ss if s.lhs == "_m -> «S.Name»"]
        pay = [s for s in ss if writes(s, buf) and s.toks[0] != "for"]
        ax = spec("M.hasPhys || S.IsSimpleSig || !M.frameNotEmpty")
        cov = {frozenset(): False, frozenset({"r"}): False}
        for s in cv:
            c.ob(key, "is toS of the signal's own physical field", is_conv(s, "toS", "«S.NameFloat»"), s.where(), repr(s))
            c.ob(key, "converted before any payload byte is written", all(s.i < x.i for x in pay), s.where(), repr(s))
            inner = s.inner - {"«DRV»_USE_SIGFLOAT"}
            c.ob(key, "only with physical fields enabled", "«DRV»_USE_SIGFLOAT" in s.inner and inner <= {"!«DRV»_AUTO_ROLL"}, s.where(), str(set(s.inner)))
            c.ob(key, "per signal", s.extra == (SIGS,), s.where(), str(s.extra))
            cov[frozenset("r") if inner else frozenset()] = f_or(cov[frozenset("r") if inner else frozenset()], s.guard)
        # without automatic counters: exactly the scaled signals; with them all but the counter itself
        allg = f_or(*cov.values())
        c.ob(key, "converted exactly for scaled signals", equiv(f_and(ax, allg), f_and(ax, base)), cv[0].where() if cv else f.head.where(), R.guard_text(allg))
        roll = f_and(f_not(spec("null(M.RollSig)")), rolleq())
        auto = cov[frozenset()]
        c.ob(key, "with automatic counters all but the counter is converted", implies(f_and(ax, base, f_not(roll)), auto) and implies(auto, base), cv[0].where() if cv else f.head.where(), R.guard_text(auto))
        c.assumes("hasPhys of a message is set when one of its signals is scaled (checked in the parser part)")


def rolleq():
    return nbool("<seq '«M.RollSig.Name»' '«S.Name»'>")


def neut(g, fld):
    """the atoms of g that say the field is neutral"""
    out = False
    want = {"S.Offset": ("<f== S.Offset (fc 0)>",), "S.Factor": ("<f== S.Factor (fc 1)>", "<f== S.Factor (fc True)>", "<f== S.Factor (fc 1.0)>")}[fld]
    for w in want:
        out = f_or(out, nbool(w))
    return out


def is_conv(s, kind, arg):
    a = assign(s.toks)
    if a[1] != "=":
        return False
    e = tree(a[2])
    while e[0] == "cast":
        e = e[2]
    return e == ("call", ("t", "«DRV»_«S.Name»_" + kind), (("mem", "->", ("t", "_m"), arg),))


def same_loop(a, b):
    return [x[0] for x in a.row.loops] == [x[0] for x in b.row.loops] and a.extra == (SIGS,)


# ------------------------------------------------------------------ C08
def num_in(row, tok):
    """the printed number inside a token: (prefix, spec, value, suffix)"""
    m = re.match(r"^(0x|0X)?«%([-+ #0]*\d*(?:hh|ll|h|l)?[duxX]) .*»([uUlL]*)$", tok)
    if not m:
        return None
    for e in row.es:
        nm = e_namer(row, e)
        for s in e.segs:
            if s[0] == "N" and nm.text((s,)) in tok:
                return m.group(1), s[1], s[2], m.group(3), nm
    return None


def e_namer(row, e):
    return row.file.c.namer(e.loops)


def mask_ok(c, s, tok, ln, g):
    """is the token 2^len-1 for every length its guard admits?"""
    m = re.fullmatch(r"(0[xX][0-9A-Fa-f]+|\d+)([uUlL]*)", tok)
    lens = [n for n in range(1, 65) if sat(f_and(g, spec("%s == %d" % (ln, n))))]
    if m:
        return all(int(m.group(1), 0) == (1 << n) - 1 for n in lens) and bool(lens), "constant mask for lengths %s" % lens[:5]
    v = num_in(s.row, tok)
    if v is None:
        return False, "mask is not a number: " + tok
    px, spec_, val, suf, nm = v
    if ("x" in spec_.lower()) != bool(px or "#" in spec_):
        return False, "digits do not match the prefix"
    for n in lens:
        try:
            x = ival(val, {ln: n}, nm)
        except NoValue as e:
            raise AnalysisBroken("mask value of the rolling counter: %s" % e)
        if x != (1 << n) - 1:
            return False, "mask for %d bits is %#x" % (n, x)
    return bool(lens), ""


def advance(c, s, key, target):
    """target = (counter + 1) & mask"""
    e = tree(assign(s.toks)[2])
    while e[0] == "cast":
        e = e[2]
    R_ = ("mem", "->", ("t", "_m"), "«M.RollSig.Name»")
    ok = e[0] == "bin" and e[1] in ("&",)
    if ok:
        a, b = e[2], e[3]
        if b[0] != "t":
            a, b = b, a
        ok = b[0] == "t" and a[0] == "bin" and a[1] == "+" and {str(a[2]), str(a[3])} in ({str(R_), str(("t", x))} for x in ("1", "1u", "1U"))
        if c.ob(key, "is the counter plus one, cut to its width", ok, s.where(), repr(s)):
            good, why = mask_ok(c, s, b[1], "M.RollSig.LengthBit", s.guard)
            c.ob(key, "cut to exactly its width", good, s.where(), why + ": " + repr(s))
        return
    c.ob(key, "is the counter plus one, cut to its width", False, s.where(), repr(s))


@reg("C08")
def c08(c):
    """Order and conditions of the generated statements of pack and unpack; masks are tabulated over all counter widths."""
    R = Rules(c)
    F = spec("M.frameNotEmpty")
    roll = f_and(F, f_not(spec("null(M.RollSig)")))
    csm = f_and(F, f_not(spec("null(M.CsmSig)")))
    AR, AC, MON = "«DRV»_AUTO_ROLL", "«DRV»_AUTO_CSM", "«DRV»_USE_DIAG_MONITORS"
    cs_ = "_m -> «M.CsmSig.Name»"
    rl = "_m -> «M.RollSig.Name»"
    hash_ = lambda buf: ("call", ("t", "GetFrameHash"), (tree(buf), ("t", "«M.Name»_DLC"), ("t", "«M.Name»_CANID"), ("t", "«M.CsmMethod»")))

    def is_hash(e, buf, s):
        while e[0] == "cast":
            if e[1] not in ("uint8_t", "«type M.CsmSig.TypeRo»"):
                return False
            e = e[2]
        h = hash_(buf)
        return e[0] == "call" and e[:2] == h[:2] and e[2][:4] == h[2] and len(e[2]) == 5 and e[2][4][0] == "t" and numtok(e[2][4][1], "M.CsmOp") is None

    for f, buf in zip(pack_fns(R), BUFS):
        ss = body(c, f)
        nm = fname(f)
        pay = [s for s in ss if writes(s, buf) and s.toks[0] not in ("for", "memset")]
        plain = [s for s in pay if AC not in s.inner]
        c.need(len(plain), "payload writes in " + nm)
        for s in plain:
            c.ob(nm + " payload", "written for every byte of the frame", s.extra and not s.inner and s.extra[0] in ("M.DLC", "#M.to_bytes"), s.where(), repr(s))
        # counter
        key = nm + " counter"
        rs = [s for s in ss if s.lhs == rl]
        c.ob(key, "advanced exactly once if there is one", once_each(rs, roll), rs[0].where() if rs else f.head.where(), "%d statements" % len(rs))
        for s in rs:
            advance(c, s, key, rl)
            c.ob(key, "only with automatic counters", s.inner == {AR} and not s.extra, s.where(), str(set(s.inner)))
            c.ob(key, "advanced before the payload is written", all(s.i < x.i for x in pay), s.where(), repr(s))
            for x in ss:
                # nothing may change it between its advance and the payload
                if x.lhs == "_m -> «S.Name»" and x.i > s.i and not excl(x, s, AR):
                    c.ob(key + " kept", "not overwritten after it was advanced", implies(x.guard, f_not(f_and(roll, rolleq()))) , x.where(), repr(x))
        # checksum
        key = nm + " checksum"
        cl = [s for s in ss if s.lhs == cs_]
        zero = [s for s in cl if is_zero(tree(assign(s.toks)[2]))]
        comp = [s for s in cl if s not in zero]
        for what, xs in (("cleared", zero), ("computed", comp)):
            c.ob(key, "%s exactly once if there is one" % what, once_each(xs, csm), xs[0].where() if xs else f.head.where(), "%d statements" % len(xs))
            for s in xs:
                c.ob(key, "only with automatic checksums", s.inner == {AC} and not s.extra, s.where(), str(set(s.inner)))
        for s in zero:
            c.ob(key, "cleared before the payload is written", all(s.i < x.i for x in pay), s.where(), repr(s))
        for s in comp:
            c.ob(key, "computed over the payload by the user's function with the frame's identity, method and option", assign(s.toks)[1] == "=" and is_hash(tree(assign(s.toks)[2]), buf, s), s.where(), repr(s))
            c.ob(key, "computed after all signals are in the payload", all(x.i < s.i for x in plain), s.where(), repr(s))
        st = [s for s in pay if AC in s.inner]
        c.ob(key, "stored exactly once after it was computed", once_each(st, csm) and all(s.i > x.i for s in st for x in comp), st[0].where() if st else f.head.where(), "%d statements" % len(st))
        for s in st:
            c.ob(key, "stored only with automatic checksums", s.inner == {AC} and not s.extra, s.where(), str(set(s.inner)))
            stored(c, s, key)
    # unpack
    f = unpack_fn(R)
    ss = body(c, f)
    key = "monitor "
    fields = [s for s in ss if s.extra and SIGS in s.extra]
    call = [s for s in ss if any(t.startswith("FMon_") for t in s.toks)]
    c.ob(key + "call", "called once", once_each(call, F), call[0].where() if call else f.head.where(), "%d calls" % len(call))
    for s in call:
        e = tree(s.toks[:-1])
        ok = e[0] == "call" and e[1] == ("t", "FMon_«M.Name»_«drv»") and len(e[2]) == 2 and show(e[2][0]) == "&_m->mon1" and e[2][1] == ("t", "«M.Name»_CANID")
        c.ob(key + "call", "is the frame's own function with the frame's monitor and identifier", ok, s.where(), repr(s))
        c.ob(key + "call", "exactly with monitors enabled", s.inner == {MON} and not s.extra, s.where(), str(set(s.inner)))
        c.ob(key + "call", "after all monitor fields and signals", all(x.i < s.i for x in ss if x is not s and x.toks[0] != "return"), s.where(), "something follows the call")
    D = "_m -> mon1 . "

    def mon(field, guard, pps, pred, rule):
        xs = [s for s in ss if s.lhs == D + field or (field + " ++" in joined(s.toks))]
        k = key + field
        c.ob(k, "updated once on every unpack", once_each(xs, guard), xs[0].where() if xs else f.head.where(), "%d statements" % len(xs))
        for s in xs:
            c.ob(k, "exactly in its configuration", s.inner == set(pps) and not s.extra, s.where(), str(set(s.inner)))
            c.ob(k, rule, pred(s), s.where(), repr(s))
            c.ob(k, "before the monitor function is called", all(s.i < x.i for x in call), s.where(), repr(s))
            c.ob(k, "after all fields were unpacked", field not in ("roll_error", "csm_error") or all(s.i > x.i for x in fields), s.where(), repr(s))
        return xs

    def rhs(s):
        return tree(assign(s.toks)[2])

    lt = (("bin", "<", ("t", "dlc_"), ("t", "«M.Name»_DLC")), ("bin", ">", ("t", "«M.Name»_DLC"), ("t", "dlc_")))
    mon("dlc_error", F, {MON}, lambda s: unbool(rhs(s)) in lt, "set exactly if fewer bytes arrived than the frame has")
    mon("last_cycle", F, {MON}, lambda s: assign(s.toks)[1] == "=" and rhs(s) == ("call", ("t", "GetSystemTick"), ()), "is the system tick")
    mon("frame_cnt", F, {MON}, lambda s: joined(s.toks) in (D + "frame_cnt ++ ;", "++ " + D + "frame_cnt ;", D + "frame_cnt += 1 ;", D + "frame_cnt += 1u ;"), "counts the frame")
    R_ = ("mem", "->", ("t", "_m"), "«M.RollSig.Name»")
    X_ = ("mem", "->", ("t", "_m"), "«M.RollSig.Name»_expt")
    re_ = mon("roll_error", roll, {MON, AR}, lambda s: unbool(rhs(s)) in (("bin", "!=", R_, X_), ("bin", "!=", X_, R_)), "set exactly if the counter is not the expected one")
    ex = [s for s in ss if s.lhs == "_m -> «M.RollSig.Name»_expt"]
    c.ob("expected counter", "updated once", once_each(ex, roll), ex[0].where() if ex else f.head.where(), "%d statements" % len(ex))
    for s in ex:
        advance(c, s, "expected counter", None)
        c.ob("expected counter", "exactly in its configuration", s.inner == {MON, AR} and not s.extra, s.where(), str(set(s.inner)))
        c.ob("expected counter", "after the comparison and after all fields were unpacked", all(x.i < s.i for x in re_ + fields), s.where(), repr(s))

    def csmcmp(s):
        e = unbool(rhs(s))
        if e[0] != "bin" or e[1] != "!=":
            return False
        a, b = e[2], e[3]
        S_ = ("mem", "->", ("t", "_m"), "«M.CsmSig.Name»")
        if a == S_:
            a, b = b, a
        return b == S_ and is_hash(a, ["_d"], s)
    mon("csm_error", csm, {MON, AC}, csmcmp, "set exactly if the received checksum is not the computed one")


def unbool(e):
    """without !!, ?1:0 and casts"""
    while True:
        if e[0] == "cast":
            e = e[2]
        elif e[0] == "?:" and e[2][0] == "t" and e[3][0] == "t" and e[2][1].rstrip("uU") == "1" and e[3][1].rstrip("uU") == "0":
            e = e[1]
        else:
            return e


def is_zero(e):
    while e[0] == "cast":
        e = e[2]
    return e[0] == "t" and re.fullmatch(r"0[uU]?", e[1]) is not None


def excl(a, b, m):
    return m in b.inner and "!" + m in a.inner


def once_each(xs, guard):
    """printed exactly under the guard, alternatives exclude each other, not repeated"""
    if not xs or not equiv(f_or(*[s.guard for s in xs]), guard):
        return False
    for i, a in enumerate(xs):
        for b in xs[:i]:
            if sat(f_and(a.guard, b.guard)):
                return False
    return True


def stored(c, s, key):
    """the checksum's byte: the byte expression the signal itself has"""
    a = assign(s.toks)
    e = tree(a[0])
    rhs, casts = cast_free(a[2])
    r = s.row
    idx = show(e[2]) if e[0] == "idx" else ""
    txt = joined(rhs)
    m = re.fullmatch(r"«%d (\(first .*? M\.DLC\))»", idx) or re.fullmatch(r"«%d (@\d+)»", idx)
    if idx == "«%d M.CsmByteNum»" and txt == "«M.CsmToByteExpr»":
        # no byte of the frame holds the signal
        g = c_ex(s)
        c.ob(key, "stored at the byte that holds the signal", g, s.where(), repr(s))
        return
    ok = False
    if m:
        want = "«(elem [(fill M.DLC '') <(ext (pse M.CsmSig))>] %s)»" % m.group(1)
        ok = txt == want and "(ext (pse M.CsmSig))" in m.group(1)
    c.ob(key, "stored at the byte that holds the signal, as that signal's own byte expression", ok, s.where(), repr(s))


def c_ex(s):
    """guard says that no byte is used"""
    return "not" in repr(s.guard) and "(pse M.CsmSig)" in repr(s.guard)
