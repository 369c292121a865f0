"""C11: text from the DBC stays data."""
import re
from . import model, interp, lib, genrun
from . import lin as L
from . import values as VV
from .lin import Facts, Sym, Lin, f_not, f_and, f_or, ge0, eq0
from .values import *
from .model import AnalysisBroken, walk, rel
from .c_det import reg, CHECKS as _C, nodes_of, assume, dead
from .c_gen import seg_kind, is_node
from .cgen import implies, sat
from .view import named
from .c_eff import arg_run, DBC

CHECKS = {}
FREE = ("CommentText", "ValueText", "Unit")
PRINTF = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2, "dprintf": 1, "syslog": 1}


# ---- formats
def literal(a):
    if not isinstance(a, dict):
        return False
    k = a.get("k")
    if k == "Str":
        return True
    if k == "Cond":
        return literal(a.get("a") or a.get("t")) and literal(a.get("b") or a.get("f"))
    if k in ("Cast", "Paren", "Implicit"):
        return literal(a.get("e"))
    return False


def formats(c, P, runs):
    """every format is a literal, or a parameter that only gets literals, or known to be fixed text in the interpretation"""
    done = set()
    for I in runs:
        done |= set(I.stats["fns"])
    bad = {}
    for I in runs:
        for e in I.events:
            if e.kind == "obl:format" and not dead(e):
                bad.setdefault(e.where(), e.data[1])
    for w, t in bad.items():
        c.ob("format", "formats of formatted output are fixed texts that match their arguments", False, w, t)
    n = 0
    for f in P.fns.values():
        if not f.get("body"):
            continue
        va = f["params"][-1]["id"] if f.get("variadic") and f["params"] else None

        def v(x, f=f, va=va):
            nonlocal n
            if x["k"] not in ("Call", "MCall") or not x.get("args"):
                return
            nm = (x.get("callee") or "").split("::")[-1]
            i = None
            if x.get("variadic") and x.get("user"):
                g = P.fns.get(x.get("key"))
                i = len(g["params"]) - 1 if g else 0
            elif nm in PRINTF and not x.get("user"):
                i = PRINTF[nm]
            if i is None or i >= len(x["args"]):
                return
            n += 1
            a = x["args"][i]
            while isinstance(a, dict) and a.get("k") in ("Cast", "Paren"):
                a = a["e"]
            if literal(a) or fixed(P, f, a):
                return
            if a.get("k") == "Ref" and a.get("kind") in ("local", "param") and forwards(P, f, a):
                return
            where = "%s:%s (%s)" % (rel(f["file"]), x.get("l", f["line"]), f["name"])
            c.ob("format in " + f["name"], "a format is fixed text", f["key"] in done, where,
                 "%s with a format that is not a literal, in code the interpretation does not reach" % nm)
            c.count("formats decided by interpretation")
        walk(f["body"], v)
    c.count("formats", n)
    c.need(n, "formats", 100)
    c.ob("format", "formats of formatted output are fixed texts that match their arguments", not bad)


def fixed(P, f, a):
    """a local variable or table that only ever holds literals"""
    if a.get("k") == "Index":
        a = a.get("base") or a.get("b") or {}
        while a.get("k") in ("Cast", "Paren"):
            a = a["e"]
    if a.get("k") != "Ref":
        return False
    if a.get("kind") == "global":
        g = P.globals.get(a.get("name"))
        return bool(g) and all_literal(g.get("init"))
    vals = []

    def v(x):
        if x["k"] == "Decl":
            for d in x.get("vars", [x]):
                if d.get("id") == a.get("id"):
                    vals.append(d.get("init"))
        if x["k"] == "Assign" or x["k"] == "Bin" and x.get("op") == "=":
            t = x.get("lhs") or x.get("a") or {}
            if t.get("k") == "Ref" and t.get("id") == a.get("id"):
                vals.append(x.get("rhs") or x.get("b"))
        if x["k"] == "Un" and x.get("op") == "&" and (x.get("e") or {}).get("id") == a.get("id"):
            vals.append(None)
    walk(f["body"], v)
    return bool(vals) and all(all_literal(x) for x in vals)


def all_literal(x):
    if isinstance(x, dict) and x.get("k") == "InitList":
        return all(all_literal(y) for y in x.get("items") or x.get("args") or [None])
    while isinstance(x, dict) and x.get("k") in ("Cast", "Paren"):
        x = x["e"]
    return literal(x)


def forwards(P, f, a):
    """the format is this function's own format parameter"""
    ps = f["params"]
    return any(p["id"] == a.get("id") for p in ps) and (f.get("variadic") or any("va_list" in str(p["ty"]) for p in ps))


# ---- per character view of a text
def chars_of(text, only=None, empty=None):
    """characters the text may consist of, by evaluating its repeated parts for every character; None: unknown.
    only: restricts the characters of the source; empty: whether text was produced before"""
    out = set()
    for g in text.segs:
        t = g[0]
        if t == "L":
            out |= set(g[1])
        elif t == "H":
            m = HOLE_META.get(g[1])
            k = g[1]
            if isinstance(k, tuple) and k and k[0] in ("cname",):
                out |= IDENT
            elif m and m.get("cs") is not None:
                out |= m["cs"]
            else:
                return None
        elif t == "I":
            for b in (g[2], g[3]):
                x = chars_of(b, only, empty)
                if x is None:
                    return None
                out |= x
        elif t == "R":
            for ch in range(-128, 128) if only is None else only:
                x = per_char(g[4], ch, empty)
                if x is None:
                    return None
                for y in x:
                    out |= set(y)
        else:
            return None
    return out


def per_char(body, ch, empty=None):
    """texts a body can produce for one character of the source"""
    f = Facts()
    srcs = {}
    for y in nodes_of(body):
        if isinstance(y, tuple) and y and y[0] == "chr" and len(y) >= 3:
            srcs[y] = True
    for y in srcs:
        f.assume(eq0(Lin.of(L.sym(y, -128, 255)) - (ch if ch >= 0 else ch)))
    if f.contradiction:
        return []
    if empty is not None:
        for y in nodes_of(body):
            if isinstance(y, tuple) and y and y[0] == "len" and len(y) == 2 and isinstance(y[1], tuple) and y[1] and y[1][0] in ("cy", "v", "fin"):
                n = Lin.of(L.sym(y, 0))
                f.assume(eq0(n) if empty else ge0(n - 1))

    def go(segs, f):
        outs = [""]
        for g in segs:
            if g[0] == "L":
                outs = [o + g[1] for o in outs]
            elif g[0] == "C":
                v = f.resolve(g[1]) if hasattr(f, "resolve") else None
                k = const_of(g[1], f)
                if k is None:
                    return None
                outs = [o + chr(k & 255) for o in outs]
            elif g[0] == "I":
                cnd = f.simp(g[1])
                r = []
                for val, b in ((True, g[2]), (False, g[3])):
                    if cnd is (not val):
                        continue
                    f2 = f.copy()
                    if cnd is not val:
                        f2.assume(g[1] if val else f_not(g[1]))
                        if f2.contradiction:
                            continue
                    x = go(b.segs, f2)
                    if x is None:
                        return None
                    r += [o + y for o in outs for y in x]
                outs = list(dict.fromkeys(r))
            else:
                return None
        return outs
    return go(body.segs, f)


def const_of(v, f):
    from .c_tree import resolve
    r = resolve(v, f)
    if isinstance(r, Lin) and r.is_const():
        return r.c
    if isinstance(r, Lin) and len(r.t) == 1:
        for k in range(-128, 256):
            if f.simp(eq0(r - k)) is True:
                return k
    return None


# ---- comments
def reopen(k):
    """(text key, replacement) of a text whose line ends are followed by something"""
    if isinstance(k, tuple) and len(k) == 4 and k[0] == "map":
        return k[1], k[2], k[3]
    return None


def fieldname(k):
    k = k[1] if isinstance(k, tuple) and k and k[0] == "map" else k
    if isinstance(k, Str):
        k = k.segs[0][1] if len(k.segs) == 1 and k.segs[0][0] == "H" else None
    return k[2] if isinstance(k, tuple) and len(k) == 3 and k[0] == "fld" else None


def base_of(k):
    k = k[1] if isinstance(k, tuple) and k and k[0] == "map" else k
    return k


def comment_seg(e, s, fv):
    """None if this value can not leave its comment, else why"""
    if s[0] in ("L", "N", "F", "T"):
        return None
    if s[0] == "I":
        for b in (s[2], s[3]):
            for x in b.segs:
                r = comment_seg(e, x, fv)
                if r:
                    return r
        return None
    if s[0] == "C":
        return None if s[1].is_const() and chr(s[1].c & 255) not in "\r\n" else "a character that may be a line end"
    if s[0] == "R":
        if e.block:
            return "repeated text in a block comment"
        for ch in range(-128, 128):
            x = per_char(s[4], ch)
            if x is None:
                cs = chars_of(s[4])
                return None if cs is not None and not cs & set("\r\n\\") else "repeated text that may have line ends"
            for y in x:
                if re.search(r"\n(?![ \t]*//)", y):
                    return "a line end of the text is not followed by a comment mark"
        return None
    if s[0] != "H":
        return "unknown part %s" % s[0]
    if seg_kind(e, s, fv)[0]:
        return None
    k = s[1]
    if isinstance(k, tuple) and k and (k[0] in ("time", "strftime", "put_time", "localtime", "date") or time_text(k)):
        return None
    if e.block:
        return "text in a block comment, which it may close"
    m = reopen(k)
    if m:
        if fieldname(k) not in FREE:
            return "text of unknown origin: %s" % vshow(k)[:80]
        if m[1] != "\n":
            return "its line ends are not replaced (but %r)" % (m[1],)
        if not re.fullmatch(r"(\n[ \t]*//[^\n\\]*)+", m[2] if isinstance(m[2], str) else ""):
            return "a line end becomes %r, which ends the comment" % (m[2],)
        return None
    n = fieldname(k)
    if n == "Unit":
        return None
    if n in FREE:
        return "%s may have several lines; only the first one is inside the comment" % n
    if any(y == DBC for y in nodes_of(k)):
        return None
    return "text of unknown origin: %s" % vshow(k)[:80]


def time_text(k):
    return any(isinstance(y, tuple) and y and y[0] in ("time", "localtime", "strftime") for y in nodes_of(k))


def last_ok(segs):
    """the line can not end in a backslash"""
    if not segs:
        return True
    s = segs[-1]
    if s[0] == "L":
        return not s[1].endswith("\\")
    if s[0] == "I":
        return all(last_ok(b.segs) if b.segs else last_ok(segs[:-1]) for b in (s[2], s[3]))
    if s[0] == "H":
        n = fieldname(s[1])
        if n == "Unit":
            return False
        return True
    return True


def comments(c, fv):
    name = re.sub(r"«@\d+»", "«node»", fv.name)
    for e in fv.c.entries:
        for s in e.segs:
            if s[0] == "L":
                continue
            c.count("values in code")
            k = seg_kind(e, s, fv)
            c.ob("%s value %s" % (name, k[1]), "only names, numbers and types of the DBC are printed as code", k[0], fv.loc(e), "free text in code")
        for s in e.csegs:
            if s[0] == "L":
                if not e.block and "\\\n" in s[1]:
                    c.ob("%s comment" % name, "a comment does not swallow the next line", False, fv.loc(e), s[1][:80])
                continue
            c.count("values in comments")
            r = comment_seg(e, s, fv)
            c.ob("%s comment %s" % (name, label(fv, e, s)), "text in comments can not leave them", r is None, fv.loc(e), r or "")
        if e.csegs and not e.block:
            c.ob("%s end of comment lines" % name, "a comment line does not end in a text that may end in a backslash", last_ok(e.csegs), fv.loc(e), label(fv, e, e.csegs[-1]))


def label(fv, e, s):
    return re.sub(r"@\d+", "@", fv.c.namer(e.loops).text((s,)))[:80]


def inner(segs):
    for s in segs:
        yield s
        if s[0] == "I":
            for b in (s[2], s[3]):
                yield from inner(b.segs)
        if s[0] == "R":
            yield from inner(s[4].segs)


def nonempty(k, nm):
    return named(ge0(VV.str_len(hole(k)) - 1), nm)


def presence(c, h):
    """comment, value and unit texts are there, whole"""
    def texts(field, loops):
        """(entry, named guard, key) of comment lines that print the field whole"""
        out = []
        for e in h.c.entries:
            for s in e.csegs:
                if s[0] == "H" and fieldname(s[1]) == field and reopen(s[1]):
                    out.append((e, named(e.guard, h.c.namer(e.loops)), key_of(s[1])))
        return out

    def check(what, field, rows, ctx):
        if not rows:
            raise AnalysisBroken("no lines for " + ctx)
        r = rows[0]
        g = False
        for x in rows:
            g = f_or(g, x.guard)
        nm = h.c.namer(r.loops)
        cov = False
        where = r.where()
        found = None
        for e, ge, k in texts(field, r.loops):
            if [l[0] for l in e.loops] != [l[0] for l in r.loops] or nm(k) != what or not (e.i < r.es[0].i):
                continue
            if e.pp != r.pp:
                continue
            found = k
            where = h.loc(e)
            cov = f_or(cov, ge)
        good = found is not None and implies(f_and(g, nonempty(found, nm)), cov)
        c.ob("%s of %s" % (what, ctx), "the text is printed as it is in a comment at its message or signal, whenever it is not empty", good, where,
             "no comment line with it" if found is None else "not printed in every case")

    def key_of(k):
        k = k[1]
        return k.segs[0][1] if isinstance(k, Str) else k
    st = [r for r in h.find("typedef struct") if [l for l in r.loops]]
    st = [r for r in st if any("M" == x for x in ("M",)) and r.i + 1 < len(h.rows)]
    check("M.CommentText", "CommentText", st[:1] if len(st) == 1 else [], "each message struct")
    mem = {}
    for r in h.rows:
        if len(r.loops) == 2 and "«S.Name»" in r.toks and r.toks[-1] == ";" and r.toks[0].startswith("«type S."):
            mem.setdefault(r.loops[1][0], []).append(r)
    c.need(len(mem), "variants of the struct members", 1)
    for n, rows in enumerate(mem.values()):
        ctx = "each member" + (" (%s)" % ", ".join(rows[0].pp) if rows[0].pp else "")
        check("S.CommentText", "CommentText", rows, ctx)
        check("S.ValueText", "ValueText", rows, ctx)
        for r in rows:
            for e in r.es:
                nm = h.c.namer(e.loops)
                ok, why = unit_there(e, nm)
                c.ob("S.Unit of " + ctx, "the unit is printed as it is in the comment of the member", ok, h.loc(e), why)


def unit_there(e, nm):
    ks = [s[1] for s in inner(e.csegs) if s[0] == "H" and fieldname(s[1]) == "Unit"]
    if not ks:
        return False, "no unit in the comment"
    k = ks[0]
    f = Facts()
    f.assume(e.guard)
    f.assume(ge0(VV.str_len(hole(k)) - 1))

    def has(segs):
        for s in segs:
            if s[0] == "H" and s[1] == k:
                return True
            if s[0] == "I":
                v = f.simp(s[1])
                if v is True and has(s[2].segs) or v is False and has(s[3].segs) or (v is not True and v is not False and has(s[2].segs) and has(s[3].segs)):
                    return True
        return False
    if nm(k) != "S.Unit":
        return False, "the unit of %s" % nm(k)
    return has(e.csegs), "not printed in every case"


def value_macros(c, h):
    rs = [r for r in h.rows if r.toks[:2] == ["#", "define"] and len(r.loops) == 3 and "V.first" in r.code]
    c.ob("value macros", "one macro for each described value", len(rs) >= 1, rs[0].where() if rs else h.where(), "none found")
    g = False
    for r in rs:
        nm = r.toks[2]
        c.ob("value macros", "the name is made of the names of signal, message and value", nm == "«S.Name»_«M.Name»_«V.first»", r.where(), nm)
        v = [t for t in r.toks[3:] if t not in "()"]
        c.ob("value macros", "its value is the described value", len(v) == 1 and re.fullmatch(r"«%l*[diu] V\.second(:i32)?»", v[0]) is not None, r.where(), " ".join(r.toks[3:]))
        c.ob("value macros", "for every described value", only_len(r, h), r.where(), "loop over %s" % (r.loops[2],))
        g = f_or(g, r.guard)
    if rs:
        st = h.find("typedef struct")[0]
        n = [x for x in nodes_of(rs[0].es[0].guard) if isinstance(x, tuple) and x and x[0] == "size"]
        nmr = h.c.namer(rs[0].loops)
        tgt = f_and(st.guard, named(ge0(rs[0].loops[2][2] - 1), nmr) if isinstance(rs[0].loops[2][2], Lin) else True)
        c.ob("value macros", "printed for every message with a struct", implies(tgt, g), rs[0].where(), "not printed in every case")


def only_len(r, h):
    n = r.loops[2][2]
    if not isinstance(n, Lin) or len(n.t) != 1 or n.c or n.t[0][1] != 1:
        return False
    k = Sym.byid[n.t[0][0]].key
    return isinstance(k, tuple) and k[0] in ("size", "len") and "vpairs" in repr(k)


# ---- identifiers
def cnames(c, P):
    fns = [f for f in P.fns.values() if f["name"].split("::")[-1] == "make_c_name"]
    if len(fns) != 1:
        raise AnalysisBroken("make_c_name: %d definitions" % len(fns))
    fn = fns[0]
    I = genrun.start(P)
    st = interp.St()
    k = ("in", "rawname")
    r = I.run(fn, st, None, [hole(k)])
    where = "%s:%s (%s)" % (rel(fn["file"]), fn["line"], fn["name"])
    if not isinstance(r, Str):
        raise AnalysisBroken("make_c_name gives %s" % vshow(r)[:100])
    if not any(s[0] == "R" for s in inner(r.segs)):
        raise AnalysisBroken("make_c_name is not read as a text built character by character: %s" % vshow(r)[:200])
    bodies = [s[4] for s in inner(r.segs) if s[0] == "R"]
    bad, first, lost = [], [], []
    for ch in range(-128, 128):
        for b in bodies:
            x = per_char(b, ch)
            if x is None:
                raise AnalysisBroken("make_c_name: the text made of a character is not known")
            for y in x:
                if set(y) - IDENT:
                    bad.append((ch, y))
            for y in per_char(b, ch, True):
                if y and y[0] in "0123456789":
                    first.append((ch, y))
            if chr(ch & 255) in IDENT and set(per_char(b, ch, False)) != {chr(ch)}:
                lost.append((ch, per_char(b, ch, False)))
            c.count("characters evaluated")
    c.ob("make_c_name characters", "only letters, digits and underscores come out, for every byte", not bad, where, "character %d gives %r" % bad[0] if bad else "")
    c.ob("make_c_name first", "the first character is no digit", not first, where, "character %d gives %r at the start" % first[0] if first else "")
    c.ob("make_c_name kept", "identifier characters are kept", not lost, where, "character %d gives %r" % lost[0] if lost else "")


def driver_name(c, P):
    for kinds, names in ((("P", "K", "P"), None),):
        I, st, r, fn = arg_run(P, kinds)
        v = I.getfield(r, "drvname")
        vals = [v]
        v = I.getfield(v, "first") if isinstance(v, Obj) else v
        where = "%s:%s (%s)" % (rel(fn["file"]), fn["line"], fn["name"])

        def leaves(x):
            if isinstance(x, Phi):
                yield from leaves(x.a)
                yield from leaves(x.b)
            elif isinstance(x, Str):
                for s in inner(x.segs):
                    if s[0] not in ("I",):
                        yield s
            else:
                yield ("?", x)
        n = 0
        for s in leaves(v):
            n += 1
            good = s[0] == "L" and not s[1].strip("".join(IDENT)) or s[0] == "H" and isinstance(s[1], tuple) and s[1] and s[1][0] == "cname"
            if s[0] == "R":
                cs = chars_of(Str((s,)))
                good = cs is not None and cs <= IDENT
            c.ob("driver name", "the driver name is turned into identifier characters before it is used", good, where, "name can be %s" % (vshow(s[1])[:80] if len(s) > 1 else s))
        c.need(n, "values of the driver name", 1)


# ---- reading
def reading(c, P):
    from . import c_parse as p
    from .c_parse import M, S, H, N, T, Raw, Judge
    p.S.P = P
    J = Judge(c, P)
    LOW = p.LOWER
    BS = frozenset("\\")
    ANY = frozenset(chr(x) for x in range(32, 127)) - frozenset('"_')
    rule = "a text is kept as it is, without backslashes at the end of its lines"

    def ms(com=None, sig=None, val=None, vp=None, unit=None):
        m, s = M(1), S(2)
        x = m.expect()
        y = s.expect()
        if com is not None:
            x["CommentText"] = com
        if sig is not None:
            y["CommentText"] = sig
        if val is not None:
            y["ValueText"] = val
        x = {"CommentText": x["CommentText"], "Signals": [{k: y[k] for k in ("CommentText", "ValueText", "Unit")}]}
        if vp is not None:
            x["Signals"][0]["vpairs"] = vp
        return [x]
    base = lambda: [M(1), S(2)]
    t = lambda n: H(n, LOW)
    b = lambda n: H(n, BS)
    idn = lambda: N("id1", *p.STD)
    hard = "100% %s%n \\t /* // */ ' ; #if "
    J.check("comment text", rule, base() + [Raw("CM_ BO_ ", idn, ' "' + hard, lambda: t("t1"), '";')], lambda s: ms(com=T(hard, t("t1"))))
    J.check("comment end", rule, base() + [Raw("CM_ BO_ ", idn, ' "', lambda: t("t1"), lambda: b("b1"), '";')], lambda s: ms(com=t("t1")))
    J.check("comment inner line end", rule, base() + [Raw("CM_ BO_ ", idn, ' "', lambda: t("t1"), lambda: b("b1")), Raw(lambda: t("t2"), "\\x", lambda: b("b2"), '";')],
            lambda s: ms(com=T(t("t1"), "\n", t("t2"), "\\x")))
    J.check("signal comment line ends", rule, base() + [Raw("CM_ SG_ ", idn, " ", lambda: H("sig2"), ' "', lambda: t("t1"), "\\"), Raw(lambda: t("t2"), "\\\\"), Raw(lambda: t("t3"), '\\\\\\";')],
            lambda s: ms(sig=T(t("t1"), "\n", t("t2"), "\n", t("t3"))))
    J.check("comment only backslashes", rule, base() + [Raw("CM_ BO_ ", idn, ' "', lambda: b("b1"), '";')], lambda s: ms(com=EMPTY))
    ident = lambda v: (lambda q: q is not None and q <= IDENT)(chars_of(v)) if isinstance(v, Str) else False
    J.check("value descriptions", rule + "; names of values are identifier characters",
            base() + [Raw("VAL_ ", idn, " ", lambda: H("sig2"), " 0 \"", lambda: t("t1"), lambda: b("b1"), "\" 1 \"%s a-b\\c*/", lambda: t("t2"), "\\\" ;")],
            lambda s: ms(val=lambda v: valtext(v, t), vp=[(ident, Lin(0)), (ident, Lin(1))]))
    J.check("value description without quotes", rule, base() + [Raw("VAL_ ", idn, " ", lambda: H("sig2"), ' 0 "a" 1 b', lambda: b("b1"), " ;")],
            lambda s: ms(val=lambda v: isinstance(v, Str) and v.lit is not None and re.fullmatch(r'\s*0 *: *"?a"? *\n *1 *: *b\s*', v.lit) is not None))
    J.check("names of values", "names of values are made of identifier characters", [M(1), S(2, name=H("sig2", LOW))] + [Raw("VAL_ ", idn, " ", lambda: H("sig2", LOW), ' 0 "', lambda: H("any", ANY, 1), '" 1 "x y.z" ;')],
            lambda s: ms(val=lambda v: True, vp=[(ident, Lin(0)), (lambda v: ident(v) and v.lit in (None, "x_yz"), Lin(1))]))
    METH = frozenset(chr(x) for x in range(33, 127)) - frozenset('"_:<>;')
    J.check("checksum method", "the checksum method is made of identifier characters", [M(1), S(2, sb=(8, 8), ln=(8, 8), name=H("sig2", LOW))]
            + [Raw("CM_ SG_ ", idn, " ", lambda: H("sig2", LOW), ' "<Checksum:', lambda: H("meth", METH), ':3>";')],
            lambda s: [{"CsmMethod": ident}])
    J.check("unit", "the unit is kept as it is, on one line", [M(1), Raw(" SG_ ", lambda: H("sig2"), " : 0|8@1+ (1,0) [0|0] \"%d /*", lambda: H("u", ANY, 0), "//\\\" R")],
            lambda s: [{"Signals": [{"Unit": T("%d /*", H("u", ANY, 0), "//\\")}]}])
    J.done()


def valtext(v, t):
    """value and description on a line each, whole"""
    if not isinstance(v, Str):
        return False
    flat = [g for g in inner(v.segs) if g[0] != "I"]
    s = ""
    for g in v.segs:
        if g[0] == "L":
            s += g[1]
        elif g[0] == "H":
            s += "«%s»" % (g[1],)if g[1][0] != "dbc" else "«%s»" % g[1][1]
        elif g[0] == "N":
            s += "#"
        else:
            return False
    return re.fullmatch(r'\s*(0|#) *: *("«t1»(«b1»)?"|«t1») *\n\s*(1|#) *: *("%s a-b\\c\*/«t2»\\?"|%s a-b\\c\*/«t2»)\s*', s) is not None


@reg("C11")
def c11(c):
    """Every value that gets into a file is followed back to the DBC: into code only names, numbers and types; free texts only into
    line comments whose further lines are opened as comments again; formats are fixed texts. The reading side is interpreted on
    abstract files whose texts contain every kind of special character; make_c_name is evaluated for every byte."""
    P = model.load()
    V = c.views
    runs = [c.g.I]
    for fv in V.files:
        comments(c, fv)
    h = V.file("«drv».h")
    presence(c, h)
    value_macros(c, h)
    c.need(c.counts.get("values in code", 0) if hasattr(c, "counts") else 1, "values in code", 1)
    formats(c, P, runs)
    cnames(c, P)
    driver_name(c, P)
    reading(c, P)
    c.assumes("message, signal and node names are identifiers, as the DBC format demands")
    c.assumes("the name of the DBC file has no line ends", "lines of the DBC file have no carriage returns but at their end")
    c.assumes("trigraphs are off, as by default in compilers: ??/ at the end of a comment line is no backslash")


CHECKS["C11"] = _C.pop("C11")
