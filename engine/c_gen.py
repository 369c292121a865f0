"""Checks over the templates of the generated files."""
import re
from .rules import *
from .values import is_ident, IDENT, HOLE_META, hole
from .lin import Lin
from . import values as VV
from .view import spec
from .model import AnalysisBroken

CHECKS = {}

TRUSTED = ["clang 18 front end (syntax trees, types, constant values)", "engine/interp.py, engine/lib.py: abstract semantics of C++ and of the library functions used",
           "engine/flat.py, engine/cgen.py: splitting of text templates into guarded lines"]
EXPL = ("The whole generation run is interpreted abstractly from the current source: the message list and the options are symbols, "
        "every written file comes out as a template whose lines carry the exact condition and loops under which they are printed. "
        "The rules below are decided on these templates for all message lists and options at once.")


def check(prop, level="other"):
    def deco(f):
        def run(c):
            f(c)
            return c.finish(level, EXPL + " " + (f.__doc__ or ""), TRUSTED)
        CHECKS[prop] = run
        return f
    return deco


H, C = "«drv».h", "«drv».c"
CS = "«DRV»_USE_CANSTRUCT"
NAME = "«M.Name»"


def pack_fns(R):
    f = R.v.file(C)
    a = R.fn(f, "uint32_t Pack_«M.Name»_«Drv»(«M.Name»_t* _m, $*", (CS,))
    b = R.fn(f, "uint32_t Pack_«M.Name»_«Drv»(«M.Name»_t* _m, $*", ("!" + CS,))
    return a, b


def unpack_fn(R):
    return R.fn(R.v.file(C), "uint32_t Unpack_«M.Name»_«Drv»(«M.Name»_t* _m, $*")


def joined(toks):
    return " ".join(toks)


@check("C04")
def c04(c):
    """Identity macros and the identity reported by pack and unpack functions."""
    R = Rules(c)
    h = R.v.file(H)
    for what, field in (("IDE", "IsExt"), ("DLC", "DLC"), ("CANID", "MsgID"), ("CYC", "Cycle")):
        rs = R.lines(h, "macro " + what, "one macro per message with the DBC's value", "#define «M.Name»_%s $*" % what,
                     guard="M.Cycle>0" if what == "CYC" else True, pp=(), loops=(MSGS,))
        for r in rs or ():
            t, casts = cast_free(r.toks[3:])
            e = "casts the value" if casts else numtok(t[0], "M." + field) if len(t) == 1 else "value is not one number: %s" % joined(t)
            c.ob("macro %s value" % what, "the macro's value is the message's " + field, e is None, r.where(), e or "")
    fns = pack_fns(R)
    for f, outs in ((fns[0], (("cframe -> MsgId", "CANID", {"uint32_t"}), ("cframe -> DLC", "DLC", {"uint8_t", "uint32_t"}), ("cframe -> IDE", "IDE", {"uint8_t", "uint32_t"}))),
                    (fns[1], (("* _len", "DLC", {"uint8_t", "uint32_t"}), ("* _ide", "IDE", {"uint8_t", "uint32_t"})))):
        reports(c, R, f, outs)
    u = unpack_fn(R)
    reports(c, R, u, ())


def reports(c, R, f, outs):
    nm = joined(f.head.toks[1:2])
    seen = {o[0]: [] for o in outs}
    rets = []
    for r, s in f.stmts():
        c.count("statements checked")
        a = assign(s)
        if a and joined(a[0]) in seen:
            seen[joined(a[0])].append((r, a))
        if s[0] == "return":
            rets.append((r, s))
    for lhs, macro, okc in outs:
        key = "%s sets %s" % (nm, lhs)
        xs = seen[lhs]
        if len(xs) != 1:
            c.ob(key, "set exactly once", False, f.head.where(), "%d assignments" % len(xs))
            continue
        r, a = xs[0]
        t, casts = cast_free(a[2])
        good = a[1] == "=" and t == ["«M.Name»_" + macro] and set(casts) <= okc
        c.ob(key, "set to the message's own %s macro" % macro, good, r.where(), r.code)
        c.ob(key, "set on every path", equiv(r.guard, f.head.guard) and not f.inner(r) and loopnames(r) == loopnames(f.head), r.where(), "conditional or repeated: " + r.code)
    key = nm + " returns"
    good = [x for x in rets if x[1][1:] == ["«M.Name»_CANID", ";"]]
    c.ob(key, "returns the message's own CANID macro", len(rets) == len(good) == 1, rets[0][0].where() if rets else f.head.where(),
         "; ".join(joined(x[1]) for x in rets) or "no return statement")
    if len(good) == 1:
        r = good[0][0]
        c.ob(key, "returns at the end on every path", equiv(r.guard, f.head.guard) and not f.inner(r) and r is f.body[-1], r.where(), "not the last unconditional statement")


# ------------------------------------------------------------------ C10
@check("C10")
def c10(c):
    """Nesting of brackets, block comments, preprocessor conditionals and linkage guards is tracked over all guarded
    lines; every repeated part must have no net effect, so any number of messages, signals or group members is covered."""
    R = Rules(c)
    for fv in R.v.files:
        n = short(fv)
        c.count("files")
        c.count("lines", len(fv.c.entries))
        errs = fv.c.errors
        if not errs:
            c.ob(n + " nesting", "every line keeps nesting well formed; everything closed at the end", True, fv.where())
        for line, msg, guard in errs:
            where = (fv.views.loc_line(line) if line is not None else None) or fv.where()
            c.ob(n + " nesting: " + msg[:120], "every line keeps nesting well formed; everything closed at the end", False, where, msg)
        for e in fv.c.entries:
            for s in e.segs:
                if s[0] == "L":
                    continue
                c.count("values in code")
                k = seg_kind(e, s, fv)
                c.ob("%s value %s" % (n, k[1]), "values put into code have no brackets, quotes or line ends of their own", k[0], fv.loc(e), "")
        if n.endswith(".h"):
            rows = fv.rows
            c.ob(n + " repeated inclusion", "header starts with #pragma once or a guard around everything", once(rows), rows[0].where() if rows else fv.where(),
                 "first line: " + (rows[0].code if rows else "none"))
        # linkage guards
        for r in fv.rows:
            if r.code.startswith('extern "C"'):
                c.ob(n + " linkage", 'extern "C" only for C++', set(r.pp) == {"__cplusplus"}, r.where(), str(r.pp))
    from . import c_tree
    c_tree.c10_tree(c)


def once(rows):
    if not rows:
        return False
    t = rows[0].toks
    if t == ["#", "pragma", "once"] and rows[0].guard is True and not rows[0].pp:
        return True
    if len(rows) > 2 and t[:2] == ["#", "ifndef"] and rows[1].toks[:3] == ["#", "define", t[2]]:
        return all(t[2] in "".join(r.pp) for r in rows[1:])
    return False


def short(fv):
    return re.sub(r"«@\d+»", "«node»", fv.name)


IDENTPATH = re.compile(r"^(upper\()?([A-Za-z_.#\[\]0-9@]*\.)?(Name|NameFloat)\)?$")


def seg_kind(e, s, fv):
    """(harmless in code?, description) of a value in a code line"""
    nm = fv.c.namer(e.loops)
    t = nm.text((s,))
    if re.match(r"^«(type|dbl) ", t) or t == "«pad»":
        return True, t
    if s[0] == "N":
        return True, "number"
    if s[0] == "F":
        return True, "padding"
    if s[0] == "H":
        k = s[1]
        if isinstance(k, tuple) and k and k[0] in ("upper", "lower"):
            k = k[1]
        if is_ident(k):
            return True, "name " + t
        m = HOLE_META.get(s[1])
        if m and m.get("cs") is not None and m["cs"] <= IDENT:
            return True, "name " + t
        if isinstance(k, tuple) and k and k[0] in ("pse", "rec"):
            return True, "%s (analysed separately)" % k[0]
        if t == "«M.CsmMethod»" or t == "«M.CsmToByteExpr»":
            return True, t
        if is_node(k):
            return True, "node name"
        if isinstance(k, tuple) and k[0] == "elem" and "pse" in repr(k)[:4000]:
            return True, "byte expression (analysed separately)"
    return False, t


def is_node(k):
    """a node name: an element of the deduplicated list of senders and receivers"""
    return isinstance(k, tuple) and k and k[0] == "elem" and ("TranS" in repr(k) or "RecS" in repr(k))
