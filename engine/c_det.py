"""C19: what generated text may depend on."""
import re
from .c_tree import resolve
from . import model, interp, lib, genrun
from . import lin as L
from . import values as VV
from .lin import Facts, Sym, Lin, f_not, f_and, f_or, ge0
from .values import *
from .model import AnalysisBroken, walk, rel
from .c_eff import opt, PRM, OUT, DBC, arg_run, short
from .c_bin import allsyms, vshow_f, ascending, at_msg, one_sym

CHECKS = {}


def reg(prop):
    from . import c_gen

    def deco(f):
        c_gen.check(prop)(f)
        CHECKS[prop] = c_gen.CHECKS.pop(prop)
        return f
    return deco


# leaves that are not a function of the DBC and the options (introduced by the library models only)
TIME = {"time", "localtime"}
NONDET = {"env", "rand", "nondet", "uninit", "getline?", "openok", "closefail", "writefail", "mkdirfail", "mkdirexists", "exists", "stat", "fs", "address"}
SOURCES = ("random_device", "mt19937", "default_random_engine", "getpid", "getppid", "gethostname", "getlogin", "cuserid", "getuid", "uname", "tmpnam", "mkstemp",
           "current_path", "getcwd", "absolute", "canonical", "weakly_canonical", "realpath", "directory_iterator", "recursive_directory_iterator", "last_write_time",
           "gettimeofday", "clock_gettime", "now", "get_id", "getenv", "rand", "random", "drand48", "srand", "time", "clock", "localtime", "gmtime", "ctime")


def children(y):
    """the parts of a value, with symbols opened"""
    if isinstance(y, Lin):
        return [Sym.byid[i].key for i, _ in y.t]
    if isinstance(y, tuple):
        if len(y) == 3 and y[0] in ("ge", "eq") and isinstance(y[1], tuple) and y[1] and isinstance(y[1][0], tuple) and len(y[1][0]) == 2 and isinstance(y[1][0][0], int):
            return [Sym.byid[i].key for i, _ in y[1]]
        return list(y)
    if isinstance(y, Str):
        return list(y.segs)
    if isinstance(y, Vec):
        return list(y.segs) + list(y.st)
    if isinstance(y, SetV):
        return list(y.segs)
    if isinstance(y, Obj):
        return [y.key] + list(y.ov.values())
    if isinstance(y, Phi):
        return [y.c, y.a, y.b]
    if isinstance(y, Ptr):
        return [y.loc]
    if isinstance(y, (SPtr, Flt)):
        return [y.key]
    if isinstance(y, Misc):
        return [y.d]
    return []


class Deps:
    """everything a value depends on"""
    def __init__(self):
        self.seen = set()
        self.flds = {}
        self.n = 0
        self.bad = []

    def go(self, x, where, facts):
        stack = [x]
        self.seen = set()
        while stack:
            y = stack.pop()
            if y is None or isinstance(y, (str, int, bool, float)):
                continue
            if isinstance(y, Undef):
                self.bad.append(("uninitialised data", vshow(y)[:80], where))
                continue
            if isinstance(y, Opq):
                w = y.why
                h = w[0] if isinstance(w, tuple) and w else w
                if h in ("uninit", "uninitialised"):
                    self.bad.append(("uninitialised data", vshow(y)[:80], where))
                elif h in ("env", "address", "nondet"):
                    self.bad.append((h, vshow(y)[:80], where))
                elif h == "elem":
                    stack.append(w)
                else:
                    raise AnalysisBroken("text with an unknown value: %s" % vshow(y)[:200])
                continue
            try:
                if y in self.seen:
                    continue
                self.seen.add(y)
            except TypeError:
                pass
            self.n += 1
            if isinstance(y, Phi) or isinstance(y, tuple) and len(y) == 4 and y[0] in ("ite", "I"):
                cnd, a, b = (y.c, y.a, y.b) if isinstance(y, Phi) else y[1:]
                r = facts.simp(cnd)
                stack += [cnd] * (r is not True and r is not False) + [a] * (r is not False) + [b] * (r is not True)
                continue
            if isinstance(y, tuple) and y and isinstance(y[0], str):
                if y[0] in TIME and (len(y) > 1 or y in (("time",), ("localtime",))):
                    self.bad.append(("the current date or time", vshow(y)[:80], where))
                elif y[0] in NONDET and len(y) > 1:
                    self.bad.append((y[0], vshow(y)[:80], where))
                elif y[0] == "fld" and len(y) == 3 and from_dbc(y[1]):
                    self.flds.setdefault(y[2], set()).add(flags(y[1], facts))
                elif y[0] == "in" and y not in (("in", "dbc"), ("in", "app")):
                    self.bad.append(("data that is neither DBC nor option", vshow(y)[:80], where))
                elif y[0] == "fld" and len(y) == 3 and y[1] == ("in", "app") and y[2] != "Params":
                    self.bad.append(("state %s of the application" % y[2], vshow(y)[:80], where))
            stack.extend(children(y))


def flags(base, facts):
    """what is known about the boolean fields of the same object"""
    out = []
    for a, v in facts.at.items():
        k = a[1] if a[0] == "a" else a
        if isinstance(k, tuple) and k[0] == "b" and isinstance(k[1], tuple) and k[1][0] == "fld" and k[1][1] == base:
            out.append((k[1][2], v))
    return tuple(sorted(out))


def from_dbc(k):
    while isinstance(k, tuple) and k:
        if k == ("in", "dbc"):
            return True
        if k[0] in ("fld", "*", "at") and len(k) > 1:
            k = k[1]
        else:
            return False
    return False


def assume(f, x):
    g = f.copy()
    g.assume(x)
    return g


class Text:
    """walks the text of a file; parts that cannot be printed under the facts are left out"""
    def __init__(self, d, fv, facts):
        self.d, self.fv = d, fv
        self.segs = 0
        self.go(fv.f.text, facts)

    def go(self, s, facts):
        for g in s.segs if isinstance(s, Str) else s:
            self.segs += 1
            if g[0] == "L":
                continue
            if g[0] == "I":
                cnd = facts.simp(g[1])
                if cnd is True or cnd is False:
                    self.go(g[2] if cnd else g[3], facts)
                    continue
                self.d.go(cnd, self.fv.name, facts)
                for cnd, b in ((g[1], g[2]), (f_not(g[1]), g[3])):
                    if b.segs:
                        f2 = assume(facts, cnd)
                        if not f2.contradiction:
                            self.go(b, f2)
            elif g[0] == "R":
                self.d.go(g[1:4], self.fv.name, facts)
                self.go(g[4], facts.copy())
            else:
                self.d.go(g, self.fv.name, facts)


def undef_in(v, P, path=""):
    out = []
    if isinstance(v, Undef) or isinstance(v, Opq) and "uninit" in repr(v.why)[:60]:
        return [path]
    if isinstance(v, Obj):
        rec = P.recs.get(v.ty if isinstance(v.ty, str) else v.ty["name"])
        for f in (rec or {"fields": []})["fields"]:
            if f["name"] in v.ov:
                out += undef_in(v.ov[f["name"]], P, path + "." + f["name"] if path else f["name"])
    return out


def unset(c):
    """fields of messages and signals the parser never assigns, over every form of definition"""
    from . import c_parse as p
    P = c.g.P
    p.S.P = P
    U = {}
    from .c_parse import SIGF, M, S, lambda_line, mkfacts, Scan
    for form in SIGF:
        s = Scan(P, [lambda_line(x) for x in (M(1), S(2, form, mux="m"))])
        (q, o), = s.messages(mkfacts(()))
        for what, ob in (("message", o), ("signal", s.items(s.field(o, "Signals"), mkfacts(()))[0])):
            rec = P.recs[ob.ty if isinstance(ob.ty, str) else ob.ty["name"]]
            for f in rec["fields"]:
                for x in undef_in(s.field(ob, f["name"]), P, f["name"]):
                    U.setdefault((what, x), []).append((form, {g["name"]: s.field(ob, g["name"]) for g in rec["fields"] if g["ty"].get("t") == "bool"}))
                c.count("parsed fields")
    return U


def nodes_of(text):
    """all parts of a text, with symbols opened"""
    seen, stack = set(), [text]
    while stack:
        y = stack.pop()
        if y is None or isinstance(y, (str, int, float, bool)):
            continue
        try:
            if y in seen:
                continue
            seen.add(y)
        except TypeError:
            pass
        yield y
        stack.extend(children(y))


def some_byte(text):
    """conditions "some byte has text" over the byte expressions of a signal"""
    out = {}
    for y in nodes_of(text):
        if isinstance(y, tuple) and len(y) == 2 and y[0] == "a" and isinstance(y[1], tuple) and y[1] and y[1][0] == "ex":
            _, bv, n, F = y[1][:4]
            F = F[1] if isinstance(F, tuple) and len(F) == 2 and F[0] == "a" else F
            if isinstance(F, tuple) and F and F[0] == "ge" and len(F[1]) == 1 and F[1][0][1] == 1 and F[2] == -1:
                k = Sym.byid[F[1][0][0]].key
                dl = only_sym(n)
                if k[0] == "len" and "'pse'" in repr(k) and dl is not None and dl[0] == "fld" and dl[2] == "DLC":
                    out[y] = True
    return list(out)


def only_sym(n):
    if isinstance(n, Lin) and len(n.t) == 1 and n.c == 0 and n.t[0][1] == 1:
        return Sym.byid[n.t[0][0]].key
    return None


def positions(x):
    """positions in the message list used by a value, not looking inside other positions"""
    out, seen, stack = [], set(), [x]
    while stack:
        y = stack.pop()
        if y is None or isinstance(y, (str, int, float, bool)):
            continue
        try:
            if y in seen:
                continue
            seen.add(y)
        except TypeError:
            pass
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "at" and y[1] == ("fld", ("*", ("in", "dbc")), "msgs"):
            out.append(y[2])
            continue
        if isinstance(y, Str) and False:
            continue
        stack.extend(children(y))
    return out


def sorted_by(idx):
    """(sort, position in the sorted list) of a position in the message list"""
    for _ in range(8):
        k = only_sym(idx)
        if not isinstance(k, tuple):
            return None, None
        if k[0] == "pi":
            return k[1], k[2]
        if k[0] == "sel":
            idx = k[3]
            continue
        return None, None
    return None, None


def order(c, fv):
    """lines repeated for messages follow a list in ascending identifier order"""
    name = re.sub(r"«@\d+»", "«node»", fv.name)
    I = c.g.I
    n = 0
    for e in fv.c.entries:
        if not e.loops:
            continue
        # the element the line is printed for: names in the line itself (counts and positions of loops are not elements)
        for s in e.line.segs:
            if s[0] != "H" or not isinstance(s[1], tuple):
                continue
            k = s[1]
            while isinstance(k, tuple) and k and k[0] in ("upper", "lower", "*", "fld"):
                k = k[1]
            if not (isinstance(k, tuple) and len(k) == 3 and k[0] == "at" and k[1] == ("fld", ("*", ("in", "dbc")), "msgs")):
                continue
            n += 1
            key, x = sorted_by(k[2])
            where = fv.loc(e)
            if not c.ob("order in " + name, "messages come from a list sorted by ascending identifier", key is not None, where, "message at position " + vshow(k[2])[:200]):
                continue
            ok, why = ascending(I.sorts[key]) if key in I.sorts else (False, "unknown order")
            c.ob("order in " + name, "messages come from a list sorted by ascending identifier", ok, where, why)
            c.ob("order in " + name, "the sorted list is walked from its start to its end", any(x == l[1] for l in e.loops), where, vshow(x)[:200])
    c.count("message references in repeated lines", n)
    return n


UNORD = re.compile(r"unordered_(set|map|multiset|multimap)|\bhash\b")


def text_of(a):
    while isinstance(a, dict) and a.get("k") != "Str":
        a = a.get("e") or (a["args"][0] if a.get("k") == "Construct" and a.get("args") else None)
    return a["v"] if isinstance(a, dict) else None


def tyname(t):
    while isinstance(t, dict) and t.get("t") in ("ref", "ptr"):
        t = t["to"]
    return (t or {}).get("name", "") if isinstance(t, dict) else ""


def by_address(t):
    while isinstance(t, dict) and t.get("t") in ("ref",):
        t = t["to"]
    if not isinstance(t, dict) or t.get("name") not in ("std::set", "std::map", "std::multiset", "std::multimap"):
        return False
    a = t.get("args") or []
    n = 1 if t["name"].endswith("set") else 2
    cmp = a[n] if len(a) > n else None
    return bool(a) and a[0].get("t") == "ptr" and (cmp is None or cmp.get("name") in ("std::less", "std::greater"))


def source(c):
    """constructs whose result is not a function of the program's input"""
    hits = []
    for f in c.g_P.fns.values():
        if not f.get("body"):
            continue
        c.count("functions searched")
        where = lambda n: "%s:%s (%s)" % (rel(f["file"]), n.get("l", f["line"]), f["name"])

        def v(n):
            k = n["k"]
            if k == "RangeFor" or k == "MCall" and n.get("name") in ("begin", "cbegin", "rbegin"):
                t = n.get("obj", {}).get("ty") if k == "MCall" else n.get("rt") or (n.get("r") or n.get("range") or {}).get("ty")
                if k == "MCall" and not t:
                    t = n.get("cls")
                if t is not None and UNORD.search(tyname(t)):
                    c.ob("iteration order in " + f["name"], "no iteration over unordered containers", False, where(n), tyname(t))
                elif t is not None and by_address(t):
                    c.ob("iteration order in " + f["name"], "no iteration in the order of addresses", False, where(n), tyname(t))
            if k in ("Call", "MCall", "Construct", "Decl"):
                nm = (n.get("callee") or tyname(n.get("ty")) or "").split("<")[0].split("::")[-1]
                if nm in SOURCES:
                    hits.append((nm, where(n)))
            if k == "Call" and (n.get("callee") or "").split("::")[-1] == "setlocale":
                s = text_of(n["args"][1]) if len(n["args"]) > 1 else None
                c.count("locale settings")
                c.ob("locale in " + f["name"], "a fixed locale with a decimal point", locale_ok(s), where(n), "setlocale(%r)" % s)
            if k == "Construct" and tyname(n.get("ty")) == "std::locale" and n.get("args"):
                a = n["args"][0]
                s = text_of(a)
                if "locale" not in tyname(a.get("ty")) and not locale_ok(s):
                    c.ob("locale in " + f["name"], "no locale taken from the environment", False, where(n), "std::locale(%r)" % s)
        walk(f["body"], v)
    c.ob("iteration order", "no iteration in an order given by addresses or hashing", True)
    return hits


@reg("C19")
def c19(c):
    """Every symbol any generated text depends on is traced back through the interpretation: it must be the parsed DBC or an
    option. Sources of time, randomness, environment, file system state, addresses and uninitialised data are symbols of
    their own in the library model. Lines repeated for messages must take them from a list sorted by ascending identifier."""
    P = model.load()
    c.g_P = P
    hits = source(c)
    try:
        run19(c, P)
    except AnalysisBroken as x:
        if not hits:
            raise
        for nm, w in hits:
            if nm not in ("time", "localtime", "gmtime", "clock"):
                c.ob("source %s" % nm, "nothing but the DBC and the options influences the output", False, w, "%s is called and its influence cannot be excluded: %s" % (nm, str(x)[:200]))
        if not c.failed():
            raise


def run19(c, P):
    V = c.views
    I = c.g.I
    for e in I.events:
        if e.kind in ("obl:uninit",):
            c.ob("uninitialised data", "no uninitialised data is read", dead(e), e.where(), str(e.data)[:200])
        if e.kind == "open":
            c.count("files opened")
            bad = [vshow(y)[:100] for y in nodes_of(tuple(e.pc)) if isinstance(y, tuple) and len(y) > 1 and y[0] == "exists" and not any(under(z) for z in y[1:])]
            c.ob("condition of opening " + short(e).split("/")[-1].strip("<>"), "it depends on the options, the DBC file and the output directory only", not bad, e.where(), "; ".join(bad))
    rows, used = 0, {}
    for fv in V.files:
        rows += order(c, fv)
    c.need(rows, "message names in repeated lines", 10)
    for fv, name, date, d in traced(c, V):
        bad = {}
        for what, val, w in d.bad:
            if not (date and what == "the current date or time"):
                bad.setdefault(what, val)
        rule = "its text depends on nothing but the DBC and the options" + (" and the generation date" if date else "")
        c.ob("dependencies of " + name, rule, not bad, fv.where(), "; ".join("%s: %s" % x for x in bad.items()))
        for k, x in d.flds.items():
            used.setdefault(name, {}).setdefault(k, set()).update(x)
    # own interpretations follow (they start a new set of symbols)
    for (what, path), forms in unset(c).items():
        f = path.split(".")[0]
        hit = []
        for n, u in used.items():
            for fl in u.get(f, ()):
                hit += ["%s (%s)" % (n, form) for form, bools in forms if not any(isinstance(bools.get(k), bool) and bools[k] != v or isinstance(bools.get(k), Lin) and bools[k] == Lin(1 - v) for k, v in fl)]
        c.ob("%s field %s" % (what, path), "no text depends on a field the parser leaves without value", not hit, "src/types/message.h", "used in " + ", ".join(sorted(set(hit))[:8]))
    for kinds in (("P",), ("P", "K", "P"), ("P", "K")):
        I2, st2, r, fn = arg_run(P, kinds)
        u = undef_in(r, P) if isinstance(r, Obj) else ["?"]
        c.ob("options", "every option has a value even if it is not given", not u, "%s:%s (%s)" % (rel(fn["file"]), fn["line"], fn["name"]), "not set: " + ", ".join(u))


def under(p):
    """a path that starts with the DBC file's or the output directory's"""
    s = p.segs[0] if isinstance(p, Str) and p.segs else None
    while s is not None and s[0] == "I":
        return under(s[2]) and under(s[3])
    if s is None or s[0] != "H":
        return False
    return s[1] in (OUT, DBC) or isinstance(s[1], tuple) and any(y in (OUT, DBC) for y in nodes_of(s[1]))


def locale_ok(t):
    return t is not None and re.fullmatch(r"C|POSIX|C\.UTF-8|C\.utf8|en_(US|GB)(\.(UTF-8|utf8|ISO-8859-1))?", t) is not None


def dead(e):
    f = Facts()
    for x in e.pc:
        f.assume(x)
    return f.contradiction


def traced(c, V):
    out = []
    A = opt("add_gen_date")
    for fv in V.files:
        name = re.sub(r"«@\d+»", "«node»", fv.name)
        sb = some_byte(fv.f.text)
        for date in (False, True):
            f0 = Facts()
            for a in [A if date else f_not(A)] + sb:
                f0.assume(a)
            d = Deps()
            t = Text(d, fv, f0)
            c.count("text parts traced", t.segs)
            c.count("dependencies traced", d.n)
            out.append((fv, name, date, d))
    c.assumes("a checksum signal yields text for some byte (C01, C02), so the position of its byte is known")
    return out
