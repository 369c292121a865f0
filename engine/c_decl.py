"""Declarations, definitions, uses and configuration macros of the generated C files."""
import re
from .rules import *
from .lin import f_and, f_or, f_not
from .cgen import implies, equiv
from .c_lib import drop_dedup
from .model import AnalysisBroken
from . import c_gen

CHECKS = {}
IDT = re.compile(r"^(?:[A-Za-z_]|«[^»]*»)(?:\w|«[^»]*»)*$")
KEYWORDS = set("""if else for while do return switch case default break continue goto sizeof typedef struct enum union static
const extern volatile inline void char short int long float double signed unsigned defined""".split())
STDINT = {"%sint%d_t" % (u, n) for u in ("", "u") for n in (8, 16, 32, 64)}
# what the user writes (documented in the configuration header and in the driver source)
USER_TYPES = {"sigfloat_t", "__CoderDbcCanFrame_t__"}
USER_MEMBERS = {"MsgId", "DLC", "IDE", "Data"}
USER_MACROS = {"GetSystemTick", "GetFrameHash"}
STDHDR = {"stdint.h", "stddef.h", "stdbool.h", "string.h"}
NODE = re.compile(r"«dbc\.msgs\[@\d+\]\.")


def reg(prop):
    def deco(f):
        g = c_gen.check(prop)(f)
        CHECKS[prop] = c_gen.CHECKS.pop(prop)
        return g
    return deco


def ident(t):
    return bool(IDT.match(t)) and t not in KEYWORDS and "(rec " not in t and "(pse " not in t and "(elem " not in t and "ToByteExpr" not in t \
        and not re.match(r"^«(%|type |dbl |if )[^»]*»\w*$", t)


def norm(t):
    return NODE.sub("«M.", t)


def cond(r, dedup=False, name=None):
    """when a line counts: its guard and the preprocessor conditions around it
    (a default given under "#ifndef NAME" leaves NAME defined either way)"""
    g = drop_dedup(r.guard)[0] if dedup else r.guard
    ps = []
    for p in r.pp:
        neg = p.startswith("!")
        if neg and name is not None and dname(p[1:]) == dname(name):
            continue
        a = ("a", ("b", ("pp", p.lstrip("!"))))
        ps.append(f_not(a) if neg else a)
    return f_and(g, *ps)


def ppcond(r):
    return f_and(*[f_not(("a", ("b", ("pp", p[1:])))) if p.startswith("!") else ("a", ("b", ("pp", p))) for p in r.pp])


def args_of(toks, i):
    """the arguments after an opening parenthesis at i, and where it closes"""
    d, out, cur = 0, [], []
    for j in range(i, len(toks)):
        t = toks[j]
        if t in "([{" and len(t) == 1:
            d += 1
            if d == 1:
                continue
        if t in ")]}" and len(t) == 1:
            d -= 1
            if d == 0:
                if cur or out:
                    out.append(cur)
                return out, j
        if t == "," and d == 1:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    return None, None


def param_types(ps):
    """parameter types without the names"""
    out = []
    for p in ps:
        q = [norm(t) for t in p]
        ids = [t for t in q if ident(t) or t in KEYWORDS or t in STDINT]
        if len(ids) > 1 and q and ident(q[-1]) and q[-1] not in STDINT:
            q = q[:-1]
        out.append(tuple(q))
    return tuple(out) if tuple(out) != (("void",),) else ()


BODY = {}      # macros with parameters: where the body starts, the parameters


class Decl:
    def __init__(self, kind, name, row, args=None, sig=None):
        self.kind, self.name, self.row, self.args, self.sig = kind, norm(name), row, args, sig


def head(r, nxt):
    """function head: (name, return type, parameter types, is it a definition, is it static)"""
    t = r.toks
    if len(t) < 4 or t[0] == "#" or depth(r) or "=" in t:
        return None
    i = t.index("(") if "(" in t else -1
    if i < 2 or not ident(t[i - 1]):
        return None
    ps, j = args_of(t, i)
    if ps is None or t[0] in ("return", "typedef") or t[0] == "(":
        return None
    if any(not (ident(x) or x in KEYWORDS or x in STDINT or x == "*") for x in t[:i]):
        return None
    rest = t[j + 1:]
    ret = tuple(norm(x) for x in t[:i - 1] if x not in ("extern", "static", "inline"))
    if rest == [";"]:
        return t[i - 1], ret, param_types(ps), False, "static" in t[:i]
    if rest == [] and nxt is not None and nxt.toks[:1] == ["{"] or rest[:1] == ["{"]:
        return t[i - 1], ret, param_types(ps), True, "static" in t[:i]
    return None


def depth(r):
    """how deep in braces a line is, apart from those of a linkage specification"""
    return len([x for x in r.nest if "__cplusplus" not in x[1]])


def collect(f):
    """declarations of a file"""
    out, heads = [], []
    rows = f.rows
    code = [r for r in rows if r.toks and r.toks[0] != "#"]
    nxt = {id(a): b for a, b in zip(code, code[1:])}
    kind = []                       # struct / enum bodies open here
    for r in rows:
        t = r.toks
        if t[:2] == ["#", "define"] and len(t) > 2:
            n = t[2]
            # a macro with parameters: no space before the parenthesis
            m = re.match(r"#\s*define\s+((?:[A-Za-z_0-9]|«[^»]*»)+)(\()?", r.code)
            name = m.group(1) if m else n
            if m and m.group(2):
                ps, j = args_of(t, t.index("("))
                out.append(Decl("macro", name, r, args=len(ps or ())))
                BODY[id(r)] = ((j or 0) + 1, {x for p in (ps or ()) for x in p})
            else:
                out.append(Decl("macro", name, r))
            continue
        if t[0] == "#":
            continue
        h = head(r, nxt.get(id(r)))
        if h and not kind:
            d = Decl("function", h[0], r, args=len(h[2]), sig=h)
            out.append(d)
            heads.append(d)
            continue
        if t[:2] == ["typedef", "struct"] or t[:2] == ["typedef", "enum"]:
            kind.append(t[1])
            continue
        if kind and t[:1] == ["}"]:
            if len(t) >= 3 and t[-1] == ";":
                out.append(Decl("type", t[-2], r))
            kind.pop()
            continue
        if kind and kind[-1] == "struct" and t[-1] == ";":
            u = t[:t.index(":")] if ":" in t else t[:-1]
            if u and ident(u[-1]):
                out.append(Decl("member", u[-1], r))
            continue
        if kind and kind[-1] == "enum":
            for x in t:
                if ident(x):
                    out.append(Decl("const", x, r))
            continue
        if t[0] == "typedef" and t[-1] == ";":
            out.append(Decl("type", t[-2], r))
            continue
        if not kind and t[-1] == ";" and "(" not in t and "=" not in t and not r.loops and all(ident(x) or x in KEYWORDS for x in t[:-1]) and len(t) >= 3 \
           and t[0] != "return":
            out.append(Decl("var", t[-2], r))
    return out, heads


def includes(f):
    out = []
    for r in f.rows:
        m = re.match(r'#\s*include\s*(?:"([^"]*)"|<([^>]*)>)', r.code)
        if m:
            out.append((m.group(1) or m.group(2), bool(m.group(2)), r))
    return out


def uses(f, r):
    """identifiers of a line with the kind of place: (name, kind, number of arguments)"""
    t = r.toks
    if t[0] == "#":
        if t[1:2] != ["define"]:
            return
        i0, skip = BODY.get(id(r), (3, set()))
    else:
        i0, skip = 0, set()
    for i in range(i0, len(t)):
        x = t[i]
        if not ident(x) or x in skip or x in STDINT:
            continue
        prev = t[i - 1] if i > i0 else ""
        n = None
        if i + 1 < len(t) and t[i + 1] == "(":
            ps, _ = args_of(t, i + 1)
            n = len(ps) if ps is not None else None
        yield x, "member" if prev in ("->", ".") else "name", n


def alias(x):
    """names under which the same thing may be declared"""
    yield x
    y = norm(x)
    if y != x:
        yield y
    for s in ("RollSig", "CsmSig"):
        if "«M.%s." % s in y:
            yield y.replace("«M.%s." % s, "«S.")


@reg("C09")
def c09(c):
    """Every identifier of every generated line is resolved to its declaration in the file itself or the files it includes,
    and the condition of the use (printing condition and preprocessor branch) must imply the conditions of the declarations."""
    V = c.views
    names = {f.name for f in V.files}
    info = {f.path: collect(f) for f in V.files}
    byname = {}
    for f in V.files:
        byname.setdefault(f.name, []).append(f)
    # ---- includes
    for f in V.files:
        for n, std, r in includes(f):
            c.count("includes")
            c.ob("include in " + f.name, "names a written file or a standard header", n in STDHDR if std else n in names, r.where(), r.code)

    def closure(f, seen=None):
        seen = {} if seen is None else seen
        if f.path in seen:
            return seen
        seen[f.path] = f
        for n, std, r in includes(f):
            for g in byname.get(n, ()):
                closure(g, seen)
        return seen
    # ---- one definition per declaration
    for f in V.files:
        if not f.name.endswith(".c"):
            continue
        hdr = byname.get(f.name[:-2] + ".h", [None])[0]
        defs = [d for d in info[f.path][1] if d.sig[3] and not d.sig[4]]
        decls = [d for d in info[hdr.path][1] if not d.sig[3]] if hdr else []
        for d in defs:
            c.count("function definitions")
            key = "definition of %s in %s" % (d.name, f.name)
            m = [x for x in decls if x.name == d.name and x.sig[1:3] == d.sig[1:3] and equiv(cond(x.row), cond(d.row)) and loopnames(x.row) == loopnames(d.row)]
            c.ob(key, "is declared once in the header with the same signature and under the same conditions", len(m) == 1, d.row.where(),
                 "%d declarations fit %s" % (len(m), d.row.code))
        for x in decls:
            c.count("function declarations")
            m = [d for d in defs if x.name == d.name and x.sig[1:3] == d.sig[1:3] and equiv(cond(x.row), cond(d.row)) and loopnames(x.row) == loopnames(d.row)]
            c.ob("declaration of %s in %s" % (x.name, hdr.name), "has one definition with the same signature under the same conditions", len(m) == 1, x.row.where(),
                 "%d definitions fit %s" % (len(m), x.row.code))
        for a in defs:
            b = [x for x in defs if x.name == a.name and x is not a and loopnames(x.row) == loopnames(a.row) and not implies(cond(x.row), f_not(cond(a.row)))]
            c.ob("definition of %s in %s" % (a.name, f.name), "there is one at a time", not b, a.row.where(), a.row.code)
        for k in ("var",):
            ds = [d for d in info[f.path][0] if d.kind == k and not depth(d.row)]
            for d in ds:
                m = [x for x in info[hdr.path][0] if x.kind == "var" and x.name == d.name and x.row.toks[0] == "extern" and x.row.toks[1:] == d.row.toks] if hdr else []
                if "static" in d.row.toks:
                    continue
                c.ob("variable %s in %s" % (d.name, f.name), "is declared with the same type under the same conditions",
                     len(m) == 1 and equiv(cond(m[0].row), cond(d.row)), d.row.where(), d.row.code)
    # ---- every use has its declaration
    for f in V.files:
        files = closure(f).values()
        table = {}
        for g in files:
            for d in info[g.path][0]:
                table.setdefault((("member" if d.kind == "member" else "name"), d.name), []).append(d)
        scope = set()               # parameters and local variables
        hs = {id(d.row): d for d in info[f.path][1]}
        decl_rows = {}
        for d in info[f.path][0]:
            decl_rows.setdefault(id(d.row), set()).add(d.name)
        memo = {}
        for r in f.rows:
            if id(r) in hs:
                i = r.toks.index("(")
                ps, _ = args_of(r.toks, i)
                scope = {p[-1] for p in ps or () if p and ident(p[-1])}
            else:
                # local variables
                t = r.toks
                for st in split(t):
                    lv = local(st)
                    if lv:
                        scope = scope | {lv}
            own = decl_rows.get(id(r), set())
            macro = r.toks[:2] == ["#", "define"]
            for x, kind, n in uses(f, r):
                if norm(x) in own and kind == "name" or norm(x) in own and not macro:
                    continue
                if kind == "name" and x in scope and not macro and (depth(r) or id(r) in hs):
                    continue
                if kind == "name" and (x in USER_TYPES or x in USER_MACROS) or kind == "member" and x in USER_MEMBERS:
                    c.count("documented user items used")
                    continue
                if kind == "name" and x == "«M.CsmMethod»" or x.startswith("__CODER") or x == "C" or x == "asm":
                    continue
                c.count("uses")
                ds = []
                for y in alias(x):
                    ds += table.get((kind, y), [])
                mk = (x, kind, n, r.pp, r.guard)
                if mk in memo:
                    continue
                memo[mk] = True
                key = "%s in %s" % (norm(x), f.name)
                if not ds:
                    c.ob(key, "is declared with this name", False, r.where(), "no declaration of %s, used in: %s" % (x, r.code[:120]))
                    continue
                if n is not None:
                    bad = [d for d in ds if d.args is not None and d.args != n]
                    c.ob(key, "is called with the declared number of arguments", not bad, r.where(), r.code[:120])
                grp = f.name.endswith(("binutil.h", "binutil.c"))
                if grp and "«M." in norm(x):
                    # the group holds only frames that are declared (C06)
                    a, b = ppcond(r), f_or(*[ppcond(d.row) for d in ds])
                else:
                    a, b = cond(r), f_or(*[cond(d.row, True, d.name if d.kind == "macro" else None) for d in ds])
                try:
                    ok = implies(a, b)
                except AnalysisBroken:
                    continue
                c.ob(key, "is declared whenever it is used", ok, r.where(), "used in: %s" % r.code[:120])
    # ---- configuration macros
    conf = [f for f in V.files if f.name == "«drv»-config.h"]
    c.need(len(conf), "configuration header")
    offered = {}
    for e in conf[0].c.entries:
        for part in (e.code or "", e.comment or ""):
            for m in re.finditer(r"#\s*define\s+((?:\w|«[^»]*»)+)", part):
                offered.setdefault(dname(m.group(1)), e)
    tested, used = {}, set()
    own = {}
    for f in V.files:
        for d in info[f.path][0]:
            if d.kind == "macro":
                own.setdefault(d.name, d)
        for r in f.rows:
            t = r.toks
            if t[0] == "#" and t[1:2] and t[1] in ("if", "ifdef", "ifndef", "elif"):
                for x in t[2:]:
                    if ident(x) and x != "defined":
                        tested.setdefault(x, r)
            else:
                for x in t:
                    used.add(x)
    for x, r in sorted(tested.items()):
        if x == "__cplusplus" or x in USER_MACROS or x in own or re.match(r"^__DEF_.*__$", x):
            continue
        c.count("configuration macros tested")
        c.ob("configuration macro " + x, "is offered in the configuration header", x in offered, r.where(), "tested in: " + r.code)
    for x, e in sorted(offered.items()):
        c.count("configuration macros offered")
        c.ob("configuration macro " + x, "is tested in the generated code", x in tested, conf[0].loc(e), "nothing depends on it")
    c.need(len(offered), "macros offered by the configuration header")
    c.need(len(tested), "macros tested by the code")


def dname(s):
    return s.replace("«(upper app.Params.drvname.first)»", "«DRV»")


def split(t):
    out, cur = [], []
    for x in t:
        if x in (";", "{", "}"):
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out + [cur]


def local(st):
    """name of a local variable that a statement declares"""
    if not st or st[0] in ("return", "#", "typedef"):
        return None
    u = st[:st.index("=")] if "=" in st else st
    if len(u) >= 2 and ident(u[-1]) and u[-1] not in STDINT and all(ident(x) or x in KEYWORDS or x == "*" for x in u) and ident(u[0]) | (u[0] in KEYWORDS):
        return u[-1]
    return None
