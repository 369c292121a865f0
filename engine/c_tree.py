"""The dispatch tree of the receive function (FillTreeLevel, WriteCode) by structural induction.

FillTreeLevel is interpreted for a symbolic range [l,h) of a list with strictly ascending identifiers; its recursive
calls are replaced by the induction hypothesis.  WriteCode is interpreted on every shape of node that results, its
recursive calls replaced by "code of that subtree".  The text is parsed as nested if statements and decided for an
arbitrary received identifier: equal to the i-th identifier of the list (l <= i < h), or equal to none."""
import re
from . import model, interp, lib, genrun
from .values import *
from . import lin as L
from . import flat
from .lin import Facts, f_and, f_not, f_or
from .cgen import sat, implies, atoms
from .model import AnalysisBroken, rel

TK, LK = ("h", "util"), ("h", "dl2")


def first_atom(v, facts):
    if isinstance(v, Phi):
        for a in sorted(atoms(v.c), key=repr):
            if facts.ask(a) is None:
                return a
        c = facts.simp(v.c)
        return first_atom(v.a if c is True else v.b, facts)
    if isinstance(v, Str):
        for g in v.segs:
            if g[0] == "I":
                for a in sorted(atoms(g[1]), key=repr):
                    if facts.ask(a) is None:
                        return a
                b = g[2] if facts.simp(g[1]) is True else g[3]
                a = first_atom(b, facts)
                if a is not None:
                    return a
            elif g[0] == "N" and isinstance(g[2], Lin):
                a = first_atom(g[2], facts)
                if a is not None:
                    return a
        return None
    if isinstance(v, Lin):
        for i, _ in v.t:
            k = Sym.byid[i].key
            if isinstance(k, tuple) and k and k[0] == "ite":
                for a in sorted(atoms(k[1]), key=repr):
                    if facts.ask(a) is None:
                        return a
        return None
    return None


def resolve(v, facts):
    while isinstance(v, Phi):
        v = v.a if facts.simp(v.c) is True else v.b
    if isinstance(v, Str):
        segs = ()
        for g in v.segs:
            if g[0] == "I":
                for x in resolve(g[2] if facts.simp(g[1]) is True else g[3], facts).segs:
                    segs = flat.join(segs, x)
            elif g[0] == "N" and isinstance(g[2], Lin):
                segs = flat.join(segs, ("N", g[1], resolve(g[2], facts)))
            else:
                segs = flat.join(segs, g)
        return mkstr(segs)
    if isinstance(v, Lin) and v.t:
        r = Lin(v.c)
        for i, c in v.t:
            k = Sym.byid[i].key
            if isinstance(k, tuple) and k and k[0] == "ite":
                r = r + resolve(k[2] if facts.simp(k[1]) is True else k[3], facts).scale(c)
            else:
                r = r + Lin.of(Sym.byid[i], c)
        return r
    return v


class Node:
    """concrete shape of a tree node: type, texts, children (None, ("tree",l,h,started) or Node)"""
    def __init__(self, facts, ty, fields, high, low):
        self.facts, self.ty, self.fields, self.high, self.low = facts, ty, fields, high, low


class Tree:
    def __init__(self, P):
        self.P = P
        self.I = genrun.start(P)
        I = self.I
        fs = [f for f in P.fns.values() if f["name"].endswith("::FillTreeLevel")]
        ws = [f for f in P.fns.values() if f["name"].endswith("ConditionalTree::WriteCode")]
        if len(fs) != 1 or len(ws) != 1:
            raise AnalysisBroken("dispatch tree functions: %d FillTreeLevel, %d WriteCode" % (len(fs), len(ws)))
        self.fill, self.wc = fs[0], ws[0]
        for f in (self.fill, self.wc):
            I.recset.discard(f["key"])
        self.nodety = self.fill["ret"]["to"]["name"] if self.fill["ret"]["t"] == "ptr" else "ConditionalTree_t"
        self.dirty = set()
        self.calls = []
        I.hooks[self.fill["key"]] = self.h_fill
        self.l0 = Lin.of(L.sym(("in", "l"), 0, 2 ** 30))
        self.h0 = Lin.of(L.sym(("in", "h"), 1, 2 ** 30))
        self.runs = 0
        kinds = self.P.enums.get("ConditionalType")
        self.kinds = {c["v"]: c["name"] for c in kinds["consts"]} if kinds else {}

    # ---- FillTreeLevel
    def h_fill(self, I, st, f, this, args, e):
        if not any(x["key"] == f["key"] for x, _ in I.stack):
            return NotImplemented
        self.calls.append((args, I.cur, st.facts.copy()))
        for fld in self.dirty:
            loc = I.sub((TK, ()), ("f", fld))
            ty = self.P.field_type(f["cls"], fld)
            I.write(st, loc, L.atom("b", ("havoc", fld, len(self.calls))) if ty and ty["t"] == "bool" else Opq(("havoc", fld)))
        return SPtr(("tree",) + tuple(args[1:]), self.nodety)

    def run_fill(self, l, h, started, facts):
        I = self.I
        st = interp.St()
        st.facts = facts.copy()
        st.cells[TK] = Obj(self.fill["cls"], ("in", "util"), {})
        st.cells[LK] = Obj("DbcMessageList_t", ("*", ("in", "dl2")), {})
        lst = Ref((LK, (("f", "msgs"),)))
        n = lib.size_of(I, st, I.read(st, lst.loc))
        st.facts.assume(ge0(n - h))
        del self.calls[:]
        ev0 = len(I.events)
        r = I.run(self.fill, st, (TK, ()), [lst, l, h, started])
        self.runs += 1
        o = st.cells.get(TK)
        if isinstance(o, Obj) and set(o.ov) - self.dirty:
            self.dirty |= set(o.ov)
            del I.events[ev0:]
            return self.run_fill(l, h, started, facts)
        return r, st, I.events[ev0:]

    def shapes(self, l, h, started, facts):
        """all shapes of the node for this range"""
        r, st, ev = self.run_fill(l, h, started, facts)
        a = first_atom(r, facts)
        node = None
        if a is None:
            node, a = self.node(resolve(r, facts), st, facts)
        if a is not None:
            out = []
            for x in (a, f_not(a)):
                ff = facts.copy()
                ff.assume(x)
                if not ff.contradiction and sat(f_and(*self.fl(ff))):
                    out += self.shapes(l, h, started, ff)
            return out
        self.events = ev
        return [(node, ev, list(self.calls))]

    def fl(self, facts):
        return [f for f in getattr(facts, "fs", [])] or [True]

    def node(self, p, st, facts):
        I = self.I
        if isinstance(p, Null):
            return None, None
        if isinstance(p, SPtr):
            return p.key, None
        if not isinstance(p, Ptr):
            raise AnalysisBroken("tree node: %r" % (p,))
        fields = {}
        for f in self.P.recs[self.nodety]["fields"]:
            v = I.read(st, I.sub(p.loc, ("f", f["name"])))
            a = first_atom(v, facts)
            if a is not None:
                return None, a
            fields[f["name"]] = resolve(v, facts)
        kids = {}
        for n, v in fields.items():
            if isinstance(v, (Ptr, SPtr, Null)):
                kids[n], a = self.node(v, st, facts)
                if a is not None:
                    return None, a
        ty = [v for n, v in fields.items() if isinstance(v, Lin)]
        if len(ty) != 1 or not ty[0].is_const():
            raise AnalysisBroken("type of a tree node is not determined")
        return Node(facts, ty[0].c, {n: v for n, v in fields.items() if n not in kids}, kids.get("High"), kids.get("Low")), None

    # ---- WriteCode
    def code(self, node, kids):
        """text printed for the node; kids: shape chosen for each symbolic child"""
        I = self.I
        st = interp.St()
        st.facts = node.facts.copy()
        st.cells[("h", "ct")] = Obj("ConditionalTree", ("in", "ct"), {})
        ct = (("h", "ct"), ())
        csl = [f["name"] for f in self.P.recs["ConditionalTree"]["fields"] if f["ty"]["t"] == "rec" and f["ty"]["name"] == "std::basic_string"]
        for n in csl:
            I.write(st, I.sub(ct, ("f", n)), lit(""))
        self.cells = {}

        def build(x, name):
            """pointer to an object of that shape"""
            if x is None:
                return NULL
            if isinstance(x, tuple):
                sh = kids.get(x)
                if sh is None:
                    return SPtr(x, self.nodety)
                p = build(sh, name)
                self.cells[p.loc[0]] = ("sub", x, sh)
                return p
            k = ("h", "node", name)
            ov = dict(x.fields)
            ov["High"] = build(x.high, name + "H") if not isinstance(x.high, tuple) or (name == "R" and x.high in kids) else SPtr(x.high, self.nodety)
            ov["Low"] = build(x.low, name + "L") if not isinstance(x.low, tuple) or (name == "R" and x.low in kids) else SPtr(x.low, self.nodety)
            st.cells[k] = Obj(self.nodety, ("in", "node", name), ov)
            return Ptr((k, ()))
        root = build(node, "R")
        wc = self.wc
        strp = [p for p in wc["params"] if p["ty"]["t"] == "ref"]

        def h_wc(I, st, f, this, args, e):
            if not any(x["key"] == f["key"] for x, _ in I.stack):
                return NotImplemented
            p = args[0]
            if isinstance(p, Ptr):
                c = self.cells.get(p.loc[0])
                if c is not None and c[2].high is None and c[2].low is None:
                    c = None        # a leaf: its own text
                if c is None:
                    save, I.stack = I.stack, []
                    try:
                        return I.call_fn(st, f, this, args, e)
                    finally:
                        I.stack = save
                key = c[1]
            elif isinstance(p, SPtr):
                key = p.key
            elif isinstance(p, Null):
                save, I.stack = I.stack, []
                try:
                    return I.call_fn(st, f, this, args, e)
                finally:
                    I.stack = save
            else:
                raise AnalysisBroken("subtree argument: %r" % (p,))
            x = hole(("sub", key))
            nl = Str(x.segs + (("L", "\n"),))
            res = None
            if self.mode[0]:
                loc = I.sub(this, ("f", self.mode[0]))
                v = cat(I.read(st, loc), nl)
                I.write(st, loc, v)
                res = v
            if self.mode[1] is not None:
                loc = args[self.mode[1]].loc
                v = cat(I.read(st, loc), nl)
                I.write(st, loc, v)
                res = v
            if self.mode[2] == "text":
                return nl
            return res
        I.hooks[wc["key"]] = h_wc
        args = []
        out = ("h", "outstr")
        st.cells[out] = lit("")
        for i, p in enumerate(wc["params"]):
            t = p["ty"]
            if i == 0:
                args.append(root)
            elif t["t"] == "ref":
                args.append(Ref((out, ())))
            elif t["t"] == "int":
                args.append(Lin.of(L.sym(("in", "indent"), 0, 64)))
            else:
                raise AnalysisBroken("parameter %s of WriteCode" % p["name"])
        if not hasattr(self, "mode"):
            # where does the text of a leaf go
            self.mode = (None, None, "text")
            leaf = Node(Facts(), [v for v, n in self.kinds.items() if n == "Single"][0], {}, None, None)
            st2 = st.copy()
            k = ("h", "node", "leaf")
            ov = {}
            for f in self.P.recs[self.nodety]["fields"]:
                t = f["ty"]
                ov[f["name"]] = NULL if t["t"] == "ptr" else Lin(leaf.ty) if t["t"] in ("enum", "int") else lit("@BODY@")
            st2.cells[k] = Obj(self.nodety, ("in", "leaf"), ov)
            r = I.run(wc, st2, ct, [Ptr((k, ()))] + args[1:])
            m0 = None
            for n in csl:
                if "@BODY@" in repr(I.read(st2, I.sub(ct, ("f", n)))):
                    m0 = n
            m1 = None
            for i, p in enumerate(wc["params"]):
                if p["ty"]["t"] == "ref" and "@BODY@" in repr(st2.cells[out]):
                    m1 = i
            if m0 is None and m1 is None and "@BODY@" not in repr(r):
                raise AnalysisBroken("WriteCode does not print the body of a leaf")
            self.mode = (m0, m1, "text" if m0 is None and m1 is None else "acc")
        ev0 = len(I.events)
        r = I.run(wc, st, ct, args)
        self.runs += 1
        if self.mode[1] is not None and not isinstance(r, Str):
            r = st.cells[out]
        if not isinstance(r, Str):
            raise AnalysisBroken("result of WriteCode: %r" % (r,))
        return r


# ------------------------------------------------------------------ the printed text
def to_tokens(s):
    """tokens of the dispatch code; values become ("num", Lin), ("name", text), ("sub", key)"""
    buf = []
    vals = []
    for g in s.segs:
        if g[0] == "L":
            buf.append(g[1])
        elif g[0] in ("R", "F") :
            body = g[4] if g[0] == "R" else None
            if g[0] == "R" and not (body.lit is not None and body.lit.strip() == ""):
                raise AnalysisBroken("repetition in the dispatch code")
            buf.append(" ")
        elif g[0] in ("H", "N"):
            vals.append(g)
            buf.append(chr(0xe000 + len(vals) - 1))
        else:
            raise AnalysisBroken("dispatch code contains %s" % (g[0],))
    text = "".join(buf)
    toks = []
    for m in re.finditer(r"\s+|(?P<num>(?:0[xX])?[\ue000-\uf8ff0-9][0-9A-Fa-f\ue000-\uf8ff]*[uUlL]*)|(?P<id>[A-Za-z_\ue000-\uf8ff][\w\ue000-\uf8ff]*)|(?P<op>&&|\|\||==|!=|<=|>=|->|.)", text):
        k = m.lastgroup
        if not k:
            continue
        t = m.group()
        if len(t) == 1 and 0xe000 <= ord(t) <= 0xf8ff:
            g = vals[ord(t) - 0xe000]
            if g[0] == "H" and isinstance(g[1], tuple) and g[1][0] == "sub":
                toks.append(("sub", g[1][1]))
                continue
        ph = [c for c in t if 0xe000 <= ord(c) <= 0xf8ff]
        if k == "num" and len(ph) == 1 and vals[ord(ph[0]) - 0xe000][0] == "N":
            g = vals[ord(ph[0]) - 0xe000]
            hx = t[:2] in ("0x", "0X")
            spec = g[1]
            okf = (spec in ("X", "x") and hx) or (spec.startswith("#") and spec[-1] in "xX" and not hx) or (spec in ("u",) and not hx)
            toks.append(("num", g[2], okf, t.rstrip("uUlL") != t))
            continue
        parts = re.split("([\ue000-\uf8ff])", t)
        if len(parts) > 1:
            toks.append(("name", tuple(vals[ord(p) - 0xe000] if p and 0xe000 <= ord(p[0]) <= 0xf8ff else p for p in parts if p)))
        else:
            toks.append((k, t))
    return toks


class Parse:
    def __init__(self, toks):
        self.t, self.p = toks, 0

    def peek(self, d=0):
        return self.t[self.p + d] if self.p + d < len(self.t) else ("end", "")

    def take(self, v=None):
        t = self.peek()
        if v is not None and t[1] != v:
            raise ValueError("expected '%s' instead of '%s'" % (v, t[1]))
        self.p += 1
        return t

    def block(self, top=False):
        out = []
        while self.peek()[0] != "end" and self.peek()[1] != "}":
            out.append(self.stmt())
        if not top and self.peek()[0] == "end":
            raise ValueError("'}' is missing")
        return out

    def stmt(self):
        t = self.peek()
        if t[0] == "sub":
            self.take()
            return ("sub", t[1])
        if t == ("id", "if"):
            self.take()
            self.take("(")
            c = self.cond()
            self.take(")")
            a = self.branch()
            b = []
            if self.peek() == ("id", "else"):
                self.take()
                b = [self.stmt()] if self.peek() == ("id", "if") else self.branch()
            return ("if", c, a, b)
        s = []
        while self.peek()[1] != ";":
            if self.peek()[0] in ("end", "sub") or self.peek()[1] in ("{", "}"):
                raise ValueError("';' is missing")
            s.append(self.take())
        self.take(";")
        return ("st", s)

    def branch(self):
        if self.peek()[1] == "{":
            self.take("{")
            b = self.block()
            self.take("}")
            return b
        return [self.stmt()]

    def cond(self):
        r = self.andc()
        while self.peek()[1] == "||":
            self.take()
            r = ("or", r, self.andc())
        return r

    def andc(self):
        r = self.cmp()
        while self.peek()[1] == "&&":
            self.take()
            r = ("and", r, self.cmp())
        return r

    def cmp(self):
        if self.peek()[1] == "!":
            self.take()
            return ("not", self.cmp())
        if self.peek()[1] == "(":
            # parenthesised condition or operand
            p = self.p
            try:
                self.take("(")
                r = self.cond()
                self.take(")")
                if self.peek()[1] in ("==", "!=", "<", ">", "<=", ">="):
                    raise ValueError
                return r
            except ValueError:
                self.p = p
        a = self.operand()
        op = self.take()[1]
        b = self.operand()
        if a[0] == "num" and b == ("id", "_id"):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a != ("id", "_id") or b[0] != "num" or op not in ("==", "!=", "<", ">", "<=", ">="):
            raise ValueError("condition is not a comparison of _id with an identifier")
        if not b[2]:
            raise ValueError("identifier is not printed as a complete number")
        return ("cmp", op, b[1])

    def operand(self):
        if self.peek()[1] == "(":
            self.take("(")
            r = self.operand()
            self.take(")")
            return r
        return self.take()


def elem_index(lin, field="MsgID"):
    """the list index whose identifier the number is"""
    if isinstance(lin, Lin) and len(lin.t) == 1 and lin.t[0][1] == 1 and not lin.c:
        k = Sym.byid[lin.t[0][0]].key
        return key_index(k, field)
    return None


def key_index(k, field):
    if isinstance(k, tuple) and len(k) == 4 and k[0] == "cast":
        x = k[3]
        return elem_index(x, field) if isinstance(x, Lin) else None
    if isinstance(k, tuple) and len(k) == 3 and k[0] == "fld" and k[2] == field:
        b = k[1]
        if isinstance(b, tuple) and b[0] == "*":
            b = b[1]
        if isinstance(b, tuple) and len(b) == 3 and b[0] == "at" and b[1] == ("fld", ("*", ("in", "dl2")), "msgs"):
            return b[2]
    return None


def cond_form(c, i):
    """condition for _id = identifier i of the list (i a Lin), or for an identifier that is in no list (i None)"""
    t = c[0]
    if t == "or":
        return f_or(cond_form(c[1], i), cond_form(c[2], i))
    if t == "and":
        return f_and(cond_form(c[1], i), cond_form(c[2], i))
    if t == "not":
        return f_not(cond_form(c[1], i))
    op, num = c[1], c[2]
    e = elem_index(num)
    if e is None:
        raise ValueError("comparison with something that is not an identifier of the list: %s" % vshow(num))
    if i is None:
        if op == "==":
            return False
        if op == "!=":
            return True
        a = L.atom("b", ("lt", e))      # _id < identifier e
        return a if op in ("<", "<=") else f_not(a)
    d = i - e
    return {"==": lambda: eq0(d), "!=": lambda: f_not(eq0(d)), ">=": lambda: ge0(d), ">": lambda: ge0(d - 1),
            "<": lambda: ge0(-d - 1), "<=": lambda: ge0(-d)}[op]()


def paths(stmts, i, pc=True):
    """(condition, actions) of every way through the statements"""
    out = [(pc, ())]
    for s in stmts:
        new = []
        for g, acts in out:
            if s[0] == "if":
                f = cond_form(s[1], i)
                for cc, b in ((f, s[2]), (f_not(f), s[3])):
                    gg = f_and(g, cc)
                    if gg is False:
                        continue
                    for g2, a2 in paths(b, i, gg):
                        new.append((g2, acts + a2))
            else:
                new.append((g, acts + (s,)))
        out = new
    return out


def leaf_call(s, nm=None):
    """index of the list element a statement unpacks, or an error text"""
    toks = s[1]
    txt = "".join(t[1] if isinstance(t[1], str) else "«»" for t in toks)
    if len(toks) < 3 or toks[0] != ("id", "recid") or toks[1] != ("op", "="):
        raise ValueError("statement '%s' does not store the result in recid" % txt)
    rest = toks[2:]
    if rest[0][0] != "name":
        raise ValueError("'%s' calls no unpack function" % txt)
    call = rest[0][1]
    if len(call) != 4 or call[0] != "Unpack_" or call[2] != "_" or call[1][0] != "H" or call[3][0] != "H":
        raise ValueError("'%s' calls no Unpack_<message>_<driver> function" % txt)
    e = key_index(call[1][1], "Name")
    if e is None:
        raise ValueError("the called unpack function is not named after a list element")
    drv = call[3][1]
    r = [t for t in rest[1:]]
    # arguments
    flat_ = "".join(t[1] if isinstance(t[1], str) else "@" for t in r)
    names = [t for t in r if t[0] == "name"]
    if re.sub(r"\((_m->@)\)", r"\1", flat_) != "(&_m->@,_d,dlc_)" or len(names) != 1:
        raise ValueError("arguments are %s" % flat_)
    mem = names[0][1]
    if len(mem) != 1 or mem[0][0] != "H":
        raise ValueError("struct member")
    e2 = key_index(mem[0][1], "Name")
    if e2 is None or e2 != e:
        raise ValueError("the struct member belongs to another frame than the unpack function")
    return e, drv


def holds(facts, f):
    if f is True:
        return True
    ff = facts.copy()
    ff.assume(f_not(f))
    return ff.contradiction or not sat_under(facts, f_not(f))


def sat_under(facts, f, n=0):
    f = facts.simp(f)
    if f is True:
        return True
    if f is False:
        return False
    from .cgen import pick
    a = pick(f)
    for v in (a, f_not(a)):
        ff = facts.copy()
        ff.assume(v)
        if ff.contradiction:
            continue
        if sat_under(ff, f, n + 1):
            return True
    return False


def decide(T, report):
    """report(key, rule, ok, where, why); returns counts"""
    n = {"shapes": 0, "codes": 0, "paths": 0}
    wf = rel(T.fill["file"]) + ":%s (%s)" % (T.fill["line"], T.fill["name"])
    ww = rel(T.wc["file"]) + ":%s (%s)" % (T.wc["line"], T.wc["name"])
    drvs = set()
    balanced = True

    def base(started):
        f = Facts()
        if started:
            f.assume(ge0(T.h0 - T.l0 - 1))
            f.assume(ge0(T.l0))
            return T.l0, T.h0, True, f
        return Lin(0), T.h0, False, f
    for started in (True, False):
        l, h, s, f0 = base(started)
        for node, ev, calls in T.shapes(l, h, s, f0):
            n["shapes"] += 1
            for e in ev:
                if e.kind.startswith("obl:") and "null" not in e.kind and "isnull" not in vshow(e.data):
                    report("tree index", "list accesses of the tree construction are in range", False, e.where(), vshow(e.data)[:200])
            if node is None or isinstance(node, tuple):
                report("tree root", "a non-empty range always gets a node", False, wf, "no node for a non-empty range")
                continue
            for a, cur, fc in calls:
                l1, h1, s1 = a[1], a[2], a[3]
                ok = holds(fc, ge0(l1 - l)) and holds(fc, ge0(h - h1)) and holds(fc, ge0(h1 - l1 - 1)) and holds(fc, ge0((h - l) - (h1 - l1) - 1)) and s1 is True
                report("tree recursion", "each recursive step takes a smaller non-empty part of the range", ok, "%s:%s" % (rel(cur[0]), cur[1]), "")
            kidkeys = [k for k in (node.high, node.low) if isinstance(k, tuple)]
            combos = [({}, node.facts)]
            for k in kidkeys:
                new = []
                for m, fc in combos:
                    for sh, ev2, calls2 in T.shapes(k[1], k[2], k[3], fc):
                        m2 = dict(m)
                        m2[k] = sh
                        new.append((m2, sh.facts))
                combos = new
            for kids, fc in combos:
                nd = Node(fc, node.ty, node.fields, node.high, node.low)
                text = T.code(nd, kids)
                n["codes"] += 1
                for g, segs in flat.forms(text.segs, True):
                    if g is not True and not sat_under(fc, g):
                        continue
                    ff = fc.copy()
                    ff.assume(g)
                    shown = flat.show_segs(segs).replace("\n", " ")[:300]
                    try:
                        P = Parse(to_tokens(mkstr(segs)))
                        ast = P.block(True)
                        if P.peek()[0] != "end":
                            raise ValueError("unexpected '%s'" % P.peek()[1])
                    except ValueError as x:
                        balanced = False
                        report("tree code", "the printed code is a well-formed nest of if statements", False, ww, "%s in: %s" % (x, shown))
                        continue
                    report("tree code", "the printed code is a well-formed nest of if statements", True, ww)
                    leafnode = node.high is None and node.low is None
                    try:
                        if leafnode:
                            # its text is printed inside the test of the parent
                            acts = [a for _, ac in paths(ast, T.l0) for a in ac]
                            if len(acts) != 1 or acts[0][0] != "st":
                                raise ValueError("a leaf prints %d statements" % len(acts))
                            e, d = leaf_call(acts[0])
                            drvs.add(d)
                            report("tree leaf", "a leaf unpacks the frame of its range", holds(ff, eq0(e - l)) and holds(ff, eq0(h - l - 1)), wf, shown)
                            if started:
                                continue
                        i = Lin.of(L.sym(("in", "i"), 0, 2 ** 30))
                        fi = ff.copy()
                        fi.assume(ge0(i - l))
                        fi.assume(ge0(h - i - 1))
                        for g2, acts in paths(ast, i):
                            n["paths"] += 1
                            if not sat_under(fi, g2):
                                continue
                            fp = fi.copy()
                            fp.assume(g2)
                            key = "mapped identifier"
                            rule = "an identifier of the list reaches exactly its own frame's unpack call"
                            if len(acts) != 1:
                                report(key, rule, False, wf, "%d actions for some identifier of the list in: %s" % (len(acts), shown))
                            elif acts[0][0] == "sub":
                                k = acts[0][1]
                                ok = holds(fp, ge0(i - k[1])) and holds(fp, ge0(k[2] - i - 1))
                                report(key, rule, ok, wf, "an identifier is searched in the wrong part of the list: %s" % shown)
                            else:
                                e, d = leaf_call(acts[0])
                                drvs.add(d)
                                report(key, rule, holds(fp, eq0(e - i)), wf, "the call belongs to another identifier: %s" % shown)
                        for g2, acts in paths(ast, None):
                            n["paths"] += 1
                            if not sat_under(ff, g2):
                                continue
                            key = "unmapped identifier"
                            rule = "an identifier that is not in the list reaches no unpack call"
                            bad = [a for a in acts if a[0] == "st"]
                            report(key, rule, not bad, wf, "unpack called without a test for equality: %s" % shown)
                    except ValueError as x:
                        report("tree code", "the printed code dispatches by identifier", False, wf, "%s in: %s" % (x, shown))
    return n, drvs, balanced


def c10_tree(c):
    T = Tree(c.g.P)
    n, drvs, bal = decide(T, lambda key, rule, ok, where, why="": c.ob("dispatch " + key, rule, ok, where, why) if rule.startswith("the printed code is") else None)
    c.need(n["codes"], "printed forms of dispatch tree nodes", 4)
    for k, v in n.items():
        c.count("dispatch tree " + k, v)
