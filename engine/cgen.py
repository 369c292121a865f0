"""C-level view of a generated file: every code line with its guard (what in the message list and the options makes
the generator print it), its preprocessor context, and its nesting.  Errors of the nesting are collected."""
import re
from .values import *
from . import lin as L
from . import flat
from .out import Namer
from .lin import Facts, f_and, f_not, f_or
from .model import AnalysisBroken


class Entry:
    """code on one line: guard (formula), pp (tuple of conditions in force), loops, code (canonical text),
    nest (brackets open at its start)"""
    __slots__ = ("guard", "pp", "loops", "code", "comment", "line", "nest", "i", "segs", "csegs", "block")

    def __repr__(self):
        return "%s%s   {%s} [%s]" % ("  " * len(self.loops), self.code, self.guard if isinstance(self.guard, bool) else "…", ",".join(self.pp))


def conj(f):
    if f is True:
        return frozenset()
    if isinstance(f, tuple) and f[0] == "and":
        return frozenset(f[1])
    return frozenset((f,))


def merge_or(a, b):
    """a or b, with common conjuncts taken out"""
    if a == b:
        return a
    x, y = conj(a), conj(b)
    c = x & y
    r = f_or(f_and(*(x - c)), f_and(*(y - c)))
    r = tauto(r)
    return f_and(r, *c)


def atoms(f, out=None):
    if out is None:
        out = set()
    if isinstance(f, tuple):
        if f[0] == "a":
            out.add(f)
        elif f[0] == "not":
            atoms(f[1], out)
        else:
            for x in f[1]:
                atoms(x, out)
    return out


def ev(f, env):
    if f is True or f is False:
        return f
    if f[0] == "a":
        return env[f]
    if f[0] == "not":
        return not ev(f[1], env)
    if f[0] == "and":
        return all(ev(x, env) for x in f[1])
    return any(ev(x, env) for x in f[1])


def sat(f, limit=200000):
    """is the formula satisfiable?  Decides by splitting on atoms with the arithmetic facts of each branch."""
    if f is True or f is False:
        return f
    n = [0]

    def rec(f, facts):
        n[0] += 1
        if n[0] > limit:
            raise AnalysisBroken("condition too large")
        f = facts.simp(f)
        if f is True or f is False:
            return f
        a = pick(f)
        for v in (a, f_not(a)):
            ff = facts.copy()
            ff.assume(v)
            if ff.contradiction:
                continue
            if rec(f, ff):
                return True
        return False
    return rec(f, Facts())


def pick(f):
    while f[0] != "a":
        if f[0] == "not":
            f = f[1]
        else:
            f = min(f[1], key=lambda x: 0 if x[0] == "a" else 1)
    return f


def implies(a, b):
    return not sat(f_and(a, f_not(b)))


def equiv(a, b):
    return a == b or (implies(a, b) and implies(b, a))


def tauto(f):
    if isinstance(f, tuple) and len(atoms(f)) <= 12 and not sat(f_not(f)):
        return True
    return f


TOK = re.compile(r"""\s+|(?P<id>(?:[A-Za-z_]|«[^»]*»)(?:[A-Za-z0-9_]|«[^»]*»)*)|(?P<num>[0-9](?:[A-Za-z0-9.]|«[^»]*»)*)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<chr>'(?:[^'\\]|\\.)*')|(?P<op>->|\+\+|--|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||\|=|&=|\+=|-=|\^=|.)""", re.S)


def tokens(code):
    out = []
    for m in TOK.finditer(code):
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


def strip_str(code):
    return re.sub(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'', '""', code)


class State:
    __slots__ = ("guard", "block", "pp", "nest")

    def __init__(self, guard, block, pp, nest):
        self.guard, self.block, self.pp, self.nest = guard, block, pp, nest

    def key(self):
        return (self.block, self.pp, self.nest)


OPEN = {"(": ")", "{": "}", "[": "]"}
CLOSE = {v: k for k, v in OPEN.items()}


class CFile:
    def __init__(self, f):
        self.f = f
        self.entries = []
        self.errors = []        # (line, message)
        self.holes_in_comment = []
        self._namers = {}
        self.run()

    def err(self, line, msg, guard=None):
        for l, m, _ in self.errors:
            if l is line and m == msg:
                return
        self.errors.append((line, msg, guard))

    def namer(self, loops):
        k = tuple(l[0] for l in loops)
        n = self._namers.get(k)
        if n is None:
            n = self._namers[k] = Namer(self.f.loops + tuple(loops))
        return n

    def run(self):
        st = [State(True, False, (), ())]
        st = self.seq(self.f.lines, st, 0)
        last = self.f.lines[-1] if self.f.lines else None
        for s in st:
            if s.block:
                self.err(last, "a block comment is still open at the end of the file", s.guard)
            if s.pp:
                self.err(last, "%d preprocessor conditional(s) still open at the end of the file: %s" % (len(s.pp), s.pp[-1][0]), s.guard)
            if s.nest:
                self.err(last, "bracket '%s' still open at the end of the file" % s.nest[-1][0], s.guard)
        for i, e in enumerate(self.entries):
            e.i = i

    # ---- sequence of lines at one loop depth
    def seq(self, lines, states, depth):
        i = 0
        while i < len(lines):
            l = lines[i]
            if len(l.loops) > depth:
                lid = l.loops[depth][0]
                j = i
                while j < len(lines) and len(lines[j].loops) > depth and lines[j].loops[depth][0] == lid:
                    j += 1
                body = lines[i:j]
                entry = states
                out = self.seq(body, states, depth + 1)
                ek = {s.key() for s in entry}
                for s in out:
                    if s.key() not in ek:
                        # which kind of imbalance
                        e = entry[0]
                        what = "a block comment" if s.block != e.block else "a preprocessor conditional" if s.pp != e.pp else "brackets"
                        self.err(body[-1], "the repeated part that starts with '%s' does not leave %s balanced" % (self.show(body[0])[:60], what), s.guard)
                # one iteration must have no net effect: go on with the entry states
                states = entry
                i = j
                continue
            states = self.line(l, states)
            i += 1
        return states

    def show(self, line):
        return self.namer(line.loops).text(line.segs)

    def line(self, l, states):
        res = {}

        def put(s):
            k = s.key()
            if k in res:
                res[k].guard = merge_or(res[k].guard, s.guard)
            else:
                res[k] = s
        for s in states:
            # no split where the line has no effect
            outs = []
            for fg, segs in flat.forms(l.segs, True, "//" if not s.block else None):
                for o in self.effect(l, s, fg, segs):
                    outs.append((fg, o))
            eff = {o.key() for _, o in outs}
            if eff == {s.key()}:
                put(State(s.guard, s.block, s.pp, s.nest))
                continue
            absent = f_and(s.guard, f_not(l.guard))
            if absent is not False and sat(absent):
                put(State(absent, s.block, s.pp, s.nest))
            for fg, o in outs:
                g = f_and(s.guard, l.guard, fg)
                if g is not False and sat(g):
                    put(State(g, o.block, o.pp, o.nest))
        return list(res.values())

    def effect(self, l, s, fg, segs):
        """one form of a line in one state"""
        nm = self.namer(l.loops)
        g = f_and(s.guard, l.guard, fg)
        if g is False or not sat(g):
            return []
        block = s.block
        code, comment = [], []
        cur = comment if block else code
        mode = "block" if block else "code"
        instr = None
        for x in segs:
            if x[0] != "L":
                cur.append(x)
                continue
            t = x[1]
            p = 0
            buf = ""
            while p < len(t):
                two = t[p:p + 2]
                if mode == "code":
                    if instr:
                        if t[p] == "\\":
                            buf += two
                            p += 2
                            continue
                        if t[p] == instr:
                            instr = None
                    elif t[p] in "\"'":
                        instr = t[p]
                    elif two == "//":
                        if buf:
                            cur.append(("L", buf))
                        buf = ""
                        cur = comment
                        mode = "line"
                        p += 2
                        continue
                    elif two == "/*":
                        if buf:
                            cur.append(("L", buf))
                        buf = ""
                        cur = comment
                        mode = "block"
                        p += 2
                        continue
                elif mode == "block" and two == "*/":
                    if buf:
                        cur.append(("L", buf))
                    buf = ""
                    cur = code
                    code.append(("L", " "))
                    mode = "code"
                    p += 2
                    continue
                buf += t[p]
                p += 1
            if buf:
                cur.append(("L", buf))
        text = nm.text(flatjoin(code)).strip()
        ctext = nm.text(flatjoin(comment)).strip()
        e = Entry()
        e.guard, e.loops, e.code, e.comment, e.line = f_and(s.guard, l.guard, fg), l.loops, text, ctext, l
        e.pp = tuple(c for c, _ in s.pp)
        e.nest = s.nest
        e.segs, e.csegs = code, comment
        e.block = s.block
        nb = mode == "block"
        pp, nest = s.pp, s.nest
        if mode == "line" and comment and comment[-1][0] == "L" and comment[-1][1].endswith("\\"):
            self.err(l, "a line comment ends with a backslash", g)
        if text.startswith("#") and not s.block:
            d = re.match(r"#\s*([a-z]+)\s*(.*)$", text, re.S)
            if d is None:
                self.err(l, "malformed directive: %s" % text, g)
                return []
            w, rest = d.group(1), d.group(2).strip()
            if w in ("ifdef", "ifndef", "if"):
                if not rest:
                    self.err(l, "#%s without a condition" % w, g)
                if w != "if" and len(tokens(rest)) != 1:
                    self.err(l, "text after #%s %s" % (w, rest), g)
                c = {"ifdef": rest, "ifndef": "!" + rest, "if": "(" + rest + ")"}[w]
                pp = pp + ((c, False),)
            elif w in ("else", "elif"):
                if not pp:
                    self.err(l, "#%s without #if" % w, g)
                    return []
                c, el = pp[-1]
                if el:
                    self.err(l, "second #else", g)
                if w == "elif":
                    raise AnalysisBroken("#elif is not modelled")
                pp = pp[:-1] + ((neg(c), True),)
            elif w == "endif":
                if not pp:
                    self.err(l, "#endif without #if", g)
                    return []
                pp = pp[:-1]
            elif w in ("define", "include", "error", "pragma", "undef", "warning", "line"):
                t = strip_str(rest)
                if w == "define" and self.brackets(t, ()) != ():
                    self.err(l, "unbalanced brackets in the macro %s" % rest[:60], g)
            else:
                self.err(l, "unknown directive #%s" % w, g)
            self.add(e)
            return [State(s.guard, nb, pp, nest)]
        if text:
            self.add(e)
            if text.endswith("\\"):
                self.err(l, "code line ends with a backslash", g)
            if instr:
                self.err(l, "unterminated literal", g)
            ctx = frozenset(c for c, _ in s.pp)
            r = self.brackets(strip_str(text), nest, ctx)
            if r is None:
                self.err(l, "unbalanced bracket in: %s" % text[:80], g)
            else:
                nest = r
        elif comment:
            self.add(e)
        return [State(s.guard, nb, pp, nest)]

    def brackets(self, text, nest, ctx=frozenset()):
        for k, t in tokens(text):
            if k != "op":
                continue
            if t in OPEN:
                nest = nest + ((t, ctx),)
            elif t in CLOSE:
                if not nest or nest[-1] != (CLOSE[t], ctx):
                    return None
                nest = nest[:-1]
        return nest

    def add(self, e):
        for x in reversed(self.entries[-12:]):
            if x.line is e.line and x.pp == e.pp and x.code == e.code and x.comment == e.comment and x.nest == e.nest:
                x.guard = merge_or(x.guard, e.guard)
                return
        self.entries.append(e)

    # ---- queries
    def find(self, rx, pp=None):
        r = re.compile(rx)
        out = []
        for e in self.entries:
            m = r.match(e.code)
            if m and (pp is None or e.pp == pp):
                out.append((e, m))
        return out


def neg(c):
    return c[1:] if c.startswith("!") else "!" + c


def flatjoin(segs):
    out = ()
    for g in segs:
        out = flat.join(out, g)
    return out
