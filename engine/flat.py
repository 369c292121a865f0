"""Text templates as guarded lines: every line a template can produce, with the condition under which it is
produced and the loops that repeat it."""
from .values import *
from . import lin as L
from .lin import Facts, f_and, f_not, f_or
from .model import AnalysisBroken


class Line:
    __slots__ = ("guard", "loops", "segs", "i", "ctx", "toks")

    def __init__(self, guard, loops, segs):
        self.guard, self.loops, self.segs = guard, loops, segs
        self.toks = None
        self.ctx = ()

    def __repr__(self):
        return "%s%s | %s" % ("  " * len(self.loops), fshow(self.guard)[:100], show_segs(self.segs))


def show_segs(segs):
    out = []
    for g in segs:
        t = g[0]
        if t == "L":
            out.append(g[1])
        elif t == "H":
            out.append("«%s»" % short(g[1]))
        elif t == "N":
            out.append("«%s %s»" % (g[1], short(g[2])))
        elif t == "F":
            out.append("«%s*»" % (chr(g[2].c) if isinstance(g[2], Lin) and g[2].is_const() else "?"))
        elif t == "R":
            out.append("«rep %s: %s»" % (short(g[3]), show_segs(g[4].segs)))
        elif t == "I":
            out.append("«if %s: %s | %s»" % (short(g[1]), show_segs(g[2].segs), show_segs(g[3].segs)))
        elif t == "T":
            out.append("«tab %s»" % short(g[2]))
        elif t == "C":
            out.append("«chr %s»" % short(g[1]))
        else:
            out.append("«%s»" % short(g))
    return "".join(out)


def short(k, n=70):
    if isinstance(k, tuple) and len(k) == 3 and k[0] == "fld":
        b = k[1]
        if isinstance(b, tuple) and b[0] == "*":
            b = b[1]
        if isinstance(b, tuple) and b[0] == "at":
            return "%s[].%s" % (short(b[1]).split(".")[-1], k[2])
        return "%s.%s" % (short(b), k[2])
    s = vshow(k) if not (isinstance(k, tuple) and k and k[0] in ("a", "not", "and", "or")) else fshow(k)
    return s if len(s) <= n else s[:n] + "…"


def has_nl(segs):
    for g in segs:
        t = g[0]
        if t == "L" and "\n" in g[1]:
            return True
        if t == "I" and (has_nl(g[2].segs) or has_nl(g[3].segs)):
            return True
        if t == "R" and has_nl(g[4].segs):
            return True
    return False


class Flat:
    def __init__(self):
        self.lines = []

    def run(self, s, guard=True):
        f = Facts()
        f.assume(guard)
        open_ = [(guard, ())]
        open_ = self.segs(s.segs, open_, guard, (), f)
        for g, segs in open_:
            if segs:
                self.lines.append(Line(g, (), segs))
        for i, l in enumerate(self.lines):
            l.i = i
        return self.lines

    def emit(self, open_, loops):
        # identical texts under different conditions are one line
        groups = []
        for g, segs in open_:
            for x in groups:
                if x[1] == segs:
                    x[0] = f_or(x[0], g)
                    break
            else:
                groups.append([g, segs])
        for g, segs in groups:
            self.lines.append(Line(g, loops, segs))

    def add(self, open_, seg):
        return [(g, join(segs, seg)) for g, segs in open_]

    def segs(self, segs, open_, guard, loops, facts):
        for g in segs:
            t = g[0]
            if t == "L" and "\n" in g[1]:
                parts = g[1].split("\n")
                for p in parts[:-1]:
                    if p:
                        open_ = self.add(open_, ("L", p))
                    self.emit(open_, loops)
                    open_ = [(guard, ())]
                if parts[-1]:
                    open_ = self.add(open_, ("L", parts[-1]))
            elif t == "I":
                c = facts.simp(g[1])
                if c is True:
                    open_ = self.segs(g[2].segs, open_, guard, loops, facts)
                elif c is False:
                    open_ = self.segs(g[3].segs, open_, guard, loops, facts)
                elif not has_nl((g,)):
                    # stays inside the line
                    open_ = self.add(open_, simp_seg(g, facts))
                else:
                    res = []
                    for cc, b in ((c, g[2]), (f_not(c), g[3])):
                        ff = facts.copy()
                        ff.assume(cc)
                        op = []
                        for og, os in open_:
                            z = ff.simp(og)
                            z = f_and(cc, og)
                            if z is not False and ff.ask(og) is not False:
                                op.append((z, os))
                        if ff.contradiction or not op:
                            continue
                        res += self.segs(b.segs, op, f_and(guard, cc), loops, ff)
                    # the rest of the line is common to both
                    open_ = []
                    for og, os in res:
                        for x in open_:
                            if x[1] == os:
                                x[0] = f_or(x[0], og)
                                break
                        else:
                            open_.append([og, os])
                    open_ = [tuple(x) for x in open_]
                    if len(open_) > 4096:
                        raise AnalysisBroken("a line of the output has more than 4096 forms")
            elif t == "R" and has_nl(g[4].segs):
                lid, k, n, body = g[1], g[2], g[3], g[4]
                ff = facts.copy()
                ff.set_range(tuple((n - k - 1).t), -(n - k - 1).c, L.INF) if (n - k - 1).t else None
                ff.assume(ge0(n - k - 1))
                if any(os for _, os in open_):
                    # a repetition that starts inside a line: rotate it so that it starts at a line start
                    body2, pre = rotate(body.segs, open_)
                    if body2 is None:
                        raise AnalysisBroken("a repetition of lines starts inside a line: %s" % show_segs(open_[0][1]))
                    raise AnalysisBroken("rotated repetition")
                op = self.segs(body.segs, [(guard, ())], guard, loops + ((lid, k, n),), ff)
                if any(os for _, os in op):
                    raise AnalysisBroken("a repetition of lines ends inside a line: %s" % show_segs(op[0][1]))
                open_ = [(guard, ())]
            else:
                open_ = self.add(open_, g)
        return open_


def simp_seg(g, facts):
    """an inline alternative under what is known here"""
    if g[0] != "I":
        return g
    c = facts.simp(g[1])
    out = []
    for cc, b in ((c, g[2]), (f_not(c), g[3])):
        if cc is False:
            out.append(EMPTY)
            continue
        ff = facts.copy()
        ff.assume(cc)
        segs = []
        for x in b.segs:
            if x[0] == "I":
                y = ff.simp(x[1])
                if y is True or y is False:
                    for z in (x[2] if y else x[3]).segs:
                        segs.append(simp_seg(z, ff))
                    continue
            segs.append(simp_seg(x, ff))
        out.append(mkstr(segs))
    if c is True or c is False:
        return ("I", c, out[0], out[1])
    return ("I", c, out[0], out[1])


def forms(segs, guard, stop=None):
    """the alternatives of a line: (guard, segs without inline alternatives); text behind the literal `stop`
    is not expanded"""
    done = []
    todo = [(guard, (), tuple(segs))]
    while todo:
        g, pre, rest = todo.pop()
        while rest:
            h, rest = rest[0], rest[1:]
            if h[0] == "I":
                f = Facts()
                f.assume(g)
                c = f.simp(h[1])
                alts = []
                if c is not False:
                    alts.append((f_and(g, c), pre, h[2].segs + rest))
                if c is not True:
                    alts.append((f_and(g, f_not(c)), pre, h[3].segs + rest))
                if len(alts) == 1:
                    rest = alts[0][2]
                    continue
                todo += alts[::-1]
                pre = None
                break
            pre = join(pre, h)
            if stop and h[0] == "L" and pre[-1][0] == "L" and stop in pre[-1][1]:
                for x in rest:
                    pre = join(pre, x)
                rest = ()
        if pre is not None:
            done.append((g, pre))
        if len(done) + len(todo) > 4096:
            raise AnalysisBroken("a line of the output has more than 4096 forms: %s" % show_segs(segs)[:200])
    return done


def rotate(segs, open_):
    return None, None


def join(segs, g):
    if g[0] == "L" and segs and segs[-1][0] == "L":
        return segs[:-1] + (("L", segs[-1][1] + g[1]),)
    return segs + (g,)


def lines(s, guard=True):
    return Flat().run(s, guard)
