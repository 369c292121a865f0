"""No input can crash the generator: obligations of memory, container and exception safety on every path."""
from . import interp, lib, genrun, model, lin as L
from . import values as VV
from .values import *
from .lin import Lin, Facts, f_and, f_or, f_not, f_atoms, Sym, sym
from .model import AnalysisBroken, rel
from .c_eff import reg, CHECKS, OUT, DRV, DBC, arg_run
from .cgen import sat
from .c_sig import find_fn, Layout, orders
from .interp import DELETED, phi_leaves
from . import c_eff
CHECKS = {}

WHAT = {
    "obl:index": "an element is accessed only where it exists",
    "obl:null": "a pointer is followed only where it refers to an object",
    "obl:null element": "a list of pointers holds only pointers to objects",
    "obl:use-after-free": "an object is not used after it was deleted",
    "obl:free": "only an allocated object is deleted",
    "obl:throw": "a call that can throw gets arguments for which it doesn't",
    "throw": "no exception leaves the program",
    "obl:format": "a format directive has its argument",
    "obl:uninit": "a variable is read only after it was written",
    "obl:unbounded": "a text is not written without a bound",
    "obl:div0": "a divisor is not zero",
    "obl:recursion": "a recursive call gets a smaller part of the valid input",
    "obl:buffer": "a write into a buffer is bounded by its size",
}
DEPTH = 10


# ------------------------------------------------------------ proofs
def prove(facts, goal, depth=DEPTH, done=frozenset()):
    done = set(done)
    while True:
        if facts.contradiction:
            return True
        g = facts.simp(goal)
        if g is True:
            return True
        if not lemmas(facts, [goal], done):
            break
    if depth == 0:
        return False
    for a in f_atoms(g):
        if facts.ask(a) is None:
            break
    else:
        return False
    for v in (a, f_not(a)):
        f = facts.copy()
        f.assume(v)
        if not f.contradiction and not prove(f, goal, depth - 1, done):
            return False
    return True


def sym_ids(x, out):
    if isinstance(x, Lin):
        for i, _ in x.t:
            if i not in out:
                out.add(i)
                sym_ids(Sym.byid[i].key, out)
    elif isinstance(x, (tuple, list)):
        if len(x) == 3 and x[0] in ("ge", "eq") and isinstance(x[1], tuple):
            for t in x[1]:
                if isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], int) and t[0] not in out:
                    out.add(t[0])
                    if t[0] < len(Sym.byid):
                        sym_ids(Sym.byid[t[0]].key, out)
            return
        for y in x:
            sym_ids(y, out)


def lemmas(f, forms, done):
    """what the symbols of a formula mean"""
    ids = set()
    for x in forms:
        sym_ids(x, ids)
    n = 0
    for i in sorted(ids):
        s = Sym.byid[i] if i < len(Sym.byid) else None
        k = s.key if s is not None else None
        if not isinstance(k, tuple) or not k or (i in done):
            continue
        if k[0] == "first" and isinstance(k[2], Lin):
            # the first turn that leaves a loop is one of its turns, if one leaves it
            if f.ask(("a", ("ex", ("bv", 0), k[2], k[1]))) is True or any(v is True and a[0] == "ex" and a[2] == k[2] and a[3] == k[1] for a, v in known(f)):
                f.assume(ge0(k[2] - Lin.of(s) - 1))
                f.assume(ge0(Lin.of(s)))
                done.add(i)
                n += 1
        elif k[0] == "cast" and isinstance(k[-1], Lin):
            lo, hi = (0, 2 ** k[1] - 1) if not k[2] else (-2 ** (k[1] - 1), 2 ** (k[1] - 1) - 1)
            if f.ask(ge0(k[-1] - lo)) is True and f.ask(ge0(Lin(hi) - k[-1])) is True:
                f.assume(eq0(Lin.of(s) - k[-1]))
                done.add(i)
                n += 1
    return n


def known(f):
    for a, v in f.at.items():
        yield (a[1] if isinstance(a, tuple) and a and a[0] == "a" else a), v


def holds(e, goal, extra=()):
    f = Facts()
    for l in e.loops:
        f.assume(ge0(l[1]))
        if isinstance(l[2], Lin):
            f.assume(ge0(l[2] - l[1] - 1))
    for c in extra:
        f.assume(c)
    for c in e.pc:
        f.assume(c)
    return prove(f, goal)


def elements_exist(f):
    """lists of pointers hold no null (checked where they are filled)"""
    out = []
    for a in f_atoms(f):
        if a[1][0] == "isnull" and isinstance(a[1][1], tuple) and a[1][1] and a[1][1][0] in ("at", "elem"):
            out.append(f_not(a))
    return out


def is_obl(e):
    return e.kind in WHAT


def opened(I, extra=(), elements=True, evs=None):
    out = []
    for e in I.events if evs is None else evs:
        if not is_obl(e):
            continue
        f = e.data[0]
        if isinstance(f, tuple):
            x = elements_exist(f) if elements else []
            for p in e.pc:
                x += elements_exist(p) if elements else []
            if holds(e, f, tuple(extra) + tuple(x)):
                continue
        out.append(e)
    return out


# ------------------------------------------------------------ one function for all arguments
class Alone:
    """functions interpreted for arbitrary arguments and an arbitrary own object"""
    def __init__(self, P):
        self.P, self.memo, self.runs, self.fns, self.obl = P, {}, 0, set(), 0
        self.notes, self.ended = {}, {}

    def run(self, fn, force=None, hooks=()):
        P = self.P
        I = genrun.start(P)
        I.force = force or {}
        for f, h in hooks:
            I.hooks[f] = h
        st = interp.St()
        this = None
        cls = fn.get("cls")
        if cls in P.recs and fn.get("method", True):
            st.cells[("h", "this")] = Obj(cls, ("*", ("in", "this")), {})
            this = (("h", "this"), ())
        args = []
        for i, p in enumerate(fn["params"]):
            ty = p["ty"]
            r = ("h", "a%d" % i)
            if ty["t"] in ("ref", "ptr") and ty["to"].get("name", "").startswith("std::basic_i"):
                st.cells[r] = lib.new_stream("std::basic_istream")
                args.append(Ref((r, ())))
            elif ty["t"] == "ref":
                st.cells[r] = I.mk(ty["to"], ("in", p["name"]))
                args.append(Ref((r, ())))
            elif ty["t"] == "ptr" and ty["to"]["t"] == "rec":
                st.cells[r] = I.mk(ty["to"], ("in", p["name"]))
                args.append(Ptr((r, ())))
            else:
                args.append(I.mk(ty, ("in", p["name"])))
        self.runs += 1
        r = I.run(fn, st, this, args)
        self.fns |= I.stats["fns"]
        return I

    def split(self, fn, force, depth, hooks=(), elements=True):
        """open obligations; tests whose outcome an open obligation depends on are decided one way and the other"""
        I = self.run(fn, force, hooks)
        if not force:
            self.first, self.leaf_loops = I, {}
        out = opened(I, (), elements)
        if not out or not depth:
            # the loops of one case of the distinction
            for e, ok, turns, read in loops_of(I):
                k = (e.file, e.line)
                if k not in self.leaf_loops or not ok and not read:
                    self.leaf_loops[k] = (e, ok, turns, read)
            return out
        for e in out:
            if not isinstance(e.data[0], tuple):
                continue
            at = list(f_atoms(e.data[0]))
            for q in e.pc:
                if isinstance(q, tuple) and q[0] in ("or", "and", "not"):
                    at += [a for a in f_atoms(q) if a not in at]
            ks = [l[0] if isinstance(l[0], int) else l[1].t[0][0] for l in e.loops]
            for a in at:
                s = vshow(a)
                if s in force or any(VV.mentions(a, k) for k in ks):
                    continue
                for v in (True, False):
                    r = self.split(fn, dict(force, **{s: v}), depth - 1, hooks, elements)
                    if r:
                        return r
                return []
        return out

    def proved(self, key):
        """does nothing in the function (and what it calls) depend on its caller?"""
        self.try_alone(key)
        return self.memo[key]

    def try_alone(self, key):
        if key not in self.memo:
            fn = self.P.fns.get(key)
            self.memo[key] = False
            self.ended[key] = {}
            if fn is not None and fn.get("body") and weight(self.P, key, set()) <= 350:
                try:
                    self.memo[key] = not self.split(fn, {}, 5)
                    self.ended[key] = {k: x[1] for k, x in self.leaf_loops.items()}
                except AnalysisBroken as ex:
                    self.notes[key] = str(ex)[:120]

    def loop_ends(self, key, e):
        self.try_alone(key)
        return self.ended[key].get((e.file, e.line), False)


def weight(P, k, seen):
    """size of a function with what it calls"""
    if k in seen or k not in P.fns or not P.fns[k].get("body"):
        return 0
    seen.add(k)
    n = [0]

    def v(x):
        n[0] += 1
    model.walk(P.fns[k]["body"], v)
    return n[0] + sum(weight(P, x, seen) for x in interp.callees(P.fns[k]))


# ------------------------------------------------------------ summaries of the line parser
def fields_of(P, fn, seen=None):
    """names of members mentioned by the function and what it calls"""
    seen = set() if seen is None else seen
    if fn["key"] in seen or not fn.get("body"):
        return set()
    seen.add(fn["key"])
    out = set()

    def v(n):
        if n["k"] == "Member":
            out.add(n["field"])
    model.walk(fn["body"], v)
    for k in interp.callees(fn):
        if k in P.fns:
            out |= fields_of(P, P.fns[k], seen)
    return out


def summary(fn):
    """any effect the function's type allows: what it may write is unknown afterwards"""
    def h(I, st, f, this, args, e):
        key = ("hv", fn["name"], I.nodeid(e) if e else 0, tuple(l[1] for l in I.loops))
        names = fields_of(I.prog, fn)
        if fn.get("cls") in I.prog.recs and this is not None:
            for x in I.prog.recs[fn["cls"]]["fields"]:
                I.write(st, I.sub(this, ("f", x["name"])), I.mk(x["ty"], (key, "this", x["name"])))
        for p, a in zip(fn["params"], args):
            ty = p["ty"]
            if ty["t"] not in ("ref", "ptr") or ty["to"].get("const") or ty.get("const"):
                continue
            loc = a.loc if isinstance(a, Ref) else I.deref(st, a, e)
            to = ty["to"]
            if to["t"] == "rec" and to["name"] in I.prog.recs:
                for x in I.prog.recs[to["name"]]["fields"]:
                    if x["name"] in names:
                        I.write(st, I.sub(loc, ("f", x["name"])), I.mk(x["ty"], (key, p["name"], x["name"])))
            else:
                I.write(st, loc, I.mk(to, (key, p["name"])))
        return None if fn["ret"]["t"] == "void" else I.mk(fn["ret"], (key, "ret"))
    return h


def reachable(P, root):
    seen, todo = set(), [root]
    while todo:
        k = todo.pop()
        if k in seen or k not in P.fns:
            continue
        seen.add(k)
        todo += list(interp.callees(P.fns[k]))
    return seen


# ------------------------------------------------------------ report
# what depends on the pointers a function gets is decided where it is called
CALLER = ("obl:recursion", "obl:null", "obl:null element", "obl:use-after-free", "obl:free", "obl:uninit", "throw")


class Report:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.alone = Alone(P)
        self.fns = set()

    def unit(self, name, I, extra=(), rule="every obligation of the interpretation holds", where="", out=None, lp=None):
        """the obligations of one interpretation"""
        c = self.c
        # the symbols of the interpretation are gone when another one starts
        out = opened(I, extra) if out is None else out
        lp = loops_of(I) if lp is None else lp
        why = {id(e): "needs %s" % brief(e.data[0])[:300] if isinstance(e.data[0], tuple) else brief(e.data[1])[:200] for e in out}
        self.fns |= I.stats["fns"]
        c.count("interpretations")
        c.count("obligations on paths", I.stats["obl"])
        left = []
        for e in out:
            if e.kind not in CALLER and any(self.alone.proved(k) for k in self.chain(e)):
                c.count("obligations discharged by the function alone")
                continue
            left.append(e)
        for e in left:
            c.ob("%s: %s" % (e.fn, e.kind.split(":")[-1]), WHAT[e.kind], False, e.where(), why[id(e)])
        c.ob(name, rule, not left, where, "; ".join(sorted({"%s at %s" % (WHAT[e.kind], e.where()) for e in left}))[:300])
        self.loops(lp)

    def chain(self, e):
        """keys of the functions the event lies in, innermost first"""
        out = []
        for x in reversed(e.stack):
            if isinstance(x[0], dict) and x[0]["key"] not in out:
                out.append(x[0]["key"])
        return out

    def loops(self, lp):
        for e, ok, turns, read in lp:
            self.c.count("loops")
            if not ok and read:
                # every turn takes a line of the file
                ok = True
                self.c.count("loops that end with the file")
            if not ok:
                ok = any(self.alone.loop_ends(k, e) for k in self.chain(e))
            self.c.ob("loop in " + e.fn, "every loop makes progress to an end", ok, e.where(), "turns: " + turns)


def loops_of(I):
    reads = {l[0] for e in I.events if e.kind == "getline" for l in e.loops}
    return [(e, ends(e) or counts(I, e), brief(e.data[0])[:200], bool(e.loops) and e.loops[-1][0] in reads) for e in I.events if e.kind == "loop"]


def ends(e):
    """is the number of turns determined when the loop starts?"""
    trip, lid = e.data[0], e.data[2]
    return isinstance(trip, Lin) and not any(unbound(Sym.byid[i].key, lid) for i, _ in trip.t)


def counts(I, e):
    """a growing counter below the size of lists that the loop doesn't change"""
    _, rest, lid, kid, grow = e.data
    if any(v is True and k[-1] == "end" for k, v in grow.items()):
        return True
    for g in rest[1] if isinstance(rest, tuple) and rest[0] == "and" else (rest,):
        up, t = upper(g)
        names = set()
        for i, co in t.items():
            s = Sym.byid[i]
            k = s.key
            if co * up > 0 and (i == kid or k[0] == "cy" and k[1] == lid and grow.get(k[2]) is True):
                names.add(None)        # the counter
            elif k[0] == "size" and co * up < 0 and carried_field(k[1]):
                names.add(carried_field(k[1]))
            elif VV.mentions(Lin.of(s), kid):
                names = set()
                break
        if None in names and not any(x.kind == "vmut" and x.data[0] in names and any(l[0] == lid for l in x.loops) for x in I.events):
            return True
    return False


def upper(g):
    """(sign, coefficients): the test holds while sign * sum is below a bound"""
    if isinstance(g, tuple) and g and g[0] == "not" and g[1][0] == "a" and g[1][1][0] == "ge":
        return 1, dict(g[1][1][1])
    if isinstance(g, tuple) and g and g[0] == "a" and g[1][0] == "ge":
        return -1, dict(g[1][1])
    return 1, {}


def carried_field(k):
    """name of the list whose value at a turn of the loop the key stands for"""
    while isinstance(k, tuple) and k and k[0] == "cy":
        loc = k[2] if len(k) > 2 else None
        if isinstance(loc, tuple) and len(loc) == 2 and isinstance(loc[1], tuple) and loc[1] and isinstance(loc[1][-1], tuple) and loc[1][-1][0] == "f":
            return loc[1][-1][1]
        k = k[1]
    return None


def unbound(k, lid):
    return isinstance(k, tuple) and bool(k) and (k[0] == "inf" or k[0] == "trip" and k[1] == lid)


# ------------------------------------------------------------ the check
@reg("C15")
def c15(c):
    """Every function reachable from main is interpreted abstractly on all paths: file lines, descriptors and options are symbols;
    accesses, dereferences, deletions, conversions that throw, buffer writes and loops give obligations that follow from what is
    known on the path. The line parsers are proved for arbitrary arguments and replaced by 'anything' in the scanner."""
    g = c.g
    P = g.P
    R = Report(c, P)
    # the generation run, with the options the gate lets through and any message list (other runs start new symbols)
    gate = [ge0(str_len(hole(k)) - 1) for k in (OUT, DRV, DBC)]
    I = g.I
    out = opened(I, gate)
    kept(c, [I.events])
    first_trees(c, I)
    use = regexes(I)
    R.unit("GenerateCode", I, out=out)
    scanner(c, R, P, use)
    sigs(c, R, P)
    trees(c, R, P)
    entry(c, R, P)
    cover(c, R, P)
    for k, e in use.items():
        c.ob(k, "a text of unlimited length isn't matched by a recursive matcher", False, e.where(), "std::regex needs stack for every character")
    c.assumes("memory is sufficient, texts are shorter than 2^31",
              "the C library and iostreams behave as specified",
              "conversions from floating point to integer are not part of this statement")


def own(fn):
    return fn.get("body") and "tests" not in (fn.get("file") or "")


def scanner(c, R, P, use):
    """the line parsers for every line; the scanner around them for every result"""
    line = [f for f in P.fns.values() if f.get("cls") == "DbcLineParser" and own(f) and not f.get("ctor")]
    c.need(len(line), "line parser functions", 6)
    for fn in line:
        out = R.alone.split(fn, {}, 6)
        R.unit(fn["name"], R.alone.first, (), "every obligation holds for every line and every state of the parser", rel(fn["file"]), out, list(R.alone.leaf_loops.values()))
        for k, e in regexes(R.alone.first).items():
            use.setdefault(k, e)
    hooks = [(f["key"], summary(f)) for f in line]
    phases = []
    for n in ("ParseMessageInfo", "ParseOtherInfo"):
        fn = P.fn("DbcScanner::" + n)
        I = R.alone.run(fn, {}, hooks)
        phases.append(I.events)
        R.unit(fn["name"], I, (), "every obligation holds for every file and every result of the line parser", rel(fn["file"]))
    kept(c, phases)
    hooks += [(P.fn("DbcScanner::" + n)["key"], lambda I, st, f, this, args, e: None) for n in ("ParseMessageInfo", "ParseOtherInfo")]
    R.unit("TrimDbcText", R.alone.run(P.fn("DbcScanner::TrimDbcText"), {}, hooks))


def kept(c, phases):
    """pointers to list elements stay valid"""
    first = {}
    for evs in phases:
        for e in evs:
            if e.kind == "eptr":
                first.setdefault(e.data, e)
        for e in evs:
            if e.kind == "vmut" and e.data[0] in first:
                c.ob("elements of " + e.data[0], "a list isn't changed after pointers to its elements were stored", False, e.where(),
                     "%s after the pointer was stored at %s" % (e.data[1], first[e.data[0]].where()))
    for k, e in first.items():
        c.ob("elements of " + k, "a list isn't changed after pointers to its elements were stored", True, e.where())
    c.count("pointers to elements that are stored", len(first))


def sigs(c, R, P):
    """expression builder for all layouts the parser accepts"""
    fn = find_fn(P, "PrintSignalExpr")
    I = genrun.start(P)
    lay = Layout(P, I, fn, None)
    for o in orders(P):
        for r in range(8):
            for ln in range(1, 65):
                lay.run(o, r, ln)
                if r == 0:
                    lay.run(o, r, ln, None, Lin(0))
    R.unit(fn["name"], I)


def trees(c, R, P):
    """recursive functions: the ranges of the tree builder shrink; the others go to the children of the node they get"""
    n = 0
    for key in sorted(rec_set(P)):
        fn = P.fns[key]
        ints = [i for i, p in enumerate(fn["params"]) if p["ty"]["t"] == "int" and p["ty"].get("signed")]
        ptrs = [i for i, p in enumerate(fn["params"]) if p["ty"]["t"] == "ptr" and p["ty"]["to"]["t"] == "rec"]
        if fn["ret"]["t"] == "ptr" and len(ints) == 2:
            ranges(c, R, P, fn, ints)
        elif ptrs:
            downward(c, R, P, fn, ptrs[0])
        else:
            raise AnalysisBroken("recursive function %s is not understood" % fn["name"])
        n += 1
    c.count("recursive functions", n)


def rec_set(P):
    I = interp.Interp(P)
    return {k for k in I.recset if k in P.fns and own(P.fns[k])}


def nested(I, f):
    return any(x["key"] == f["key"] for x, _ in I.stack)


def ranges(c, R, P, fn, ints):
    """function that builds a tree for the part [l,h) of a list"""
    il, ih = ints
    lst = [i for i, p in enumerate(fn["params"]) if p["ty"]["t"] == "ref" and p["ty"]["to"].get("name") == "std::vector"]
    c.need(len(lst), "list parameter of " + fn["name"])
    results = []

    def state():
        I = genrun.start(P)
        I.recset.discard(fn["key"])
        I.hooks[fn["key"]] = h
        return I

    def h(I, st, f, this, args, e):
        if not nested(I, f):
            return NotImplemented
        l, hh = args[il], args[ih]
        same = isinstance(args[lst[0]], Ref) and args[lst[0]].loc == (("h", "list"), ())
        for what, ok in (("call with another list", same),
                         ("bounds", f_or(ge0(-hh), f_and(ge0(l), ge0(hh - l - 1), ge0(I.n0 - hh)))),
                         ("progress", f_or(ge0(-hh), ge0((I.h0 - I.l0) - (hh - l) - 1)))):
            I.oblige("recursion", st, ok, e, what)
        if this is not None:
            for x in P.recs[f["cls"]]["fields"] if f.get("cls") in P.recs else ():
                if x["name"] in fields_of(P, f):
                    I.write(st, I.sub(this, ("f", x["name"])), I.mk(x["ty"], ("rc", len(results), x["name"])))
        results.append(e)
        k = ("tree", len(results))
        return Phi(ge0(-hh), NULL, SPtr(k, fn["ret"]["to"]))

    I = state()
    st = interp.St()
    l, hh = Lin.of(sym(("in", "l"), 0, 2 ** 30)), Lin.of(sym(("in", "h"), -2 ** 30, 2 ** 30))
    ty = fn["params"][lst[0]]["ty"]["to"]
    st.cells[("h", "list")] = I.mk(ty, ("in", "list"))
    I.n0, I.l0, I.h0 = lib.size_of(I, st, st.cells[("h", "list")]), l, hh
    st.facts.assume(f_or(ge0(-hh), f_and(ge0(hh - l - 1), ge0(I.n0 - hh))))
    this = None
    if fn.get("cls") in P.recs:
        st.cells[("h", "this")] = Obj(fn["cls"], ("*", ("in", "this")), {})
        this = (("h", "this"), ())
    args = []
    for i, p in enumerate(fn["params"]):
        args.append(l if i == il else hh if i == ih else Ref((("h", "list"), ())) if i == lst[0] else I.mk(p["ty"], ("in", p["name"])))
    r = I.run(fn, st, this, args)
    R.unit(fn["name"], I, rule="with 0<=l, l<h<=size or h<1: every element exists and every recursive call gets a smaller range")
    # the result is a tree: a node belongs to one place
    bad, at = [], {}
    todo = [(("result",), True, r)]
    while todo:
        place, cc, q = todo.pop()
        if isinstance(q, Phi):
            todo += [(place, f_and(cc, x), y) for x, y in phi_leaves(q)]
        elif isinstance(q, (Ptr, SPtr)):
            k = q.loc[0] if isinstance(q, Ptr) else q.key
            old = at.setdefault(k, [])
            if any(p != place and f_and(x, cc) is not False and sat(f_and(x, cc)) for p, x in old):
                bad.append("one node in two places")
                break
            if any(p == place for p, _ in old):
                old.append((place, cc))
                continue
            old.append((place, cc))
            if isinstance(q, Ptr):
                if k[0] != "new":
                    bad.append("a node that wasn't allocated")
                for x in P.recs[fn["ret"]["to"]["name"]]["fields"]:
                    v = I.read(st, I.sub(q.loc, ("f", x["name"])))
                    if isinstance(v, Undef):
                        bad.append("%s is not set" % x["name"])
                    if x["ty"]["t"] == "ptr":
                        todo.append(((k, x["name"]), cc, v))
        elif not isinstance(q, Null):
            bad.append("node %s" % brief(q)[:80])
    c.ob("result of " + fn["name"], "the nodes form a tree with all members set", not bad and len(at) > 1, rel(fn["file"]), ", ".join(bad))
    # the calls from outside
    n = 0
    for e in c.g.I.events:
        if e.kind == "rec" and e.data[1] == fn["name"]:
            v = e.data[2]
            size = c.safe_sizes.get(id(e))
            c.ob("%s called in %s" % (fn["name"], e.fn), "the range lies in the list", bool(size), e.where(), "l=0<h<=size is not known")
            n += 1
    c.need(n, "calls of " + fn["name"])


def downward(c, R, P, fn, ip):
    """function on a tree that calls itself for parts of what it gets"""
    I = genrun.start(P)
    I.recset.discard(fn["key"])
    top = ("in", fn["params"][ip]["name"])

    def h(I, st, f, this, args, e):
        if not nested(I, f):
            return NotImplemented
        v = args[ip]
        for cc, q in phi_leaves(v) if isinstance(v, Phi) else [(True, v)]:
            ok = isinstance(q, Null) or isinstance(q, SPtr) and inside(q.key, top)
            I.oblige("recursion", st, True if ok else f_not(cc), e, "call for something that isn't part of the node")
            if isinstance(q, SPtr) and f["name"] in c.deleters:
                kill(I, st, q, e)
            elif isinstance(q, SPtr):
                I.alive(st, st.cells.get(("sym", q.key)), e)
        if this is not None:
            for x in P.recs[f["cls"]]["fields"] if f.get("cls") in P.recs else ():
                if x["name"] in fields_of(P, f):
                    I.write(st, I.sub(this, ("f", x["name"])), I.mk(x["ty"], ("rc", I.nodeid(e) if e else 0, x["name"])))
        return None if f["ret"]["t"] == "void" else I.mk(f["ret"], ("rc", I.nodeid(e) if e else 0))

    I.hooks[fn["key"]] = h
    st = interp.St()
    this = None
    if fn.get("cls") in P.recs:
        st.cells[("h", "this")] = Obj(fn["cls"], ("*", ("in", "this")), {})
        this = (("h", "this"), ())
    args = []
    for i, p in enumerate(fn["params"]):
        if p["ty"]["t"] == "ref":
            st.cells[("h", "a%d" % i)] = I.mk(p["ty"]["to"], ("in", p["name"]))
            args.append(Ref((("h", "a%d" % i), ())))
        elif i == ip:
            args.append(SPtr(top, p["ty"]["to"]))
        else:
            args.append(I.mk(p["ty"], ("in", p["name"])))
    I.run(fn, st, this, args)
    R.unit(fn["name"], I, rule="every recursive call goes to a part of the node; nothing is used after it was deleted")


def kill(I, st, q, e):
    root = ("sym", q.key)
    v0 = st.cells.get(root)
    if v0 is None:
        v0 = I.mk(q.to, ("*", q.key))
    I.alive(st, v0, e)
    nul = st.facts.simp(isnull(q))
    st.cells[root] = DELETED if nul is not True else v0


def inside(k, top):
    """is k the key of a pointer stored in the object top points to?"""
    n = 0
    while isinstance(k, tuple) and len(k) > 1 and k != top and n < 20:
        k, n = k[1], n + 1
    return k == top and n > 0


def first_trees(c, I):
    """calls of recursive functions in the generation run"""
    c.safe_sizes, c.deleters = {}, set()
    for k in I.recset:
        f = c.g.P.fns.get(k)
        if f is not None and has_delete(f):
            c.deleters.add(f["name"])
    gone = {}
    for e in I.events:
        if e.kind != "rec":
            continue
        name, vals = e.data[1], e.data[2]
        ls = [v for v in vals if isinstance(v, Vec)]
        ns = [v for v in vals if isinstance(v, Lin)]
        if ls and len(ns) >= 2:
            n = lib.size_of(I, interp.St(), ls[0])
            l, h = ns[0], ns[1]
            c.safe_sizes[id(e)] = holds(e, f_or(ge0(-h), f_and(ge0(l), ge0(h - l - 1), ge0(n - h))))
        for v in vals:
            for cc, q in phi_leaves(v) if isinstance(v, Phi) else [(True, v)]:
                if isinstance(q, SPtr):
                    if q.key in gone:
                        c.ob("tree passed to " + name, "a tree isn't used after it was deleted", False, e.where(), "deleted at %s" % gone[q.key].where())
                    elif name in c.deleters:
                        gone[q.key] = e
    c.ob("trees", "a tree isn't used after it was deleted", True)


def has_delete(fn):
    r = [False]

    def v(n):
        if n["k"] == "Delete":
            r[0] = True
    model.walk(fn["body"], v)
    return r[0]


def entry(c, R, P):
    """any arguments, and what main does with them"""
    mains = [f for f in P.fns.values() if f["name"] == "main" and own(f)]
    c.need(len(mains), "main")
    gen, opts = P.fn("CoderApp::GenerateCode"), P.fn("OptionsParser::GetOptions")
    # any number of arguments, any texts
    I = genrun.start(P)
    st = interp.St()
    argc, pv = [p["ty"] for p in opts["params"]]
    n = Lin.of(sym(("in", "argc"), 0, 2 ** 31 - 1))
    st.cells[("h", "argv")] = Vec((("sym", ("in", "argv"), n, interp._tkey(pv["to"])), ("one", NULL)))
    st.cells[("h", "op")] = Obj("OptionsParser", ("in", "op"), {})
    I.run(opts, st, (("h", "op"), ()), [n, Ptr((("h", "argv"), ()))])
    R.unit(opts["name"], I, rule="every obligation holds for every argument vector", where=rel(opts["file"]))
    # main passes its arguments on; the generation starts only with names that aren't empty
    I = genrun.start(P)
    seen = []

    def h_gen(I, st, fn, this, args, e):
        v = I.read(st, I.sub(this, ("f", "Params")))
        if isinstance(v, Ref):
            v = I.read(st, v.loc)
        seen.append(("gen", v, f_and(*st.pc), None))
        return None

    def h_opt(I, st, fn, this, args, e):
        seen.append(("opts", args[0] == n, True, args[1]))
        return Obj("OptionsParser::GenOptions", ("in", "opts"), {})
    I.hooks[gen["key"]] = h_gen
    I.hooks[opts["key"]] = h_opt
    n = Lin.of(sym(("in", "argc"), 0, 2 ** 31 - 1))
    st = interp.St()
    I.run(mains[0], st, None, [n, Ptr((("h", "argv"), ()))])
    R.unit("main", I, rule="every obligation holds for every outcome of the option parser", where=rel(mains[0]["file"]))
    g = [x for x in seen if x[0] == "gen"]
    o = [x for x in seen if x[0] == "opts"]
    c.ob("arguments", "the options are read from the arguments of the program", bool(o) and all(x[1] is True and x[3] == Ptr((("h", "argv"), ())) for x in o), rel(mains[0]["file"]))
    ok = bool(g)
    for _, v, pc, _ in g:
        ok = ok and isinstance(v, Obj) and v.key == ("in", "opts") and not v.ov
        f = Facts()
        f.assume(pc)
        ok = ok and all(f.ask(L.atom("b", ("fld", ("fld", ("in", "opts"), x), "second"))) is True for x in NAMES)
    c.ob("generation", "the generation starts only with valid names", ok, rel(gen["file"]))
    R.fns |= {gen["key"]}
    # a name that is marked as given is not empty
    import itertools
    runs = 0
    for k in range(1, 4):
        for kinds in itertools.product("KVE", repeat=k):
            I, st, r, fn = arg_run(P, ("V",) + kinds)
            runs += 1
            for x in NAMES:
                o = r.ov.get(x) if isinstance(r, Obj) else None
                if not isinstance(o, Obj):
                    raise AnalysisBroken("options of GetOptions: %r" % (r,))
                a, b = o.ov.get("first", lit("")), o.ov.get("second", False)
                for cc, z in sym_leaves(b) if isinstance(b, Phi) else [(True, b)]:
                    f = st.facts.copy()
                    f.assume(f_and(cc, z))
                    good = f.contradiction or prove(f, nonempty(a))
                    if not good:
                        c.ob("name of -" + x, "a name that is marked as given is not empty", False, rel(fn["file"]), " ".join(kinds))
    c.count("argument vectors", runs)
    c.ob("names", "a name that is marked as given is not empty", True)


NAMES = ("dbc", "outdir", "drvname")


def nonempty(s):
    if isinstance(s, Str) and len(s.segs) == 1 and s.segs[0][0] == "I":
        _, cc, a, b = s.segs[0]
        return f_or(f_and(cc, nonempty(a)), f_and(f_not(cc), nonempty(b)))
    return ge0(str_len(s) - 1) if isinstance(s, Str) else False


def cover(c, R, P):
    mains = [f for f in P.fns.values() if f["name"] == "main" and "tests" not in f.get("file", "")]
    reach = reachable(P, mains[0]["key"]) if len(mains) == 1 else set()
    miss = [P.fns[k]["name"] for k in reach if P.fns[k].get("body") and k not in R.fns]
    c.ob("coverage", "every function reachable from main is interpreted", not miss, "", ", ".join(sorted(miss))[:400])


def regexes(I):
    out = {}
    for e in I.events:
        if e.kind == "regex":
            out.setdefault("text of DBC lines matched with std::regex", e)
    return out
