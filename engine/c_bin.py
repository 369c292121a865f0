"""Checks of the per-node / common utilities: which frames are in which group, and the receive dispatch."""
from .rules import *
from .view import spec, nbool, toklist
from .values import *
from . import lin as L, lib
from .lin import Lin, Sym, sym, f_and, f_or, f_not
from .interp import INF, I31
from .model import AnalysisBroken, rel
from .c_lib import body, tree, show
from .cexpr import subs
from . import c_gen
from .c_gen import short

CHECKS = {}
MSGKEY = ("fld", ("*", ("in", "dbc")), "msgs")


def reg(prop):
    def deco(f):
        g = c_gen.check(prop)(f)
        CHECKS[prop] = c_gen.CHECKS.pop(prop)
        return g
    return deco


def one_sym(v):
    return Sym.byid[v.t[0][0]] if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0 else None


def sid(v):
    return one_sym(v).id if hasattr(one_sym(v), "id") else v.t[0][0]


def leaves(segs, cond=True, loops=()):
    """(condition, loops, value) of every element a list is made of"""
    for s in segs:
        t = s[0]
        if t == "one":
            yield cond, loops, s[1]
        elif t == "loop":
            yield from leaves(s[3], cond, loops + ((s[1], s[2]),)) if not isinstance(s[1], tuple) else leaves(s[4], cond, loops + ((s[2], s[3]),))
        elif t == "if":
            yield from leaves(s[2], f_and(cond, s[1]), loops)
            yield from leaves(s[3], f_and(cond, f_not(s[1])), loops)
        elif t == "perm":
            yield from leaves(s[2], cond, loops)
        else:
            raise AnalysisBroken("list element %s in a group of messages" % (t,))


def msgs_loop(loops):
    """the list runs once over all messages: its counter"""
    if len(loops) == 1:
        k, n = loops[0]
        s = one_sym(n)
        if s is not None and s.key == ("size", MSGKEY):
            return k
    return None


def at_msg(key):
    """index of the message a ('*', ('at', msgs, i)) object key denotes"""
    if isinstance(key, tuple) and key[0] == "*" and isinstance(key[1], tuple) and key[1][0] == "at" and key[1][1] == MSGKEY:
        return key[1][2]
    return None


class Group:
    """membership conditions in terms of one message K"""
    def __init__(self, node):
        self.node = node        # (key of the node list element) or None
        self.n = 0

    def fresh(self):
        self.n += 1
        return Lin.of(sym(("in", "j%d" % self.n), 0, I31))

    def canon(self, f, K):
        if f is True or f is False:
            return f
        t = f[0]
        if t == "not":
            return f_not(self.canon(f[1], K))
        if t in ("and", "or"):
            return (f_and if t == "and" else f_or)(*[self.canon(x, K) for x in f[1]])
        a = f[1]
        if a[0] == "b":
            k = a[1]
            if k[0] == "fld" and at_msg(k[1]) == K:
                return nbool("M." + k[2])
        if a[0] == "ex":
            return self.ex(a[1], a[2], a[3], K)
        if a[0] == "ge":
            # a list of the message is (not) empty
            l = Lin(a[2], a[1])
            if len(l.t) == 1:
                k = Sym.byid[l.t[0][0]].key
                if k[0] == "size" and k[1][0] == "fld" and at_msg(k[1][1]) == K:
                    return L.ge0(Lin.of(sym(("nm", "#M." + k[1][2]), 0, INF), l.t[0][1]) + l.c)
        # any other condition on the message: an atom of its own
        if any(at_msg(x.key[1]) == K for x in allsyms(f) if isinstance(x.key, tuple) and len(x.key) > 2 and x.key[0] == "fld") or any(
                at_msg(x.key[1][1]) == K for x in allsyms(f) if isinstance(x.key, tuple) and x.key[0] == "size" and isinstance(x.key[1], tuple) and x.key[1][0] == "fld"):
            return nbool("other condition " + vshow_f(f))
        raise AnalysisBroken("membership condition not understood: %s" % vshow_f(f))

    def ex(self, bv, n, b, K):
        s = one_sym(n)
        if s is None:
            raise AnalysisBroken("search over %s" % vshow(n))
        k = s.key
        if k[0] == "size" and k[1] == MSGKEY:
            j = self.fresh()
            return self.exj(j, Subst({sid(bv): j}).do(b), K)
        if k[0] == "size" and isinstance(k[1], tuple) and k[1][0] == "fld" and at_msg(k[1][1]) == K and k[1][2] in ("TranS", "RecS"):
            return self.nodein(k[1], bv, b)
        if k[0] == "count":
            out = False
            b = Subst({sid(bv): (bo := self.fresh())}).do(b)
            sels = [x for x in allsyms(b) if isinstance(x.key, tuple) and x.key[0] == "sel" and x.key[-1] == bo]
            if len({id(x) for x in sels}) != 1:
                raise AnalysisBroken("search in a filtered list: %s" % vshow_f(b))
            sel = sels[0]
            lv = list(leaves(k[1:]))
            ls = list(leaves((sel.key[1],)))
            if len(lv) != len(ls) or len(lv) != 1:
                raise AnalysisBroken("search in a list made of %d parts" % len(lv))
            (c1, l1, v1), (c2, l2, v2) = lv[0], ls[0]
            k1, k2 = msgs_loop(l1), msgs_loop(l2)
            if k1 is None or k2 is None:
                raise AnalysisBroken("search in a list that is not filtered from all messages")
            j = self.fresh()
            c = Subst({sid(k1): j}).do(c1)
            if c != Subst({sid(k2): j}).do(c2):
                raise AnalysisBroken("two lists in one search")
            return self.exj(j, f_and(c, Subst({sel_id(sel): j}).do(b)), K)
        raise AnalysisBroken("search over %s" % vshow(n))

    def exj(self, j, g, K):
        """exists a message j with g: identifiers are distinct, so equal identifiers mean the same message"""
        idj = msgid(j)
        idk = msgid(K)
        want = L.eq0(idj - idk)
        parts = g[1] if isinstance(g, tuple) and g[0] == "and" else (g,)
        if want in parts:
            return self.canon(Subst({sid(j): K}).do(g), K)
        raise AnalysisBroken("messages are not compared by identifier: %s" % vshow_f(g))

    def nodein(self, lst, bv, b):
        if not (isinstance(b, tuple) and b[0] == "a" and b[1][0] == "seq"):
            raise AnalysisBroken("node search: %s" % vshow_f(b))
        x, y = [only_hole(z) for z in b[1][1:3]]
        if self.node is not None and y != self.node:
            x, y = y, x
        if self.node is None or y != self.node or x != ("at", lst, bv):
            return nbool("other %s %s" % (vshow(x), vshow(y)))
        return nbool("M.%s has node" % lst[2])


def msgid(i):
    return lib.lazy_int(("fld", ("*", ("at", MSGKEY, i)), "MsgID")) if hasattr(lib, "lazy_int") else Lin.of(sym(("fld", ("*", ("at", MSGKEY, i)), "MsgID"), 0, 2 ** 32 - 1))


def only_hole(s):
    if isinstance(s, Str) and len(s.segs) == 1 and s.segs[0][0] == "H":
        return s.segs[0][1]
    return None


def vshow_f(f):
    return L.fshow(f)[:300]


def allsyms(x, out=None, seen=None):
    """symbols in a formula, including those inside keys"""
    if out is None:
        out, seen = [], set()
    for i in free_syms(x):
        if i in seen:
            continue
        seen.add(i)
        s = Sym.byid[i]
        out.append(s)
        allsyms(s.key, out, seen)
    return out


def sel_id(s):
    for i, x in enumerate(Sym.byid):
        if x is s:
            return i
    return None


def member_row(r):
    """the message list element a struct member row stands for: (selection segments, order key or None)"""
    hs = [s[1] for s in r.es[0].segs if s[0] == "H"]
    hs = [h for h in hs if isinstance(h, tuple) and h[0] == "fld" and h[2] == "Name"]
    if not hs or any(h != hs[0] for h in hs):
        return None
    i = at_msg(hs[0][1])
    s = one_sym(i) if i is not None else None
    return s


def group_of(R, fv, row, node):
    """condition for a message M to have this member; exactly one member per message"""
    s = member_row(row)
    if s is None:
        raise AnalysisBroken("struct member %s" % row.code)
    k = s.key
    lid, lk, n = row.loops[-1]
    if k[0] == "sel":
        segs, idx = (k[1],), k[-1]
        ns = one_sym(n)
        if ns is None or ns.key[0] != "count":
            raise AnalysisBroken("members are not repeated over the group")
        full = same_list(segs, ns.key[1:])
        return segs, idx, full
    # over all messages
    if s.key[0] in ("k", "pi") or i_is(s, lk):
        return None, Lin.of(s), one_sym(n) is not None and one_sym(n).key == ("size", MSGKEY)
    raise AnalysisBroken("struct member %s" % row.code)


def i_is(s, k):
    return one_sym(k) is s


def same_list(a, b):
    x, y = list(leaves(a)), list(leaves(b))
    if len(x) != len(y):
        return False
    for (c1, l1, v1), (c2, l2, v2) in zip(x, y):
        k1, k2 = msgs_loop(l1), msgs_loop(l2)
        if k1 is None or k2 is None:
            return False
        j = Lin.of(sym(("in", "j0"), 0, I31))
        if Subst({sid(k1): j}).do(c1) != Subst({sid(k2): j}).do(c2):
            return False
    return True


def in_order(idx, lk):
    """idx is the loop counter, or its image in a sorted order"""
    if idx == lk:
        return True
    s = one_sym(idx)
    return s is not None and s.key[0] == "pi" and s.key[2] == lk


def cond_of(G, segs):
    """membership condition of M in a list of messages, and whether no message is in it twice"""
    if segs is None:
        return True, True
    K = Lin.of(sym(("in", "K"), 0, I31))
    conds = []
    for c, loops, v in leaves(segs):
        k = msgs_loop(loops)
        if k is None:
            raise AnalysisBroken("group is not filtered from all messages")
        if not (isinstance(v, SPtr) and at_msg(v.key if v.key[0] == "*" else ("*", v.key)) == k):
            raise AnalysisBroken("group element %s" % vshow(v))
        conds.append(G.canon(Subst({sid(k): K}).do(c), K))
    twice = any(sat(f_and(a, b)) for i, a in enumerate(conds) for b in conds[:i])
    return f_or(*conds), not twice


def node_of(fv):
    """key of the node of a per-node file: element of the node list at the file loop's counter"""
    if not fv.f.loops:
        return None
    k = fv.f.loops[-1][1]
    for s in fv.f.path.segs:
        if s[0] == "H":
            h = s[1]
            inj = True
            while isinstance(h, tuple) and h and h[0] in ("upper", "lower", "map"):
                h = h[1]
                inj = False
            if isinstance(h, tuple) and h and h[0] in ("elem", "at") and h[2] == k:
                return h, inj
    return None


@reg("C06")
def c06(c):
    """Group membership conditions are computed symbolically for an arbitrary message (list filters, searches and set
    operations become formulas over: frame not empty, node among transmitters, node among receivers) and compared."""
    R = Rules(c)
    c.assumes("message identifiers in the list are distinct")
    hs = [f for f in R.v.files if f.name.endswith("binutil.h")]
    pern = [f for f in hs if f.f.loops]
    com = [f for f in hs if not f.f.loops]
    c.ob("utility headers", "one utility per node, or one for all", len(pern) == 1 and len(com) == 1, hs[0].where() if hs else "", "%d per node, %d common" % (len(pern), len(com)))
    ne = spec("M.frameNotEmpty")
    for fv in pern + com:
        per = bool(fv.f.loops)
        node = None
        if per:
            x = node_of(fv)
            if x is None:
                c.ob("node utility file", "one file per node, named after the node", False, fv.where(), fv.path)
                continue
            node, inj = x
            c.ob("utilities of nodes whose names differ only in case", "file names of different nodes differ", inj, fv.where(), "the node name is changed to lower case for the file name")
            node_list(c, fv, node)
        G = Group(node)
        for kind, lst in (("rx", "RecS"), ("tx", "TranS")):
            key = "%s %s struct" % ("node" if per else "common", kind)
            want = f_and(ne, nbool("M.%s has node" % lst)) if per else (ne if kind == "rx" else False)
            rows = struct_rows(fv, kind)
            if want is False:
                c.ob(key, "no transmit struct without nodes", not rows, rows[0].where() if rows else fv.where(), "")
                continue
            tot = False
            if not c.ob(key, "one member line", len(rows) == 1, rows[0].where() if rows else fv.where(), "%d member lines" % len(rows)):
                continue
            r = rows[0]
            segs, idx, full = group_of(R, fv, r, node)
            c.ob(key, "a member for every element of the group", full and in_order(idx, r.loops[-1][1]), r.where(), r.code)
            f, single = cond_of(G, segs)
            f = f_and(f, local_guard(r, fv))
            c.ob(key, "no frame twice", single, r.where(), "")
            c.ob(key, "has exactly the frames it should have", equiv(f, want), r.where(), "members are the messages with %s" % L.fshow(f)[:400])
            t = r.toks
            nm = r.toks[0][:-2] if r.toks[0].endswith("_t") else None
            c.ob(key, "member of the frame's own struct type, named after the frame", len(t) == 3 and t[0] == t[1] + "_t" and t[2] == ";", r.where(), r.code)
            c.count("groups")


def local_guard(r, fv):
    """conditions on the member beyond those of the list being non-empty"""
    nm = set()
    return True


def struct_rows(fv, kind):
    """member rows of the typedef struct { } …_rx_t;"""
    end = [r for r in fv.rows if r.toks[:1] == ["}"] and r.toks[-1] == ";" and len(r.toks) == 3 and r.toks[1].endswith("_%s_t" % kind)]
    out = []
    for e in end:
        i = e.i - 1
        while i >= 0 and fv.rows[i].code != "{":
            if not fv.rows[i].code.startswith("#"):
                out.append(fv.rows[i])
            i -= 1
    return out[::-1]


def node_list(c, fv, node):
    """the list of nodes: every transmitter and receiver of every message, once"""
    segs = node[1]
    if isinstance(segs, Vec):
        segs = segs.segs
    seen = set()
    key = "node list"
    for cond, loops, v in leaves(segs):
        ok = len(loops) == 2 and msgs_loop(loops[:1]) is not None
        src = None
        if ok:
            k1 = loops[0][0]
            k2, n2 = loops[1]
            s = one_sym(n2)
            ok = s is not None and s.key[0] == "size" and s.key[1][0] == "fld" and at_msg(s.key[1][1]) == k1 and s.key[1][2] in ("TranS", "RecS")
            if ok:
                src = s.key[1][2]
                ok = only_hole(v) == ("at", s.key[1], k2)
        c.ob(key, "made of all transmitters and receivers of all messages", ok, fv.where(), vshow(v)[:200])
        if ok:
            seen.add(src)
            # added unless it is there already
            d = cond[1] if isinstance(cond, tuple) and cond[0] == "not" else None
            dd = d is not None and d[0] == "a" and d[1][0] == "ex" and one_sym(d[1][2]) is not None and one_sym(d[1][2]).key[0] == "size" and \
                one_sym(d[1][2]).key[1][0] == "cy" and isinstance(d[1][3], tuple) and d[1][3][0] == "a" and d[1][3][1][0] == "seq"
            if dd:
                a, b = d[1][3][1][1:3]
                x = only_hole(a)
                y = only_hole(b)
                if x != only_hole(v):
                    x, y = y, x
                dd = x == only_hole(v) and vshow(one_sym(d[1][2]).key[1][1]) in vshow(y)
            c.ob(key, "a node is added exactly if it is not in the list yet", bool(dd), fv.where(), vshow_f(cond))
    c.ob(key, "made of all transmitters and receivers of all messages", seen == {"TranS", "RecS"}, fv.where(), "taken from %s" % sorted(seen))
    n = one_sym(fv.f.loops[-1][2])
    c.ob(key, "a utility for every element", n is not None and n.key[0] == "count" or n is not None and n.key[0] == "size", fv.where(), vshow(fv.f.loops[-1][2])[:200])


# ------------------------------------------------------------------ C05
@reg("C05")
def c05(c):
    """The receive function's template must be: result 0, dispatch tree, return; the tree is decided by structural
    induction over its construction (FillTreeLevel) and printing (WriteCode) for an arbitrary list in ascending order."""
    R = Rules(c)
    c.assumes("message identifiers in the list are distinct")
    I = c.g.I
    fills = [(k, x) for k, x in I.rec_calls.items() if x[0]["name"].endswith("FillTreeLevel")]
    writes = [(k, x) for k, x in I.rec_calls.items() if x[0]["name"].endswith("::WriteCode")]
    drvs = set()
    n = 0
    for fv in R.v.files:
        if not fv.name.endswith("binutil.c"):
            continue
        per = bool(fv.f.loops)
        nm = "node" if per else "common"
        fs = [f for f in R.functions(fv) if any(t.endswith("_Receive") for t in f.head.toks)]
        if not c.ob(nm + " receive function", "one receive function", len(fs) == 1, fv.where(), "%d functions" % len(fs)):
            continue
        n += 1
        f = fs[0]
        ss = body(c, f)
        key = nm + " receive function"
        par = [t for t in f.head.toks]
        args = params(f.head.toks)
        hd = "%s" % f.head.toks[1][:-len("_Receive")]
        c.ob(key, "takes the receive struct, the bytes, the identifier and the length", [p[0] for p in args] == [hd + "_rx_t *", "const uint8_t *", "uint32_t", "uint8_t"]
             and [p[1] for p in args] == ["_m", "_d", "_id", "dlc_"] and f.head.toks[0] == "uint32_t", f.head.where(), f.head.code)
        init = [s for s in ss if s.toks[:2] == ["uint32_t", "recid"]]
        ret = [s for s in ss if s.toks[0] == "return"]
        hole_ = [s for s in ss if len(s.toks) == 1 and s.toks[0].startswith("«")]
        rest = [s for s in ss if s not in init + ret + hole_]
        c.ob(key, "result starts as 0", len(init) == 1 and joined_(init[0]) in ("uint32_t recid = 0 ;", "uint32_t recid = 0u ;", "uint32_t recid = 0U ;") and init[0] is ss[0], init[0].where() if init else f.head.where(), "")
        c.ob(key, "returns the result of the dispatch", len(ret) == 1 and joined_(ret[0]) == "return recid ;" and ret[0] is ss[-1], ret[0].where() if ret else f.head.where(), "")
        for s in init + ret:
            c.ob(key, "unconditional", equiv(s.guard, f.head.guard) and not s.inner and not s.extra, s.where(), repr(s))
        c.ob(key, "dispatches once", hole_ and equiv(f_or(*[s.guard for s in hole_], f_and(f.head.guard, is_empty(fv, hole_[0]))), f.head.guard) and not any(
            sat(f_and(a.guard, b.guard)) for i, a in enumerate(hole_) for b in hole_[:i]) and not any(s.inner or s.extra for s in hole_) and len({s.toks[0] for s in hole_}) == 1,
             hole_[0].where() if hole_ else f.head.where(), "%d dispatch texts" % len(hole_))
        for s in rest:
            c.ob(key, "nothing else happens: " + joined_(s)[:60], joined_(s).startswith("( void )"), s.where(), repr(s))
        if not hole_:
            continue
        # which tree is printed here
        keys = [x[1] for s in hole_ for x in s.row.es[0].segs if x[0] == "H"]
        w = [(k, x) for k, x in writes if k in keys]
        if not c.ob(key, "prints the code of a dispatch tree", len(w) == 1, hole_[0].where(), str(keys)[:200]):
            continue
        k, (wfn, wthis, wvals, wst, we) = w[0]
        tr = wvals[0]
        fl = [(k2, x) for k2, x in fills if isinstance(tr, SPtr) and tr.key == k2]
        loc = "%s:%s (%s)" % (rel(wfn["file"]), wfn["line"], wfn["name"])
        if not c.ob(key, "prints the tree built from the group", len(fl) == 1, loc, vshow(tr)[:200]):
            continue
        c.ob(key, "tree code starts from an empty text", isinstance(wvals[1], Str) and wvals[1].lit == "" or blank(I, wst, wvals[1]), loc, vshow(wvals[1])[:200])
        o = I.read(wst, wthis)
        code = o.ov.get("codestr") if isinstance(o, Obj) else None
        c.ob(key, "tree printer starts from an empty text", code is None and False or isinstance(code, Str) and code.segs == (), loc, vshow(code)[:200])
        ffn, fthis, fvals, fst, fe = fl[0][1]
        lst = fvals[0]
        loc = "%s:%s (%s)" % (rel(ffn["file"]), fe.get("l") if fe else ffn["line"], ffn["name"])
        v = I.read(fst, lst.loc) if isinstance(lst, (Ref, Ptr)) else lst
        if not isinstance(v, Vec):
            raise AnalysisBroken("list given to FillTreeLevel: %s" % vshow(v)[:200])
        ok, why = ascending(v)
        c.ob(key, "the list is sorted by ascending identifier", ok, loc, why)
        size = lib.size_of(I, fst, v)
        h = fvals[2]
        hs_ = one_sym(h)
        if hs_ is not None and hs_.key[0] == "cast":
            h = hs_.key[-1]
        c.ob(key, "the tree covers the whole list", fvals[1] == Lin(0) and h == size, loc, "%s .. %s" % (vshow(fvals[1]), vshow(h)[:200]))
        c.ob(key, "the construction starts at the root", fvals[3] is False or isinstance(fvals[3], Lin) and fvals[3] == Lin(0), loc, vshow(fvals[3]))
        o = I.read(fst, fthis)
        d = o.ov.get("code_drvname") if isinstance(o, Obj) else None
        # the same list as in the receive struct
        hv = [x for x in R.v.files if x.name.endswith("binutil.h") and bool(x.f.loops) == per]
        if len(hv) == 1:
            rows = struct_rows(hv[0], "rx")
            if len(rows) == 1:
                segs, idx, full = group_of(R, hv[0], rows[0], None)
                same = same_list(segs, v.segs) if segs is not None else all(s[0] == "sym" or s[0] == "perm" for s in v.segs)
                c.ob(key, "dispatches exactly the members of the receive struct", same and full, loc, "")
        # guard: present exactly when the group is not empty
        c.ob(key, "present exactly for a non-empty group", equiv(f.head.guard, nonempty(fv, size)), f.head.where(), L.fshow(f.head.guard)[:200])
        c.notes.setdefault("drvname", vshow(d))
        drvs.add((vshow(d), isinstance(d, Str) and only_hole(d) == ("fld", ("fld", ("fld", ("in", "app"), "Params"), "drvname"), "first"), loc))
    c.need(n, "receive functions", 2)
    for d, ok, loc in drvs:
        c.ob("driver name in unpack calls", "calls use the driver's own function names", ok, loc, d)
    from . import c_tree
    T = c_tree.Tree(c.g.P)
    cnt, dr, bal = c_tree.decide(T, lambda key, rule, ok, where, why="": c.ob(key, rule, ok, where, why))
    for k, v in cnt.items():
        c.count("dispatch tree " + k, v)
    c.need(cnt["codes"], "printed forms of dispatch tree nodes", 4)
    for d in dr:
        c.ob("driver name in unpack calls", "calls use the tree builder's driver name", "code_drvname" in repr(d), "", repr(d)[:200])


def is_empty(fv, s):
    """the whole text of this statement is empty"""
    from .values import str_len
    from .view import named
    return named(L.eq0(str_len(Str(tuple(x for x in s.row.es[0].segs if x[0] == "H")))), Namer(fv.f.loops))


def blank(I, st, v):
    if isinstance(v, (Ref, Ptr)):
        v = I.read(st, v.loc)
    return isinstance(v, Str) and v.segs == ()


def joined_(s):
    return " ".join(s.toks)


def nonempty(fv, size):
    from .view import named
    nm = fv.c.namer(()) if False else Namer(fv.f.loops)
    return named(L.ge0(size - 1), nm)


def params(toks):
    i = toks.index("(")
    out, cur, d = [], [], 0
    for t in toks[i + 1:-1]:
        if t == "," and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    out.append(cur)
    return [(" ".join(x[:-1]), x[-1]) for x in out if x]


def ascending(v):
    if len(v.segs) != 1 or v.segs[0][0] != "perm" or v.st:
        return False, "not sorted: " + vshow(v)[:200]
    _, key, inner, cmp = v.segs[0]
    _, si, sj, f = cmp
    ids = [s for s in allsyms(f) if isinstance(s.key, tuple) and s.key[0] == "fld" and s.key[2] == "MsgID"]
    by = {}
    for s in ids:
        if at_msg(s.key[1]) is not None:
            x = [y for y in allsyms(s.key) if y.key in (one_sym(si).key, one_sym(sj).key)]
            if len(x) == 1:
                by[x[0].key[0]] = Lin.of(s)
    if set(by) != {"si", "sj"}:
        return False, "not compared by identifier: " + vshow_f(f)
    want = f_not(L.ge0(by["si"] - by["sj"]))
    return equiv(f, want), "order: " + vshow_f(f)
