"""Effects of a run: where files and directories are created, what is written to them, what the output depends on."""
import re
from . import interp, lib, genrun, model, lin as L
from .values import *
from .lin import Lin, Facts, ge0, eq0, f_and, f_or, f_not, Sym
from .cgen import sat, implies, atoms
from .c_tree import first_atom, resolve
from .model import AnalysisBroken, rel
from . import c_gen

CHECKS = {}


def reg(prop):
    def deco(f):
        g = c_gen.check(prop)(f)
        CHECKS[prop] = c_gen.CHECKS.pop(prop)
        return g
    return deco


PRM = ("fld", ("in", "app"), "Params")
OUT = ("fld", ("fld", PRM, "outdir"), "first")
DRV = ("fld", ("fld", PRM, "drvname"), "first")
DBC = ("fld", ("fld", PRM, "dbc"), "first")


def opt(n):
    return ("a", ("b", ("fld", PRM, n)))


def slen(k):
    return Lin.of(lib_len(k))


def lib_len(k):
    from .lin import sym
    return sym(("len", k), 0)


def cases(v, facts, depth=0):
    """the value under every consistent decision of the conditions inside it"""
    a = first_atom(v, facts)
    if a is None:
        yield facts, resolve(v, facts)
        return
    if depth > 14:
        raise AnalysisBroken("path with too many alternatives: " + vshow(v)[:200])
    for x in (a, f_not(a)):
        f = facts.copy()
        f.assume(x)
        if not f.contradiction:
            yield from cases(v, f, depth + 1)


def base_facts(ev, *fs):
    f = Facts()
    for k in (OUT, DRV, DBC):
        f.assume(ge0(str_len(hole(k)) - 1))
    for x in fs:
        f.assume(x)
    for x in ev.pc:
        f.assume(x)
    return f


def components(s, facts):
    """-> (root, [component text], [printed numbers], problem)"""
    segs = list(s.segs)
    if not segs or segs[0] != ("H", OUT):
        return None, [], [], "does not start with the output directory"
    txt, nums = "", []
    for g in segs[1:]:
        if g[0] == "L":
            txt += g[1]
        elif g[0] == "H":
            k = g[1]
            if k == DRV:
                txt += "«drv0»"
            elif k == ("lower", DRV):
                txt += "«drv»"
            elif k == ("upper", DRV):
                txt += "«DRV»"
            elif isinstance(k, tuple) and k[0] == "lower" and node_key(k[1]):
                txt += "«node»"
            else:
                txt += "«?%s»" % vshow(hole(k))[:60]
        elif g[0] == "N":
            lo, hi = facts.bound(g[2]) if isinstance(g[2], Lin) else (g[2], g[2])
            if isinstance(g[2], Lin) and len(g[2].t) == 1 and g[2].c == 0:
                k = Sym.byid[g[2].t[0][0]].key
                if isinstance(k, tuple) and k[0] == "first" and (isinstance(k[2], int) or not k[2].t):
                    hi = min(hi, (k[2] if isinstance(k[2], int) else k[2].c) - 1)
            nums.append(g[2])
            if g[1] != "03d" and g[1] != "03u" or lo < 0 or hi > 999:
                txt += "«?number %s %s..%s»" % (g[1], lo, hi)
            else:
                txt += "«NNN»"
        else:
            txt += "«?%s»" % g[0]
    if not txt.startswith("/"):
        e = eq0(chr_at(OUT, str_len(hole(OUT)) - 1) - 47)
        if txt == "":
            return OUT, [], nums, None
        if facts.ask(e) is not True:
            return OUT, [], nums, "is the output directory with text appended: it lies beside the directory"
    comps = [x for x in txt.split("/") if x != ""]
    return OUT, comps, nums, None


def chr_at(k, i):
    from .lin import sym
    return Lin.of(sym(("chr", k, i), -128, 127))


def node_key(k):
    """is the value an entry of a receiver or transmitter list (possibly gathered in a list first)?"""
    if not isinstance(k, tuple) or not k:
        return False
    if k[0] == "at" and len(k) == 3 and isinstance(k[1], tuple) and k[1][0] == "fld":
        return k[1][2] in ("TranS", "RecS")
    if k[0] == "elem":
        ones = []

        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "one" and isinstance(x[1], Str):
                    ones.append(x[1])
                    return
                for y in x:
                    walk(y)
            elif isinstance(x, Vec):
                walk(x.segs)
        walk(k[1])
        return bool(ones) and all(len(s.segs) == 1 and s.segs[0][0] == "H" and node_key(s.segs[0][1]) for s in ones)
    return False


PLACES = {"lib": ("«drv».h", "«drv».c", "«drv»-fmon.h"), "usr": ("«drv»-fmon.c",), "conf": ("«drv»-config.h", "dbccodeconf.h"),
          "inc": ("canmonitorutil.h",), "butl": ("«drv»-binutil.h", "«drv»-binutil.c", "«node»_«drv»-binutil.h", "«node»_«drv»-binutil.c")}


def atom_paths(f, names):
    for a in atoms(f):
        k = a[1]
        if k[0] == "b" and isinstance(k[1], tuple) and k[1][0] in names:
            yield a, k[1]


def evpath(e):
    return e.data[0] if e.kind == "mkdir" else e.data[1]


def fresh(idx, comps, facts):
    """was the numbered directory created by this run?  -> error text or None"""
    if not (isinstance(idx, Lin) and len(idx.t) == 1 and idx.t[0][1] == 1 and idx.c == 0):
        return "the number is not the one of a created directory"
    k = Sym.byid[idx.t[0][0]].key
    if not (isinstance(k, tuple) and k[0] == "first"):
        return "the number is not the one of a created directory"
    F = k[1]
    fails = [(a, p) for a, p in atom_paths(F, ("mkdirfail",))]
    olds = [(a, p) for a, p in atom_paths(F, ("mkdirexists",))]
    for what, at in (("creating it failed", fails), ("it existed before", olds)):
        ok = False
        for a, p in at:
            if sat(f_and(F, a)):
                continue
            for ff, s in cases(p[1], facts):
                if ff.contradiction:
                    continue
                r = components(s, ff)
                if r[3] is None and [c if not c.startswith("«?number") else "«NNN»" for c in r[1]] == comps:
                    ok = True
        if not ok:
            return "the search for a directory may end with one although " + what
    return None


@reg("C16")
def c16(c):
    """Every path the program creates or opens for writing is built from the output directory; base directory, sub-directory and
    file name are compared with the documented ones under all combinations of the options, and the condition of every write is
    refuted together with the failure of any directory creation."""
    g = c.g
    evs = g.I.events
    writes = [e for e in evs if e.kind == "open" and e.data[0] != "r"]
    dirs = [e for e in evs if e.kind == "mkdir"]
    c.need(len(writes), "files opened for writing", 9)
    c.need(len(dirs), "directories created", 1)
    for e in evs:
        if e.kind in ("fsmod", "env", "system"):
            c.ob("file system operation %s" % (e.data[:1],), "nothing but directories and generated files is created, removed or renamed", False, e.where(), vshow(e.data)[:200])
    rw, dd = opt("is_rewrite"), opt("is_driver_dir")
    seen = set()
    for e in dirs + writes:
        isdir = e.kind == "mkdir"
        p = evpath(e)
        f0 = base_facts(e)
        for lid, k, n in e.loops:
            if isinstance(k, Lin):
                f0.assume(ge0(k))
                if isinstance(n, Lin):
                    f0.assume(ge0(n - k - 1))
        done = set()
        for r0 in (rw, f_not(rw)):
            for d0 in (dd, f_not(dd)):
                f1 = f0.copy()
                f1.assume(r0)
                f1.assume(d0)
                if f1.contradiction:
                    continue
                for f, s in cases(p, f1):
                    if f.contradiction:
                        continue
                    key = (s, f.ask(rw), f.ask(dd), f.ask(eq0(chr_at(OUT, str_len(hole(OUT)) - 1) - 47)))
                    if key in done:
                        continue
                    done.add(key)
                    one_path(c, e, s, f, r0 is rw, d0 is dd, isdir, seen)
    for d in ("lib", "usr", "inc", "conf", "butl"):
        c.ob("sub-directory %s" % d, "every documented sub-directory is created", ("dir", d) in seen, "", "no directory creation for it")
    for d, fs in PLACES.items():
        for n in fs:
            c.ob("file %s/%s" % (d, n), "every documented file is written in its place", ("file", d, n) in seen, "", "no write to it")
    # no write after a failed preparation
    for w in writes:
        pc = f_and(*w.pc)
        for m in dirs:
            fail = mk_fail(m, g)
            if m.loops and len(m.loops) > len([l for l in w.loops if l in m.loops]):
                continue
            c.count("write/directory pairs")
            fm = f_and(*m.pc)
            there = [a for a, k in atom_paths(pc, ("exists",)) if len(k) == 3 and k[2] == m.data[0]]
            ok = not sat(f_and(pc, fm, fail, *[f_not(a) for a in there]))
            c.ob("write of %s after failed directory %s" % (short(w), short(m)), "no file is written when a directory could not be created", ok, w.where(),
                 "the file is opened although the directory of %s could not be created" % m.where())
    # the directory taken is one that was found
    c.assumes("make_c_name leaves only letters, digits and underscores (checked by C11), node names are made of the characters the "
              "parser's splitting expressions keep, which exclude '/'", "the output directory and the driver name are not empty (checked by C17)")


def mk_fail(m, g):
    return m.data[1]


def short(e):
    s = vshow(evpath(e))
    return s[-60:]


def one_path(c, e, s, f, rw, dd, isdir, seen):
    root, comps, nums, err = components(s, f)
    base = (["«drv0»"] if dd else []) + ([] if rw else ["«NNN»"])
    mode = "%s%s" % ("-rw " if rw else "", "-driverdir" if dd else "")
    shown = "/".join(comps)
    comps = [re.sub(r"«\?node»", "«node»", x) for x in comps]
    key = "%s of %s %s" % ("creation" if isdir else "writing", shown, mode)
    if err is not None:
        c.ob(key, "created things lie under the output directory", False, e.where(), "%s %s" % (vshow(s)[:200], err))
        return
    c.count("paths")
    c.ob(key, "created things lie under the output directory", not any("«?" in x or ".." in x for x in comps), e.where(), shown)
    if isdir:
        ok = comps == base[:len(comps)] or (comps[:-1] == base and comps[-1] in PLACES)
        c.ob(key, "directories created are the documented ones of the options given", ok, e.where(), "created: OUT/" + shown)
        if comps[:-1] == base and comps:
            seen.add(("dir", comps[-1]))
        if comps and comps[:len(base)] == base and len(comps) > len(base) and not rw:
            c.ob(key + " fresh", "without -rw the numbered directory has been created by this run", fresh(nums[0], base, f) is None, e.where(), fresh(nums[0], base, f) or "")
        return
    ok = len(comps) == len(base) + 2 and comps[:-2] == base
    c.ob(key, "files lie directly in a sub-directory of the directory of the options given", ok, e.where(), "OUT/" + shown)
    if ok:
        c.ob(key, "the file is in its documented sub-directory", comps[-1] in PLACES.get(comps[-2], ()), e.where(), "OUT/" + shown)
        seen.add(("file", comps[-2], comps[-1]))
        if not rw:
            err = fresh(nums[0], base, f)
            c.ob(key + " fresh", "without -rw the numbered directory has been created by this run", err is None, e.where(), err or "")


# ------------------------------------------------------------------ C17
FLAGS = {"-rw": "is_rewrite", "-nodeutils": "is_nodeutils", "-help": "is_help", "-noinc": "is_nocanmon", "-noconfig": "is_noconfig",
         "-nofmon": "is_nofmon", "-driverdir": "is_driver_dir", "-gendate": "add_gen_date"}
VALS = {"-dbc": "dbc", "-out": "outdir", "-drvname": "drvname"}
GEN = ("is_noconfig", "is_nocanmon", "is_nofmon", "is_nodeutils", "add_gen_date", "is_rewrite", "is_driver_dir", "is_help")


def params_in(x):
    """members of the option structure a value depends on"""
    acc, seen = set(), set()

    def go(x):
        if isinstance(x, (tuple, Str, Lin, Vec, Obj)) or hasattr(x, "key"):
            if id(x) in seen:
                return
            seen.add(id(x))
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "fld" and x[1] == PRM:
                acc.add(x[2])
            for y in x:
                go(y)
        elif isinstance(x, Str):
            go(x.segs)
        elif isinstance(x, Lin):
            for i, _ in x.t:
                go(Sym.byid[i].key)
        elif isinstance(x, Vec):
            go(x.segs)
            go(x.st)
        elif isinstance(x, Phi):
            go(x.c)
            go(x.a)
            go(x.b)
        elif hasattr(x, "key"):
            go(x.key)
    keep = [x]
    go(x)
    return acc


def file_gates(c):
    """which options decide whether and how a file is written"""
    fs = c.views.files
    core = [f for f in fs if f.name == "«drv».h"]
    if len(core) != 1:
        raise AnalysisBroken("main header: %d files" % len(core))
    prep = f_and(*core[0].f.ev.pc)
    bad = params_in(prep) & {"is_noconfig", "is_nocanmon", "is_nofmon", "is_nodeutils", "add_gen_date", "is_help"}
    c.ob("condition of the main header", "the main header is written whatever the other options are", not bad, core[0].where(), "depends on %s" % sorted(bad))
    gates = {"«drv».h": True, "«drv».c": True, "«drv»-fmon.h": True, "«drv»-fmon.c": f_not(opt("is_nofmon")), "«drv»-config.h": f_not(opt("is_noconfig")),
             "dbccodeconf.h": f_not(opt("is_noconfig")), "canmonitorutil.h": f_not(opt("is_nocanmon")),
             "«drv»-binutil.h": f_not(opt("is_nodeutils")), "«drv»-binutil.c": f_not(opt("is_nodeutils"))}
    groups = {}
    for f in fs:
        n = f.name
        m = re.fullmatch(r"«[^»]*»_(«drv»-binutil\.[ch])", n)
        groups.setdefault(("node " + m.group(1)) if m else n, []).append(f)
    want = dict(gates)
    for x in ("h", "c"):
        want["node «drv»-binutil." + x] = opt("is_nodeutils")
    for n, g in want.items():
        fl = groups.pop(n, [])
        if not c.ob("file %s" % n, "the file is generated", bool(fl), "", "no such file"):
            continue
        pc = f_or(*[f_and(*f.f.ev.pc) for f in fl])
        if n.startswith("node "):
            # one per node: only the gate is compared
            up, lo = implies(pc, f_and(prep, g)), all(implies(f_and(prep, g), drop_loops(f)) for f in fl)
        else:
            up, lo = implies(pc, f_and(prep, g)), implies(f_and(prep, g), pc)
        c.ob("file %s" % n, "the file is suppressed when its option says so", up, fl[0].where(), "it is also written under: %s" % L.fshow(extra(pc, f_and(prep, g)))[:200])
        c.ob("file %s" % n, "the file is written unless its own option suppresses it", lo, fl[0].where(), "it is not always written: %s" % L.fshow(extra(f_and(prep, g), pc))[:200])
        for f in fl:
            dep = params_in(f.f.text) & set(GEN) - {"add_gen_date"}
            c.ob("content of %s" % n, "options other than the generation date do not change the content of a file", not dep, f.where(), "content depends on %s" % sorted(dep))
            gendate(c, n, f)
    for n, fl in groups.items():
        c.ob("file %s" % n, "only documented files are written", False, fl[0].where(), n)


def drop_loops(f):
    return f_and(*f.f.ev.pc)


def extra(a, b):
    return f_and(*[x for x in (a[1] if isinstance(a, tuple) and a[0] == "and" else (a,)) if x not in (b[1] if isinstance(b, tuple) and b[0] == "and" else (b,))])


def gendate(c, n, f):
    """the date comment is what the option adds"""
    lines = f.f.lines
    A = opt("add_gen_date")
    segs = [s for s in f.f.text.segs]
    hits = 0
    for s in all_segs(segs):
        if s[0] == "I" and A in atoms(s[1]):
            a, b = s[2], s[3]
            on, off = Facts(), Facts()
            on.assume(s[1])
            off.assume(f_not(s[1]))
            if not implies(s[1], A):
                a, b, on, off = b, a, off, on
            x, y = resolve_all(a, on), resolve_all(b, off)
            t = textof(x)
            hits += 1
            c.ob("generation date in %s" % n, "the option adds the line with the date and nothing else", textof(y) == "" and re.fullmatch(r"// Generation time *: «[^»]*»\n", t) is not None
                 and (implies(s[1], A) or implies(f_not(s[1]), A)), f.where(), "with the option: %r, without: %r" % (t[:100], textof(y)[:100]))
    if "add_gen_date" in params_in(f.f.text):
        c.ob("generation date in %s" % n, "the option acts on the date line alone", hits == 1, f.where(), "%d places depend on it" % hits)
    else:
        c.ob("generation date in %s" % n, "with the option the file shows the generation date", False, f.where(), "the file does not depend on the option")


def all_segs(segs):
    for s in segs:
        yield s
        if s[0] == "R":
            yield from all_segs(s[4].segs)
        if s[0] == "I":
            for b in (s[2], s[3]):
                yield from all_segs(b.segs)


def resolve_all(v, facts):
    # undecided conditions of the line (a failing localtime) are taken as true
    for _ in range(8):
        a = first_atom(v, facts)
        if a is None:
            break
        facts.assume(a)
    return resolve(v, facts)


def textof(s):
    out = ""
    for g in s.segs:
        out += g[1] if g[0] == "L" else "«%s»" % (vshow(hole(g[1]))[:40] if g[0] == "H" else g[0])
    return out


def arg_run(P, kinds):
    I = genrun.start(P)
    st = interp.St()
    items = []
    for i, k in enumerate(kinds):
        h = ("in", "arg%d" % i)
        if k == "E":
            s = lit("")
        elif k == "K":
            s = cat(lit("-"), hole(h))
        else:
            s = hole(h)
            st.facts.assume(ge0(str_len(s) - 1))
            st.facts.assume(f_not(eq0(chr_at(h, Lin(0)) - 45)))
        items.append(("one", CPtr(s)))
    st.cells[("h", "argv")] = Vec(tuple(items), ())
    fn = P.fn("OptionsParser::GetOptions")
    cn = [f for f in P.fns.values() if f["name"].split("::")[-1] == "make_c_name"]
    if len(cn) == 1:
        def h_cn(I, st, fn, this, args, e):
            t = lib.to_str(I, st, args[0])
            return t if t == lit("") else hole(("cname", t))
        I.hooks[cn[0]["key"]] = h_cn
    st.cells[("h", "op")] = Obj("OptionsParser", ("in", "op"), {})
    r = I.run(fn, st, (("h", "op"), ()), [Lin(len(kinds)), Ptr((("h", "argv"), ()))])
    return I, st, r, fn


def parse_spec(kinds, names):
    """what the arguments mean: flags set, values given (position)"""
    flags, vals = set(), {}
    i = 1
    n = len(kinds)
    while i < n:
        if kinds[i] == "K":
            o = names.get(i)
            v = i + 1 if i + 1 < n and kinds[i + 1] != "K" else None
            if o in FLAGS:
                flags.add(FLAGS[o])
            elif o in VALS:
                vals.setdefault(VALS[o], []).append(v)
        i += 1
    return flags, vals


def options(c, tier):
    import itertools
    P = c.g.P
    shapes = ["".join(x) for n in range(0, 4) for x in itertools.product("KVE", repeat=n)] + ["KVKVKV"]
    if tier == "thorough":
        shapes += ["".join(x) for x in itertools.product("KV", repeat=4)] + ["KKVKVKV", "KVKKVKV", "KVKVKKV", "KVKVKVK", "VKVKVKV", "KVVKVKV"]
    allopts = list(FLAGS) + list(VALS) + [None]
    small = list(VALS) + ["-rw", "-help", None]
    fn = None
    for sh in shapes:
        kinds = "V" + sh
        I, st, r, fn = arg_run(P, kinds)
        where = "%s:%s" % (rel(fn.get("file", "")), fn.get("line", 0))
        for e in I.events:
            if e.kind in ("open", "mkdir", "fsmod", "env"):
                c.ob("effects of option parsing", "parsing the options has no effect on files", False, e.where(), e.kind)
        ks = [i for i, k in enumerate(kinds) if k == "K"]
        if not isinstance(r, Obj):
            raise AnalysisBroken("result of GetOptions: %r" % (r,))
        base = Facts()
        for i, k in enumerate(kinds):
            if k == "V":
                base.assume(ge0(str_len(hole(("in", "arg%d" % i))) - 1))
                base.assume(f_not(eq0(chr_at(("in", "arg%d" % i), Lin(0)) - 45)))
        for combo in itertools.product(allopts if len(ks) <= 3 else small, repeat=len(ks)):
            names = dict(zip(ks, combo))
            flags, vals = parse_spec(kinds, names)
            if any(len(v) > 1 for v in vals.values()):
                continue
            f = base.copy()
            for i in ks:
                for o in list(FLAGS) + list(VALS):
                    a = ("a", ("streq", ("in", "arg%d" % i), o[1:]))
                    f.assume(a if names[i] == o else f_not(a))
            c.count("argument vectors")
            shown = " ".join((names[i] or "-other") if k == "K" else "value" if k == "V" else "''" for i, k in enumerate(kinds) if i)
            for o, fld in FLAGS.items():
                got = f.simp(truthy(r.ov.get(fld, False)))
                if got is not (fld in flags):
                    c.ob("option %s" % o, "the option is set exactly when it is given", False, where, "arguments: %s -> %s=%s" % (shown, fld, got if isinstance(got, bool) else L.fshow(got)[:120]))
            for o, fld in VALS.items():
                pr = r.ov.get(fld)
                if not isinstance(pr, Obj):
                    c.ob("option %s" % o, "the option's value is taken from the argument after it", False, where, "value: " + vshow(pr)[:100])
                    continue
                v = vals.get(fld, [None])[0]
                has = v is not None and kinds[v] == "V"
                second = f.simp(truthy(pr.ov.get("second", False)))
                first = resolve(pr.ov.get("first", lit("")), f)
                h = hole(("in", "arg%d" % v)) if has else None
                if fld == "drvname":
                    exp = cat(hole(("cname", h))) if has else None
                    if has:
                        want = ge0(str_len(exp) - 1)
                        ok2 = equiv_under(second, want, f)
                    else:
                        ok2 = second is False or (not has and not sat_under(second, f, v is not None and ("cname", lit(""))))
                else:
                    exp = h
                    ok2 = second is has
                if not ok2:
                    c.ob("option %s" % o, "the option counts as given exactly when a usable value follows it", False, where,
                         "arguments: %s -> given: %s" % (shown, second if isinstance(second, bool) else L.fshow(second)[:120]))
                if has and first != exp:
                    c.ob("option %s" % o, "the option's value is taken from the argument after it", False, where, "arguments: %s -> %s" % (shown, vshow(first)[:120]))
    for o in list(FLAGS) + list(VALS):
        c.ob("option %s" % o, "the option is set exactly when it is given", True, where)
    return fn


def truthy(v):
    if v is True or v is False or is_f(v):
        return v
    if isinstance(v, Lin) and not v.t:
        return v.c != 0
    return ("a", ("opq", v))


def equiv_under(a, b, f):
    x = f.simp(f_or(f_and(a, f_not(b)), f_and(b, f_not(a))))
    return not sat(x)


def sat_under(a, f, k):
    if k:
        # the cleaned name of an empty text is empty
        f = f.copy()
        f.assume(eq0(str_len(hole(k))))
        a = f.simp(a)
    return sat(a)


def run_gate(c):
    """who starts the generation, and when"""
    P = c.g.P
    I = genrun.start(P)
    gen, hlp, opts = P.fn("CoderApp::GenerateCode"), P.fn("CoderApp::PrintHelp"), P.fn("OptionsParser::GetOptions")
    calls = []

    def h_gen(I, st, fn, this, args, e):
        v = I.read(st, I.sub(this, ("f", "Params")))
        if isinstance(v, Ref):
            v = I.read(st, v.loc)
        calls.append(("gen", f_and(*st.pc), v, ""))
        return Opq("void")

    def h_hlp(I, st, fn, this, args, e):
        calls.append(("help", f_and(*st.pc), None, ""))
        return Opq("void")

    def h_opt(I, st, fn, this, args, e):
        calls.append(("opts", f_and(*st.pc), args, ""))
        return Obj("OptionsParser::GenOptions", ("in", "opts"), {})
    I.hooks[gen["key"]] = h_gen
    I.hooks[hlp["key"]] = h_hlp
    I.hooks[opts["key"]] = h_opt
    mains = [f for f in P.fns.values() if f["name"] == "main" and "tests" not in f.get("file", f.get("unit", ""))]
    if len(mains) != 1:
        raise AnalysisBroken("main: %d definitions" % len(mains))
    st = interp.St()
    from .lin import sym
    argc = Lin.of(sym(("in", "argc"), 0, 2 ** 31 - 1))
    I.run(mains[0], st, None, [argc, Ptr((("h", "argv"), ()))])
    return I, calls


@reg("C17")
def c17(c):
    """The option parser is interpreted on abstract argument vectors (every argument is an unknown option, one of the documented
    options, a value or empty; values are symbols), main and Run for all option structures; the condition of every generated file
    and the option dependence of its content come from the run as a whole."""
    v = c.views                       # first: uses the symbols of the run
    file_gates(c)
    I, calls = run_gate(c)
    O = ("in", "opts")

    def o(n, s=None):
        k = ("fld", O, n)
        return ("a", ("b", ("fld", k, s) if s else k))
    want = f_and(o("dbc", "second"), o("outdir", "second"), o("drvname", "second"), f_not(o("is_help")))
    gens = [x for x in calls if x[0] == "gen"]
    hlps = [x for x in calls if x[0] == "help"]
    c.need(len(gens), "calls of GenerateCode")
    gf, hf = f_or(*[x[1] for x in gens]), f_or(*[x[1] for x in hlps])
    c.ob("start of the generation", "generation starts only if file, directory and driver name are given and help is not requested", implies(gf, want), "CoderApp::Run", L.fshow(gf)[:200])
    c.ob("start of the generation", "generation starts if file, directory and driver name are given and help is not requested", implies(want, gf), "CoderApp::Run", L.fshow(gf)[:200])
    c.ob("help", "the help text is shown when generation is not started, and only then", implies(f_not(want), hf) and not sat(f_and(hf, gf)), "CoderApp::Run", L.fshow(hf)[:200])
    for i, x in enumerate(gens):
        c.ob("options used", "the generation uses the parsed options", isinstance(x[2], Obj) and x[2].key == O and not x[2].ov, "main", vshow(x[2])[:200])
        for y in gens[:i]:
            c.ob("start of the generation", "it is started once", not sat(f_and(x[1], y[1])), "CoderApp::Run", "")
    for e in I.events:
        if e.kind in ("open", "mkdir", "fsmod", "env"):
            c.ob("effects outside the generation", "nothing is written unless the generation starts", False, e.where(), e.kind)
    help_text(c)
    options(c, c.tier)


def help_text(c):
    P = c.g.P
    I = genrun.start(P)
    st = interp.St()
    st.cells[("h", "app")] = Obj("CoderApp", ("in", "app"), {})
    fn = P.fn("CoderApp::PrintHelp")
    I.run(fn, st, (("h", "app"), ()), [])
    t = ""
    for e in I.events:
        if e.kind == "print":
            t += "".join(textof(x) for x in e.data if isinstance(x, Str))
        elif e.kind in ("open", "mkdir", "fsmod"):
            c.ob("help", "showing the help writes nothing", False, e.where(), e.kind)
    for o in list(FLAGS) + list(VALS):
        if o != "-help":
            c.ob("help on %s" % o, "the help text names the option", o in t, "CoderApp::PrintHelp", "")


# ------------------------------------------------------------------ C18
MARKS = {
    "«drv».h": ("} «M.Name»_t;", "#define VER_«DRV»_MAJ («%d dbc.ver.hi»U)"),
    "«drv».c": ("#include \"«drv».h\"", "{ Unpack_«M.Name»_«Drv»(", "{ Pack_«M.Name»_«Drv»("),
    "«drv»-fmon.h": ("#define VER_«DRV»_MAJ_FMON («%d dbc.ver.hi»U)", "void _FMon_MONO_«drv»(FrameMonitor_t* _mon, uint32_t msgid);"),
    "«drv»-fmon.c": ("#include \"«drv»-fmon.h\"", "{ _FMon_MONO_«drv»(", "{ _FMon_«M.Name»_«drv»("),
    "«drv»-config.h": ("#include \"dbccodeconf.h\"", "// _USE_BITS_SIGNAL", "// _AUTO_CSM"),
    "dbccodeconf.h": ("typedef uint32_t ubitext_t;", "typedef int32_t bitext_t;"),
    "canmonitorutil.h": ("} FrameMonitor_t;", "} DbcCanCrcMethods;"),
    "«drv»-binutil.h": ("} «drv»_rx_t;", "uint32_t «drv»_Receive($*);"),
    "«drv»-binutil.c": ("#include \"«drv»-binutil.h\"", "{ «drv»_Receive("),
    "«node»_«drv»-binutil.h": ("} «node»_«drv»_rx_t;", "uint32_t «node»_«drv»_Receive($*);"),
    "«node»_«drv»-binutil.c": ("#include \"«node»_«drv»-binutil.h\"", "{ «node»_«drv»_Receive("),
}
OWNED = {   # what only the named file contains
    "«drv».h": ("} «M.Name»_t;",), "«drv»-fmon.h": ("#define VER_«DRV»_MAJ_FMON («%d dbc.ver.hi»U)",), "dbccodeconf.h": ("typedef uint32_t ubitext_t;",),
    "canmonitorutil.h": ("} FrameMonitor_t;",), "«drv».c": ("{ Unpack_«M.Name»_«Drv»(", "{ Pack_«M.Name»_«Drv»("),
    "«drv»-fmon.c": ("{ _FMon_MONO_«drv»(", "{ _FMon_«M.Name»_«drv»("), "«drv»-binutil.c": ("{ «drv»_Receive(",), "«drv»-binutil.h": ("} «drv»_rx_t;",),
    "«node»_«drv»-binutil.h": ("} «node»_«drv»_rx_t;",), "«node»_«drv»-binutil.c": ("{ «node»_«drv»_Receive(",),
    "«drv»-config.h": ("// /* #define ",),
}


def has_mark(fv, m, node):
    m = m.replace("«node»", node or "«node»")
    if m.startswith("// "):
        return any(m[3:] in s[1] for e in fv.f.lines for s in flat_segs(e.segs) if s[0] == "L")
    if m.startswith("{ "):          # a definition: its head line is followed by a brace
        head = m[2:]
        rows = fv.rows
        for i, r in enumerate(rows):
            if re.search(r"(^|\s)" + re.escape(head), r.code) and not r.code.rstrip().endswith(";") and not r.code.startswith("#"):
                if r.code.rstrip().endswith("{") or any(x.code.startswith("{") for x in rows[i + 1:i + 12]):
                    return True
        return False
    return bool(fv.find(m))


def flat_segs(segs):
    for s in segs:
        yield s
        if s[0] == "I":
            yield from flat_segs(s[2].segs)
            yield from flat_segs(s[3].segs)
        elif s[0] == "R":
            yield from flat_segs(s[4].segs)
        elif s[0] == "T":
            for x in s[1]:
                yield from ([("L", x)] if isinstance(x, str) else flat_segs(x.segs))


IDENT_MAX = 255


def maxlen(segs):
    """upper bound of the length of a text, None if there is none"""
    n = 0
    for s in segs:
        t = s[0]
        if t == "L":
            n += len(s[1])
        elif t == "H":
            k = s[1]
            while isinstance(k, tuple) and k and k[0] in ("upper", "lower"):
                k = k[1]
            if k == DRV or (isinstance(k, tuple) and k[0] == "fld" and k[2] in ("Name", "NameFloat", "DRVNAME", "drvname", "MsgName", "NodeName")):
                n += IDENT_MAX
            else:
                return None
        elif t == "N":
            m = re.match(r"[-+ #0]*(\d*)", s[1])
            if isinstance(s[2], Flt):
                d = re.search(r"\.(\d+)", s[1])
                n += max(330 + (int(d.group(1)) if d else 6), int(m.group(1) or 0))
            else:
                n += max(24, int(m.group(1) or 0))
        elif t == "I":
            a, b = maxlen(s[2].segs), maxlen(s[3].segs)
            if a is None or b is None:
                return None
            n += max(a, b)
        elif t == "T":
            n += max(len(x) if isinstance(x, str) else (maxlen(x.segs) or 0) for x in s[1])
        elif t == "C":
            n += 1
        else:
            return None
    return n


def cut_text(c, segs, where, key):
    """pieces of texts of the database in the content"""
    from .out import Namer
    nm = Namer()
    for s in segs:
        if s[0] in ("I", "N", "H") and nm.dbl(s) is not None:
            continue
        if s[0] == "H" and isinstance(s[1], tuple) and s[1] and s[1][0] in ("pre", "resized", "sub", "suf", "sel"):
            base = s[1][1]
            txt = vshow(base)
            if "app.Params" in txt and "dbc.msgs" not in txt and "(* dbc)" not in txt:
                continue
            c.ob(key + " " + txt[:80], "texts are written whole", False, where, "only a part of it is written: " + vshow(s[1])[:200])
        elif s[0] == "I":
            cut_text(c, s[2].segs, where, key)
            cut_text(c, s[3].segs, where, key)
        elif s[0] == "R":
            cut_text(c, s[4].segs, where, key)


@reg("C18")
def c18(c):
    """Open, write, close and report events of every output file, and the symbolic content given to each write."""
    g = c.g
    evs = g.I.events
    for e in evs:
        if e.kind == "write":
            c.count("texts written")
            cut_text(c, e.data[1].segs, e.where(), "a text")
    fs = c.views.files
    c.need(len(fs), "files written", 9)
    shown = {}
    for fv in fs:
        c.count("files")
        n = fv.name
        m = re.fullmatch(r"(«@?\w+»)_«drv»-binutil\.[ch]", n)
        node = m.group(1) if m else None
        kind = n if not node else "«node»" + n[len(node):]
        shown.setdefault(kind, []).append(fv)
        e = fv.f.ev
        segs = e.data[1].segs
        c.ob(kind, "the content is that of a documented file", kind in MARKS, fv.where(), "no content known for a file of this name")
        # its own content, from its beginning
        for k in MARKS.get(kind, ()):
            c.count("content marks")
            c.ob("%s: %s" % (kind, k), "the file has its own content", has_mark(fv, k, node), fv.where(), "not found in the text written to the file")
        for o, ks in OWNED.items():
            if o == kind:
                continue
            for k in ks:
                c.ob("%s: %s" % (kind, k), "the file has no content of another file", not has_mark(fv, k, node if "«node»" in o else None),
                     fv.where(), "contains text of " + o)
        head = segs[0][1] if segs and segs[0][0] == "L" else ""
        c.ob(kind + " beginning", "the text begins with the generator's version line", head.startswith("// Generator version"), fv.where(),
             "begins with: " + vshow(e.data[1])[:120])
        cnt = sum(s[1].count("// Generator version") for s in flat_segs(segs) if s[0] == "L")
        c.ob(kind + " beginning", "the version line occurs once", cnt == 1, fv.where(), "%d times" % cnt)
        # nothing that depends on what happened to files written before
        prev = {a for x in flat_segs(segs) if x[0] == "I" for a, k in atom_paths(x[1], ("openok", "closefail", "writefail")) if k[1] != DBCPATH}
        c.ob(kind + " state", "the content does not depend on whether other files could be written", not prev, fv.where(),
             "; ".join(vshow(a[1]) for a in prev)[:300])
        # the write follows an open of the same path that discards old content
        op = [o for o in evs if o.kind == "open" and o.data[0] != "r" and o.data[1] == e.data[0] and o.loops == e.loops]
        c.ob(kind + " opened", "the file is opened under the path its text is written to", len(op) == 1, fv.where(), "%d opens" % len(op))
        for o in op:
            md = o.data[2]
            if isinstance(md, Lin) and md.is_const():
                ok = (md.c & ~4) in (16, 32, 48)
            else:
                ok = isinstance(md, str) and md.startswith("w")
            c.ob(kind + " mode", "opening discards the old content of the file", ok, o.where(), "mode %s" % vshow(md))
            # failure is reported
            fails, good = [], []
            fid = None
            P = f_and(*o.pc)
            okatom = [a for a, k in all_atoms(evs) if k[0] == "openok" and k[1] == o.data[1]]
            bad = [a for a, k in all_atoms(evs) if k[0] in ("closefail", "writefail") and k[1] == o.data[1]]
            c.ob(kind + " tested", "it is tested whether the file could be opened", bool(okatom), o.where(), "the result of opening the file has no influence")
            c.ob(kind + " tested", "it is tested whether the text could be written out", any(a[1][1][0] == "closefail" for a in bad), o.where(),
                 "the state of the stream after closing has no influence")
            succ = f_and(P, *okatom, *[f_not(a) for a in bad])
            rep = []
            for p in evs:
                if p.kind == "print" and p.loops[:len(o.loops)] == o.loops:
                    f = f_and(*p.pc)
                    if not sat(f_and(succ, f)) and sat(f_and(P, f)):
                        rep.append(f)
            R = f_or(*rep) if rep else False
            for what, a in [("not opened", f_not(x)) for x in okatom] + [("not written", f_and(*okatom, x)) for x in bad]:
                c.count("failures to report")
                c.ob("%s %s" % (kind, what), "a file that cannot be written is reported", not sat(f_and(P, a, f_not(R))), o.where(),
                     "nothing is printed in this case")
    for k in MARKS:
        c.ob(k, "the documented file is written", k in shown, "", "no text is written to it")
    for i, a in enumerate(fs):
        for b in fs[i + 1:]:
            c.count("pairs of files")
            same = a.path == b.path
            c.ob("%s / %s" % (a.name, b.name), "two texts never go to one path", not (same and sat(f_and(*(tuple(a.f.ev.pc) + tuple(b.f.ev.pc))))), b.where(), "both are written to " + a.name)
    # nothing cut off
    for e in evs:
        if e.kind != "buffer":
            continue
        c.count("formatted texts")
        cap, t = e.data[0], e.data[1]
        if not isinstance(cap, Lin):
            cap = Lin.of(cap) if isinstance(cap, int) else None
        key = "text %s" % re.sub(r"\([0-9 ]+\)", "", vshow(t))[:100]
        need = str_len(t) + 1
        f = base_facts(e)
        ok = cap is not None and (f.ask(ge0(cap - need)) is True or f.ask(ge0(cap - slen_sym(t) - 1)) is True)
        if not ok and cap is not None and cap.is_const():
            m = maxlen(t.segs)
            ok = m is not None and m < cap.c
        c.ob(key, "formatted text fits its buffer", ok, e.where(), "the buffer of %s characters may be too small" % vshow(cap))
    c.assumes("names are at most %d characters long where they are put into a buffer of fixed size" % IDENT_MAX,
              "two nodes have different names apart from case (known finding of C06)")


def slen_sym(t):
    """the number of characters vsnprintf reported for the text"""
    return Lin.of(L.sym(("slen", t), 0, L.INF))


DBCPATH = hole(DBC)
_aa = {}


def all_atoms(evs):
    k = id(evs)
    if k not in _aa:
        s = {}
        for e in evs:
            if e.kind == "print":
                for f in e.pc:
                    for a, p in atom_paths(f, ("openok", "closefail", "writefail")):
                        s[a] = p
        _aa.clear()
        _aa[k] = list(s.items())
    return _aa[k]
