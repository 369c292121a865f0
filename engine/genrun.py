"""The whole generation run (CoderApp::GenerateCode) over a symbolic message list and symbolic options."""
import sys, time
from . import model, interp, lib
from .values import *
from . import lin as L
from .lin import reset_syms

sys.setrecursionlimit(200000)


def start(prog):
    reset_syms()
    return interp.Interp(prog)


def ev_stream(ev):
    return ev.data


class Gen:
    pass


def cut(I, g):
    """the parser is replaced by an arbitrary message list"""
    P = I.prog
    trim = P.fn("DbcScanner::TrimDbcText")

    def h_trim(I, st, fn, this, args, e):
        dl = I.sub(this, ("f", "dblist"))
        I.write(st, dl, Obj(I.prog.field_type("DbcScanner", "dblist")["name"], ("*", ("in", "dbc")), {}))
        return None
    I.hooks[trim["key"]] = h_trim

    ps = [f for f in P.fns.values() if f["name"].endswith("PrintSignalExpr")]
    if len(ps) != 1:
        raise model.AnalysisBroken("PrintSignalExpr: %d definitions" % len(ps))

    g.pse = ps[0]

    def h_pse(I, st, fn, this, args, e):
        """the expressions of one signal: analysed on their own (sigexpr)"""
        sig, tb = args[0], args[1]
        if isinstance(sig, SPtr):
            key = ("*", sig.key)
        elif isinstance(sig, Ptr):
            o = I.read(st, sig.loc)
            key = o.key if isinstance(o, Obj) else ("?", vshow(sig))
        else:
            raise model.AnalysisBroken("signal argument of PrintSignalExpr: %r" % (sig,))
        loc = tb.loc
        v = I.read(st, loc)
        g.pse_calls.append((key, v, I.cur))
        if isinstance(v, Vec):
            I.write(st, loc, Vec(v.segs, v.st + (("ext", ("pse", key)),)))
        else:
            raise model.AnalysisBroken("byte expressions of PrintSignalExpr: %r" % (v,))
        return hole(("pse", key, lib.size_of(I, st, v)))
    g.pse_calls = []
    I.hooks[ps[0]["key"]] = h_pse


def run(verbose=False):
    P = model.load()
    I = start(P)
    g = Gen()
    g.I, g.P = I, P
    cut(I, g)
    app = P.fn("CoderApp::GenerateCode")
    cls = app["cls"] if "cls" in app else "CoderApp"
    st = interp.St()
    root = (("h", "app"), ())
    st.cells[("h", "app")] = Obj("CoderApp", ("in", "app"), {})
    t = time.time()
    try:
        g.ret = I.run(app, st, (("h", "app"), ()), [])
    except Exception:
        raise
    g.st = st
    if verbose:
        print("run", time.time() - t)
    return g


if __name__ == "__main__":
    g = run(True)
    from collections import Counter
    print(Counter(e.kind for e in g.I.events))
