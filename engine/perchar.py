"""Texts built character by character from another text, evaluated for every character."""
from .lin import Facts, Sym, Lin, f_not, eq0
from . import lin as L


def syms_of(x, out):
    """symbols used by a text body; None if it holds more than characters and conditions"""
    for g in x.segs:
        t = g[0]
        if t == "L":
            continue
        if t == "C":
            for i, _ in g[1].t:
                out.add(i)
        elif t == "I":
            if not cond(g[1], out) or syms_of(g[2], out) is None or syms_of(g[3], out) is None:
                return None
        else:
            return None
    return out


def cond(f, out):
    if f is True or f is False:
        return True
    if not isinstance(f, tuple):
        return False
    if f[0] == "a":
        a = f[1]
        if a[0] not in ("ge", "eq"):
            return False
        for i, _ in a[1]:
            out.add(i)
        return True
    if f[0] == "not":
        return cond(f[1], out)
    if f[0] in ("and", "or"):
        return all(cond(x, out) for x in f[1])
    return False


def evalf(f, i, v):
    if f is True or f is False:
        return f
    if f[0] == "a":
        a = f[1]
        s = a[2] + sum(c * v for j, c in a[1])
        return s >= 0 if a[0] == "ge" else s == 0
    if f[0] == "not":
        return not evalf(f[1], i, v)
    if f[0] == "and":
        return all(evalf(x, i, v) for x in f[1])
    return any(evalf(x, i, v) for x in f[1])


def value(x, i, v):
    out = ""
    for g in x.segs:
        if g[0] == "L":
            out += g[1]
        elif g[0] == "C":
            out += chr((g[1].c + sum(c * v for _, c in g[1].t)) & 255)
        else:
            out += value(g[2] if evalf(g[1], i, v) else g[3], i, v)
    return out


_memo = {}
L.ON_RESET.append(_memo.clear)


def mapping(g):
    """for a repeated part that goes over all characters of a text and depends on the current one only:
    (text key, {character: text}) of the characters that are not just copied; None if it is something else"""
    if g in _memo:
        return _memo[g]
    _memo[g] = r = _mapping(g)
    if len(_memo) > 20000:
        _memo.clear()
    return r


def _mapping(g):
    from .values import seg_len
    s = syms_of(g[4], set())
    if s is None or len(s) != 1:
        return None
    i = next(iter(s))
    k = Sym.byid[i].key
    if k[0] != "chr" or len(k) != 3 or not isinstance(k[1], tuple) or k[2] != g[2]:
        return None
    if seg_len(("H", k[1])) != g[3]:
        return None
    d = {}
    for c in range(1, 256):
        # characters are signed
        t = value(g[4], i, c if c < 128 else c - 256)
        if t != chr(c):
            d[chr(c)] = t
            if len(d) > 4:
                return None
    return k[1], d
