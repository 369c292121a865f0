"""Values of pure integer terms of a template, tabulated over the finite range of the one field they depend on."""
from .values import *
from . import lin as L
from .lin import Lin, Sym


class NoValue(Exception):
    pass


def ival(v, env, nm):
    """value of an integer term; env: canonical name -> int"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if is_f(v):
        return int(fval(v, env, nm))
    if isinstance(v, Lin):
        r = v.c
        for i, c in v.t:
            r += c * sval(Sym.byid[i], env, nm)
        return r
    raise NoValue(repr(v)[:100])


def wrap(x, bits, signed):
    x &= (1 << bits) - 1
    return x - (1 << bits) if signed and x >> (bits - 1) else x


def sval(s, env, nm):
    n = nm(Lin.of(s))
    if n in env:
        return env[n]
    k = s.key
    if not isinstance(k, tuple):
        raise NoValue(n)
    h = k[0]
    a = [ival(x, env, nm) if isinstance(x, (Lin, bool, int)) or is_f(x) else x for x in k[1:]]
    if h == "shl":
        return a[0] << a[1] if 0 <= a[1] < 128 else 0
    if h == "shr":
        return a[0] >> a[1] if 0 <= a[1] else 0
    if h == "mul":
        return a[0] * a[1]
    if h in ("div", "mod"):
        if a[1] == 0:
            raise NoValue("division by zero")
        q = abs(a[0]) // abs(a[1]) * (1 if (a[0] >= 0) == (a[1] >= 0) else -1)
        return q if h == "div" else a[0] - q * a[1]
    if h == "band":
        return a[0] & a[1]
    if h == "bor":
        return a[0] | a[1]
    if h == "bxor":
        return a[0] ^ a[1]
    if h == "bits":
        return (a[0] >> a[1]) & ((1 << a[2]) - 1)
    if h == "cast":
        return wrap(a[2], a[0], a[1])
    if h == "ite":
        return a[1] if a[0] else a[2]
    raise NoValue(n)


def fval(f, env, nm):
    if f is True or f is False:
        return f
    t = f[0]
    if t == "not":
        return not fval(f[1], env, nm)
    if t == "and":
        return all(fval(x, env, nm) for x in f[1])
    if t == "or":
        return any(fval(x, env, nm) for x in f[1])
    a = f[1]
    if a[0] == "ge":
        return ival(Lin(a[2], a[1]), env, nm) >= 0
    if a[0] == "eq":
        return ival(Lin(a[2], a[1]), env, nm) == 0
    n = nm(a[1]) if a[0] == "b" else nm(f)
    if n in env:
        return bool(env[n])
    raise NoValue(n)
