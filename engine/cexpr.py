"""C expressions of generated lines as trees; values are «…» tokens."""
import re


class Syntax(Exception):
    pass


TYPEW = re.compile(r"^(u?int\d*_t|u?int|char|double|float|unsigned|signed|long|short|void|\w*_t|«type [^»]*»|\w*«[^»]*»\w*_t)$")
BIN = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]


class P:
    def __init__(self, toks):
        self.t, self.i = list(toks), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def eat(self, x=None):
        t = self.peek()
        if t is None or x is not None and t != x:
            raise Syntax("expected %s, found %s" % (x, t))
        self.i += 1
        return t

    def tern(self):
        c = self.bin(0)
        if self.peek() == "?":
            self.eat()
            a = self.tern()
            self.eat(":")
            return ("?:", c, a, self.tern())
        return c

    def bin(self, l):
        if l == len(BIN):
            return self.un()
        a = self.bin(l + 1)
        while self.peek() in BIN[l]:
            op = self.eat()
            a = ("bin", op, a, self.bin(l + 1))
        return a

    def cast(self):
        """(type) at the current position?"""
        if self.peek() != "(":
            return None
        j = 1
        ts = []
        while self.peek(j) is not None and self.peek(j) not in "()":
            ts.append(self.peek(j))
            j += 1
        if self.peek(j) != ")" or not ts:
            return None
        if not all(TYPEW.match(x) or x in ("const", "*", "struct") for x in ts) or not any(TYPEW.match(x) for x in ts):
            return None
        return ts, j + 1

    def un(self):
        t = self.peek()
        if t in ("-", "+", "!", "~", "*", "&", "++", "--"):
            self.eat()
            return ("un", t, self.un())
        c = self.cast()
        if c:
            self.i += c[1]
            return ("cast", " ".join(c[0]), self.un())
        return self.post()

    def post(self):
        t = self.eat()
        if t == "(":
            a = self.tern()
            self.eat(")")
            a = ("par", a)
        elif re.match(r"^[A-Za-z_«0-9\"']", t):
            a = ("t", t)
        else:
            raise Syntax("unexpected " + t)
        while True:
            n = self.peek()
            if n == "[":
                self.eat()
                x = self.tern()
                self.eat("]")
                a = ("idx", a, x)
            elif n in ("->", "."):
                self.eat()
                a = ("mem", n, a, self.eat())
            elif n == "(":
                self.eat()
                xs = []
                while self.peek() != ")":
                    xs.append(self.tern())
                    if self.peek() == ",":
                        self.eat()
                self.eat(")")
                a = ("call", a, tuple(xs))
            elif n in ("++", "--"):
                self.eat()
                a = ("post", n, a)
            else:
                return a


def parse(toks):
    p = P(toks)
    e = p.tern()
    if p.peek() is not None:
        raise Syntax("unexpected " + p.peek())
    return e


def nopar(e):
    """without parentheses"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == "par":
        return nopar(e[1])
    return tuple(nopar(x) if isinstance(x, tuple) else x for x in e)


def subs(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    yield from subs(y)
            elif x:
                yield from subs(x)


def show(e):
    k = e[0]
    if k == "t":
        return e[1]
    if k == "par":
        return "(%s)" % show(e[1])
    if k == "bin":
        return "%s %s %s" % (show(e[2]), e[1], show(e[3]))
    if k == "un":
        return e[1] + show(e[2])
    if k == "cast":
        return "(%s)%s" % (e[1], show(e[2]))
    if k == "idx":
        return "%s[%s]" % (show(e[1]), show(e[2]))
    if k == "mem":
        return show(e[2]) + e[1] + e[3]
    if k == "call":
        return "%s(%s)" % (show(e[1]), ", ".join(map(show, e[2])))
    if k == "post":
        return show(e[2]) + e[1]
    return "%s ? %s : %s" % (show(e[1]), show(e[2]), show(e[3]))
