"""Independent reader of unit text (documented grammar): returns (dim, magnitude, offset, storage) or None if the
text is no unit expression; raises Odd for texts whose lexical reading is a matter of Rust's tokenizer (comments, raw
identifiers, literal suffixes), on which no verdict is given."""
import re
import unicodedata
from fractions import Fraction as F
import units as un

TAB = {s.text: s for s in un.spellings(names=True, caps=True)}


class Odd(Exception):
    pass


class Bad(Exception):
    pass


TOK = re.compile(r"\s*(?:([^\W\d]\w*)|(-?\d+)|(.))", re.S)
LM = (0, -2, 0, 0, 0, 0, 1, 0)


def lex(t):
    if "//" in t or "/*" in t or "*/" in t or "#" in t or "'" in t or '"' in t or "\ufeff" in t:
        raise Odd(t)
    out, i = [], 0
    while i < len(t):
        m = TOK.match(t, i)
        if not m or m.end() == i:
            break
        i = m.end()
        if m.group(1):
            n = unicodedata.normalize("NFC", m.group(1))
            out.append(("id", n))
        elif m.group(2):
            if i < len(t) and (t[i].isalnum() or t[i] == "_"):
                raise Odd(t)
            if i < len(t) and t[i] == "." and not (i + 1 < len(t) and (t[i + 1].isalpha() or t[i + 1] == "_")):
                raise Odd(t)     # a float token
            out.append(("n", int(m.group(2)), m.group(2)))
        elif m.group(3) and not m.group(3).isspace():
            if m.group(3) == "-":
                raise Odd(t)
            out.append((m.group(3),))
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def expr(self):
        l = self.fac()
        while self.peek() == "/":
            self.i += 1
            r = self.fac()
            l = l + [(u, -n) for u, n in r]
        return l

    def fac(self):
        l = self.pw()
        while self.peek() in ("*", "."):
            self.i += 1
            l = l + self.pw()
        return l

    def num(self):
        if self.peek() != "n":
            raise Bad
        self.i += 1
        return self.t[self.i - 1][1]

    def pw(self):
        a = self.atom()
        if self.peek() == "^":
            self.i += 1
            n = self.num()
            a = [(u, k * n) for u, k in a]
        return a

    def atom(self):
        k = self.peek()
        if k == "(":
            self.i += 1
            a = self.expr()
            if self.peek() != ")":
                raise Bad
            self.i += 1
            return a
        if k == "n":
            n = self.num()
            if n not in (1, 10):
                raise Bad
            if self.peek() == "^" and self.i + 2 < len(self.t) and self.t[self.i + 2][0] == "^":
                raise Odd("10^2^3")
            return [(10, 1)] if n == 10 else []
        if k == "id":
            self.i += 1
            s = self.t[self.i - 1][1]
            m = re.match(r"^([^0-9]+)([0-9]+)$", s)
            n = 1
            if m and s not in TAB:
                s, n = m.group(1), int(m.group(2))
            if s not in TAB:
                raise Bad
            return [(TAB[s], n)]
        raise Bad


def read(t):
    toks = lex(t)
    p = P(toks)
    try:
        fs = p.expr()
        if p.i != len(toks):
            return None
    except Bad:
        return None
    return fs
