"""Floating point values: folding of constants, and the interval (with or without NaN) a path's comparisons leave to a value."""
import math
import struct
from .values import *

INF = math.inf
SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def fval(v):
    """the Python float a value is known to be, or None"""
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, int):
        return float(v)
    if not isinstance(v, Flt) or not isinstance(v.key, tuple):
        return None
    k = v.key
    try:
        if k[0] == 'const':
            return float(k[1])
        if k[0] == 'bytes' and all(isinstance(b, int) for b in k[1]):
            return struct.unpack('<d' if len(k[1]) == 8 else '<f', bytes(b & 255 for b in k[1]))[0]
        if k[0] == 'itof' and isinstance(k[1], int):
            return float(k[1])
        if k[0] == 'neg':
            x = fval(k[1])
            return None if x is None else -x
        if k[0] == 'narrow' and k[2] == 32:
            x = fval(k[1])
            return None if x is None else struct.unpack('<f', struct.pack('<f', x))[0] if math.isfinite(x) else x
        if k[0] in ('+', '-', '*', '/') and len(k) == 3:
            a, b = fval(k[1]), fval(k[2])
            if a is None or b is None:
                return None
            return a + b if k[0] == '+' else a - b if k[0] == '-' else a * b if k[0] == '*' else a / b if b else None
    except (ValueError, struct.error, OverflowError):
        pass
    return None


def cmp(op, a, b):
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]


class Dom:
    """{x: lo <(=) x <(=) hi} and possibly NaN"""
    def __init__(self):
        self.lo, self.hi, self.lo_in, self.hi_in, self.nan, self.holes = -INF, INF, True, True, True, set()

    def meet(self, op, c, val):
        if math.isnan(c):
            if val != (op == '!='):
                self.lo, self.hi, self.nan = 1, 0, False
            return
        if op == '!=':
            op, val = '==', not val
        if val:
            self.nan = False
        else:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!='}[op]
        if op == '!=':
            self.holes.add(c)
        if op in ('>', '>=', '=='):
            if c > self.lo or (c == self.lo and op == '>'):
                self.lo, self.lo_in = c, op != '>'
        if op in ('<', '<=', '=='):
            if c < self.hi or (c == self.hi and op == '<'):
                self.hi, self.hi_in = c, op != '<'

    def numbers(self):
        """is a number left?"""
        return self.lo < self.hi or (self.lo == self.hi and self.lo_in and self.hi_in)

    def empty(self):
        return not self.nan and not self.numbers()

    def ends(self):
        if not self.numbers():
            return None
        return (self.lo if self.lo_in else math.nextafter(self.lo, INF)), (self.hi if self.hi_in else math.nextafter(self.hi, -INF))


def dom(I, v):
    d = Dom()
    for k, val in I.st.atoms.items():
        if k[0] != 'cmp':
            continue
        op, a, b = k[1:]
        if a == v and b == v:
            if (op in ('==', '<=', '>=')) == val:
                d.nan = False
            else:
                d.lo, d.hi = 1, 0
        elif a == v and fval(b) is not None:
            d.meet(op, fval(b), val)
        elif b == v and fval(a) is not None:
            d.meet(SWAP[op], fval(a), val)
    return d


def decide(I, key):
    """truth of a comparison under the path's other comparisons, or None"""
    op, a, b = key[1:]
    if a == b and isinstance(a, Flt):
        d = dom(I, a)
        if not d.nan:
            return op in ('==', '<=', '>=')
        return (op == '!=') if not d.numbers() else None
    c = fval(b)
    if c is None:
        a, b, op = b, a, SWAP[op]
        c = fval(b)
    if c is None or not isinstance(a, Flt):
        return None
    for val in (True, False):
        d = dom(I, a)
        d.meet(op, c, val)
        if d.empty():
            return not val
    return None


def arbitrary(v):
    """does the value range over all doubles?"""
    k = v.key
    if not isinstance(k, tuple):
        return False
    if k[0] == 'bytes':
        ss = []
        for b in k[1]:
            if not isinstance(b, Lin) or b.c or len(b.t) != 1 or b.t[0][1] != 1 or b.t[0][0].div or b.t[0][0].op or not b.t[0][0].exact:
                return False
            ss.append(b.t[0][0])
        return len(set(ss)) == len(ss)
    return False


def to_int(I, v, lo, hi):
    """obligation: the truncated value fits lo..hi"""
    x = fval(v)
    if x is not None:
        ok = math.isfinite(x) and lo <= math.trunc(x) <= hi
        bad = x
    else:
        d = dom(I, v)
        e = d.ends()
        fits = e is None or (e[0] > lo - 1 and e[1] < hi + 1) or (math.isfinite(e[0]) and math.isfinite(e[1]) and lo <= math.trunc(e[0]) and math.trunc(e[1]) <= hi)
        ok = not d.nan and fits
        bad = math.nan if d.nan else e[0] if e and not (math.isfinite(e[0]) and lo <= math.trunc(e[0])) else e[1] if e else None
        if not ok and not arbitrary(v):
            ok = None
    return ok, bad
