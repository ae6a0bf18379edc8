"""Integer domain of the analyser.

An integer value is a Python int or a `Lin`: a linear form over symbols.  Division, remainder, shifts by constants,
masks and two's-complement truncation stay linear by introducing the floor-quotient symbol Div(L, m) with its
defining inequalities  0 <= L - m*Div(L, m) <= m - 1.  Everything a byte codec does to a length is therefore a linear
form, and splitting a value into bytes and gluing the bytes back telescopes to the value itself.

Entailment is Fourier-Motzkin elimination over these forms (the closure operation of a polyhedra domain), with
integer tightening.  There is no SAT/SMT solver anywhere.
"""
from math import gcd
from collections import defaultdict

_syms = {}


class Sym:
    __slots__ = ('key', 'id', 'lo', 'hi', 'exact', 'div', 'why', 'op')

    def __repr__(self):
        if self.div:
            return f'({self.div[0]})/{self.div[1]}'
        return str(self.key) if isinstance(self.key, str) else ':'.join(map(str, self.key)) if isinstance(self.key, tuple) else str(self.key)


def sym(key, lo=None, hi=None, exact=True, why=None, op=None):
    s = _syms.get(key)
    if s is None:
        s = Sym()
        s.key, s.id, s.lo, s.hi, s.exact, s.div, s.why, s.op = key, len(_syms), lo, hi, exact, None, why, op
        _syms[key] = s
    return s


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c, self.t = c, t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        out = []
        for s, k in self.t:
            out.append((f'{k}*' if k != 1 else '') + repr(s))
        if self.c or not out:
            out.append(str(self.c))
        return ' + '.join(out)

    def syms(self):
        return [s for s, _ in self.t]


def mk(c, d):
    t = tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda p: p[0].id))
    return Lin(c, t) if t else c


def of(s):
    return Lin(0, ((s, 1),))


def isnum(v):
    return isinstance(v, (int, Lin)) and not isinstance(v, bool)


def add(a, b, k=1):
    """a + k*b"""
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    ca, ta = (a, ()) if isinstance(a, int) else (a.c, a.t)
    cb, tb = (b, ()) if isinstance(b, int) else (b.c, b.t)
    d = dict(ta)
    for s, c in tb:
        d[s] = d.get(s, 0) + k * c
    return mk(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((s, c * k) for s, c in a.t))


def const(a):
    return a if isinstance(a, int) else None


def base_bounds(s):
    return s.lo, s.hi


def interval(a, bnd=base_bounds):
    """(lo, hi) of a linear form under a bounds function; None = unbounded."""
    if isinstance(a, int):
        return a, a
    lo = hi = a.c
    divs = None
    for s, k in a.t:
        l, h = bnd(s)
        if s.div is not None and len(a.t) > 1:
            divs = (divs or []) + [s]
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    if divs is not None:
        # x - m*(x/m) lies in [0, m-1]: bound the form with the quotient and its dividend taken together
        r = None
        for s in sorted(divs, key=lambda s: -s.id):
            r = remainder_form(a, s)
            if r is not None:
                break
        if r is not None:
            c, m, rest = r
            l, h = interval(rest, bnd)
            l2, h2 = (0, c * (m - 1)) if c > 0 else (c * (m - 1), 0)
            if l is not None:
                lo = l + l2 if lo is None else max(lo, l + l2)
            if h is not None:
                hi = h + h2 if hi is None else min(hi, h + h2)
    return lo, hi


def remainder_form(a, s):
    """a = c * (x mod m) + rest, where s is the quotient x/m; (c, m, rest) or None"""
    x, m = s.div
    k = dict(a.t)[s]
    # a coarser quotient of the same dividend: (x/n) - (m/n)*(x/m) = (x/n) mod (m/n)
    for t, kt in a.t:
        if t is not s and t.div is not None and t.div[0] == x and m % t.div[1] == 0 and m != t.div[1]:
            q = m // t.div[1]
            if k % q == 0 and (k < 0) != (kt < 0):
                c = -k // q
                return c, q, sub(a, sub(mulc(of(t), c), mulc(of(s), c * q)))
    c = (m // 2 - k) // m       # k = -c*m + a small rest
    if not c or not isinstance(x, Lin):
        return None
    have = dict(a.t)
    if not any(t in have and (have[t] < 0) == (kx * c < 0) for t, kx in x.t):
        return None
    return c, m, sub(a, sub(mulc(x, c), mulc(of(s), c * m)))


def div(a, m, bnd=base_bounds):
    """floor(a / m), m a positive constant."""
    if m == 1:
        return a
    if isinstance(a, int):
        return a // m
    # pull out multiples of m
    q, r = a.c // m, a.c % m
    out, rest = {}, {}
    for s, k in a.t:
        if k % m == 0:
            out[s] = k // m
        else:
            kk = k // m if abs(k) >= m else 0
            # keep the residual coefficient small only when it is a clean multiple split
            if kk and k - kk * m == 0:
                out[s] = kk
            else:
                rest[s] = k
    head = mk(q, out)
    if not rest:
        return add(head, r // m)
    inner = mk(r, rest)
    lo, hi = interval(inner, bnd)
    if lo is not None and hi is not None and lo // m == hi // m:
        return add(head, lo // m)
    lo0, hi0 = interval(inner)
    # nested quotient: D(D(x, a) + c, m) = D(x + a*c, a*m)
    if len(inner.t) == 1 and inner.t[0][1] == 1 and inner.t[0][0].div:
        x, a_ = inner.t[0][0].div
        return add(head, div(add(x, a_ * inner.c), a_ * m, bnd))
    g = 0
    for s, k in inner.t:
        g = gcd(g, k)
    g = gcd(g, m)
    if g > 1:  # D(g*y + r, g*m') = D(y + floor(r/g), m')
        y = mk(inner.c // g, {s: k // g for s, k in inner.t})
        return add(head, div(y, m // g, bnd))
    key = ('div', inner, m)
    s = sym(key, None if lo0 is None else lo0 // m, None if hi0 is None else hi0 // m, all(x.exact for x in inner.syms()))
    s.div = (inner, m)
    return add(head, of(s))


def mod(a, m, bnd=base_bounds):
    return sub(a, mulc(div(a, m, bnd), m))


def bits(a, lo, n, bnd=base_bounds):
    """bits [lo, lo+n) of a, as a number."""
    return sub(div(a, 1 << lo, bnd), mulc(div(a, 1 << (lo + n), bnd), 1 << n))


def and_const(a, mask, w, bnd=base_bounds):
    if isinstance(a, int):
        return a & mask
    mask &= (1 << w) - 1
    out, i = 0, 0
    while i < w:
        if mask >> i & 1:
            j = i
            while j < w and mask >> j & 1:
                j += 1
            out = add(out, mulc(bits(a, i, j - i, bnd), 1 << i))
            i = j
        else:
            i += 1
    return out


def wrap(a, w, signed, bnd=base_bounds):
    """two's complement truncation to w bits"""
    if signed:
        h = 1 << (w - 1)
        return sub(mod(add(a, h), 1 << w, bnd), h)
    return mod(a, 1 << w, bnd)


# ---- Fourier-Motzkin ---------------------------------------------------------------------------------------------
def _norm(c, d):
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        d = {s: k // g for s, k in d.items()}
        c = c // g  # floor: integer tightening of  d + c >= 0
    return c, d


def axioms(s):
    if s.div:
        x, m = s.div
        r = sub(x, mulc(of(s), m))
        return [r, sub(m - 1, r)]
    return []


def infeasible(rows, bnd=base_bounds, budget=2500):
    """True when the conjunction of  L >= 0  for L in rows (plus symbol bounds and quotient axioms) has no
    integer solution as far as Fourier-Motzkin can tell."""
    work, seen, todo = [], set(), []
    def push(L):
        if isinstance(L, int):
            if L < 0:
                return True
            return False
        todo.append(L)
        return False
    for L in rows:
        if push(L):
            return True
    while todo:
        L = todo.pop()
        c, d = _norm(L.c, dict(L.t))
        work.append((c, d))
        for s in d:
            if s not in seen:
                seen.add(s)
                lo, hi = bnd(s)
                if lo is not None and hi is not None and lo > hi:
                    return True
                if lo is not None:
                    work.append((-lo, {s: 1}))
                if hi is not None:
                    work.append((hi, {s: -1}))
                for ax in axioms(s):
                    if isinstance(ax, int):
                        if ax < 0:
                            return True
                    else:
                        todo.append(ax)
    # dedupe: keep the strongest constant per coefficient vector
    def dedupe(rs):
        best = {}
        for c, d in rs:
            if not d:
                if c < 0:
                    return None
                continue
            k = frozenset(d.items())
            if k not in best or c < best[k]:
                best[k] = c
        for k, c in best.items():
            neg = frozenset((s, -x) for s, x in k)
            if neg in best and best[neg] + c < 0:
                return None
        return [(c, dict(k)) for k, c in best.items()]
    rs = dedupe(work)
    if rs is None:
        return True
    while True:
        # substitute equalities with a unit coefficient first
        best = {frozenset(d.items()): c for c, d in rs}
        eq = None
        for k, c in best.items():
            neg = frozenset((s, -x) for s, x in k)
            if neg in best and best[neg] == -c:
                for s, x in k:
                    if abs(x) == 1:
                        eq = (s, x, c, k)
                        break
            if eq:
                break
        if eq:
            s, x, c, k = eq
            # x*s + rest + c = 0  ->  s = -(rest + c)/x
            rest = {t: y for t, y in k if t is not s}
            new = []
            for c2, d2 in rs:
                y = d2.get(s)
                if y is None:
                    new.append((c2, d2))
                    continue
                f = -y * x  # since x = +-1, 1/x = x
                d3 = {t: z for t, z in d2.items() if t is not s}
                for t, z in rest.items():
                    d3[t] = d3.get(t, 0) + f * z
                    if d3[t] == 0:
                        del d3[t]
                new.append(_norm(c2 + f * c, d3))
            rs = dedupe(new)
            if rs is None:
                return True
            if not rs:
                return False
            continue
        pos, neg = defaultdict(list), defaultdict(list)
        for i, (c, d) in enumerate(rs):
            for s, k in d.items():
                (pos if k > 0 else neg)[s].append(i)
        allv = set(pos) | set(neg)
        if not allv:
            return False
        v = min(allv, key=lambda s: (len(pos[s]) * len(neg[s]) - len(pos[s]) - len(neg[s]), s.id))
        new = [r for r in rs if v not in r[1]]
        for i in pos[v]:
            ci, di = rs[i]
            a = di[v]
            for j in neg[v]:
                cj, dj = rs[j]
                b = -dj[v]
                g = gcd(a, b)
                fa, fb = b // g, a // g
                d = {}
                for s, k in di.items():
                    if s is not v:
                        d[s] = fa * k
                for s, k in dj.items():
                    if s is not v:
                        d[s] = d.get(s, 0) + fb * k
                d = {s: k for s, k in d.items() if k}
                new.append(_norm(fa * ci + fb * cj, d))
        rs = dedupe(new)
        if rs is None:
            return True
        if not rs:
            return False
        if len(rs) > budget:
            return False
