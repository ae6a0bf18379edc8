"""Bounded search for an integer assignment behind a reported violation.

The interpreter reports a condition it cannot derive.  Whether it really fails on the path is confirmed by exhibiting values of
the path's symbols that satisfy every recorded constraint and falsify the condition; without such values the finding is kept as
undecided, never as a violation.  (A deterministic local search over the linear rows, no solver.)"""
import random
from .values import *
from .num import mulc, sub


def ev(L, a):
    if isinstance(L, int):
        return L
    r = L.c
    for s, k in L.t:
        if s in a:
            r += k * a[s]
        elif s.div:
            r += k * (ev(s.div[0], a) // s.div[1])
        elif s.op and s.op[0] in ('and', 'or', 'mul', 'xor'):
            op = s.op
            if op[0] == 'xor':
                x = 0
                for p in op[1]:
                    x ^= ev(p, a)
            else:
                p, q = ev(op[1], a), ev(op[2], a)
                x = p & q if op[0] == 'and' else p | q if op[0] == 'or' else p * q
            r += k * x
        else:
            raise KeyError(s)
    return r


def base(L, acc):
    if isinstance(L, (int, str)) or L is None:
        return acc
    if isinstance(L, (tuple, frozenset)):
        for x in L:
            base(x, acc)
        return acc
    if isinstance(L, Lin):
        for s in L.syms():
            if s.div:
                base(s.div[0], acc)
            elif s.op and s.op[0] in ('and', 'or', 'mul', 'xor'):
                base(tuple(s.op[1:]), acc)
            else:
                acc.add(s)
    return acc


def dnf(c, val):
    """list of alternatives, each a list of (L, rel) with rel 'ge' (L >= 0), 'eq', 'ne'; atoms are dropped"""
    if isinstance(c, bool):
        return [[]] if c == val else []
    if c.k == 'not':
        return dnf(c.a[0], not val)
    if c.k in ('and', 'or'):
        if (c.k == 'and') == val:
            return [x + y for x in dnf(c.a[0], val) for y in dnf(c.a[1], val)]
        return dnf(c.a[0], val) + dnf(c.a[1], val)
    if c.k == 'ge':
        L = c.a[0]
        return [[(L, 'ge')]] if val else [[(sub(-1, L), 'ge')]]
    if c.k == 'eq':
        return [[(c.a[0], 'eq' if val else 'ne')]]
    return [[]]


def holds(r, a):
    v = ev(r[0], a)
    return v >= 0 if r[1] == 'ge' else v == 0 if r[1] == 'eq' else v != 0


def search(I, rows, extra, tries=40, steps=60):
    bs = set()
    for L, _ in rows:
        base(L, bs)
    for L in extra:
        base(L, bs)
    bs = sorted(bs, key=lambda s: s.id)
    if not bs:
        try:
            return all(holds(r, {}) for r in rows)
        except KeyError:
            return False
    rnd = random.Random(len(rows) * 131 + len(bs))
    pools, bounds, doms = [], {}, {}
    for s in bs:
        lo, hi = I.bnd(s)
        d = I.st.dom.get(s)
        if d is not None:
            d = sorted(d)
            doms[s] = set(d)
            pools.append(d)
            bounds[s] = (d[0], d[-1])
            continue
        lo2, hi2 = (lo if lo is not None else -64), (hi if hi is not None else 1 << 20)
        bounds[s] = (lo2, hi2)
        c = set()
        for b in (lo2, hi2):
            c |= {b - 2, b - 1, b, b + 1, b + 2}
        c |= set(range(0, 20)) | {31, 32, 63, 64, 100, 125, 126, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 100000}
        pools.append(sorted(x for x in c if lo2 <= x <= hi2) or [lo2])
    def ok(a):
        return [r for r in rows if not holds(r, a)]
    try:
        for t in range(tries):
            a = {}
            for s, p in zip(bs, pools):
                a[s] = p[0] if t == 0 else p[min(t, len(p) - 1)] if t < 4 else rnd.choice(p)
            for st in range(steps):
                bad = ok(a)
                if not bad:
                    return True
                r = rnd.choice(bad)
                L = r[0]
                if isinstance(L, int):
                    break
                cand = sorted(base(L, set()), key=lambda s: s.id)
                s = rnd.choice(cand)
                k = dict(L.t).get(s)
                if k:
                    v = ev(L, a)
                    if r[1] == 'ne':
                        x = a[s] + rnd.choice((-1, 1))
                    else:
                        # smallest change making the row hold with equality (or just above)
                        q, m = divmod(-v, k)
                        x = a[s] + q + (1 if m and k > 0 else 0)
                        if rnd.random() < .3:
                            x += rnd.choice((1, 2, -1, 3, 8))
                else:
                    x = rnd.choice(pools[bs.index(s)]) if rnd.random() < .6 else a[s] + rnd.choice((-3, -2, -1, 1, 2, 3))
                lo, hi = bounds[s]
                x = max(lo, min(hi, x))
                if s in doms and x not in doms[s]:
                    x = rnd.choice(pools[bs.index(s)])
                a[s] = x
    except KeyError:
        return None
    return False


def violated(I, c):
    """True when values satisfying the path and falsifying c are found, False when none are, None when they cannot be sought"""
    extra = []
    for alt in dnf(c, False):
        L = [x for x, _ in alt]
        need = []
        tot = 0
        for x in L:
            tot = tot + 0
        rows = [(x, 'ge') for y in L for x in (I.relevant(y) if isinstance(y, Lin) else [])]
        seen, rr = set(), []
        for r in rows:
            if id(r[0]) not in seen:
                seen.add(id(r[0]))
                rr.append(r)
        bs = set()
        for x in L + [r[0] for r in rr]:
            base(x, bs)
        for n in I.st.neqs:
            if base(n, set()) & bs:
                rr.append((n, 'ne'))
        r = search(I, rr + alt, [])
        if r is not False:
            return True
    return False


def feasible(I):
    """does the path's set of rows have an integer solution the search finds?"""
    return search(I, [(c, 'ge') for c in I.st.cons] + [(n, 'ne') for n in I.st.neqs], [])


def prove(I, c):
    """True when every way of falsifying c contradicts the path, False when a witness falsifies it, None otherwise"""
    from .interp import PathDead
    from . import num
    d = I.decide(c)
    if d is True:
        return True
    if d is None:
        dead = True
        for alt in dnf(c, False):
            sav = I.st
            I.st = sav.copy()
            try:
                for L, rel in alt:
                    if rel == 'ge':
                        if not I.decide(c_ge(L)) is True:
                            I.assume(c_ge(L))
                    elif rel == 'eq':
                        I.assume(c_eq(L))
                    else:
                        I.assume(c_not(c_eq(L)))
                if not num.infeasible(list(I.st.cons), I.bnd):
                    dead = False
            except PathDead:
                pass
            finally:
                I.st = sav
            if not dead:
                break
        if dead:
            return True
    if (d is False and feasible(I)) or (d is None and violated(I, c)):
        return False
    return None
