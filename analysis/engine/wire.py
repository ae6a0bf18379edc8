"""Comparison of what is written to a socket with what should be: sequences of pieces (known bytes, single symbolic bytes, runs of an
arbitrary source) are compared piece by piece under the constraints of one path."""
from .values import *
from .num import add, sub, mulc, of
from . import num, witness
from .interp import PathDead, isnum


def eq(a, b):
    d = sub(a, b)
    return d == 0 if isinstance(d, int) else c_eq(d)


def le(a, b):
    d = sub(b, a)
    return d >= 0 if isinstance(d, int) else c_ge(d)


def holds(I, c):
    return c if isinstance(c, bool) else witness.prove(I, c)


def concat(parts):
    """the whole content of a gather write recorded by the network model, or None"""
    if parts is None or any(c is None for _, _, c in parts):
        return None
    return Seq([p for _, _, c in parts for p in c.p], None, 'string')


def atoms(I, s):
    """pieces with known bytes one by one and runs that are empty on this path dropped"""
    out = []
    for p in s.p:
        if p[0] == 'lit':
            out += [('el', b) for b in p[1]]
        elif p[0] == 'el':
            out.append(p)
        elif p[0] == 'rep' and isinstance(p[1], int) and p[1] <= 4096:
            out += [('el', p[2])] * p[1]
        else:
            if I.decide(eq(plen(p), 0)) is True:
                continue
            if isinstance(plen(p), int) and plen(p) <= 64 and p[0] == 'src':
                out += [('el', I.piece_get(p, i, s.ety)) for i in range(plen(p))]
                continue
            out.append(p)
    return out


def same(I, got, want):
    """(True | False | None, explanation): do two sequences have the same contents on the current path?"""
    a, b = atoms(I, got), atoms(I, want)
    i = j = 0
    res = True
    why = ''
    pos = 0

    def note(r, t):
        nonlocal res, why
        if r is False and res is not False:
            res, why = False, t
        elif r is None and res is True:
            res, why = None, t
    n = holds(I, eq(got.len(), want.len()))
    if n is not True:
        return n, f'{got.len()} bytes, {want.len()} expected'
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == 'el' and y[0] == 'el':
            if isnum(x[1]) and isnum(y[1]):
                u, v = I.uns(x[1], 8), I.uns(y[1], 8)
                note(holds(I, eq(u, v)), f'byte {pos} is {u}, expected {v}')
            elif x[1] != y[1]:
                note(None, f'byte {pos} is {x[1]}, expected {y[1]}')
            i, j, pos = i + 1, j + 1, add(pos, 1)
            continue
        if x[0] == y[0] == 'src' and x[1].key == y[1].key and I.decide(eq(x[2], y[2])) is True:
            lx, ly = x[3], y[3]
            if I.decide(eq(lx, ly)) is True:
                i, j, pos = i + 1, j + 1, add(pos, lx)
                continue
            if I.decide(le(lx, ly)) is True:
                b[j] = ('src', y[1], add(y[2], lx), sub(ly, lx))
                i, pos = i + 1, add(pos, lx)
                continue
            if I.decide(le(ly, lx)) is True:
                a[i] = ('src', x[1], add(x[2], ly), sub(lx, ly))
                j, pos = j + 1, add(pos, ly)
                continue
        if x[0] == y[0] and x == y:
            i, j, pos = i + 1, j + 1, add(pos, plen(x))
            continue
        # a run against something else: definite only when both are arbitrary and not empty
        arb = all(p[0] == 'src' and not p[1].flags for p in (x, y))
        nz = arb and holds(I, c_not(eq(plen(x), 0)) if not isinstance(plen(x), int) else True) and holds(I, c_not(eq(plen(y), 0)) if not isinstance(plen(y), int) else True)
        note(False if arb and nz and x[1].key != y[1].key else None, f'from byte {pos}: {pfmt(x)}, expected {pfmt(y)}')
        return res, why
    if res is True and (i < len(a) or j < len(b)):
        rest = (a[i:] or b[j:])
        L = 0
        for p in rest:
            L = add(L, plen(p))
        if holds(I, eq(L, 0)) is not True:
            return None, f'left over: {pfmt(rest[0])}'
    return res, why


def byte(I, total, k):
    return num.mod(num.div(total, 1 << (8 * k), I.bnd), 256, I.bnd)


FORMS = ((0, 125, 0, None), (126, 65535, 2, 126), (65536, None, 8, 127))


def frames(I, first, payload):
    """for each length form possible on the current path: yields the expected frame, with the state narrowed to that form.
    first: first header byte.  Server frames carry no mask."""
    total = payload.len()
    for lo, hi, n, code in FORMS:
        sav, I.st = I.st, I.st.copy()
        try:
            for c in (le(lo, total), le(total, hi) if hi is not None else True):
                d = I.decide(c) if not isinstance(c, bool) else c
                if d is False:
                    raise PathDead()
                if d is None:
                    I.assume(c)
            # (num: after narrowing, so that high bytes that cannot be set read 0)
            head = [('el', first), ('el', total if code is None else code)] + [('el', byte(I, total, k)) for k in reversed(range(n))]
            yield Seq(head + list(payload.p), payload.ety, 'string'), f'{lo}..{hi if hi is not None else ""}'
        except PathDead:
            pass
        finally:
            I.st = sav


def narrowed(I, conds):
    """context helper: list of states is not kept; returns a copy of the state with the conditions assumed, or None"""
    sav, I.st = I.st, I.st.copy()
    try:
        for c in conds:
            d = I.decide(c) if not isinstance(c, bool) else c
            if d is False:
                return None
            if d is None:
                I.assume(c)
        return I.st
    except PathDead:
        return None
    finally:
        I.st = sav


def verdict(I, o, r):
    return None if r is False and o.st.taint else r
