"""The parameter format of the bridge, as the embedded client speaks it (type byte, then: nothing for booleans, an IEEE double for
numbers, a 1 or 2 byte length and the text for strings, an element count and the elements for tuples), as a reference over symbolic
messages: every way a message can begin is one case, with the path's state narrowed to it."""
import math
import struct
from .values import *
from .num import add, sub, mulc, of, sym
from . import flt, num, wire
from .wire import eq, le, narrowed, holds
from .interp import PathDead, isnum

# type codes of the client
FALSE, TRUE, NUMBER, SMALL, STRING, EXCEPTION, TUPLE, UNDEFINED = 2, 1, 3, 4, 5, 6, 18, 0


def at(I, s, i):
    return I.uns(I.seq_get(s, i), 8)


def default(T):
    if isinstance(T, tuple) and T[0] == 'tuple':
        return [default(x) for x in T[1]]
    if T == 'bool':
        return False
    if T == 'string':
        return Seq([], None, 'string')
    return 0.0 if T in ('double', 'float') else 0


def under(I, st, f):
    """list of what generator f yields in state st"""
    sav, I.st = I.st, st
    try:
        return list(f())
    except PathDead:
        return []
    finally:
        I.st = sav


def cases(I, T, s, n, pos, lenient=True):
    """yields (state, result): result ('value', v, end) | ('refuse',) | ('any',) for a parameter of type T at pos of the n bytes s"""
    def go(conds, f):
        st = narrowed(I, conds)
        return under(I, st, f) if st is not None else []

    def refuse():
        yield I.st.copy(), ('refuse',)
    need = lambda k: le(add(pos, k), n)
    short = lambda k: le(add(n, 1), add(pos, k))
    yield from go([short(1)], refuse)
    st = narrowed(I, [need(1)])
    if st is None:
        return
    sav, I.st = I.st, st
    try:
        b = at(I, s, pos)
        known = (UNDEFINED, TRUE, FALSE, NUMBER, SMALL, STRING, EXCEPTION, TUPLE)
        for code in known:
            yield from go([eq(b, code)], lambda: one(I, T, s, n, pos, code, need, short, go, refuse))
        yield from go([c for code in known for c in [c_not(eq(b, code)) if not isinstance(eq(b, code), bool) else not eq(b, code)]], refuse)
    except PathDead:
        pass
    finally:
        I.st = sav


def one(I, T, s, n, pos, code, need, short, go, refuse):
    def value(v, k):
        yield I.st.copy(), ('value', v, add(pos, k))
    if code == UNDEFINED:
        yield from value(default(T), 1)
    elif code in (TRUE, FALSE):
        yield from (value(code == TRUE, 1) if T == 'bool' else refuse())
    elif code == NUMBER:
        if T in ('string',) or isinstance(T, tuple) and T[0] == 'tuple':
            yield from refuse()
            return
        yield from go([short(9)], refuse)

        def full():
            x = I.compose([at(I, s, add(pos, 1 + i)) for i in range(8)], I.models.double_t())
            if T == 'bool':
                yield I.st.copy(), ('truth', x, add(pos, 9))
            elif T == 'double':
                yield from value(x, 9)
            elif T == 'float':
                yield from value(Flt(('narrow', x, 32)), 9)
            else:
                yield I.st.copy(), ('integer', x, T[1], T[2], add(pos, 9))
        yield from go([need(9)], full)
    elif code in (SMALL, STRING, EXCEPTION):
        if T != 'string':
            yield from refuse()
            return
        h = 2 if code == SMALL else 3
        yield from go([short(h)], refuse)

        def text():
            k = at(I, s, add(pos, 1))
            if h == 3:
                k = add(k, mulc(at(I, s, add(pos, 2)), 256))
            end = add(add(pos, h), k)
            yield from go([le(add(n, 1), end)], refuse)

            def whole():
                yield I.st.copy(), ('value', I.seq_slice(s, add(pos, h), k), end)
            yield from go([le(end, n)], whole)
        yield from go([need(h)], text)
    elif code == TUPLE:
        if not isinstance(T, tuple) or T[0] != 'tuple':
            yield from refuse()
            return
        yield from go([short(2)], refuse)

        def elements():
            c = at(I, s, add(pos, 1))
            m = eq(c, len(T[1]))
            yield from go([c_not(m) if not isinstance(m, bool) else not m], refuse)
            yield from go([m], lambda: chain(I, T[1], s, n, add(pos, 2), []))
        yield from go([need(2)], elements)


def chain(I, Ts, s, n, pos, acc):
    if not Ts:
        yield I.st.copy(), ('value', list(acc), pos)
        return
    for st, r in list(cases(I, Ts[0], s, n, pos)):
        if r[0] == 'refuse':
            yield st, r
            continue
        yield from under(I, st, lambda: chain(I, Ts[1:], s, n, r[-1], acc + [r if r[0] != 'value' else ('is', r[1])]))


def agrees(I, T, got, want):
    """(True | False | None, text): is the decoded value the expected one?  want: a value, or ('truth'|'integer'|'is', ...)"""
    if isinstance(want, tuple) and want and want[0] == 'is':
        want = want[1]
    if isinstance(T, tuple) and T[0] == 'tuple':
        if not isinstance(got, Rec):
            return None, f'{got} is not resolved'
        res, why = True, ''
        for i, (t, w) in enumerate(zip(T[1], want)):
            r, x = agrees(I, t, got.f.get(i), w)
            if r is False or (r is None and res is True):
                res, why = r, f'element {i}: {x}'
        return res, why
    if isinstance(want, tuple) and want and want[0] == 'truth':
        return True, ''          # a number given to a boolean: its truth value or a refusal
    if isinstance(want, tuple) and want and want[0] == 'integer':
        _, x, w, sg, _ = want
        f = flt.fval(x)
        if f is not None:
            if not math.isfinite(f):
                return False, f'{f} becomes {got}'
            return holds(I, eq(got, int(f))) if isnum(got) else None, f'{f} becomes {got}'
        if isinstance(got, Lin) and len(got.t) == 1 and got.c == 0 and got.t[0][1] == 1:
            k = got.t[0][0].key
            if isinstance(k, tuple) and k[0] == 'ftoi':
                if k[1] == x and k[2:] == (w, sg):
                    return True, ''
                return (False if k[2:] == (w, sg) and flt.arbitrary(k[1]) and flt.arbitrary(x) else None), f'{got}, expected the integral part of {x}'
        return (False if isinstance(got, int) and flt.arbitrary(x) else None), f'{got}, expected the integral part of {x}'
    if isinstance(want, bool):
        d = got if isinstance(got, bool) else holds(I, got) if isinstance(got, Cond) else None
        return (None if d is None else d == want), f'{got}, expected {want}'
    if isinstance(want, Seq):
        if not isinstance(got, Seq):
            return None, f'{got} is not resolved'
        r, why = wire.same(I, got, want)
        return r, f'{got}, expected {want}: {why}'
    if isinstance(want, Flt) or T in ('double', 'float'):
        a, b = (y if isinstance(y, float) else flt.fval(y) for y in (got, want))
        if got == want or (a is not None and a == b):
            return True, ''
        if a is not None and b is not None and not math.isnan(a):
            return False, f'{a}, expected {b}'
        u, v = (y.key[1] if isinstance(y, Flt) and isinstance(y.key, tuple) and y.key[0] == 'narrow' else y for y in (got, want))
        return (False if isinstance(u, Flt) and isinstance(v, Flt) and (flt.arbitrary(u) or a is not None) and (flt.arbitrary(v) or b is not None) and u != v else None), f'{got}, expected {want}'
    if isnum(want):
        return (holds(I, eq(got, want)) if isnum(got) else None), f'{got}, expected {want}'
    return None, f'{got}'


# ---- encoding ---------------------------------------------------------------------------------------------------------
def enc(I, T, v):
    """reference encodings of the value v: [(state, pieces)]; pieces None where the value cannot be encoded"""
    if isinstance(T, tuple) and T[0] == 'tuple':
        outs = [(I.st, [('el', TUPLE), ('el', len(T[1]))])]
        for i, t in enumerate(T[1]):
            nxt = []
            for st, ps in outs:
                for st2, qs in under(I, st, lambda: enc(I, t, v.f.get(i) if isinstance(v, Rec) else None)):
                    nxt.append((st2, None if qs is None or ps is None else ps + qs))
            outs = nxt
        return outs
    if T == 'bool':
        out = []
        for c, code in ((v, TRUE), (c_not(v) if isinstance(v, Cond) else not v, FALSE)):
            st = narrowed(I, [c])
            if st is not None:
                out.append((st, [('el', code)]))
        return out
    if T in ('string', 'exception'):
        L = v.len()
        out = []
        for lo, hi, h in ((0, 255, 1), (256, 65535, 2)) if T == 'string' else ((0, 65535, 2), (65536, None, 2)):
            st = narrowed(I, [le(lo, L)] + ([le(L, hi)] if hi else []))
            if st is None:
                continue

            def one():
                k, t = (L, v) if hi else (65535, I.seq_slice(v, 0, 65535))          # what an exception says may be cut
                size = [('el', k)] if h == 1 else [('el', wire.byte(I, k, 0)), ('el', wire.byte(I, k, 1))]
                yield I.st, [('el', SMALL if h == 1 else STRING if T == 'string' else EXCEPTION)] + size + list(t.p)
            out += under(I, st, one)
        if T == 'string':
            st = narrowed(I, [le(65536, L)])
            if st is not None:
                out.append((st, None))
        return out
    # numbers: an IEEE double
    x = v if isinstance(v, Flt) else Flt(('itof', v))
    f = flt.fval(x)
    bs = list(struct.pack('<d', f)) if f is not None else I.bytes_of(x, I.models.double_t())
    return [(I.st, [('el', NUMBER)] + [('el', b) for b in bs])]


def content(total, k):
    """total without its first k bytes"""
    out, left = [], k
    for p in total.p:
        if left:
            if p[0] == 'lit':
                m = min(left, len(p[1]))
                left -= m
                if m < len(p[1]):
                    out.append(('lit', p[1][m:]))
                continue
            if p[0] == 'el':
                left -= 1
                continue
            return None
        out.append(p)
    return Seq(out, total.ety, 'string')


def value_of(I, a, T):
    v = I.get(a.loc) if isinstance(a, Ptr) else a
    if T == 'exception':
        return I.models.str_seq(('what', a.loc))
    return I.models.to_seq(I, v) if T == 'string' else v


def encoded(I, st, args, Ts):
    """the encodings of a parameter list (types Ts; a literal stands for itself): [(state, pieces or None when it cannot be encoded)]"""
    states, k = [(st, [])], 0
    for T in Ts:
        nxt = []
        for s, ps in states:
            if isinstance(T, bytes):
                f = lambda: enc(I, 'string', Seq([('lit', T)], None, 'string'))
            else:
                f = lambda: enc(I, T, value_of(I, args[k], T))
            nxt += [(s2, None if ps is None or q is None else ps + q) for s2, q in under(I, s, f)]
        if not isinstance(T, bytes):
            k += 1
        states = nxt
    return states


def leaves(Ts):
    """how many values a parameter list holds when the elements of tuples are counted as well"""
    return sum(1 + (leaves(T[1]) if isinstance(T, tuple) and T[0] == 'tuple' else 0) for T in Ts)
