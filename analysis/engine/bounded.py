"""Byte-level functions on inputs of a fixed length: every input byte is a symbol ranging over its 256 values, the interpreter
partitions the domain by the branches taken, and on each part the result is a list of element expressions.  `parts` evaluates
these expressions over the part's own value sets and compares them with a reference."""
from itertools import product
from .run import *


def byte_syms(n, key='in'):
    return [sym((key, i), 0, 255) for i in range(n)]


def text_input(I, n, key='in', ety=None, prefix=b'', suffix=b''):
    """(view over n arbitrary bytes, their symbols), optionally between known bytes"""
    ss = byte_syms(n, key)
    m = n + len(prefix) + len(suffix)
    o = Obj('opaque', (key, 'bytes'), m, None)
    I.st.store[o] = Seq([('lit', prefix)] + [('el', of(s)) for s in ss] + [('lit', suffix)], ety if ety is not None else I.models.char_t(), 'array')
    return View(Ptr(Loc(o, ()), 0, True), m), ss


def bases(L, acc):
    if isinstance(L, int):
        return acc
    if isinstance(L, (tuple, frozenset)):
        for x in L:
            if isinstance(x, (Lin, tuple, frozenset)):
                bases(x, acc)
        return acc
    for s in L.syms():
        if s.div:
            bases(s.div[0], acc)
        elif s.op and s.op[0] != 'elem':
            bases(tuple(x for x in s.op[1:]), acc)
        else:
            acc.add(s)
    return acc


def evl(L, asg):
    if isinstance(L, int):
        return L
    r = L.c
    for s, k in L.t:
        if s in asg:
            r += k * asg[s]
        elif s.div:
            r += k * (evl(s.div[0], asg) // s.div[1])
        elif s.op:
            op = s.op
            if op[0] == 'and':
                r += k * (evl(op[1], asg) & evl(op[2], asg))
            elif op[0] == 'or':
                r += k * (evl(op[1], asg) | evl(op[2], asg))
            elif op[0] == 'xor':
                x = 0
                for p in op[1]:
                    x ^= evl(p, asg)
                r += k * x
            elif op[0] == 'mul':
                r += k * (evl(op[1], asg) * evl(op[2], asg))
            elif op[0] == 'lit':
                i = evl(op[2], asg)
                r += k * (op[1][i] if 0 <= i < len(op[1]) else 0)
            elif op[0] == 'sel':
                r += k * evl(op[1][evl(op[2], asg)], asg)
            else:
                raise KeyError(op[0])
        else:
            raise KeyError(s)
    return r


def elems(I, o, v):
    """element expressions of a text-like result, or None"""
    sav, I.st = I.st, o.st
    try:
        s = seq_of(I, v)
        if s is None:
            return None
        out = []
        for p in s.p:
            if p[0] == 'lit':
                out += list(p[1])
            elif p[0] == 'el' and isnum(p[1]):
                out.append(p[1])
            elif p[0] == 'rep' and isinstance(p[1], int) and isnum(p[2]):
                out += [p[2]] * p[1]
            elif p[0] in ('src', 'map') and isinstance(plen(p), int) and plen(p) <= 4096:
                n = plen(p)
                for i in range(n):
                    x = I.piece_get(p, i, s.ety)
                    if not isnum(x):
                        return None
                    out.append(x)
            else:
                return None
        return out
    finally:
        I.st = sav


def exact_cond(o, ss):
    """is the path's condition completely captured by value sets, rows and disequalities of the inputs?"""
    known = set(ss)
    for k in o.st.atoms:
        return False
    for c in list(o.st.cons) + list(o.st.neqs):
        if not bases(c, set()) <= known:
            return False
    return not o.st.taint


def assignments(I, o, ss, reps, limit=60000):
    """assignments of the input bytes admitted by the path: each symbol in turn over its whole value set, the others over
    representatives (every combination when that is small)"""
    doms = []
    for s in ss:
        lo, hi = 0, 255
        d = o.st.dom.get(s)
        if d is None:
            l, h = o.st.b.get(s, (None, None))
            d = range(max(lo, l if l is not None else lo), min(hi, h if h is not None else hi) + 1)
        doms.append(sorted(d))
    cons, neqs = list(o.st.cons), list(o.st.neqs)

    def ok(a):
        try:
            return all(evl(c, a) >= 0 for c in cons) and all(evl(c, a) != 0 for c in neqs)
        except KeyError:
            return False
    tot = 1
    for d in doms:
        tot *= len(d)
    if tot <= limit:
        sets = [doms]
    else:
        rp = [[x for x in d if x in reps] or d[:3] for d in doms]
        sets = [[doms[j] if j == i else rp[j] for j in range(len(ss))] for i in range(len(ss))]
    seen = set()
    for st in sets:
        for t in product(*st):
            if t in seen:
                continue
            if len(sets) > 1:
                seen.add(t)
            a = dict(zip(ss, t))
            if not (cons or neqs) or ok(a):
                yield t, a


def definite(I):
    return [f for f in I.findings.values() if not f.taint and not f.inexact]


def compare(ctx, I, outs, ss, ref, reps, rule, where, key, get=None, local=False):
    """one obligation per path: the result elements equal ref(bytes) on every admitted assignment"""
    ctx.interp(I)
    for f in definite(I):
        ctx.ob(rule, False, f.where, f'{key}: {f.kind}: {f.detail}', key=f'{rule}|{key}|{f.kind}')
    for i, o in enumerate(outs):
        k = f'{rule}|{key}|path{i}'
        exact = exact_cond(o, ss)
        if o.kind == 'throw':
            # a throw is only right if the reference refuses
            bad = None
            for t, a in assignments(I, o, ss, reps):
                if ref(t) is not None:
                    bad = t
                    break
            ctx.ob(rule, None if not exact and bad is not None else bad is None, where, f'{key}: throws {o.v.tname} on {bytes(bad or b"")!r}', key=k)
            continue
        es = elems(I, o, get(o) if get else o.v)
        if es is None:
            ctx.ob(rule, None, where, f'{key}: result not resolved on a path: {str(o.v)[:120]}', key=k)
            continue
        bs = bases(tuple(x for x in es if isinstance(x, Lin)), set())
        if not bs <= set(ss):
            ctx.ob(rule, None, where, f'{key}: the result depends on unresolved values {[str(b) for b in bs - set(ss)][:2]}', key=k)
            continue
        bad = None
        n = 0
        if local and not o.st.cons and not o.st.neqs and not any(x in o.st.dom or x in o.st.b for x in ss):
            # no branch on the bytes: every element over all values of the bytes it is made of, the others at two fixed values
            for bg in (0, 0xa5):
                t0 = [bg] * len(ss)
                for j, x in enumerate(es):
                    if bad:
                        break
                    bx = sorted(bases(x, set()), key=lambda q: q.id) if isinstance(x, Lin) else []
                    step = 1 if len(bx) < 2 or bg == 0 else 7
                    if len(bx) > 2:
                        bad = (t0, b'?', None)
                        break
                    ix = [ss.index(q) for q in bx]
                    for vals in product(range(0, 256, step), repeat=len(bx)):
                        t = list(t0)
                        for i_, v_ in zip(ix, vals):
                            t[i_] = v_
                        n += 1
                        want = ref(t)
                        if len(want) != len(es) or evl(x, dict(zip(bx, vals))) & 255 != want[j]:
                            bad = (t, bytes(evl(y, dict(zip(ss, t))) & 255 for y in es), want)
                            break
        else:
          for t, a in assignments(I, o, ss, reps):
            n += 1
            want = ref(t)
            got = [evl(x, a) & 255 for x in es]
            if want is None or got != list(want):
                bad = (t, bytes(got), want)
                break
        if bad and bad[2] is None and bad[1] == b'?':
            ctx.ob(rule, None, where, f'{key}: an element depends on more than two bytes', key=k)
            continue
        if n == 0:
            continue
        if bad is None:
            ctx.ob(rule, True if exact or True else None, where, f'{key}: {n} byte combinations', key=k)
        else:
            ctx.ob(rule, False if exact else None, where,
                   f'{key}: for the bytes {bytes(bad[0])!r} the result is {bad[1]!r}, {bytes(bad[2]) if bad[2] is not None else "a refusal"!r} expected', key=k)
