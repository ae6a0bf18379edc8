"""Transducer comparison.  The dump is interpreted on data of every size up to 34 bytes (70 thorough) with one arbitrary byte at
each position in turn (the others known and distinct), the sizes around every constant the code compares positions with, and the
two-buffer form on every split; the text produced on each path is parsed back: each line must show its sixteen bytes (the rest on
the last line) once and in order as two hexadecimal digits, followed by each byte's character, or a dot when it is not printable.
Every access to the data and to temporary storage is an obligation of its own."""
import re
from engine.run import *
from engine.bounded import *
from engine import loops

MINIMUM = 60


def problem(text, data):
    lines = text.split(b'\n')
    if data and lines and lines[-1] == b'':
        lines.pop()
    need = (len(data) + 15) // 16
    if not data:
        return None if not text.strip() else f'{text!r} is shown for no data'
    if len(lines) != need:
        return f'{len(lines)} lines for {len(data)} bytes'
    for i, l in enumerate(lines):
        d = data[16 * i:16 * i + 16]
        col, head = l[len(l) - len(d):], l[:len(l) - len(d)]
        toks = head.split()
        hx = toks[len(toks) - len(d):]
        if len(toks) < len(d) or len(toks) > len(d) + 1 or any(not re.fullmatch(rb'[0-9a-fA-F]{2}', t) for t in hx):
            return f'line {i} shows {len(toks)} groups for {len(d)} bytes: {l!r}'
        if bytes(int(t, 16) for t in hx) != d:
            return f'line {i} shows {b" ".join(hx).decode()} for {d.hex(" ")}'
        for j, (c, b) in enumerate(zip(col, d)):
            if not (c == b and 32 <= b < 128 or c == 46 and (b < 32 or b >= 127)):
                return f'byte {b:#04x} is shown as the character {bytes([c])!r}'
    return None


def data_of(n, k, ss):
    return [of(ss[k]) if i == k else (i * 37 + 11) & 255 for i in range(n)]


def one(ctx, P, f, n, k, split=None):
    I = make(P, max_steps=20_000_000, looplimit=20_000)
    I.summaries.pop('webfront::utils::hexDump', None)
    ss = byte_syms(n)
    els = [('el', x) for x in data_of(n, k, ss)]

    def view(j, part):
        ety = P.targs(P.rid(P.strip(f['p'][j]['t'])))[0]['t']
        o = Obj('opaque', 'data%d' % j, len(part), None)
        I.st.store[o] = Seq(part, ety, 'array')
        return param(I, f, j, View(Ptr(Loc(o, ()), 0, True), len(part)))
    args = [view(0, els)] if split is None else [view(0, els[:split]), view(1, els[split:])]
    outs = explore(I, f, args=args)
    ctx.interp(I)
    callee = [P.funcs[x['f']['f']] for x in P.calls(f) if isinstance(x.get('f'), dict) and 'f' in x['f'] and P.funcs[x['f']['f']].get('repo')]
    where = P.loc((callee or [f])[0]['l'])
    label = f'{n} bytes, byte {k} arbitrary' + (f', split after {split}' if split is not None else '')
    for x in definite(I):
        ctx.ob('memory', False, x.where, f'{label}: {x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')
    for j, o in enumerate(outs):
        key = f'{label}|{j}'
        if o.kind != 'ok':
            ctx.ob('dump', None if o.st.taint else False, where, f'{label}: throws {o.v.tname}', key=key)
            continue
        es = elems(I, o, o.v)
        var = [ss[k]] if n else []
        if es is None or not bases(tuple(x for x in es if isinstance(x, Lin)), set()) <= set(var) or o.st.taint:
            ctx.ob('dump', None, where, f'{label}: the text is not resolved: {str(o.v)[:150]} {list(o.st.taint)[:2]}', key=key)
            continue
        bad = None
        cnt = 0
        for t, a in assignments(I, o, var, set(range(256))):
            cnt += 1
            text = bytes(evl(x, a) & 255 for x in es)
            d = bytes(t[0] if i == k else (i * 37 + 11) & 255 for i in range(n))
            bad = problem(text, d)
            if bad:
                break
        if cnt:
            ctx.ob('dump', bad is None if exact_cond(o, var) or bad is None else None, where, f'{label}: ' + (bad or f'{cnt} values shown exactly'), key=key)
    return outs


def run(ctx):
    P = ctx.P
    for f in func(P, 'wfa::entry_hexdump'):
        sizes = range(0, 35) if ctx.tier == 'quick' else range(0, 71)
        for n in sizes:
            ks = sorted({0, n // 2, n - 1} | ({7, 8, 15, 16} if n in (17, 32) else set())) if ctx.tier == 'quick' else range(n)
            for k in [x for x in ks if 0 <= x < n] or [0]:
                one(ctx, P, f, n, k)
        T = [t for t in loops.constants(P, f, 34, 4200)]
        for t in T[:6]:
            for n in (t - 1, t, t + 1, t + 17) if t <= 1000 else (t + 17,):
                if n <= 4200:
                    one(ctx, P, f, n, n - 1)
    for f in func(P, 'wfa::entry_hexdump2'):
        for n in (0, 1, 2, 5, 16, 17, 33):
            for s in sorted({0, 1, n // 2, n}):
                if s <= n:
                    one(ctx, P, f, n, min(s, max(n - 1, 0)), split=s)
