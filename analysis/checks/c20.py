"""Transducer comparison.  Reading an embedded file is interpreted for every file size up to 26 bytes (54 thorough) cut into three
reads of every combination of small buffer sizes, with symbolic stored words: the counts returned and every byte delivered must
be those of the stored bytes in order, nothing outside the stored data may be read, and a
read returns nothing only at the end.  Constants the reading code compares positions with are lifted from its branches
and sizes around them are added.  Reading a native file is interpreted for a file of any size and buffers of any size against a
model of std::ifstream: the count returned is the number of bytes delivered, they are the file's next bytes, and a short count
means the file is finished."""
from engine.run import *
from engine.bounded import byte_syms
from engine import loops, witness

MINIMUM = 40


def span(I, key, els, ety, n):
    o = Obj('opaque', key, n, None)
    I.st.store[o] = Seq(els, ety, 'array')
    return View(Ptr(Loc(o, ()), 0, True), n), o


def one(ctx, P, f, n, cuts, symbolic=True):
    I = make(P, max_steps=30_000_000, looplimit=100_000)
    nw = (n + 7) // 8
    data = bytes((i * 89 + 7) & 255 for i in range(nw * 8))
    ss = byte_syms(nw * 8) if symbolic else []
    bs = [of(s) for s in ss] if symbolic else list(data)
    words = []
    for w in range(nw):
        v = 0
        for j in range(8):
            v = add(mulc(v, 256), bs[8 * w + j])
        words.append(('el', v))
    u64 = P.targs(P.rid(P.strip(f['p'][0]['t'])))[0]['t']
    ch = P.targs(P.rid(P.strip(f['p'][2]['t'])))[0]['t']
    W, _ = span(I, 'words', words, u64, nw)
    bufs = [span(I, 'buf%d' % i, [('lit', b'\xee' * l)] if l else [], ch, l) for i, l in enumerate(cuts)]
    R = param(I, f, 5, Seq([('el', 0)] * 3, I.models.size_t(I), 'array'))
    outs = explore(I, f, args=[param(I, f, 0, W), param(I, f, 1, n)] + [param(I, f, 2 + i, b[0]) for i, b in enumerate(bufs)] + [R])
    where = read_where(P)
    label = f'a file of {n} bytes read in buffers of {", ".join(map(str, cuts))}'
    ctx.interp(I)
    key = f'{n}|{cuts}'
    for x in I.findings.values():
        if not x.taint and not x.inexact:
            ctx.ob('memory', False, x.where, f'{label}: {x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')
    for o in outs:
        if o.st.taint or o.kind != 'ok':
            ctx.ob('pieces', None if o.st.taint else False, where, f'{label}: ' + (f'throws {o.v.tname}' if o.kind != 'ok' else f'not resolved {o.st.taint}'), key=key)
            continue
        I.st = o.st
        counts = o.st.store[R.loc.root]
        pos, bad = 0, None
        for i, l in enumerate(cuts):
            want = min(l, n - pos)
            got = I.seq_get(counts, i)
            if not isinstance(got, int) or got > want or got < min(want, 1):
                bad = f'read {i + 1} returns {got}, {want} expected'
                break
            buf = o.st.store[bufs[i][1]]
            for j in range(got):
                x = I.seq_get(buf, j)
                if x != bs[pos + j]:
                    bad = f'byte {j} of read {i + 1} is {x}, expected {bs[pos + j]}'
                    break
            if bad:
                break
            pos += got
        ctx.ob('pieces', bad is None, where, f'{label}: ' + (bad or 'every byte once and in order'), key=key)
    return I, outs


def read_where(P):
    fs = func(P, 'webfront::fs::File::read')
    return P.loc(fs[0]['l']) if fs else '?'


def native(I, o, res, F, file, i, pos):
    """(violation, unresolved) of read i and the following ones, pos bytes of the file having been delivered"""
    if i > 2:
        return None, None
    ln = of(sym(('len', ('arg', i)), 0, MAXLEN))
    got = I.seq_get(res, i - 1)
    if not isnum(got):
        return None, f'the count of read {i} is not resolved'
    root = next((r for r in o.st.store if r.kind == 'opaque' and r.name == ('data', ('arg', i))), None)
    want = 0
    for e in o.st.events:
        if e.kind == 'file-read' and isinstance(e.a['dst'], Ptr) and e.a['dst'].loc is not None:
            if e.a['dst'].loc.root.name == ('data', ('arg', i)):
                want = add(want, e.a['got'])
            elif e.a['dst'].loc.root.kind != 'opaque':
                return None, 'the stream is read through an intermediate buffer'

    def must(c, text):
        ok = witness.prove(I, c)
        if ok is True:
            return None, None
        if ok is False:
            return text, None
        return None, text + ' (not resolved)'
    bad, und = must(c_eq(sub(got, want)), f'read {i} returns {got} where {want} bytes are delivered')
    if bad or und:
        return bad, und
    # zero bytes for a buffer with room only at the end of the file
    end = c_or(c_ge(add(got, -1)), c_or(c_ge(sub(0, ln)), c_eq(sub(F, pos))))
    bad, und = must(end, f'read {i} delivers nothing although the file is not finished')
    if bad or und:
        return bad, und
    if root is not None and want != 0 and I.decide(c_eq(want)) is not True:
        s = o.st.store[root]
        a = I.seq_slice(s, 0, want)
        b = Seq([('src', Src(('file', file), s.ety), pos, want)], s.ety, 'array')
        if a.p != b.p:
            return None, f'the bytes delivered by read {i} are {a}'
    return native(I, o, res, F, file, i + 1, add(pos, want))


def run(ctx):
    P = ctx.P
    for f in func(P, 'wfa::entry_reads'):
        sizes = [0, 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 26] if ctx.tier == 'quick' else list(range(0, 55))
        cuts = [(1, 2, 40), (3, 5, 8), (7, 1, 9), (8, 8, 8), (9, 9, 9), (40, 3, 3), (5, 16, 4), (16, 7, 1), (2, 13, 12), (1, 1, 1), (6, 3, 64)]
        if ctx.tier != 'quick':
            cuts += [(a, b, c) for a in (1, 2, 3, 4, 7, 8, 9, 15, 16, 17) for b in (1, 5, 8, 9, 12) for c in (3, 8, 17)]
        for n in sizes:
            for c in cuts:
                one(ctx, P, f, n, c)
        # constants of the reading code, with long files
        T = loops.constants(P, f, 26, 20000)
        for t in T[:6]:
            if t != 1234:
                for n, c in ((t - 1, (t + 8, 3, 3)), (t, (t, 3, 3)), (t + 9, (t - 1, 5, 9)), (t + 9, (t, 5, 9)), (t + 9, (t + 1, 5, 9)), (2 * t + 3, (t, t, 9)), (2 * t + 3, (7, 2 * t, 3))):
                    one(ctx, P, f, n, c, symbolic=False)
        one(ctx, P, f, 1100, (1024, 64, 64), symbolic=False)
    for f in func(P, 'wfa::entry_read_stream'):
        I = make(P)
        outs = explore(I, f)
        ctx.interp(I)
        where = read_where(P)
        for x in I.findings.values():
            if not x.taint and not x.inexact:
                ctx.ob('native-memory', False, x.where, f'{x.kind}: {x.detail}', key=f'nmem|{x.kind}|{x.where}')
        for k, (pr, fl) in I.obl.items():
            if pr and not fl:
                ctx.ob('native-memory', True, k[1], f'{k[0]} for every buffer and file size')
        for n, o in enumerate(outs):
            key = f'native|{n}'
            if o.st.taint or o.kind != 'ok':
                ctx.ob('native', None if o.st.taint else False, where, f'reading a native file: {o.kind} {o.v if o.kind != "ok" else ""} {list(o.st.taint)}', key=key)
                continue
            I.st = o.st
            rd = [e for e in o.st.events if e.kind == 'file-read']
            files = {e.a['file'] for e in rd}
            if len(files) != 1:
                ctx.ob('native', None, where, f'{len(rd)} reads of {len(files)} streams on a path', key=key)
                continue
            F = of(sym(('fsize', next(iter(files))), 0, MAXLEN))
            res = next((v for r, v in o.st.store.items() if r.name == ('arg', 3)), None)
            bad, und = native(I, o, res, F, next(iter(files)), 1, 0)
            ctx.ob('native', False if bad else None if und else True, where, 'native file of any size: ' + (bad or und or 'counts and bytes are those of the file'), key=key)
