"""Bit-provenance abstract interpretation of the header accessors.  Reader: for each of the 256 values of the length byte (and of the
first byte) the header is interpreted with all other bytes and the number of received bytes arbitrary; every result must be the
expression RFC 6455 prescribes over those bytes.  Writer: the size is one symbol over all of 0..2^64-1, split where the code
branches; on each part the bytes left in the header must be the prescribed ones.  Frames: the bytes handed to the socket are the
header for the total payload followed by the payload, for every length of the pieces and every way of composing them."""
from engine.run import *
from engine.values import *
from engine.bounded import definite
from engine import wire, witness
from engine.wire import eq, le, holds, verdict, narrowed
from engine.interp import PathDead

MINIMUM = 400
NAMES = ('fin', 'masked', 'opcode', 'key', 'headerSize', 'payloadSize', 'frameSize', 'complete')


def field(rec, name):
    for k, v in rec.f.items():
        if isinstance(k, tuple) and k[1] == name:
            return v
    return None


def raw_of(v):
    r = field(v, 'raw')
    return r if isinstance(r, Seq) else None


def expected(I, b):
    """fields RFC 6455 reads from the bytes b (b[1] known)"""
    l7, m = b[1] & 127, b[1] >> 7
    n = 0 if l7 < 126 else 2 if l7 == 126 else 8
    size = l7 if n == 0 else 0
    for i in range(n):
        size = add(mulc(size, 256), b[2 + i])
    hs = 2 + n + (4 if m else 0)
    key = [b[2 + n + i] for i in range(4)] if m else [0] * 4
    return bool(m), hs, size, key


def claim(ctx, I, o, c, rule, where, text, key):
    sav, I.st = I.st, o.st
    try:
        r = holds(I, c)
    finally:
        I.st = sav
    ctx.ob(rule, verdict(I, o, r), where, text, key=key)


def truth(v, want):
    """condition: the (possibly symbolic) truth value v equals want"""
    if isinstance(v, bool):
        return v == want
    if isinstance(v, Cond):
        return v if want else c_not(v)
    return None


def report(ctx, I, label):
    ctx.interp(I)
    for x in definite(I):
        ctx.ob('memory', False, x.where, f'{label}: {x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')


def fields_claims(ctx, I, o, fin, op, masked, hs, size, key, have, where, label, k):
    for n in NAMES:
        v = field(o.v, n) if isinstance(o.v, Rec) else None
        kk = f'{k}|{n}'
        if n in ('fin', 'masked'):
            want = fin if n == 'fin' else masked
            c = truth(v, want)
            ctx.ob('read', None, where, f'{label}: {n} is not resolved', key=kk) if c is None else claim(ctx, I, o, c, 'read', where, f'{label}: {n} is read as {v}, expected {want}', kk)
        elif n == 'key':
            s = v if isinstance(v, Seq) else None
            sav, I.st = I.st, o.st
            r, why = wire.same(I, s, Seq([('el', x) for x in key], None, 'string')) if s is not None else (None, 'not resolved')
            I.st = sav
            ctx.ob('read', verdict(I, o, r), where, f'{label}: masking key {v}: {why}', key=kk)
        elif n == 'complete':
            want = have if isinstance(have, bool) else le(hs, have)
            for val in (True, False):
                pre = want if val else (c_not(want) if not isinstance(want, bool) else not want)
                st = narrowed(wi(I, o), [pre])
                if st is None:
                    continue
                c = truth(v, val)
                sav, I.st = I.st, st
                r = None if c is None else holds(I, c)
                I.st = sav
                ctx.ob('complete', verdict(I, o, r), where, f'{label}: a header of {hs} bytes is reported {"in" if val else ""}complete with {have} bytes', key=f'{kk}|{val}')
        else:
            want = {'opcode': op, 'headerSize': hs, 'payloadSize': size, 'frameSize': None}[n]
            if n == 'frameSize':
                want = add(size, hs)
                if narrowed(wi(I, o), [le(want, (1 << 64) - 1)]) is None:
                    continue
                st = narrowed(wi(I, o), [le(want, (1 << 64) - 1)])
            else:
                st = o.st
            if not isnum(v):
                ctx.ob('read', None, where, f'{label}: {n} is not resolved', key=kk)
                continue
            sav, I.st = I.st, st
            r = holds(I, eq(v, want))
            I.st = sav
            ctx.ob('read', verdict(I, o, r), where, f'{label}: {n} is read as {v}, expected {want}', key=kk)


def wi(I, o):
    I.st = o.st
    return I


def header(I, f, els):
    t = I.P.strip(f['p'][0]['t'])
    rid = I.P.rid(t)
    k = next(k for k, ft, _, _ in I.P.fields(rid) if k[1] == 'raw')
    ety = I.P.targs(I.P.rid(I.P.field_type(k)))[0]['t']
    return param(I, f, 0, Rec(I.P.recs[rid]['name'], {k: Seq([('el', x) for x in els], ety, 'array')}))


def reader(ctx, P):
    for f in func(P, 'wfa::entry_hdr_read'):
        where = P.loc([g for g in P.byq['webfront::websocket::Header::payloadSize']][0]['l'])
        for which in (1, 0):
            for val in range(256):
                if which == 0 and val % 16 and val not in (0x81, 0x82, 0x88, 0x89, 0x8a, 0x7f, 0xff, 0x0f, 0x01, 0x02):
                    if ctx.tier == 'quick':
                        continue
                for b1 in ([val] if which else [5, 0x85, 0xfe, 127]):
                    I = make(P)
                    ss = [sym(('h', i), 0, 255) for i in range(14)]
                    els = [of(s) for s in ss]
                    els[1] = b1
                    if which == 0:
                        els[0] = val
                    have = of(sym(('have',), 0, (1 << 64) - 1))
                    outs = explore(I, f, args=[header(I, f, els), param(I, f, 1, have)])
                    label = f'header bytes {els[0] if which == 0 else "?"} {b1:#04x}'
                    report(ctx, I, label)
                    for j, o in enumerate(outs):
                        k = f'{which}|{val}|{b1}|{j}'
                        if o.kind != 'ok':
                            ctx.ob('read', None if o.st.taint else False, where, f'{label}: throws {o.v.tname}', key=k)
                            continue
                        I.st = o.st
                        m, hs, size, key = expected(I, els)
                        if which == 0:
                            fin, op = bool(val & 128), val & 15
                            fields_claims(ctx, I, o, fin, op, m, hs, size, key, have, where, label, k)
                        else:
                            for fin in (True, False):
                                st = narrowed(wi(I, o), [le(128, els[0]) if fin else le(els[0], 127)])
                                if st is not None:
                                    o2 = Outcome(o.kind, o.v, st)
                                    I.st = st
                                    fields_claims(ctx, I, o2, fin, num.mod(els[0], 16, I.bnd), m, hs, size, key, have, where, label, f'{k}|{fin}')


def writer(ctx, P):
    for q in ('wfa::entry_hdr_write', 'wfa::entry_hdr_rewrite'):
        for f in func(P, q):
            where = P.loc([g for g in P.byq['webfront::websocket::Header::setPayloadSize']][0]['l'])
            again = q.endswith('rewrite')
            for op in range(16):
                for fin in (True, False):
                    I = make(P)
                    a, b = of(sym(('size', 1), 0, (1 << 64) - 1)), of(sym(('size', 2), 0, (1 << 64) - 1))
                    vals = [fin, 15 - op, op, a, b] if again else [fin, op, b]
                    outs = explore(I, f, args=[param(I, f, i, v) for i, v in enumerate(vals)])
                    label = f'{"re" if again else ""}writing opcode {op} final {fin}'
                    report(ctx, I, label)
                    for j, o in enumerate(outs):
                        k = f'{q}|{op}|{fin}|{j}'
                        if o.kind != 'ok' or not isinstance(o.v, Rec) or raw_of(o.v) is None:
                            ctx.ob('write', None if o.st.taint or o.kind == 'ok' else False, where, f'{label}: not resolved {str(o.v)[:100]}', key=k)
                            continue
                        raw = raw_of(o.v)
                        I.st = o.st
                        for want, form in wire.frames(I, (128 if fin else 0) | op, Seq([('src', Src('payload', None), 0, b)], None, 'string')):
                            n = want.len()
                            got = I.seq_slice(raw, 0, sum(1 for p in want.p if p[0] == 'el'))
                            r, why = wire.same(I, got, Seq([p for p in want.p if p[0] == 'el'], None, 'string'))
                            ctx.ob('write', verdict(I, o, r), where, f'{label}, sizes {form}: {why or "header as prescribed"}', key=f'{k}|{form}')
    for f in func(P, 'wfa::entry_hdr_round'):
        where = P.loc([g for g in P.byq['webfront::websocket::Header::payloadSize']][0]['l'])
        for op in (0, 1, 2, 8, 9, 10, 15):
            for fin in (True, False):
                I = make(P)
                b, have = of(sym(('size', 2), 0, (1 << 64) - 1)), of(sym(('have',), 0, (1 << 64) - 1))
                outs = explore(I, f, args=[param(I, f, i, v) for i, v in enumerate([fin, op, b, have])])
                report(ctx, I, 'round trip')
                for j, o in enumerate(outs):
                    if o.kind != 'ok':
                        ctx.ob('read', None if o.st.taint else False, where, f'round trip: throws {o.v.tname}', key=f'round|{op}|{fin}|{j}')
                        continue
                    for lo, hi, n, code in wire.FORMS:
                        st = narrowed(wi(I, o), [le(lo, b)] + ([le(b, hi)] if hi is not None else []))
                        if st is not None:
                            o2 = Outcome(o.kind, o.v, st)
                            I.st = st
                            fields_claims(ctx, I, o2, fin, op, False, 2 + n, b, [0] * 4, have, where, f'reading back a header written for sizes {lo}..{hi or ""}', f'round|{op}|{fin}|{j}|{lo}')


def composed(ctx, P):
    for name, first in (('text', 0x81), ('data', 0x82), ('data2', 0x82), ('add', 0x82), ('add2', 0x82), ('moved', 0x82)):
        for f in func(P, 'wfa::entry_frame_' + name):
            I = make(P)
            outs = explore(I, f)
            label = 'frame ' + name
            report(ctx, I, label)
            callee = [P.funcs[x['f']['f']] for x in P.calls(f) if isinstance(x.get('f'), dict) and 'f' in x['f'] and P.funcs[x['f']['f']].get('repo') and 'websocket' in P.funcs[x['f']['f']]['q']]
            where = P.loc((callee or [f])[0]['l'])
            for j, o in enumerate(outs):
                ev = [e for e in o.st.events if e.kind == 'net.write']
                k = f'{name}|{j}'
                if o.kind != 'ok' or len(ev) != 1:
                    ctx.ob('frame', None if o.st.taint else False, where, f'{label}: {o.kind}, {len(ev)} writes', key=k)
                    continue
                got = wire.concat(ev[0].a['wire'])
                I.st = o.st
                if got is None:
                    ctx.ob('frame', None, where, f'{label}: the bytes written are not resolved', key=k)
                    continue
                parts = []
                for i in range(1, len(f['p'])):
                    parts += list(seq_of(I, I.mk_sym(P.strip(f['p'][i]['t']), ('arg', i))).p)
                for want, form in wire.frames(I, first, Seq(parts, got.ety, 'string')):
                    r, why = wire.same(I, got, want)
                    ctx.ob('frame', verdict(I, o, r), where, f'{label}, payload of {form} bytes: {why or "header and payload as prescribed"}', key=f'{k}|{form}')


def run(ctx):
    reader(ctx, ctx.P)
    writer(ctx, ctx.P)
    composed(ctx, ctx.P)
