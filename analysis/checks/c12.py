"""Bounded decoding.  Every parameter decoder, and the handler a link registers for binary messages, is interpreted on a message of
arbitrary length and content (nested tuples: on every cut of messages whose type bytes are fixed).  Every read, copy, sub-view and
index is an obligation: inside the message and inside what its header announces.  What is handed on (the function name and the view
of the parameters that an event carries) must lie inside the message, and the texts of the exceptions thrown on the way are made of
constants and sizes only.  Reads of memory nothing has written are reported as well."""
from engine.run import *
from engine import wire, link, codec
from engine.bounded import definite
from engine.wire import le

MINIMUM = 60
ASSUMPTIONS = ['a message is shorter than 2^48 bytes']
ENTRIES = ('bool', 'int', 'byte', 'size', 'double', 'float', 'string', 'pair', 'inner')


def memory(ctx, I, where, label):
    """obligations of one exploration"""
    ctx.interp(I)
    failed = set()
    for x in I.findings.values():
        d = x in definite(I)
        if x.kind == 'float-conversion':
            continue          # decided by C13
        failed.add(x.where)
        ctx.ob('memory', False if d else None, x.where, f'{label}: {x.kind}: {x.detail}', key=f'{x.kind}|{x.where}|{label}')
    for (kind, w), (good, bad) in I.obl.items():
        ctx.count('accesses proved', good)
        if not bad and w not in failed:
            ctx.ob('memory', True, w, f'{label}: {kind}: {good} times on all paths', key=f'{kind}|{w}|{label}')


def stray(I, t):
    """what an exception text contains besides constants and numbers, or None"""
    v = t.v
    if isinstance(v, Ptr):
        try:
            v = I.get(v.loc)
        except (KeyError, AttributeError):
            return None
    if not isinstance(v, Rec):
        return None
    s = next((x for k, x in v.f.items() if k == 'what'), None)
    if not isinstance(s, Seq):
        return None
    for p in s.p:
        if p[0] == 'src' and isinstance(p[1].key, tuple) and p[1].key and p[1].key[0] == 'to_string':
            continue
        if p[0] == 'lit' or (p[0] == 'el' and isinstance(p[1], int)):
            continue
        return str(Seq([p], s.ety, 'string'))
    return None


def inside(I, v, n):
    """the view lies inside a message of n bytes"""
    if v.ptr.loc is None or v.n == 0:
        return True
    if not (isinstance(v.ptr.loc.root, Obj) and v.ptr.loc.root.kind == 'opaque'):
        return None
    return wire.holds(I, le(add(v.ptr.off, v.n), n))


def throws(ctx, I, outs, where, label):
    for i, o in enumerate(outs):
        if o.kind == 'throw':
            sav, I.st = I.st, o.st
            try:
                s = stray(I, o.v)
                ctx.ob('message', s is None, o.v.where, f'{label}: the exception ' + ('carries constants and sizes only' if s is None else f'carries {s}'), key=f'stray|{label}|{o.v.where}|{s}')
                ok = o.v.tname not in ('std::bad_alloc',)
                ctx.ob('refusal', ok, o.v.where, f'{label}: refused with {o.v.tname}', key=f'refusal|{label}|{o.v.where}|{o.v.tname}')
            finally:
                I.st = sav


def run(ctx):
    P = ctx.P
    for name in ENTRIES:
        for f in func(P, 'wfa::entry_got_' + name):
            I = make(P)
            I.track['uninit'] = True
            a = arg(I, f['p'][0]['t'], 'msg')
            outs = explore(I, f, args=[a])
            memory(ctx, I, P.loc(f['l']), name)
            throws(ctx, I, outs, P.loc(f['l']), name)
    # tuples in tuples: fixed types, arbitrary sizes and texts, cut anywhere
    for f in func(P, 'wfa::entry_got_nested'):
        for tpl in ([b'\x12\x03', b'\x01', b'\x12\x02', b'\x04', 4, b'\x02', b'\x05', 4], [b'\x12\x03\x00\x12\x02\x06', 5, b'\x04', 3], [b'\x12', 1, b'\x02\x12', 1, b'\x04\x01a\x01\x05', 3]):
            flat = []
            for p in tpl:
                flat += [bytes([x]) for x in p] if isinstance(p, bytes) else [1] * p
            for L in range(len(flat) + 1):
                I = make(P)
                I.track['uninit'] = True
                v, s, n = link.message(I, I.st, parts=flat[:L])
                outs = explore(I, f, args=[param(I, f, 0, v)])
                memory(ctx, I, P.loc(f['l']), f'nested tuple of {L} bytes')
                throws(ctx, I, outs, P.loc(f['l']), f'nested tuple of {L} bytes')
    # the link
    K = link.Link(P)
    I = K.I
    for o in K.ok:
        (b, f), _ = K.handlers(o)
        where = P.loc(f['l'])
        v, s, n = link.message(I, o.st)
        outs = I.explore(lambda: I.invoke(b, [(v, False)]), o.st)
        for i, x in enumerate(outs):
            sav, I.st = I.st, x.st
            try:
                for e in x.st.events:
                    if e.kind != 'callback':
                        continue
                    for a in e.a['args']:
                        for w in (a.f.values() if isinstance(a, Rec) else [a]):
                            if isinstance(w, View):
                                r = inside(I, w, n)
                                ctx.ob('handed-on', wire.verdict(I, x, r), where, f'link: an event carries {w} of a message of {n} bytes', key=f'on|{i}')
                                if w.ptr.loc is not None and w.n != 0:
                                    # and inside what the header announces
                                    u = [codec.at(I, s, 4 + j) for j in range(4)]
                                    ann = add(add(u[0], mulc(u[1], 256)), add(mulc(u[2], 65536), mulc(u[3], 1 << 24)))
                                    r = wire.holds(I, le(add(w.ptr.off, w.n), add(8, ann)))
                                    ctx.ob('announced', wire.verdict(I, x, r), where, f'link: an event carries {w} of a message announcing {ann} bytes of parameters', key=f'ann|{i}')
                            elif isinstance(w, Seq):
                                bad = None
                                for p in w.p:
                                    if p[0] == 'src':
                                        bad = wire.holds(I, le(add(p[2], p[3]), n)) if p[1].key == 'msg' else None
                                    elif p[0] == 'lit':
                                        bad = True
                                if w.p:
                                    ctx.ob('handed-on', wire.verdict(I, x, bad), where, f'link: an event is named {w} from a message of {n} bytes', key=f'name|{i}')
                if x.kind == 'throw':
                    ctx.ob('refusal', wire.verdict(I, x, False), x.v.where, f'link: {x.v.tname} leaves the handler of received messages', key=f'leave|{x.v.where}')
            finally:
                I.st = sav
        memory(ctx, I, where, 'link')
    if not K.ok:
        raise SystemExit(2)
