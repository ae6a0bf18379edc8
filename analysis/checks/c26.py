"""A WebFront object is built by its own constructor and interpreted through sequences of upgraded connections (also after the counter
of identifiers has been used up), handshakes and calls.  After each upgrade there is exactly one link more, under an identifier none of
the others has.  A binary message of arbitrary length and content makes a link tell its owner of itself exactly when it starts with
the handshake command and holds a whole handshake, once, with the identifier the link was given, and after the acknowledgement was
written.  The object the application then gets writes to the socket of that very link; through an identifier no link has, nothing
is written and an exception is raised."""
from engine.run import *
from engine import bridge, outgoing, wire, witness
from engine.bridge import num_field
from checks.c16 import names

MINIMUM = 60
ASSUMPTIONS = ['up to four live links at a time; the identifiers are exhausted once']


def run(ctx):
    P = ctx.P
    message(ctx, P)
    B = bridge.Bridge(P)
    W = P.loc(next((f['l'] for f in P.byq.get('webfront::BasicWF::(ctor)', []) if 'body' in f), None))
    if B.why:
        ctx.ob('upgrade', None, W, B.why, key='bridge')
        return
    I = B.I

    def ob(rule, ok, st, text, key, where=W):
        if ok is False and st is not None and st.taint:
            ok = None
        ctx.ob(rule, ok, where, text, key=key)
        return ok is True

    st = B.set_ui(B.st)
    if st is None:
        ob('handshake', None, None, 'registering the handler of started UIs is not resolved', 'ui')
        return
    for name in B.proto:
        if name == 'WebSocket':
            continue
        for i, o in enumerate(B.upgraded(st, 'x', name)):
            ls = B.links(o.st)
            ob('upgrade', None if ls is None else o.kind != 'throw' and not ls, o.st, f'a connection handed over as {name}: {"no link is made" if not ls else "a link is made"}', f'proto|{name}|{i}')
    # a run of upgrades, plain and after the identifiers were used up
    todo = [('', st, 4)]
    w = used_up(B, st)
    if w is not None:
        todo.append(('after all identifiers were used, ', w, 3))
    else:
        ob('upgrade', None, None, 'the counter of identifiers is not resolved', 'counter')
    while todo:
        pre, st, n = todo.pop(0)
        for k in range(n):
            before = B.links(st) or []
            outs = B.upgraded(st, f's{k}')
            good = [o for o in outs if o.kind in ('ok', 'return')]
            for i, o in enumerate(outs):
                key = f'up|{pre}|{k}|{i}'
                if o.kind == 'throw':
                    ob('upgrade', False, o.st, f'{pre}upgrade {k + 1}: {o.v.tname} is raised', key)
                    continue
                now = B.links(o.st)
                if now is None:
                    ob('upgrade', None, o.st, f'{pre}upgrade {k + 1}: the links are not resolved', key)
                    continue
                new = [x for x in now if all(x[1].loc != y[1].loc for y in before)]
                kept = all(any(x[1].loc == y[1].loc for x in now) for y in before)
                ok = len(new) == 1 and kept
                ob('upgrade', ok, o.st, f'{pre}upgrade {k + 1}: ' + ('one link more' if ok else f'{len(new)} new links, {"the others are kept" if kept else "another link is lost"}'), key)
                if not ok:
                    continue
                ids = [x[0] for x in now]
                ok = None if not all(isinstance(x, int) for x in ids) else len(set(ids)) == len(ids)
                ob('unique', ok, o.st, f'{pre}upgrade {k + 1}: the identifiers are {ids}', key + '|ids')
                handshake(ctx, B, o.st, now, new[0], ob, f'{pre}link {k + 1}', key)
                if before:
                    handshake(ctx, B, o.st, now, (before[0][0], before[0][1]), ob, f'{pre}link 1 after {k} others', key + '|old')
            if len(good) != 1:
                ob('upgrade', None, None, f'{pre}upgrade {k + 1} has {len(good)} outcomes', f'up|{pre}|{k}')
                break
            st = good[0].st
    absent(ctx, B, st, ob)
    ctx.interp(I)


def used_up(B, st):
    """the object after one link was made and every other identifier was used by links that are gone"""
    I, P = B.I, B.P
    a = [o for o in B.upgraded(st, 'first') if o.kind in ('ok', 'return')]
    if len(a) != 1:
        return None
    I.st = st
    f0 = dict(num_field(P, I.get(B.this.loc)))
    I.st = s = a[0].st.copy()
    v = I.get(B.this.loc)
    f1 = dict(num_field(P, v))
    moved = [k for k in f1 if isinstance(f1[k], int) and isinstance(f0.get(k), int) and f1[k] == f0[k] + 1]
    if len(moved) != 1:
        return None
    k = moved[0]
    t = next(f['t'] for f in P.recs[k[0]]['f'] if f['n'] == k[1])
    w = P.ty(P.strip(t)).get('w', 0)
    top = (1 << w) - 1
    g = dict(v.f)
    g[k] = top
    I.put(B.this.loc, Rec(v.rn, g))
    return s


def socket_of(e):
    s = e.a.get('socket')
    return s.loc.root if isinstance(s, Ptr) and s.loc is not None else None


def handshake(ctx, B, st, links, l, ob, text, key):
    """the handshake of link l, and the object the application gets"""
    I, P = B.I, B.P
    key_, p = l
    base = len(st.events)
    for i, o in enumerate(B.message(st, p, [b'\0', 1], 'hs')):
        k = f'{key}|hs{i}'
        if o.kind == 'throw':
            ob('handshake', None, o.st, f'{text}: {o.v.tname} leaves the message handler', k)
            continue
        ev = o.st.events[base:]
        cb = [e for e in ev if e.kind == 'callback']
        if not ob('told', len(cb) == 1, o.st, f'{text}: its handshake calls the handler of the application {len(cb)} times', k):
            continue
        at = ev.index(cb[0])
        acks = [e for e in ev[:at] if e.kind == 'net.write' and socket_of(e) == p.loc.root]
        ob('order', bool(acks), o.st, f'{text}: the acknowledgement is {"" if acks else "not "}written before the application is told', k)
        # what the application is given
        sav, I.st = I.st, o.st.copy()
        ui = cb[0].a['args'][0]
        if not isinstance(ui, Ptr):
            t = next((P.rectype(r) for r, x in enumerate(P.recs) if x['name'] == 'webfront::BasicUI'), None)
            q = I.new('local', 'ui', t)
            I.put(q.loc, ui)
            ui = q
        uist = I.st
        I.st = sav
        uses(ctx, B, uist, ui, p, ob, text, k)


def uses(ctx, B, st, ui, p, ob, text, key):
    I, P = B.I, B.P
    for name in ('addScript', 'jsFunction'):
        for f in [f for f in P.byq.get(f'webfront::BasicUI::{name}', []) if 'body' in f][:1]:
            a = I_arg(I, st, P, f, name)
            base = len(st.events)
            outs = I.explore(lambda: I.call(f, ui, [a]), st)
            for i, o in enumerate(outs):
                k = f'{key}|{name}|{i}'
                if o.kind == 'throw':
                    ob('reaches', False, o.st, f'{text}: {name} raises {o.v.tname}', k)
                    continue
                if name == 'addScript':
                    sent(ob, o, base, p, text, name, k)
                    continue
                # call the function object
                g = next((g for g in P.byq.get('wfa::entry_js_call_none', []) if 'body' in g), None)
                if g is None:
                    continue
                sav, I.st = I.st, o.st
                if isinstance(o.v, Ptr):
                    q = o.v
                else:
                    q = I.new('local', 'js', P.strip(g['p'][0]['t']))
                    I.put(q.loc, o.v)
                s2 = I.st
                I.st = sav
                b2 = len(s2.events)
                for j, o2 in enumerate(I.explore(lambda: I.call(g, None, [q]), s2)):
                    if o2.kind == 'throw':
                        ob('reaches', False, o2.st, f'{text}: calling a function raises {o2.v.tname}', f'{k}|{j}')
                        continue
                    sent(ob, o2, b2, p, text, 'the call of a function', f'{k}|{j}')


def I_arg(I, st, P, f, name):
    sav, I.st = I.st, st
    q = I.new('param', 'text', P.strip(f['p'][0]['t']), sv(I, 'alert(1)'))
    I.st = sav
    return q


def sent(ob, o, base, p, text, what, key):
    ws = [e for e in o.st.events[base:] if e.kind == 'net.write']
    if not ws:
        ob('reaches', False, o.st, f'{text}: {what} writes nothing and raises nothing', key)
        return
    rs = {socket_of(e) for e in ws}
    ok = None if None in rs else rs == {p.loc.root}
    ob('reaches', ok, o.st, f'{text}: {what} is written to the socket of {"this link" if ok else "another link"}', key)


def absent(ctx, B, st, ob):
    """an identifier no link has"""
    I, P = B.I, B.P
    ls = B.links(st) or []
    free = next((x for x in (7, 300, 40000) if all(x != k for k, _ in ls)), None)
    ui = next((f for f in P.byq.get('webfront::BasicUI::(ctor)', []) if 'body' in f and len(f['p']) == 2), None)
    if ui is None or free is None:
        return
    sav, I.st = I.st, st.copy()
    q = I.new('local', 'ui', P.rectype(ui['r']))
    a = [B.this, I.new('param', 'id', P.strip(ui['p'][1]['t']), free)]
    s = I.st
    I.st = sav
    for o in I.explore(lambda: I.run_ctor(ui, q, a), s):
        if o.kind == 'throw':
            continue
        base = len(o.st.events)
        for f in [f for f in P.byq.get('webfront::BasicUI::addScript', []) if 'body' in f][:1]:
            t = I_arg(I, o.st, P, f, 'x')
            for i, x in enumerate(I.explore(lambda: I.call(f, q, [t]), o.st)):
                ws = [e for e in x.st.events[base:] if e.kind == 'net.write']
                ob('absent', x.kind == 'throw' and not ws, x.st, 'sending through an identifier no link has: ' + ('an exception is raised' if x.kind == 'throw' else 'no exception is raised'), f'absent|{i}')


def message(ctx, P):
    """a link told of a message of arbitrary content"""
    L = outgoing.LinkMessages(P)
    I = L.I
    ctx.interp(I)
    size = next((x['size'] for x in P.recs if x['name'] == 'webfront::msg::Handshake' and x.get('size')), 2)
    for kind, outs in (('binary', L.binary), ('text', L.text)):
        for i, o in enumerate(outs):
            sav, I.st = I.st, o.st
            try:
                ev = o.st.events[L.base:]
                cb = [e for e in ev if e.kind == 'callback']
                mine = [e for e in cb if 'linked' in names(I, e.a['args'])]
                key = f'{kind}|{i}'
                feas = lambda: False if not o.st.taint and witness.feasible(I) is True else None
                if kind == 'text':
                    ctx.ob('told', True if not mine else feas(), L.where, f'a text message: told {len(mine)} times', key=key)
                    continue
                first = wire.holds(I, wire.eq(I.uns(I.seq_get(L.msg, 0), 8), 0)) if wire.holds(I, wire.le(1, L.len)) is True else False
                enough = wire.holds(I, wire.le(size, L.len))
                hs = first if first is not True else enough
                if len(mine) > 1:
                    ctx.ob('told', feas(), L.where, f'a binary message: told {len(mine)} times', key=key)
                    continue
                if mine:
                    ctx.ob('told', True if first is True else feas() if first is False else None, L.where, 'told on a handshake' if first is True else 'told although the message is no handshake', key=key)
                    at = ev.index(mine[0])
                    ack = [e for e in ev[:at] if e.kind == 'net.write']
                    ctx.ob('order', True if ack else feas(), L.where, f'the acknowledgement is {"" if ack else "not "}written before', key=key)
                    ids = [x for a in mine[0].a['args'] for k, x in num_field(P, I.get(a.loc) if isinstance(a, Ptr) else a)]
                    ok = any('arg:1' in str(x) for x in ids)
                    ctx.ob('id', ok if ok else (feas() if ids and all(isinstance(x, int) for x in ids) else None), L.where, f'told with the identifier {ids}', key=key)
                else:
                    ctx.ob('told', True if hs is False else feas() if hs is True else (None if o.kind != 'throw' else True), L.where, 'not told of another message' if hs is False else 'not told of a handshake', key=key)
            finally:
                I.st = sav

