"""A WebFront object is built by its own constructor, links by its own upgrade handler, and sequences of handshakes (also repeated on the
same link), sink registrations and removals by the application, and destructions of links are interpreted from there.  After each step
the sinks held in static storage are compared with those that should be there: each that the application added and did not remove, and
at most one for each link that is alive, none that reaches a link that is gone.  Then a line is logged, through the real loggers: it
must reach each of them exactly once, nothing that was removed, and touch nothing that was destroyed.  Identifiers given for sinks
differ from those of all live ones."""
from engine.run import *
from engine import bridge, outgoing, summaries
from checks.c26 import socket_of

MINIMUM = 60
ASSUMPTIONS = ['up to two links and four sinks of the application; sinks do not raise', 'adding and removing happens on one thread']

# a: add sink, A: add a named one, -x: remove sink x, h0: handshake of link 0, d0: link 0 is destroyed, !: a line is logged
SCRIPTS = [
    'h0 ! d0 !',
    'd0 !',
    'h0 h0 ! d0 !',
    'h0 h0 h0 h1 h0 ! d0 ! d1 !',
    'a1 h0 A2 ! d0 ! -1 ! -2 !',
    'a1 A2 h0 -1 ! h1 ! d0 ! -2 d1 !',
    'h0 a1 -1 ! a2 ! d0 ! a3 ! -2 -3 !',
    'h0 h1 d0 ! h1 ! d1 !',
    'h1 h0 a1 d1 ! A2 ! -1 d0 ! -2 !',
    'a1 a2 a3 -2 ! a4 ! -1 ! -4 ! h0 ! -3 ! d0 !',
    'a1 a2 =12 ! a3 ! -3 !',
    'a1 h0 a2 h1 a3 =13 ! d1 ! d0 ! -2 !',
    'd1 h0 ! a1 ! d0 !',
]


def run(ctx):
    P = ctx.P
    B = bridge.Bridge(P, fresh=True)
    W = P.loc(next((f['l'] for f in P.byq.get('webfront::WebLink::(ctor)', []) if 'body' in f), next(f['l'] for f in P.byq['webfront::BasicWF::(ctor)'])))
    if B.why:
        ctx.ob('setup', None, W, B.why, key='bridge')
        return
    I = B.I

    def ob(rule, ok, st, txt, key, where=W):
        if ok is False and st is not None and st.taint:
            ok = None
        ctx.ob(rule, ok, where, txt, key=key)
        return ok is True
    st = B.st
    for k in range(2):
        outs = [o for o in B.upgraded(st, f's{k}') if o.kind in ('ok', 'return')]
        if len(outs) != 1:
            ctx.ob('setup', None, W, 'a link is not resolved', key=f'link{k}')
            return
        st = outs[0].st
    links = [p for _, p in B.links(st) or []]
    entry = {n: next(iter(func(P, 'wfa::entry_sink_' + n)), None) for n in ('add', 'named', 'remove', 'remove2', 'emit')}
    if len(links) != 2 or None in entry.values():
        ctx.ob('setup', None, W, 'links or registrations are not resolved', key='links')
        return

    def real(go):
        """with the loggers interpreted"""
        sav = I.summaries, I.ctor_summaries
        I.summaries = {k: v for k, v in I.summaries.items() if not k.startswith('webfront::log::')}
        I.ctor_summaries = {k: v for k, v in I.ctor_summaries.items() if not k.startswith('webfront::log::')}
        try:
            return go()
        finally:
            I.summaries, I.ctor_summaries = sav

    def call(st, name, vals):
        f = entry[name]
        sav, I.st = I.st, st.copy()
        I.assume(atom(('callable', Opq('told'))))
        args = [I.new('param', 'arg', P.strip(p['t']), v) for p, v in zip(f['p'], vals)]
        s = I.st
        I.st = sav

        def go():
            r = I.call(f, None, args)
            for a in args:
                I.kill(a)
            return r
        return real(lambda: I.explore(go, s))

    for script in SCRIPTS:
        s, ids, live, alive = st, {}, set(), {0, 1}
        for n, step in enumerate(script.split()):
            done = ' '.join(script.split()[:n + 1])
            mark = dict(I.findings)
            base = len(s.events)
            op = step[0]
            if op in 'aA':
                outs = call(s, 'add' if op == 'a' else 'named', [int(step[1:]), Fn(Opq('told'))])
            elif op == '-':
                outs = call(s, 'remove', [ids[int(step[1:])]])
            elif op == '=':
                outs = call(s, 'remove2', [ids[int(step[1])], ids[int(step[2])]])
            elif op == 'h':
                outs = B.message(s, links[int(step[1:])], [b'\0' + bytes([n % 2])], f'hs{n}')
            elif op == 'd':
                p = links[int(step[1:])]

                def go():
                    I.destroy_at(p.loc, p.loc.root.tid)
                    I.kill(p)
                outs = I.explore(go, s)
            else:
                outs = call(s, 'emit', [])
            bad = False
            for k, f in I.findings.items():
                if k not in mark:
                    bad = True
                    ob('lifetime', None if f.taint or f.inexact else False, None, f'after "{done}": {f.kind}: {f.detail}'[:220], f'{script}|{n}|{f.kind}', f.where)
            for o in outs:
                if o.kind == 'throw':
                    ob('quiet', False, o.st, f'after "{done}": {o.v.tname} is raised', f'{script}|{n}', o.v.where or W)
                    bad = True
            if bad:
                break
            if op == '!':
                for i, o in enumerate(outs):
                    emitted(ctx, B, o.st, base, links, alive, live, done, f'{script}|{n}|{i}', ob)
                if not outs:
                    ob('sinks', None, None, f'after "{done}": no outcome', f'{script}|{n}')
                    break
                continue                    # logging changes nothing
            if len(outs) != 1:
                ob('sinks', None, None, f'after "{done}": {len(outs)} outcomes', f'{script}|{n}')
                break
            o = outs[0]
            s = o.st
            # what should be there
            if op in 'aA':
                x = int(step[1:])
                v = o.v if isinstance(o.v, int) else None
                ok = None if v is None else v not in [ids[y] for y in live]
                if not ob('identifier', ok, s, f'after "{done}": sink {x} gets identifier {o.v}', f'{script}|{n}|id'):
                    break
                ids[x] = v
                live.add(x)
            elif op in '-=':
                live -= {int(y) for y in step[1:]}
            elif op == 'd':
                alive.discard(int(step[1:]))
            held(B, s, links, alive, live, done, f'{script}|{n}', ob)
    ctx.interp(I)


def reaches(v, root, seen=None):
    """does a value hold a pointer into the object?"""
    if isinstance(v, Ptr):
        return v.loc is not None and v.loc.root == root
    if isinstance(v, (Fn, Opt)):
        return reaches(v.t if isinstance(v, Fn) else v.val, root)
    if isinstance(v, Clo):
        return reaches(v.this, root) or any(reaches(x, root) for x in (v.caps.values() if isinstance(v.caps, dict) else [c[-1] if isinstance(c, tuple) else c for c in v.caps]))
    if isinstance(v, Rec):
        return any(reaches(x, root) for x in v.f.values())
    if isinstance(v, SP):
        return v.ptr is not None and reaches(v.ptr, root)
    return False


def held(B, st, links, alive, live, done, key, ob):
    """the sinks in static storage"""
    fs = []
    for k, v in st.store.items():
        if k.kind == 'static':
            outgoing.stored(v, fs)
    fs = [f for f in fs if f.t is not None]
    for i, p in enumerate(links):
        n = sum(reaches(f, p.loc.root) for f in fs)
        if i in alive:
            ob('once', n <= 1, st, f'after "{done}": {n} sinks of link {i}', f'{key}|l{i}')
        else:
            ob('gone', n == 0, st, f'after "{done}": {n} sinks of link {i}, which is gone', f'{key}|l{i}')


def emitted(ctx, B, st, base, links, alive, live, done, key, ob):
    """what a logged line reached"""
    ev = st.events[base:]
    got = [e.a['args'][0] for e in ev if e.kind == 'callback']
    got = [B.I.get(x.loc) if isinstance(x, Ptr) else x for x in got]
    ok = sorted(got) == sorted(live) if all(isinstance(x, int) for x in got) else None
    ob('reached', ok, st, f'after "{done}": the line reaches sinks {got}, {sorted(live)} are registered', key)
    ws = [socket_of(e) for e in ev if e.kind == 'net.write']
    for i, p in enumerate(links):
        n = sum(w == p.loc.root for w in ws)
        if i in alive:
            ob('once', n <= 1, st, f'after "{done}": the line is sent to link {i} {n} times', f'{key}|w{i}')
        else:
            ob('gone', n == 0, st, f'after "{done}": the line is sent to link {i}, which is gone, {n} times', f'{key}|w{i}')
