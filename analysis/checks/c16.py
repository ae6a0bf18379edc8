"""Every function that runs because of bytes a client sent is interpreted with every exception the library, the standard library and
the application's functions may raise there: the completion handlers of the HTTP server (C07's event loop, where shutting a socket
down, asking the file system about a client's path, and every throw statement may raise), the ones of the WebSocket (C08's event
loop), the message handlers of a link on a message of arbitrary length and content, given every exception the parameter decoder was
found to raise, the request parser in every state (C03's step), the request handler on arbitrary targets, methods and headers, the
percent decoder on arbitrary bytes, and the opening of files.  No path may leave such a function with an exception nobody on the way
to the event loop catches; leaving a noexcept function or a destructor with one ends the process and counts as well."""
from engine.run import *
from engine import conn, http, link, outgoing
from engine.bounded import text_input
from engine.quiet import Quiet
from checks import c03, c08

MINIMUM = 300
ASSUMPTIONS = ['running out of memory is not considered', 'the application\'s functions raise exceptions derived from std::exception; what its handler of a started UI raises is excluded',
               'the event loops are driven as in C07 and C08']


def linked(I, o, base):
    """was the exception raised by the application's handler of a new link?"""
    cb = [e for e in o.st.events[base:] if e.kind == 'callback']
    if not cb:
        return False
    return 'linked' in names(I, cb[-1].a['args'])


def names(I, vs):
    """enumerator names held by the arguments of a call"""
    out = set()

    def walk(v, tid=None, depth=0):
        if isinstance(v, Ptr) and v.loc is not None and depth < 6:
            try:
                return walk(I.get(v.loc), I.loc_tid(v.loc), depth + 1)
            except Exception:
                return
        if isinstance(v, Rec):
            for k, x in v.f.items():
                if isinstance(k, tuple) and isinstance(k[0], int):
                    t = next((f['t'] for f in I.P.recs[k[0]]['f'] if f['n'] == k[1]), None)
                    walk(x, t, depth + 1)
        elif isinstance(v, int) and tid is not None and I.P.ty(I.P.strip(tid))['k'] == 'enum':
            out.update(n for n, x in enumerators(I.P, tid) if x == v)
        elif isinstance(v, (tuple, list)):
            for x in v:
                walk(x, None, depth + 1)
    for v in vs:
        walk(v)
    return out


def enumerators(P, tid):
    e = P.ty(P.strip(tid)).get('e')
    if isinstance(e, int):
        return [(n, int(x)) for n, x in P.enums[e]['v'].items()]
    return []


def run(ctx):
    P = ctx.P

    def judge(I, o, what, where, key):
        if o.kind == 'throw':
            ctx.ob('caught', False if not o.st.taint else None, o.v.where or where, f'{what}: {o.v.tname} raised here is not caught', key=key)
        else:
            ctx.ob('caught', True, where, f'{what}: nothing escapes', key=key)

    # the percent decoder
    for f in func(P, 'webfront::uri::decode'):
        for n in range(5):
            I = make(P)
            v, ss = text_input(I, n)
            outs = explore(I, f, args=[param(I, f, 0, v)])
            ctx.interp(I)
            for i, o in enumerate(outs):
                judge(I, o, f'percent-decoding {n} arbitrary bytes', P.loc(f['l']), f'decode|{n}|{i}')

    # files
    for q in [q for q in P.byq if q.startswith('webfront::fs::') and q.endswith('::open')]:
        for f in P.byq[q]:
            if 'body' not in f or not f['p'] or P.recname(P.strip(f['p'][0]['t'])) != 'std::filesystem::path':
                continue
            I = make(P, max_paths=10 ** 5)
            I.models.fsthrow = lambda t: 'arg' in str(t)
            outs = explore(I, f)
            ctx.interp(I)
            for i, o in enumerate(outs):
                judge(I, o, f'{q} of an arbitrary path', P.loc(f['l']), f'{q}|{i}')

    # requests
    caught = handlers_of(P, 'webfront::http::Connection::read')
    H = next((P.loc(g['l']) for g in P.byq.get('webfront::http::RequestHandler::handleRequest', []) if 'body' in g), '?')
    runs = [('plain', [], None), ('plain', [(None, None)], None), ('br', [(None, None)], None), ('plain', [(b'Connection', None), (b'Upgrade', None), (b'Sec-WebSocket-Key', None)], http.GET)]
    if ctx.tier != 'quick':
        runs += [('gzip', [(None, None)], None), ('plain', [(b'Connection', b'Upgrade'), (b'Upgrade', b'websocket'), (b'Sec-WebSocket-Key', None)], http.GET)]
    for kind, hs, method in runs:
        S = http.Served(P, kind, hs, method, mime=False)
        ctx.interp(S.I)
        for i, o in enumerate(S.outs):
            k = f'serve|{kind}|{len(hs)}|{hs and hs[0][0]}|{i}'
            if o.kind == 'throw' and any(t is None or S.I.derives(o.v.tname, o.v.rid, t) for t in caught):
                ctx.ob('caught', True, H, f'handling a request with {len(hs)} headers: {o.v.tname} is caught by the connection', key=k)
                continue
            judge(S.I, o, f'handling a request with {len(hs)} headers', H, k)

    # the parser, in every state
    def keep(rule, ok, where, detail, key):
        if rule == 'transition':
            bad = ok is not True and detail.endswith('is thrown')
            ctx.ob('parser', (ok if ok is False else None) if bad else True, where, detail if bad else 'nothing but a BadRequestException leaves the parser', key='parser|' + str(key))
    c03.run(Quiet(ctx, keep))

    # the message handlers of a link
    types = {('std::out_of_range', None), ('std::invalid_argument', None), ('std::runtime_error', None), ('std::bad_function_call', None)}
    for q in sorted(q for q in P.byq if q.startswith('wfa::entry_got_')):
        for f in func(P, q):
            I = make(P)
            v, s, n = link.message(I, I.st)
            for o in explore(I, f, args=[param(I, f, 0, v)]):
                if o.kind == 'throw':
                    types.add((o.v.tname, o.v.rid))
                    ok = o.v.tname != 'std::terminate'
                    ctx.ob('decoder', ok if ok or not o.st.taint else None, o.v.where, f'decoding a parameter ({q[15:]}): ' + (f'{o.v.tname} goes to the caller' if ok else 'ends the process'), key=f'{q}|{o.v.tname}|{o.v.where}')
            ctx.interp(I)
    types.discard(('std::terminate', None))
    L = outgoing.LinkMessages(P, sorted(types, key=str))
    I = L.I
    ctx.interp(I)
    for name, outs in (('binary', L.binary), ('text', L.text)):
        for i, o in enumerate(outs):
            sav, I.st = I.st, o.st
            try:
                if o.kind == 'throw' and linked(I, o, L.base):
                    ctx.count('raised by the application on a new link')
                    continue
                judge(I, o, f'a {name} message of arbitrary content', L.where, f'{name}|{i}')
            finally:
                I.st = sav
    for n, (x, line, base, outs) in enumerate(L.sinks):
        for i, o in enumerate(outs):
            judge(I, o, 'a log line sent to the client', L.where, f'sink|{n}|{i}')

    # the completion handlers
    def obs(rule, ok, text, key, n):
        if rule == 'throws':
            ctx.ob('handler', ok if ok or not n.st.taint else None, m.where, text, key=key)
        return bool(ok)
    m = conn.Machine(ctx, obs)
    m.I.models.fsthrow = lambda t: True
    m.run()

    def keep2(rule, ok, where, detail, key):
        if rule in ('calls', 'reads', 'start'):
            bad = ok is not True and ' throws ' in detail
            if bad or ok:
                ctx.ob('websocket', ok if bad else True, where, detail if bad else detail.split(': ')[0] + ': nothing escapes', key='ws|' + str(key))
    c08.Machine(Quiet(ctx, keep2)).run()


def handlers_of(P, q):
    """types caught by the handlers in a function and its lambdas (None: everything)"""
    out = []
    for f in P.byq.get(q, []):
        if 'body' not in f:
            continue
        todo, seen = [f], set()
        while todo:
            g = todo.pop()
            if g['id'] in seen or 'body' not in g:
                continue
            seen.add(g['id'])
            for n in P.walk(g['body']):
                if n['k'] == 'try':
                    out += [h.get('t') for h in n['h']]
                if n['k'] == 'lambda':
                    todo += [P.funcs[x] for x in P.recs[n['r']].get('ops', [])]
    return out
