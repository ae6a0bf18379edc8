"""The request handler is interpreted on requests with a given number of headers: all names and values arbitrary for one and two headers,
and for the arrangements of the handshake headers (in every order, repeated, in unusual letter case, one of them missing or under
another name) arbitrary values.  On every path the reference condition - the method is GET, the target is fine, some Connection header
mentions "upgrade", some Upgrade header mentions "websocket" (letter case ignored), there is a Sec-WebSocket-Key - is evaluated under
the constraints of the path and compared with the status of the answer.  A 101 answer must carry Upgrade: websocket, Connection:
Upgrade and, as accept value, base64(SHA-1(key + GUID)) of the value of that very header (as terms), and no body."""
from itertools import permutations
from engine.run import *
from engine import http, wire
from engine.bounded import definite
from .c01 import where_of

MINIMUM = 200
ASSUMPTIONS = ['"lists" and "names" mean that the header value mentions the text, letter case ignored', 'requests of at most four headers (five in thorough mode)']
C, U, K, A, X = b'Connection', b'Upgrade', b'Sec-WebSocket-Key', b'Accept-Encoding', b'X-Other'


def arrangements(deep):
    """lists of (name, value or None)"""
    odd = [b'CONNECTION', b'upgrade', b'sEC-wEBsOCKET-kEY']
    out = [[(n, None) for n in p] for p in permutations((C, U, K))]
    out.append([(n, None) for n in odd])
    out += [[(C, None), (U, None)], [(C, None), (K, None)], [(U, None), (K, None)], [(C, None), (U, None), (X, None)], [(X, None), (C, None), (U, None), (K, None)]]
    # repeated headers: any of them may carry the word; the first key counts
    out += [[(C, None), (C, None), (U, None), (K, None)], [(U, None), (K, None), (C, None), (U, None)], [(K, None), (U, None), (C, None), (K, None)]]
    # near misses of the names
    for n in (b'Connections', b'Connectio', b'Proxy-Connection'):
        out.append([(n, None), (U, b'websocket'), (K, None)])
    for n in (b'Upgrades', b'Upgrad', b'Sec-WebSocket-Key'):
        out.append([(C, b'keep-alive, Upgrade'), (n, None), (K, None)])
    for n in (b'Sec-WebSocket-Key1', b'Sec-WebSocket-Ke', b'Sec-WebSocket-Accept', b'SecWebSocketKey'):
        out.append([(C, b'Upgrade'), (U, b'websocket'), (n, None)])
    # values with the words in known places
    for c, u in ((b'upgrade', b'websocket'), (b'Upgrade', b'WebSocket'), (b'keep-alive, UPGRADE', b'WEBSOCKET'), (b'close', b'websocket'), (b'Upgrade', b'h2c'), (b'', b''), (b'Upgrade', b'')):
        out.append([(C, c), (U, u), (K, None)])
    # the name of a header is arbitrary
    out += [[(None, None), (U, b'websocket'), (K, None)], [(C, b'Upgrade'), (None, None), (K, None)], [(C, b'Upgrade'), (U, b'websocket'), (None, None)]]
    out += [[(C, b'Upgrade'), (U, b'websocket'), (K, None), (None, None)], [(None, None), (C, b'Upgrade'), (U, b'websocket'), (K, None)]]
    out += [[(None, None)], [(None, None), (None, None)]]
    if deep:
        out += [[(n, None) for n in p] for p in permutations((C, U, K, A))] + [[(None, None)] * 3]
        out += [[(n, None) for n in p] for p in set(permutations((C, C, U, K))) | set(permutations((C, U, U, K))) | set(permutations((C, U, K, K)))]
    return out


def name(hs):
    return ', '.join((n or b'*').decode() + (': ' + v.decode() if v is not None else '') for n, v in hs) or 'no headers'


def feasible(o, S):
    """no condition on a header text was left that the reference does not know"""
    I = S.I
    for k in o.st.atoms:
        if k[0] in ('txteq', 'txtfind', 'seqeq', 'contains'):
            continue
        for n, v in S.headers:
            if n.concrete() is None and http.about(k, n.p) or v.concrete() is None and http.about(k, v.p):
                return False
    return not o.st.taint


def expected(I, S):
    """(target refused, upgrade expected)"""
    if http.refused_target(I, S.target):
        return (True, False)
    if not I.truth(wire.eq(S.method, http.GET)):
        return (False, False)
    up = http.exists(I, S.headers, 'Connection', 'upgrade') and http.exists(I, S.headers, 'Upgrade', 'websocket') and http.exists(I, S.headers, 'Sec-WebSocket-Key')
    return (False, up)


def first_key(I, S):
    for h in S.headers:
        if I.truth(http.is_named(I, h, 'Sec-WebSocket-Key')):
            return h[1]
    return None


def accept_value(I, P, key):
    f = func(P, 'wfa::entry_accept')[0]
    o = I.new('temp', 'key', P.strip(f['p'][0]['t']), Seq(list(key.p), I.models.char_t(), 'string'))
    v = I.call(f, None, [o])
    return seq_of(I, v if not isinstance(v, Ptr) else I.get(v.loc))


def run(ctx):
    P = ctx.P
    H = where_of(P, 'webfront::http::RequestHandler::handleRequest')
    jobs = [(hs, http.GET) for hs in arrangements(ctx.tier != 'quick')] + [([(C, b'Upgrade'), (U, b'websocket'), (K, None)], None), ([], None)]
    for hs, method in jobs:
        if not func(P, f'wfa::entry_plain{len(hs)}'):
            continue
        S = http.Served(P, 'plain', hs, method, mime=False)
        I = S.I
        ctx.interp(I)
        lab = name(hs)
        for x in definite(I):
            ctx.ob('memory', False, x.where, f'{x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')
        for i, o, a in S.answers():
            k = f'{lab}|{method}|{i}'
            if o.kind == 'throw' or a is None or a.status is None:
                ctx.ob('status', None, H, f'{lab}: the answer is not resolved', key=k)
                continue
            sure = feasible(o, S)
            I.st = o.st
            for j, r in enumerate(I.explore(lambda: expected(I, S), o.st)):
                refused, up = r.v
                kk = f'{k}|{j}'
                if up != (a.status == 101):
                    ctx.ob('status', False if sure else None, H, f'{lab}: answered {a.status} although ' + ('it is a WebSocket handshake' if up else 'it is not a WebSocket handshake'), key=kk)
                    continue
                ctx.ob('status', True, H, f'{lab}: answered {a.status}', key=kk)
                if not up:
                    continue
                for m, rr in enumerate(I.explore(lambda: first_key(I, S), r.st)):
                    I.st = rr.st
                    answer(ctx, I, P, S, a, rr.v, sure, H, lab, f'{kk}|{m}')
            I.st = o.st


def answer(ctx, I, P, S, a, key, sure, H, lab, k):
    for n, want in ((b'Upgrade', b'websocket'), (b'Connection', b'upgrade')):
        vs = a.header(n)
        c = vs[0].concrete() if len(vs) == 1 else None
        ok = c is not None and c.lower() == want
        ctx.ob('headers', True if ok else (False if sure and (len(vs) != 1 or c is not None) else None), H, f'{lab}: {n.decode()}: {c}', key=f'{n}|{k}')
    vs = a.header(b'Sec-WebSocket-Accept')
    if len(vs) != 1:
        ctx.ob('accept', False if sure else None, H, f'{lab}: {len(vs)} Sec-WebSocket-Accept headers', key='accept|' + k)
    else:
        outs = I.explore(lambda: accept_value(I, P, key), I.st)
        want = outs[0].v if len(outs) == 1 and outs[0].kind == 'ok' else None
        if want is None:
            ctx.ob('accept', None, H, f'{lab}: the accept value is not resolved', key='accept|' + k)
        else:
            r, why = wire.same(I, vs[0], want)
            if r is None and str(vs[0]) != str(want):
                # both are terms over SHA-1 sums: of different texts
                r = False if sure and sums(vs[0]) and sums(vs[0]) != sums(want) else None
            ctx.ob('accept', r if r is not False or sure else None, H, f'{lab}: accept value ' + ('of the key' if r else f'is not that of the key of the request ({why})'), key='accept|' + k)
    n = a.body.len()
    r = wire.holds(I, wire.eq(n, 0))
    ctx.ob('body', True if r is True else (False if r is False and sure else None), H, f'{lab}: a body of {n} bytes follows the 101 answer' if r is not True else f'{lab}: no body', key='body|' + k)


def sums(s):
    """the SHA-1 terms a text is made of"""
    out = set()

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'sha1':
                out.add(str(x[:2]))
                return
            for y in x:
                walk(y)
        elif isinstance(x, Lin):
            for t in x.syms():
                walk(t.name if hasattr(t, 'name') else t.key if hasattr(t, 'key') else ())
                if t.op:
                    walk(t.op)
                if t.div:
                    walk(t.div)
    for p in s.p:
        walk(p[1:])
    return out
