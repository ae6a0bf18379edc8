"""The request handler is interpreted for a file stored without encoding, as br and as gzip, on requests with a given number of headers
(arbitrary names and values, and Accept-Encoding headers with arbitrary and with known values, once, repeated, in unusual letter case and
under similar names).  On every path that finds the file for a GET, the reference condition - some Accept-Encoding header mentions the
very encoding of the file, letter case ignored - is evaluated under the constraints of the path: if it holds the answer is 200 with
exactly that Content-Encoding and the bytes of the file, otherwise 506 without any byte of the file; a plain file is answered 200 without
a Content-Encoding."""
from engine.run import *
from engine import http, wire
from engine.bounded import definite
from .c01 import where_of
from .c05 import feasible, name

MINIMUM = 100
ASSUMPTIONS = ['"lists" means that the header value mentions the name of the encoding, letter case ignored', 'requests of at most three headers (four in thorough mode)']
A, X = b'Accept-Encoding', b'X-Other'


def arrangements(deep):
    out = [[], [(None, None)], [(A, None)], [(b'accept-ENCODING', None)], [(A, None), (A, None)], [(X, None), (A, None)], [(A, None), (X, None)], [(None, None), (A, None)]]
    for n in (b'Accept', b'Encoding', b'Accept-Encodings', b'Content-Encoding', b'Accept-Language', b'TE'):
        out.append([(n, None)])
    for v in (b'', b'br', b'gzip', b'gzip, deflate, br', b'BR', b'GZIP', b'identity', b'deflate', b'*', b'b r', b'g', b'gzi', b'x-gzip', b'r', b'gzip;q=1.0'):
        out.append([(A, v)])
    out += [[(A, b'gzip'), (A, b'br')], [(A, b'br'), (A, b'gzip')], [(A, b'identity'), (X, b'br, gzip')], [(X, b'br, gzip'), (A, b'')], [(A, b'deflate'), (A, b'identity'), (A, None)]]
    if deep:
        out += [[(None, None)] * 2, [(A, None)] * 3, [(A, None)] * 4, [(None, None)] * 3]
    return out


def run(ctx):
    P = ctx.P
    H = where_of(P, 'webfront::http::RequestHandler::handleRequest')
    for kind, enc in (('plain', None), ('br', b'br'), ('gzip', b'gzip')):
        for hs in arrangements(ctx.tier != 'quick'):
            if not func(P, f'wfa::entry_{kind}{len(hs)}'):
                continue
            S = http.Served(P, kind, hs, http.GET, mime=False)
            I = S.I
            ctx.interp(I)
            lab = f'{"file stored as " + enc.decode() if enc else "plain file"}, {name(hs)}'
            for x in definite(I):
                ctx.ob('memory', False, x.where, f'{x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')
            for i, o, a in S.answers():
                k = f'{lab}|{i}'
                asked = [e for e in o.st.events if e.kind == 'provider']
                hit = [e for e in asked if o.st.atoms.get(('found', e.a['path'])) is True]
                if o.kind == 'throw' or a is None or a.status is None:
                    ctx.ob('encoding', None, H, f'{lab}: the answer is not resolved', key=k)
                    continue
                sent = any(p[0] == 'src' and isinstance(p[1].key, tuple) and p[1].key[0] == 'file' for p in a.body.p)
                if not hit:
                    ctx.ob('encoding', not sent and not a.header(b'Content-Encoding'), H, f'{lab}: answered {a.status} without a file', key=k)
                    continue
                sure = feasible(o, S)
                I.st = o.st
                for j, r in enumerate(I.explore(lambda: enc is None or http.exists(I, S.headers, 'Accept-Encoding', enc.decode()), o.st)):
                    I.st = r.st
                    judge(ctx, I, o, a, enc, r.v, sent, sure, H, lab, f'{k}|{j}')
                I.st = o.st


def judge(ctx, I, o, a, enc, accepted, sent, sure, H, lab, k):
    def ob(ok, text):
        ctx.ob('encoding', True if ok else (False if sure else None), H, f'{lab}: {text}', key=k)
    ces = [v.concrete() for v in a.header(b'Content-Encoding')]
    if not accepted:
        return ob(a.status == 506 and not sent, f'not accepted by the client: answered {a.status}' + (' with bytes of the file' if sent else ''))
    if a.status != 200:
        return ob(False, f'accepted by the client: answered {a.status}')
    if enc is None:
        return ob(not ces, f'Content-Encoding {ces}')
    if None in ces:
        return ctx.ob('encoding', None, H, f'{lab}: the Content-Encoding is not resolved', key=k)
    ob(ces == [enc], f'answered with Content-Encoding {ces}')
