"""(1) Response::toBuffers is interpreted for every status, an arbitrary body and up to three headers of arbitrary names and values, and the
bytes handed to the gather write are compared with the framing as a symbolic text.  (2) The request handler is interpreted for every
method, an arbitrary target and files read in up to three pieces of arbitrary content; the answer on every path is parsed back and its
reason phrase, its Content-Length (a number or the decimal term of a length equal to that of the body), its Content-Type (the type of
the path asked for) and its body (what the file delivered, piece by piece) are compared; the status must be the one the outcome calls for."""
from engine.run import *
from engine import http, wire
from engine.bounded import definite
from .c01 import where_of

MINIMUM = 100
ASSUMPTIONS = ['files are read in at most three pieces here (C20 is about reading)', 'responses of at most three headers for the serialisation (each header is treated alike)']


def run(ctx):
    P = ctx.P
    serialised(ctx, P)
    statuses(ctx, P)
    handler(ctx, P)
    large(ctx, P)


def large(ctx, P):
    """files of any size: each read of the model delivers what any number of reads may, so only what depends on the total is judged"""
    H = where_of(P, 'webfront::http::RequestHandler::handleRequest')
    for kind, hs in (('plain', []), ('br', [(b'Accept-Encoding', b'br')])):
        S = http.Served(P, kind, hs, http.GET, mime=False, big=True)
        I = S.I
        ctx.interp(I)
        for i, o, a in S.answers():
            I.st = o.st
            if o.kind == 'throw' or a is None or a.why or a.status != 200:
                continue
            common(ctx, I, a, not o.st.taint, H, f'{kind}, a file of any size', f'big|{kind}|{i}')


def sent(o):
    ws = [e for e in o.st.events if e.kind == 'net.write']
    return wire.concat(ws[0].a.get('wire')) if len(ws) == 1 else None


def serialised(ctx, P):
    T = where_of(P, 'webfront::http::Response::toBuffers')
    for code, phrase in http.PHRASES.items():
        for n in range(4):
            f = func(P, f'wfa::entry_respond{n}')[0]
            I = make(P, unroll=8, max_paths=10 ** 5)
            I.track['uninit'] = True
            a = [arg(I, p['t'], ('arg', i)) for i, p in enumerate(f['p'])]
            a[1] = param(I, f, 1, code)
            txt = [seq_of(I, I.get(x.loc)) for x in a[2:]]
            ctx.interp(I)
            outs = explore(I, f, args=a)
            want = [('lit', b'HTTP/1.1 %d %s\r\n' % (code, phrase))]
            for i in range(n):
                want += list(txt[1 + 2 * i].p) + [('lit', b': ')] + list(txt[2 + 2 * i].p) + [('lit', b'\r\n')]
            want += [('lit', b'\r\n')] + list(txt[0].p)
            want = Seq(want, I.models.char_t(), 'string')
            for x in definite(I):
                ctx.ob('memory', False, x.where, f'{x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')
            for i, o in enumerate(outs):
                I.st = o.st
                k = f'{code}|{n}|{i}'
                got = sent(o) if o.kind == 'ok' else None
                if got is None:
                    ctx.ob('serialised', None, T, f'a {code} answer with {n} headers is not resolved', key=k)
                    continue
                r, why = wire.same(I, got, want)
                ctx.ob('serialised', r if r is not False or not o.st.taint else None, T, f'a {code} answer with {n} headers' + ('' if r else f': {why}'), key=k)


def statuses(ctx, P):
    T = where_of(P, 'webfront::http::Response::getStatusResponse')
    f = func(P, 'wfa::entry_status')[0]
    for code, phrase in http.PHRASES.items():
        if code in (101, 200):
            continue
        I = make(P, unroll=8, max_paths=10 ** 5)
        I.track['uninit'] = True
        a = [arg(I, p['t'], ('arg', i)) for i, p in enumerate(f['p'])]
        a[1] = param(I, f, 1, code)
        ctx.interp(I)
        for i, o in enumerate(explore(I, f, args=a)):
            I.st = o.st
            tot = sent(o) if o.kind == 'ok' else None
            k = f'status|{code}|{i}'
            if tot is None:
                ctx.ob('answer', None, T, f'the {code} page is not resolved', key=k)
                continue
            ans = http.parse(I, tot)
            if ans.why:
                ctx.ob('answer', False if not o.st.taint else None, T, f'the {code} page: {ans.why}', key=k)
                continue
            common(ctx, I, ans, not o.st.taint, T, f'the {code} page', k, code)


def common(ctx, I, a, sure, H, lab, k, status=None):
    """what every answer must satisfy"""
    def ob(rule, ok, text):
        ctx.ob(rule, True if ok else (None if ok is None or not sure else False), H, f'{lab}: {text}', key=f'{rule}|{k}')
    ob('status', a.phrase == http.PHRASES.get(a.status) and (status is None or a.status == status), f'status line {a.status} {a.phrase!r}')
    n = a.body.len()
    cl = a.header(b'Content-Length')
    if a.status == 101:
        ob('length', not cl and (wire.holds(I, wire.eq(n, 0))), f'{len(cl)} Content-Length headers and a body of {n} bytes')
        return
    if len(cl) != 1:
        ob('length', False, f'{len(cl)} Content-Length headers')
        return
    v = length_value(cl[0])
    if v is None:
        ob('length', None, f'Content-Length {cl[0]}')
    else:
        ob('length', wire.holds(I, wire.eq(v, n)), f'Content-Length {v}, body of {n} bytes')
    for m in set(x.lower() for x, _ in a.headers):
        ob('twice', len(a.header(m)) == 1, f'{len(a.header(m))} {m.decode()} headers')


def length_value(s):
    """the number a decimal text stands for"""
    c = s.concrete()
    if c is not None:
        return int(c) if c.isdigit() and (c == b'0' or c[:1] != b'0') else -1
    if len(s.p) == 1 and s.p[0][0] == 'src' and s.p[0][2] == 0 and s.p[0][3] == s.len():
        k = s.p[0][1].key
        if isinstance(k, tuple) and k[0] == 'to_string' and isnum(k[1]):
            return k[1]
    return None


def isnum(v):
    return isinstance(v, (int, Lin)) and not isinstance(v, bool)


def handler(ctx, P):
    H = where_of(P, 'webfront::http::RequestHandler::handleRequest')
    upgrade = [(b'Connection', b'Upgrade'), (b'Upgrade', b'websocket'), (b'Sec-WebSocket-Key', None)]
    runs = [('plain', [], None), ('plain', upgrade, http.GET), ('br', [(b'Accept-Encoding', None)], http.GET), ('plain', [(None, None)], None)]
    if ctx.tier != 'quick':
        runs += [('gzip', [(b'Accept-Encoding', None)], None), ('plain', [(None, None), (None, None)], None), ('br', [(None, None)], None)]
    for kind, hs, method in runs:
        S = http.Served(P, kind, hs, method)
        I = S.I
        ctx.interp(I)
        for x in definite(I):
            ctx.ob('memory', False, x.where, f'{x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')
        for i, o, a in S.answers():
            k = f'{kind}|{len(hs)}|{i}'
            I.st = o.st
            sure = not o.st.taint
            if o.kind == 'throw' or a is None:
                n = len([e for e in o.st.events if e.kind == 'net.write'])
                ctx.ob('answer', None, H, f'not resolved ({o.kind}, {n} writes)', key='answer|' + k)
                continue
            if a.why:
                ctx.ob('answer', False if sure else None, H, f'the answer is not framed: {a.why}', key='answer|' + k)
                continue
            ctx.ob('answer', True, H, f'answered {a.status}', key='answer|' + k)
            lab = f'{kind}, {a.status}'
            common(ctx, I, a, sure, H, lab, k)
            asked = [e for e in o.st.events if e.kind == 'provider']
            found = [e for e in asked if o.st.atoms.get(('found', e.a['path'])) is True]
            missing = [e for e in asked if o.st.atoms.get(('found', e.a['path'])) is False]
            m = S.method

            def ob(rule, ok, text):
                ctx.ob(rule, True if ok else (None if ok is None or not sure else False), H, f'{lab}: {text}', key=f'{rule}|{k}')
            if missing and not found:
                ob('outcome', a.status == 404, f'a file that is not there is answered {a.status}')
            if found:
                ob('outcome', a.status in (200, 506), f'a file that is there is answered {a.status}')
            if a.status == 404:
                ob('outcome', bool(missing), '404 without having looked for the file')
            if a.status == 200:
                ob('outcome', bool(found), '200 without a file')
                r = wire.holds(I, c_or(wire.eq(m, http.GET), wire.eq(m, http.HEAD))) if not isinstance(m, int) else m in (http.GET, http.HEAD)
                ob('outcome', r, f'200 for the method {m}')
            if a.status == 501:
                r = wire.holds(I, c_not(c_or(wire.eq(m, http.GET), wire.eq(m, http.HEAD)))) if not isinstance(m, int) else m not in (http.GET, http.HEAD)
                ob('outcome', r, f'501 for the method {m}')
            if not asked and a.status not in (400, 501, 101):
                ob('outcome', False, f'answered {a.status} without having asked for a file')
            if a.status == 200 and found:
                body(ctx, I, S, a, o, sure, H, lab, k)
                kind_of(ctx, I, P, a, o, found, S, sure, H, lab, k)


def body(ctx, I, S, a, o, sure, H, lab, k):
    reads = [e.a['content'] for e in o.st.events if e.kind == 'file-read' and e.a['content'] is not None]
    get = wire.holds(I, wire.eq(S.method, http.GET))
    if get is True:
        ended = o.st.store.get(http.STATE)
        want = Seq([p for s in reads for p in s.p], I.models.char_t(), 'string')
        r, why = wire.same(I, a.body, want)
        ctx.ob('body', r if r is not False or sure else None, H, f'{lab}: the body is {"what the file delivered" if r else "not what the file delivered: " + str(why)}', key='body|' + k)
        done = ended is not None and ended.f['end']
        ctx.ob('whole', True if done else (False if sure else None), H, f'{lab}: the file was read to its end' if done else f'{lab}: answered before the file was read to its end', key='whole|' + k)
    elif get is False:
        r = wire.holds(I, wire.eq(a.body.len(), 0))
        ctx.ob('body', True if r else (False if r is False and sure else None), H, f'{lab}: a body follows the answer to HEAD' if r is not True else f'{lab}: no body', key='body|' + k)


def kind_of(ctx, I, P, a, o, found, S, sure, H, lab, k):
    cts = a.header(b'Content-Type')
    got = cts[0].concrete() if len(cts) == 1 else None
    if got is None:
        ctx.ob('type', False if sure and len(cts) != 1 else None, H, f'{lab}: {len(cts)} Content-Type headers', key='type|' + k)
        return
    f = func(P, 'wfa::entry_mime')[0]

    def ref():
        v = I.call(f, None, [I.new('temp', 'path', P.strip(f['p'][0]['t']), found[0].a['path'])])
        return seq_of(I, v if not isinstance(v, Ptr) else I.get(v.loc)).concrete()
    outs = I.explore(ref, o.st)
    odd = [x for x in o.st.atoms if http.about(x, S.target.p) and x[0] not in ('contains', 'has_filename', 'found')]
    for j, r in enumerate(outs):
        want = r.v if r.kind == 'ok' else None
        firm = sure and want is not None and (len(outs) == 1 or not odd)
        ctx.ob('type', True if want == got else (False if firm else None), H, f'{lab}: Content-Type {got!r}' + ('' if want == got else f' where the file is {want!r}'), key=f'type|{k}|{j}')
    I.st = o.st
