"""The request handler is interpreted for every method and an arbitrary target: the percent-decoded target is an arbitrary text.  On every
path the reference test (empty, not starting with a slash, two dots in a row) is evaluated under the constraints of the path: a target it
refuses must be answered 400 without the provider having been asked for anything; every path the provider is asked for otherwise must be
a term built from the relative part of that same decoded text, extended by nothing but fixed names below it.  The local provider is
interpreted with an arbitrary path and an arbitrary root: what it opens is the root joined with that path."""
from engine.run import *
from engine import http, wire
from engine.bounded import definite

MINIMUM = 20
ASSUMPTIONS = ['symbolic links below the document root are not followed out of it', 'std::filesystem::path behaves as specified for POSIX']


def below(I, P, path, target):
    """(True | False | None, why): is a path term below the root for every text that passed the test?"""
    t = path.t if isinstance(path, PathV) else path
    if not isinstance(t, tuple):
        return None, f'{t}'
    if t[0] == 'str':
        c = t[1].concrete() if isinstance(t[1], Seq) else None
        if c is not None:
            c = c.rstrip(b'\0')
            return fixed(c), f'the fixed name {c!r}'
        if isinstance(t[1], Seq) and t[1].p == target.p:
            return False, 'the decoded target itself, an absolute path'
        if isinstance(t[1], Seq):
            q = t[1].p
            if len(q) == 1 and q[0][0] == 'src' and q[0][1] == target.p[0][1]:
                # a part of the decoded text: it may start with a further slash
                return False if I.decide(wire.eq(q[0][2], 0)) is not True else None, 'a part of the decoded target that may start with another slash'
            return None, f'the text {t[1]}'
        return None, str(t)
    if t[0] == 'relative_path':
        u = t[1]
        while isinstance(u, tuple) and u[0] in ('lexically_normal', 'relative_path', 'make_preferred'):
            u = u[1]
        if isinstance(u, tuple) and u[0] == 'str' and isinstance(u[1], Seq):
            if u[1].p == target.p:
                return True, 'the relative part of the decoded target'
            if any(p[0] == 'src' and p[1].key == ('obj', ('arg', 3)) for p in u[1].p):
                return False, 'the target before decoding'
        return None, f'{t}'
    if t[0] == 'lexically_normal':
        return below(I, P, t[1], target)
    if t[0] == 'join':
        a, why = below(I, P, t[1], target)
        c = t[2].concrete() if isinstance(t[2], Seq) else None
        if c is None and isinstance(t[2], tuple) and t[2][0] == 'str':
            c = t[2][1].concrete()
        if c is None:
            b, w2 = below(I, P, t[2], target)
            return (True if a and b else False if a is False or b is False else None), f'{why} / {w2}'
        return (a if fixed(c.rstrip(b'\0')) else False), f'{why} / {c.rstrip(bytes(1))!r}'
    return None, f'{t}'


def fixed(c):
    return not c.startswith(b'/') and b'..' not in c.split(b'/')


def where_of(P, q):
    return next((P.loc(g['l']) for g in P.funcs if g.get('repo') and g['q'] == q and 'body' in g), '?')


def run(ctx):
    P = ctx.P
    H = where_of(P, 'webfront::http::RequestHandler::handleRequest')
    runs = [('plain', [], None)]
    runs += [('plain', [(b'Connection', b'Upgrade'), (b'Upgrade', b'websocket'), (b'Sec-WebSocket-Key', None)], http.GET), ('br', [(b'Accept-Encoding', None)], http.GET)]
    if ctx.tier != 'quick':
        runs += [('plain', [(None, None)], None), ('gzip', [(None, None)], None)]
    for kind, hs, method in runs:
        S = http.Served(P, kind, hs, method, mime=False)
        I = S.I
        ctx.interp(I)
        for x in definite(I):
            ctx.ob('memory', False, x.where, f'{x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')
        for i, o, a in S.answers():
            k = f'{kind}|{len(hs)}|{i}'
            I.st = o.st
            asked = [e for e in o.st.events if e.kind in ('provider', 'file-open')]
            if o.kind == 'throw':
                ctx.ob('target', None, H, f'raises {o.v.tname}', key='throw|' + k)
                continue
            if a is None:
                ctx.ob('target', None, H, 'the answer is not resolved', key='answer|' + k)
                continue
            n0 = len(o.st.atoms)
            ref = I.explore(lambda: http.refused_target(I, S.target), o.st)
            odd = [x for x in o.st.atoms if http.about(x, S.target.p) and x[0] not in ('contains', 'seqeq') and 'path' not in str(x[0]) and x[0] not in ('has_filename', 'found')]
            for j, r in enumerate(ref):
                sure = not o.st.taint and (len(ref) == 1 or not odd)
                kk = f'{k}|{j}'
                if r.v:
                    if asked:
                        ctx.ob('refused', False if sure else None, H, f'the provider is asked for {asked[0].a["path"]} although the target is to be refused', key='refused|' + kk)
                    else:
                        ctx.ob('refused', True if a.status == 400 else (False if sure else None), H, f'a target to be refused is answered {a.status}', key='refused|' + kk)
                    continue
                if a.status == 400 and not hs:
                    ctx.ob('refused', False if sure else None, H, 'a target that is fine is answered 400', key='refused|' + kk)
                for e in asked:
                    I.st = r.st
                    v, why = below(I, P, e.a['path'], S.target)
                    ctx.ob('below', v if v is not False or sure else None, H, f'the provider is asked for {why}', key='below|' + kk)
                if not asked:
                    ctx.ob('below', True, H, f'answered {a.status} without a file', key='none|' + kk)
            I.st = o.st
    # the local provider
    for q in [q for q in P.byq if q.startswith('webfront::fs::') and q.endswith('::open')]:
        for f in P.byq[q]:
            if 'body' not in f or not f['p'] or P.recname(P.strip(f['p'][0]['t'])) != 'std::filesystem::path':
                continue
            I = make(P, max_paths=10 ** 5)
            try:
                outs = explore(I, f)
            except Exception as x:
                continue
            loc = P.loc(f['l'])
            ctx.interp(I)
            for i, o in enumerate(outs):
                for e in o.st.events:
                    if e.kind == 'file-open':
                        v, why = rooted(I, e.a['path'], f)
                        ctx.ob('rooted', v if v is not False or not o.st.taint else None, loc, f'{q} opens {why}', key=f'rooted|{q}|{i}')


def rooted(I, path, f):
    t = path.t if isinstance(path, PathV) else path
    while isinstance(t, tuple) and t[0] in ('lexically_normal', 'make_preferred', 'str') and len(t) == 2 and not isinstance(t[1], Seq):
        t = t[1]
    if not isinstance(t, tuple):
        return None, str(t)
    if t[0] == 'join':
        a, b = str(t[1]), str(t[2])
        root = 'this' in a and 'arg' not in a
        rel = 'arg' in b and 'this' not in b
        return (True if root and rel else None), f'{t[1]} / {t[2]}'
    s = str(t)
    if 'this' not in s:
        return False, f'{s}, not joined to the root'
    return None, s
