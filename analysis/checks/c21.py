"""Abstract evaluation of the constant tables on every key of their domain.  The method, MIME type and status tables are read
through the functions that use them: for each member of the finite domain the interpreter evaluates the function on the
constant argument and the resulting constant is compared with the registered name.  The undefined method and unknown extensions
are evaluated as well, and every table access on the way is an in-bounds obligation."""
from engine.run import *

MINIMUM = 30
METHODS = ['CONNECT', 'DELETE', 'GET', 'HEAD', 'OPTIONS', 'PATCH', 'POST', 'PUT', 'TRACE']
MIME = {'js': ('application/javascript', 'text/javascript'), 'mjs': ('application/javascript', 'text/javascript'), 'htm': ('text/html',),
        'html': ('text/html',), 'jpg': ('image/jpeg',), 'jpeg': ('image/jpeg',), 'css': ('text/css',), 'png': ('image/png',),
        'gif': ('image/gif',), 'json': ('application/json',), 'pdf': ('application/pdf',), 'ttf': ('font/ttf',),
        'ico': ('image/x-icon', 'image/vnd.microsoft.icon'), 'svg': ('image/svg+xml',), 'webp': ('image/webp',), 'csv': ('text/csv',)}
OTHER = ['txt', 'bin', '', 'htmlx', 'j', 'wasm.x', 'HTMLX', 'c']


def outcome(ctx, I, outs):
    """the constant result of all paths, or a reason"""
    ctx.interp(I)
    bad = [f for f in I.findings.values() if not f.taint and not f.inexact]
    if bad:
        return None, f'{bad[0].kind} at {bad[0].where}: {bad[0].detail}'
    if any(o.kind == 'throw' for o in outs):
        return None, 'throws ' + [o for o in outs if o.kind == 'throw'][0].v.tname
    return None, None


def run(ctx):
    P = ctx.P
    names = func(P, 'webfront::http::Request::getMethodFromString')
    getn = func(P, 'webfront::http::Request::getMethodName')
    for f in names:
        enum = P.ty(f['rt'])
        members = {c: int(v) for c, v in P.enums[enum['e']]['v'].items()} if 'e' in enum else {}
        for text in METHODS + ['', 'get', 'BREW', 'GETX', 'GE', 'UNDEFINED']:
            I = make(P)
            outs = explore(I, f, args=[param(I, f, 0, sv(I, text))])
            _, why = outcome(ctx, I, outs)
            want = members.get(text.capitalize() if text in METHODS else 'Undefined')
            vals = {o.v for o in outs if o.kind == 'ok'}
            loc = P.loc(f['l'])
            if why:
                ctx.ob('method-of-name', False, loc, f'{text!r}: {why}', key='mn|' + text)
            elif len(vals) == 1 and isinstance(list(vals)[0], int):
                v = vals.pop()
                ctx.ob('method-of-name', v == want, loc, f'{text!r} -> enumerator {v}' + ('' if v == want else f', {want} expected'), key='mn|' + text)
            else:
                ctx.ob('method-of-name', None, loc, f'{text!r} -> {vals}')
    for f in getn:
        rid = f['r']
        fld = [k for k, t, o, d in P.fields(rid) if k[1] == 'method']
        enum = P.ty(P.field_type(fld[0])) if fld else None
        if not enum:
            continue
        for mname, v in ((c, int(x)) for c, x in P.enums[enum['e']]['v'].items()):
            I = make(P)
            this = I.new('heap', 'request', P.rectype(rid), Rec(P.recs[rid]['name'], {fld[0]: v}))
            outs = explore(I, f, this=this, args=[])
            got = set()
            for o in outs:
                sav, I.st = I.st, o.st
                got.add(text_of(I, o.v))
                I.st = sav
            _, why = outcome(ctx, I, outs)
            loc = P.loc(f['l'])
            if why:
                ctx.ob('name-of-method', False, loc, f'{mname}: {why}', key='nm|' + mname)
            elif len(got) == 1 and None not in got:
                g = got.pop().decode('latin1')
                ok = g == mname.upper() if mname.upper() in METHODS else g not in METHODS
                ctx.ob('name-of-method', ok, loc, f'{mname} -> {g!r}', key='nm|' + mname)
            else:
                ctx.ob('name-of-method', None, loc, f'{mname} -> {got}')
    ctors = [f for f in P.funcs if f.get('kind') == 'ctor' and 'body' in f and f.get('r') is not None and P.recs[f['r']]['name'] == 'webfront::http::MimeType'
             and f['p'] and P.recname(f['p'][0]['t']) == 'std::basic_string_view']
    tos = func(P, 'webfront::http::MimeType::toString')
    for c in ctors:
        for t in tos:
            for e, want in list(MIME.items()) + [(o, ('text/plain',)) for o in OTHER]:
                for ext in ('.' + e, e):
                    I = make(P)

                    def go():
                        q = I.new('heap', 'mime', P.rectype(c['r']))
                        I.run_ctor(c, q, [param(I, c, 0, sv(I, ext))])
                        return text_of(I, I.call(t, q, []))
                    outs = I.explore(go, I.st)
                    _, why = outcome(ctx, I, outs)
                    got = {o.v for o in outs if o.kind == 'ok'}
                    loc = P.loc(t['l'])
                    if why:
                        ctx.ob('mime', False, loc, f'{ext!r}: {why}', key='mime|' + ext)
                    elif len(got) == 1 and None not in got:
                        g = got.pop().decode('latin1')
                        ctx.ob('mime', g in want, loc, f'{ext!r} -> {g}' + ('' if g in want else f', {want[0]} expected'), key='mime|' + ext)
                    else:
                        ctx.ob('mime', None, loc, f'{ext!r} -> {got}')
