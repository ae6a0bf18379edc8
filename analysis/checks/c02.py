"""Effect analysis.  The call graph is closed from every function of the server, the HTTP and WebSocket layers, the message
codec, the file systems and the bridge; every use of an object with static (or thread) storage duration inside it is
classified as read or write from the expression context.  Rule: no such function writes an object that outlives the
connection it serves, and no function-local static is initialised from a connection's data.  The process-wide logging
switchboard (webfront::log) is the one documented exception."""
from engine import graph

MINIMUM = 10
ROOTS = ('webfront::BasicWF', 'webfront::BasicUI', 'webfront::JsFunction', 'webfront::WebLink', 'webfront::http::',
         'webfront::websocket::', 'webfront::msg::', 'webfront::fs::', 'webfront::uri::decode', 'webfront::uri::encode', 'webfront::base64',
         'webfront::crypto', 'webfront::utils::hexDump')
ALLOWED = {'webfront::log::logTypeEnabled', 'webfront::log::Sinks::sinks', 'webfront::log::out'}


def run(ctx):
    P = ctx.P
    roots = [f['id'] for f in P.funcs if f.get('repo') and 'body' in f and f['q'].startswith(ROOTS)]
    via = graph.reachable(P, roots)
    fs = [P.funcs[i] for i in via if 'body' in P.funcs[i] and P.funcs[i].get('repo')]
    ctx.count('functions in the call graph', len(fs))
    ctx.cover(fs)
    objs = {}
    for f in fs:
        for v, what, n in graph.static_uses(P, f):
            var = P.vars[v]
            if not var.get('repo') or var['q'].startswith('wfa::'):
                continue
            ctx.count('static-object uses classified')
            objs.setdefault(v, []).append((what, f, n))
    for v, us in objs.items():
        var = P.vars[v]
        loc = P.loc(var.get('l'))
        if var['q'] in ALLOWED:
            ctx.ob('registry', True, loc, f'{var["q"]} is the process-wide logging state', key='registry|' + var['q'])
            continue
        bad = [(w, f, n) for w, f, n in us if w in ('write', 'alias')]
        for w, f, n in bad[:1]:
            ctx.ob('no-shared-mutable-state', False, P.loc(n['l']), f'{f["q"]} {"writes" if w == "write" else "aliases as mutable"} the static object {var["q"]} '
                   f'declared at {loc}, shared by all connections ({graph.chain(P, via, f["id"])})', key='shared|' + var['q'])
        if not bad:
            ctx.ob('no-shared-mutable-state', True, loc, f'{var["q"]}: {len(us)} uses, all reads', key='shared|' + var['q'])
        if var.get('st') == 'slocal':
            dep = graph.initialiser_depends(P, None, v)
            ctx.ob('static-initialiser', not dep, loc, f'{var["q"]} is initialised once from {sorted(set(dep))} of the first caller' if dep else f'{var["q"]} has a constant initialiser',
                   key='init|' + var['q'])
