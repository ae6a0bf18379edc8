"""Complete case analysis of the gating.  Each logging front end, with and without arguments, is interpreted from the state the
program starts in, after two sinks have been added and the level was set to each of the five values, and for every change from one
level to another.  A message must reach every registered sink exactly once, with the text the format produces from its
arguments and the label of its level, exactly when the level is enabled; sinks that were removed receive nothing.  Log level
names, sink identifiers and the state itself are read off the interpreted program, not assumed."""
from engine.run import *
from engine import summaries
from engine.bounded import definite

MINIMUM = 50
LEVEL = {'error': 1, 'warn': 2, 'info': 3, 'hex': 3, 'debug': 4}
LABEL = {'error': b'E', 'warn': b'W', 'info': b'I', 'hex': b'I', 'debug': b'D'}


def go(P, name, nums):
    f = func(P, 'wfa::' + name)
    if not f:
        return None, None, None
    f = f[0]
    I = make(P)
    I.fresh = True
    I.summaries = {'webfront::utils::hexDump': summaries.hexdump}
    I.ctor_summaries = {}

    def sink(n):
        def h(I, a):
            I.event('sink', sink=n, text=seq_of(I, a[0]))
            return None
        return h
    for n in 'ab':
        I.fn_hooks['wfa::sink_' + n] = sink(n)
    args, k = [], 0
    for i, p in enumerate(f['p']):
        if P.ty(P.strip(p['t']))['k'] == 'int':
            args.append(param(I, f, i, nums[k]))
            k += 1
        else:
            args.append(param(I, f, i, sv(I, b'hello {} world')))
    return I, f, explore(I, f, args=args)


def where_of(P, f, name):
    for n in P.calls(f):
        if isinstance(n.get('f'), dict) and 'f' in n['f']:
            g = P.funcs[n['f']['f']]
            if g.get('repo') and g['q'].split('::')[-1].rstrip('0').startswith({'hex': 'infoHex'}.get(name, name)):
                return P.loc(g['l'])
    for n in P.walk(f['body']):
        if n.get('k') == 'ctor' and isinstance(n.get('f'), dict) and 'f' in n['f'] and P.funcs[n['f']['f']].get('repo'):
            return P.loc(P.funcs[n['f']['f']]['l'])
    return P.loc(f['l'])


def flat(s):
    return [p for p in s.p] if isinstance(s, Seq) else None


def has_text(s, lit):
    return isinstance(s, Seq) and any(p[0] == 'lit' and lit in p[1] for p in s.p)


def texts(o, n):
    return [e.a['text'] for e in o.st.events if e.kind == 'sink' and e.a['sink'] == n]


def case(ctx, P, name, front, nums, sinks, msg, hexa=False):
    I, f, outs = go(P, name, nums)
    if I is None:
        return
    ctx.interp(I)
    where = where_of(P, f, front)
    on = nums[-1] >= LEVEL[front]
    label = f'{front} at level {" then ".join(map(str, nums))}' + (' (no arguments)' if name.endswith('0') else '')
    for x in definite(I):
        ctx.ob('gate', False, x.where, f'{label}: {x.kind}: {x.detail}', key=f'{name}|{nums}|{x.kind}')
    if not outs and not definite(I):
        ctx.ob('gate', None, where, f'{label}: no path', key=f'{name}|{nums}|none')
    for i, o in enumerate(outs):
        key = f'{name}|{nums}|{i}'
        taint = {k: v for k, v in o.st.taint.items()} if isinstance(o.st.taint, dict) else o.st.taint
        if o.kind != 'ok':
            ctx.ob('gate', None if taint else False, where, f'{label}: throws {o.v.tname}', key=key)
            continue
        bad, und = None, bool(taint)
        for n in 'ab':
            t = texts(o, n)
            dumps = [x for x in t if isinstance(x, Seq) and any(p[0] == 'src' and isinstance(p[1].key, tuple) and p[1].key[:1] == ('hexdump',) for p in x.p)]
            lines = [x for x in t if x not in dumps]
            want = 1 if on and n in sinks else 0
            if len(lines) != want:
                bad = f'sink {n} receives the message {len(lines)} times instead of {want}'
            elif hexa and len(dumps) != want:
                bad = f'sink {n} receives the dump {len(dumps)} times instead of {want}'
            elif not hexa and dumps:
                bad = 'a dump is delivered with a message'
            for x in lines:
                if not isinstance(x, Seq) or not x.p:
                    und = True
                    continue
                head = x.p[0][1] if x.p[0][0] == 'lit' else None
                if head is None:
                    und = True
                elif LABEL[front] not in head or any(l in head for l in b'EWID' if bytes([l]) != LABEL[front]):
                    bad = f'sink {n} receives the label {head!r} instead of {LABEL[front].decode()}'
                tail = x.p[-1][1] if x.p[-1][0] == 'lit' else None
                if tail is None:
                    und = True
                elif not tail.endswith(msg) or (tail != msg and not tail[:len(tail) - len(msg)].endswith((b' ', b':', b']', b'\t', b'|'))):
                    bad = f'sink {n} receives {tail!r} instead of {msg!r}'
        ctx.ob('gate', (None if und else False) if bad else (None if und else True), where, f'{label}: ' + (bad or ('delivered once to each sink' if on else 'delivers nothing')), key=key)


def run(ctx):
    P = ctx.P
    full = b'wfa hello {} world 7'
    for front in ('debug', 'info', 'warn', 'error'):
        for lv in range(5):
            case(ctx, P, f'entry_log_{front}', front, [lv], 'ab', full)
            case(ctx, P, f'entry_log_{front}0', front, [lv], 'ab', b'wfa')
    for lv in range(5):
        case(ctx, P, 'entry_log_hex', 'hex', [lv], 'ab', b'wfa', hexa=True)
        case(ctx, P, 'entry_sinks_removed', 'error', [lv], 'b', b'wfa')
        case(ctx, P, 'entry_sinks_readded', 'error', [lv], 'b', b'wfa')
        case(ctx, P, 'entry_sinks_ordered', 'error', [lv], '', b'wfa')
        case(ctx, P, 'entry_sinks_pair', 'error', [lv], '', b'wfa')
        case(ctx, P, 'entry_sinks_last', 'error', [lv], 'a', b'wfa')
        for before in range(5):
            case(ctx, P, 'entry_log_switch', 'info', [before, lv], 'ab', b'wfa')
