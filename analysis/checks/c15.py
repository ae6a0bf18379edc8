"""Every length or count written into an outgoing message is compared with the true number on every path, for arbitrary texts and for
an arbitrary state of the message: appending one parameter to a message that already announces any count and any size is interpreted
as one step (count and size grow by exactly what is appended, or the parameter is refused before anything is written), so that no
list of parameters can wrap a field.  A text that does not fit its length field must be refused, on every route to the network,
before a byte is sent; log lines may be cut, and announce what is left of them."""
from engine.run import *
from engine import codec, outgoing, wire, witness
from engine.wire import eq, le
from checks import c31
from checks.c14 import home

MINIMUM = 150
ASSUMPTIONS = ['a message is shorter than 2^48 bytes']
MOST = 255 * 65538          # no list of 255 parameters is larger
STEPS = {'bool': 'bool', 'int': 'num', 'double': 'num', 'string': 'string', 'view': 'string', 'exception': 'exception', 'pair': outgoing.PAIR}


def fld(v, n):
    return next((x for k, x in v.f.items() if isinstance(k, tuple) and k[1] == n), None) if isinstance(v, Rec) else None


def step(ctx, P, name, T, where):
    for f in func(P, 'wfa::entry_step_' + name):
        I = make(P)
        count, size = of(sym(('count',), 0, 255)), of(sym(('size',), 0, MOST))
        args = [arg(I, f['p'][0]['t'], ('arg', 0)), param(I, f, 1, count), param(I, f, 2, size), arg(I, f['p'][3]['t'], ('arg', 3))]
        outs = explore(I, f, args=args)
        ctx.interp(I)
        for i, o in enumerate(outs):
            I.st = o.st
            key = f'step|{name}|{i}'
            ws = outgoing.writes(o)
            for j, (st, ps) in enumerate(codec.encoded(I, o.st, args[3:], [T])):
                I.st = st
                k = f'{key}|{j}'
                feas = lambda: False if not o.st.taint and witness.feasible(I) is True else None
                if o.kind == 'throw':
                    ctx.ob('refused', True if not ws else feas(), where, f'one more {name}: refused before anything is sent', key=k)
                    continue
                if ps is None:
                    ctx.ob('refused', feas(), where, f'one more {name}, too long for its length field, is accepted', key=k)
                    continue
                n = Seq(ps, None, 'string').len()
                a, b = fld(o.v, 'counted'), fld(o.v, 'sized')
                top, every = 1, codec.leaves([T])
                d = wire.holds(I, eq(a, add(count, top))) if isnum(a) else None
                if d is False and every != top and isnum(a) and wire.holds(I, eq(a, add(count, every))) is True:
                    d = True          # C14 lists this
                ctx.ob('count', wire.verdict(I, o, d), where, f'one more {name} in a message of {count} parameters: {a} are announced', key=k)
                d = wire.holds(I, eq(b, add(size, n))) if isnum(b) else None
                ctx.ob('size', wire.verdict(I, o, d), where, f'one more {name} of {n} bytes in a message of {size}: {b} are announced', key=k)
                tot = wire.concat(ws[0].a.get('wire')) if len(ws) == 1 else None
                q, h = outgoing.payloads(I, tot)
                if q is None:
                    ctx.ob('written', None, where, f'one more {name}: {h}', key=k)
                    continue
                for got, want, what in ((I.uns(I.seq_get(q, 1), 8), a, 'count'), (outgoing.number(I, q, 4, 4), b, 'size')):
                    d = wire.holds(I, eq(got, want)) if isnum(want) else None
                    ctx.ob('written', wire.verdict(I, o, d), where, f'one more {name}: the {what} written is {got}, the message holds {want}', key=f'{k}|{what}')


def run(ctx):
    P = ctx.P
    ew, jw = home(P, 'FunctionCall::encodeParameter'), home(P, 'JsFunction::operator()')
    for name, T in STEPS.items():
        step(ctx, P, name, T, ew)
    for pr in outgoing.sent(P):
        ctx.interp(pr.I)
        outgoing.judge(ctx, pr, [pr.Ts], 'fields', ew, 'sent|' + pr.name)
    for pr in outgoing.js(P, None if ctx.tier != 'quick' else ('one', 'mixed', 'twice')):
        ctx.interp(pr.I)
        outgoing.judge(ctx, pr, pr.Ts, 'fields', jw, pr.name)
    for name, n, fits in (('bools255', 255, True), ('bools256', 256, False), ('numbers120', 120, None)):
        for f in func(P, 'wfa::entry_sent_' + name):
            I = make(P)
            for i, o in enumerate(explore(I, f)):
                ws = outgoing.writes(o)
                if o.kind == 'throw':
                    ctx.ob('refused', not ws, ew, f'{n} parameters: refused ' + ('before anything is sent' if not ws else 'after something was sent'), key=f'{name}|{i}')
                    continue
                ctx.ob('refused', fits is not False, ew, f'{n} parameters are {"accepted" if fits is not False else "accepted although the count field holds 255 at most"}', key=f'{name}|{i}')
                I.st = o.st
                for e in ws:
                    q, h = outgoing.payloads(I, wire.concat(e.a.get('wire')))
                    r = wire.holds(I, eq(I.uns(I.seq_get(q, 1), 8), n)) if q is not None else None
                    ctx.ob('count', wire.verdict(I, o, r), ew, f'{n} parameters: {n} announced' if r else f'{n} parameters: another count is announced', key=f'{name}|{i}|n')
            ctx.interp(I)
    # frames by themselves
    for name, first in (('text', 0x81), ('data', 0x82), ('data2', 0x82), ('frame', 0x82)):
        for f in func(P, 'wfa::entry_ws_' + name):
            I = make(P)
            for i, o in enumerate(explore(I, f)):
                I.st = o.st
                for e in outgoing.writes(o):
                    tot, parts = wire.concat(e.a.get('wire')), []
                    for k in range(1, len(f['p'])):
                        parts += list(seq_of(I, I.mk_sym(P.strip(f['p'][k]['t']), ('arg', k))).p)
                    if tot is None:
                        ctx.ob('frame', None, home(P, 'Frame::toBuffers'), f'WebSocket write of {name}: not resolved', key=f'ws|{name}|{i}')
                        continue
                    for want, form in wire.frames(I, first, Seq(parts, tot.ety, 'string')):
                        r, why = wire.same(I, tot, want)
                        ctx.ob('frame', wire.verdict(I, o, r), home(P, 'Frame::toBuffers'), f'WebSocket write of {name}: {why or "announces its " + form + " bytes"}', key=f'ws|{name}|{i}|{form}')
            ctx.interp(I)
    c31.run(ctx)
