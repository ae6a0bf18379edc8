"""The two producers of text commands are interpreted with a text of arbitrary length and content: the injection of a script, and the
log sink a link registers (found as the function put into static storage by the handshake).  On every path the bytes handed to the
network are compared with the prescribed ones: a final frame, the text command with the right operation code, the length of the text
in two bytes, high byte first, and exactly the bytes of the text.  A script too long for that is refused and nothing is sent; a log
line too long is sent cut to the largest length."""
from engine.run import *
from engine import outgoing, wire, witness
from engine.wire import eq, le

MINIMUM = 10
ASSUMPTIONS = ['a text is shorter than 2^48 bytes']
MAX = 65535


def text_command(I, op, text):
    """[(state, pieces)] for a text that fits"""
    n = text.len()
    return Seq([('el', 2), ('el', op), ('el', wire.byte(I, n, 1)), ('el', wire.byte(I, n, 0))] + list(text.p), None, 'string')


def judge(ctx, I, o, ws, op, text, cut, where, label, key):
    n = text.len()
    sav, I.st = I.st, o.st
    try:
        for name, c in (('fits', le(n, MAX)), ('long', le(MAX + 1, n))):
            st = wire.narrowed(I, [c])
            if st is None:
                continue
            I.st = st
            feas = lambda: False if not o.st.taint and witness.feasible(I) is True else None
            k = f'{key}|{name}'
            if o.kind == 'throw':
                lost = o.v.tname in ('std::out_of_range', 'std::runtime_error')          # the client is gone
                if ws:
                    ctx.ob('refused', feas(), where, f'{label}: something is sent before {o.v.tname}', key=k)
                else:
                    ctx.ob('refused', True if lost or (name == 'long' and not cut) else feas(), where, f'{label} of {"at most" if name == "fits" else "more than"} {MAX} bytes: refused with {o.v.tname}', key=k)
            elif name == 'long' and not cut:
                ctx.ob('refused', feas(), where, f'{label} of more than {MAX} bytes is not refused', key=k)
            elif len(ws) != 1:
                ctx.ob('text', feas(), where, f'{label}: {len(ws)} writes', key=k)
            else:
                tot = wire.concat(ws[0].a.get('wire'))
                if tot is None:
                    ctx.ob('text', None, where, f'{label}: what is written is not resolved', key=k)
                    continue
                t = text if name == 'fits' else I.seq_slice(text, 0, MAX)
                for want, form in wire.frames(I, 0x82, text_command(I, op, t)):
                    r, why = wire.same(I, tot, want)
                    ctx.ob('text', wire.verdict(I, o, r), where, f'{label}, frame of {form} bytes: {why or "sent unchanged"}', key=f'{k}|{form}')
            I.st = o.st
    finally:
        I.st = sav


def run(ctx):
    P = ctx.P
    where = next((P.loc(g['l']) for g in P.funcs if g.get('repo') and g['q'].endswith('TextCommand::(ctor)') and 'body' in g), '?')
    for f in func(P, 'wfa::entry_script'):
        pr = outgoing.Producer(P, 'script', f, [], 1)
        I = pr.I
        for i, o in enumerate(pr.outs):
            I.st = o.st
            judge(ctx, I, o, outgoing.writes(o), 1, seq_of(I, I.get(pr.args[0].loc)), False, where, 'script', f'script|{i}')
        ctx.interp(I)
    L = outgoing.LinkMessages(P)
    I = L.I
    if not L.sinks:
        ctx.ob('text', False if L.binary and not any(o.st.taint for o in L.binary) else None, L.where, 'no message registers a sink for log lines', key='sink')
    for n, (x, line, base, outs) in enumerate(L.sinks):
        for i, o in enumerate(outs):
            judge(ctx, I, o, [e for e in o.st.events[base:] if e.kind == 'net.write'], 0, line, True, L.where, 'log line', f'sink|{n}|{i}')
    ctx.interp(I)
