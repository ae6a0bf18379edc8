"""Each way the library sends something is interpreted with arbitrary names, texts, numbers and lists (calls and returns encoded
directly, calls through JsFunction, injected scripts, the link's own answers and the log lines it forwards).  The bytes handed to the
network on each path, which contain the headers as they are at that moment, are compared piece by piece with the prescribed message:
one final frame announcing what follows, the command byte, the count and size of the parameters, then those parameters in order."""
from engine.run import *
from engine import codec, outgoing, wire, witness
from engine.bounded import definite
from engine.wire import eq, le

MINIMUM = 150
ASSUMPTIONS = ['a message is shorter than 2^48 bytes']


def home(P, *qs):
    for q in qs:
        for g in P.funcs:
            if g.get('repo') and g['q'].endswith(q) and 'body' in g:
                return P.loc(g['l'])
    return '?'


def run(ctx):
    P = ctx.P
    fw, jw, sw = home(P, 'Frame::toBuffers'), home(P, 'JsFunction::operator()'), home(P, 'BasicUI::addScript')
    ew = home(P, 'FunctionCall::encodeParameter')

    def tuples(I, o, pr, top, every):
        ctx.ob('count', False, ew, f'a message with {top} parameters announces {every}: the elements of a tuple are counted as parameters', key='count|tuple')
    for pr in outgoing.sent(P):
        ctx.interp(pr.I)
        outgoing.judge(ctx, pr, [pr.Ts], 'message', ew, 'sent|' + pr.name, tuples)
    for pr in outgoing.js(P):
        ctx.interp(pr.I)
        outgoing.judge(ctx, pr, pr.Ts, 'call', jw, pr.name, tuples)
    for name, n in (('bools255', 255), ('numbers113', 113)):
        for f in func(P, 'wfa::entry_sent_' + name):
            pr = outgoing.Producer(P, f'{n} parameters', f, [], 3)
            ctx.interp(pr.I)
            I = pr.I
            for i, o in enumerate(pr.outs):
                ws = outgoing.writes(o)
                if o.kind != 'ok':
                    continue
                I.st = o.st
                tot = wire.concat(ws[-1].a.get('wire')) if len(ws) == 1 else None
                one = [('el', codec.TRUE)] if 'bools' in name else codec.enc(I, 'num', codec.value_of(I, pr.args[0], 'num'))[0][1]
                if tot is None:
                    ctx.ob('message', None, ew, f'{n} parameters: not resolved', key=f'{name}|{i}')
                    continue
                ps = one * n
                for want, form in wire.frames(I, 0x82, outgoing.message(3, n, ps)(I, len(ps))):
                    r, why = wire.same(I, tot, want)
                    ctx.ob('message', wire.verdict(I, o, r), ew, f'{n} parameters: ' + (why or 'one frame'), key=f'{name}|{i}|{form}')
    # injected scripts
    for f in func(P, 'wfa::entry_script'):
        pr = outgoing.Producer(P, 'script', f, [], 2)
        I = pr.I
        ctx.interp(I)
        for i, o in enumerate(pr.outs):
            for e in outgoing.writes(o):
                I.st = o.st
                r, why = outgoing.whole(I, wire.concat(e.a.get('wire')), 0x82)
                ctx.ob('message', wire.verdict(I, o, r), sw, f'script: {why}', key=f'script|{i}')
                command(ctx, I, o, e, 2, sw, 'script', f'script|{i}')
    # the link's own messages
    L = outgoing.LinkMessages(P, ['std::out_of_range'])
    I = L.I
    for i, o in enumerate(L.binary):
        for j, e in enumerate([e for e in o.st.events[L.base:] if e.kind == 'net.write']):
            I.st = o.st
            tot = wire.concat(e.a.get('wire'))
            r, why = outgoing.whole(I, tot, 0x82)
            ctx.ob('answer', wire.verdict(I, o, r), L.where, f'link: {why}', key=f'link|{i}|{j}')
            q, h = outgoing.payloads(I, tot)
            if q is None:
                continue
            c = I.seq_get(q, 0)
            c = I.uns(c, 8)
            if c == 1:
                r, why = wire.same(I, q, Seq([('lit', b'\x01\x00')], None, 'string'))
                ctx.ob('answer', wire.verdict(I, o, r), L.where, f'link: handshake answer: {why or "acknowledgement with the endianness of this machine"}', key=f'ack|{i}|{j}')
            elif c == 4:
                n = sub(q.len(), 8)
                parts = [(I.seq_get(q, 1), 1, 'parameter count'), (outgoing.number(I, q, 4, 4), n, 'data size'), (I.seq_get(q, 8), codec.EXCEPTION, 'type'), (outgoing.number(I, q, 9, 2), sub(n, 3), 'text length')]
                for got, want, what in parts:
                    r = wire.holds(I, eq(I.uns(got, 32) if isnum(got) else got, want))
                    ctx.ob('answer', wire.verdict(I, o, r), L.where, f'link: error return: {what} {got}, {want} expected', key=f'ret|{i}|{j}|{what}')
            else:
                ctx.ob('answer', wire.verdict(I, o, False if isinstance(c, int) else None), L.where, f'link: a message with command {c} is sent to the client', key=f'cmd|{i}|{j}')
    for i, o in enumerate(L.text):
        for j, e in enumerate([e for e in o.st.events[L.base:] if e.kind == 'net.write']):
            I.st = o.st
            r, why = outgoing.whole(I, wire.concat(e.a.get('wire')), 0x81)
            ctx.ob('answer', wire.verdict(I, o, r), L.where, f'link: answer to a text: {why}', key=f'text|{i}|{j}')
    for x, line, base, outs in L.sinks:
        for i, o in enumerate(outs):
            for j, e in enumerate([e for e in o.st.events[base:] if e.kind == 'net.write']):
                I.st = o.st
                r, why = outgoing.whole(I, wire.concat(e.a.get('wire')), 0x82)
                ctx.ob('answer', wire.verdict(I, o, r), L.where, f'link: log line: {why}', key=f'sink|{i}|{j}')
                command(ctx, I, o, e, 2, L.where, 'log line', f'sink|{i}|{j}')
    ctx.interp(I)


def command(ctx, I, o, e, want, where, what, key):
    q, h = outgoing.payloads(I, wire.concat(e.a.get('wire')))
    if q is not None:
        c = I.uns(I.seq_get(q, 0), 8)
        ctx.ob('command', wire.verdict(I, o, wire.holds(I, eq(c, want))), where, f'{what}: command {c}, {want} expected', key=f'cmd|{key}')
