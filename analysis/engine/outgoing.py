"""Everything the library sends to a client, with what it should consist of: calls and returns encoded parameter by parameter, calls made
through JsFunction, injected scripts, and what a link sends by itself (answers, forwarded log lines)."""
from .run import *
from . import codec, link, wire
from .codec import eq, le

NESTED = ('tuple', ['bool', ('tuple', ['string', 'bool']), 'string'])
PAIR = ('tuple', ['num', 'string'])
SENT = {'none': [], 'bool': ['bool'], 'int': ['num'], 'size': ['num'], 'double': ['num'], 'float': ['num'], 'string': ['string'], 'view': ['string'],
        'cstr': ['string'], 'array': [b'hello'], 'exception': ['exception'], 'pair': [PAIR], 'nested': [NESTED], 'two': ['string', 'string'],
        'call': ['string', 'num', 'string', 'bool', b'x'], 'return': ['string', 'string']}
RETURNS = ('exception', 'return')
JS = {'none': [['string']], 'one': [['string', 'string']], 'mixed': [['string', 'num', 'string', 'bool', 'num', b'lit']],
      'tuple': [['string', PAIR, 'string']], 'twice': [['string', 'string'], ['string', 'num']]}


class Producer:
    """one explored entry: the arguments it was given and the messages it should send"""

    def __init__(self, P, name, f, Ts, command, first=1):
        self.name, self.f, self.Ts, self.command = name, f, Ts, command
        self.I = I = make(P)
        self.args = [arg(I, p['t'], ('arg', i)) for i, p in enumerate(f['p'])]
        if name == 'cstr':
            o = Obj('opaque', ('text', 1), 0, None)
            I.st.store[o] = I.models.str_seq(('text', 1))
            self.args[1] = param(I, f, 1, Ptr(Loc(o, ()), 0, True))
        self.outs = explore(I, f, args=self.args)
        self.args = self.args[first:]


def sent(P):
    for name, Ts in SENT.items():
        for f in func(P, 'wfa::entry_sent_' + name):
            yield Producer(P, name, f, Ts, 4 if name in RETURNS else 3)


def js(P, names=None):
    for name, calls in JS.items():
        if names is None or name in names:
            for f in func(P, 'wfa::entry_js_' + name):
                yield Producer(P, 'JsFunction ' + name, f, calls, 3)


def message(command, count, pieces):
    """the message holding encoded parameters: command, count, padding, size, parameters"""
    return lambda I, n: Seq([('el', command), ('el', count), ('el', 0), ('el', 0)] + [('el', wire.byte(I, n, k)) for k in range(4)] + pieces, None, 'string')


def frame_of(I, first, command, count, pieces):
    """[(state, expected frame)]"""
    n = Seq(pieces, None, 'string').len()
    out = []
    for want, form in wire.frames(I, first, message(command, count, pieces)(I, n)):
        out.append((I.st.copy(), want, form))
    return out


def writes(o):
    return [e for e in o.st.events if e.kind == 'net.write']


def judge(ctx, pr, calls, rule, where, key, tuple_count=None):
    """every path either sends exactly the given calls, one frame each, or sends nothing and raises because something does not fit.
    tuple_count: called when a message differs only in that its count includes the elements of tuples"""
    I = pr.I
    for i, o in enumerate(pr.outs):
        sav, I.st = I.st, o.st
        try:
            ws = writes(o)
            # one list of encodings per message; a message that cannot be encoded ends the sequence
            seqs = [(o.st, [])]
            at = 0
            for n, Ts in enumerate(calls):
                nxt = []
                # JsFunction: the name comes first in every call, the other parameters are consumed in order
                own = sum(1 for T in Ts if not isinstance(T, bytes))
                args = pr.args[:own] if n == 0 else [pr.args[0]] + pr.args[at:at + own - 1]
                for st, done in seqs:
                    if done and done[-1] is None:
                        nxt.append((st, done))
                        continue
                    for st2, ps in codec.encoded(I, st, args, Ts):
                        nxt.append((st2, done + [ps]))
                at += own if n == 0 else own - 1
                seqs = nxt
            for j, (st, pss) in enumerate(seqs):
                I.st = st
                k = f'{key}|{i}|{j}'
                fit = [ps for ps in pss if ps is not None]
                feas = lambda: False if not o.st.taint and wire.witness.feasible(I) is True else None
                if o.kind == 'throw':
                    # what was complete before the refusal may have been sent
                    lost = o.v.tname == 'std::out_of_range' or 'runtime_error' in o.v.tname
                    ok = len(ws) <= len(fit)
                    if None not in pss and not lost:
                        ctx.ob(rule, feas(), where, f'{pr.name}: refused ({o.v.tname}) although it fits', key=k)
                        continue
                    ctx.ob(rule, True if ok else feas(), where, f'{pr.name}: {"refused before anything is sent" if ok else "something is sent before the refusal"}', key=k)
                    for n, e in enumerate(ws[:len(fit)]):
                        compare(ctx, I, o, pr, e, calls[n], fit[n], rule, where, f'{k}|{n}', tuple_count)
                    continue
                if None in pss:
                    ctx.ob(rule, feas(), where, f'{pr.name}: a text too long for its length field is sent', key=k)
                    continue
                if len(ws) != len(calls):
                    ctx.ob(rule, feas(), where, f'{pr.name}: {len(ws)} writes for {len(calls)} messages', key=k)
                    continue
                for n, e in enumerate(ws):
                    compare(ctx, I, o, pr, e, calls[n], fit[n], rule, where, f'{k}|{n}', tuple_count)
        finally:
            I.st = sav


def compare(ctx, I, o, pr, e, Ts, ps, rule, where, key, tuple_count):
    tot = wire.concat(e.a.get('wire'))
    if tot is None:
        ctx.ob(rule, None, where, f'{pr.name}: what is written is not resolved', key=key)
        return
    top, every = len(Ts), codec.leaves(Ts)
    st = I.st
    for want, form in wire.frames(I, 0x82, message(pr.command, top, ps)(I, Seq(ps, None, 'string').len())):
        r, why = wire.same(I, tot, want)
        if r is not True and top != every:
            alt = Seq([], None, 'string')
            for w2, f2 in wire.frames(I, 0x82, message(pr.command, every, ps)(I, Seq(ps, None, 'string').len())):
                alt = w2
            if wire.same(I, tot, alt)[0] is True:
                if tuple_count:
                    tuple_count(I, o, pr, top, every)
                ctx.ob(rule, True, where, f'{pr.name}: one frame of {form} bytes, counting {every}', key=f'{key}|{form}')
                continue
        ctx.ob(rule, wire.verdict(I, o, r), where, f'{pr.name}: ' + (why if r is not True else f'one frame, {form} bytes, counting {top}'), key=f'{key}|{form}')
    I.st = st


def payloads(I, tot):
    """the payload of a frame whose header has a plausible size: (payload, header size) or (None, why)"""
    if tot is None or not tot.p:
        return None, 'what is written is not resolved'
    L = tot.len()
    try:
        b1 = I.uns(I.seq_get(tot, 1), 8)
    except Exception:
        return None, 'the header is not resolved'
    for h, c in ((4, eq(b1, 126)), (10, eq(b1, 127)), (2, le(b1, 125))):
        if wire.holds(I, c) is True:
            return codec.content(tot, h), h
    return None, f'the length byte is {b1}'


def number(I, q, at, n):
    x = 0
    for k in range(n):
        x = add(x, mulc(I.uns(I.seq_get(q, add(at, k)), 8), 1 << (8 * k)))
    return x


def whole(I, tot, first):
    """(True|False|None, why): the write is one frame that announces exactly what follows"""
    q, h = payloads(I, tot)
    if q is None:
        return None, str(h)
    for want, form in wire.frames(I, first, q):
        r, why = wire.same(I, tot, want)
        if r is not True:
            return r, why
    return True, f'one frame of {q.len()} bytes'


class LinkMessages:
    """what a link sends by itself: outcomes of its handlers on messages of arbitrary content"""

    def __init__(self, P, raises=()):
        self.K = link.Link(P, track=False)
        self.I = I = self.K.I
        self.binary, self.text, self.sinks, self.forward = [], [], [], []
        I.models.cbthrow = list(raises)
        for o in self.K.ok[:1]:
            b, t = self.K.handlers(o)
            self.where = P.loc(b[1]['l'])
            self.base = len(o.st.events)
            v, s, n = link.message(I, o.st)
            self.msg, self.len, self.start = s, n, o
            self.binary = I.explore(lambda: I.invoke(b[0], [(v, False)]), o.st)
            tx = View(Ptr(Loc(Obj('opaque', 'text', 0, None), ()), 0, True), of(sym(('len', 'text'), 0, link.MSGMAX)))
            if t is not None:
                self.text = I.explore(lambda: I.invoke(t[0], [(tx, False)]), o.st)
            self.link = o.v
            self.handler = b[0]
            # log sinks registered by then
            for x in self.binary:
                if x.kind == 'ok':
                    for f in new_sinks(I, o.st, x.st):
                        L = of(sym(('len', 'line'), 0, link.MSGMAX))
                        ob = Obj('opaque', 'line', 0, None)
                        line = Seq([('src', Src('line', I.models.char_t(), ()), 0, L)], I.models.char_t(), 'string')
                        x.st.store[ob] = line
                        a = View(Ptr(Loc(ob, ()), 0, True), L)
                        self.forward.append((f, a))
                        self.sinks.append((x, line, len(x.st.events), I.explore(lambda: I.invoke(f, [(a, False)]), x.st)))


def stored(v, out):
    if isinstance(v, Fn):
        out.append(v)
    elif isinstance(v, Rec):
        for x in v.f.values():
            stored(x, out)
    elif isinstance(v, Opt):
        stored(v.val, out)
    elif isinstance(v, Seq):
        for p in v.p:
            if p[0] == 'el':
                stored(p[1], out)


def new_sinks(I, before, after):
    """functions taking a line of text that were put into static storage between two states"""
    def fs(st):
        out = []
        for k, v in st.store.items():
            if k.kind == 'static':
                stored(v, out)
        return out
    old = [str(x) for x in fs(before)]
    return [x for x in fs(after) if str(x) not in old and link.is_text(link.params_of(I, x)[0])]
