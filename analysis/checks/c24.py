"""A WebFront object is built by its own constructor, links are made by its own upgrade handler, and functions are registered with it in
every form an application can hand one over (temporary, local that is gone when the registration returns, constant, moved, lambda,
std::function; no parameter, several of one type, several of different types, tuples; names of every length form, one a prefix of
another).  Then the messages a client sends to call them are given to the links, in several orders, repeatedly, and with further
registrations in between.  Each must call the function registered under exactly that name, once, with the parameters of the message in
their order; a message for a name nobody registered calls nothing and is answered on the same link with an error return; a message that
lacks a parameter or has one of a wrong type calls nothing.  A registered function that uses something that was gone by then is found
by following object lifetimes."""
import struct
from engine.run import *
from engine import bridge, flt, link, outgoing, wire
from checks.c26 import socket_of

MINIMUM = 60
ASSUMPTIONS = ['messages have known names and numbers and arbitrary text and boolean parameters', 'up to nine registered functions and two links',
               'what the function does with its parameters is up to the application']


def text(b):
    return (bytes([4, len(b)]) if len(b) < 256 else b'\x05' + struct.pack('<H', len(b))) + b


class Call:
    """a callFunction message; parameters: ('s', n) text of n arbitrary bytes, a float, a bool, or a tuple of those"""

    def __init__(self, name, params, count=None):
        self.parts = []
        self.want = []
        self.size = 0
        self.k = 0
        self.add(text(name))
        for p in params:
            self.param(p)
        n = 1 + len(params) if count is None else count
        self.parts = [bytes([3, n, 0, 0]) + struct.pack('<I', self.size)] + self.parts

    def add(self, b):
        self.parts.append(b)
        self.size += len(b)

    def param(self, p):
        if isinstance(p, bool):
            self.add(bytes([1 if p else 2]))
            self.want.append(p)
        elif isinstance(p, float):
            self.add(b'\x03' + struct.pack('<d', p))
            self.want.append(p)
        elif p[0] == 's':
            n = p[1]
            self.add(bytes([4, n]) if n < 256 else b'\x05' + struct.pack('<H', n))
            self.want.append(('s', len(self.parts), n))
            self.parts.append(n)
            self.size += n
        else:
            self.add(bytes([18, len(p)]))
            for x in p:
                self.param(x)


S3, S0, S300 = ('s', 3), ('s', 0), ('s', 300)
# form, parameters, and where told() gets them: text 1, text 2, number 1, number 2, boolean
TN = ([S3, 2.5], (0, None, 1, None, None))
FORMS = {
    'temporary': TN, 'local': TN, 'const': TN, 'moved': TN, 'lambda': TN, 'function': TN,
    'none': ([], (None,) * 5),
    'result': ([S3, S300], (0, 1, None, None, None)),
    'numbers': ([-1.0, 1e300], (None, None, 0, 1, None)),
    'nested': ([True, (0.5, S3), S0], (2, 3, 1, None, 0)),
}
WRONG = {'temporary': [[], [S3], [2.5, S3], [True, 2.5]], 'numbers': [[1.0], [S3, 1.0], [1.0, True]], 'result': [[S3], [S3, 1.0]], 'nested': [[True, (0.5,), S0], [True, 0.5, S3, S0]]}


def number(v, w):
    x = flt.fval(v)
    return None if x is None else x == w


def run(ctx):
    P = ctx.P
    B = bridge.Bridge(P)
    W = P.loc(next((f['l'] for f in P.byq.get('webfront::BasicWF::cppFunction', []) if 'body' in f), None) or next(f['l'] for f in P.byq['webfront::BasicWF::(ctor)'] if 'body' in f))
    if B.why:
        ctx.ob('setup', None, W, B.why, key='bridge')
        return
    I = B.I

    def ob(rule, ok, st, txt, key, where=W):
        if ok is False and st is not None and st.taint:
            ok = None
        ctx.ob(rule, ok, where, txt, key=key)
        return ok is True
    entries = {q.rsplit('entry_reg_', 1)[1]: f for q in P.byq if q.startswith('wfa::entry_reg_') for f in func(P, q) if len(f['p']) == 4 and P.rid(P.strip(f['p'][0]['t'])) == B.cls}
    if set(FORMS) - set(entries):
        ctx.ob('setup', None, W, f'no registration of the forms {set(FORMS) - set(entries)}', key='forms')
    # two links
    st = B.st
    for k in range(2):
        outs = [o for o in B.upgraded(st, f's{k}') if o.kind in ('ok', 'return')]
        if len(outs) != 1:
            ctx.ob('setup', None, W, 'a link is not resolved', key=f'link{k}')
            return
        st = outs[0].st
    links = [p for _, p in B.links(st) or []]
    if len(links) != 2:
        ctx.ob('setup', None, W, f'{len(links)} links', key='links')
        return
    told = Fn(Opq('told'))
    I.assume(atom(('callable', Opq('told'))))

    def register(st, form, name, n, key):
        """state after registering, or None"""
        f = entries.get(form)
        if f is None:
            return None
        sav, I.st = I.st, st.copy()
        I.assume(atom(('callable', Opq('told'))))
        args = [B.this, I.new('param', 'name', P.strip(f['p'][1]['t']), Seq([('lit', name)], I.models.char_t(), 'string')), I.new('param', 'id', P.strip(f['p'][2]['t']), n),
                I.new('param', 'told', P.strip(f['p'][3]['t']), told)]
        s = I.st
        I.st = sav
        mark = dict(I.findings)

        def go():
            r = I.call(f, None, args)
            for a in args[1:]:
                I.kill(a)
            return r
        outs = I.explore(go, s)
        res = None
        for i, o in enumerate(outs):
            good = o.kind in ('ok', 'return') and not [e for e in o.st.events[len(st.events):] if e.kind == 'callback']
            ob('register', good, o.st, f'registering a function ({form}): ' + ('nothing is called' if good else f'{o.v.tname} is raised' if o.kind == 'throw' else 'it is called'), f'{key}|{i}')
            if good:
                res = o.st
        lifetimes(mark, f'registering a function ({form})', key)
        return res if len(outs) == 1 else None

    def lifetimes(mark, what, key):
        for k, f in I.findings.items():
            if k not in mark:
                ok = None if f.taint or f.inexact else False
                ob('lifetime', ok, None, f'{what}: {f.kind}: {f.detail}'[:200], f'{key}|{f.kind}', f.where)

    def send(st, j, call, what, key, expect, once=True):
        """the message given to link j; expect: None (nothing is called), or (number, form)"""
        mark = dict(I.findings)
        base = len(st.events)
        sav, I.st = I.st, st
        b, _ = B.handlers(st, links[j])
        I.st = sav
        s2 = st.copy()
        v, seq, n = link.message(I, s2, f'm{key}', None, call.parts)
        outs = I.explore(lambda: I.invoke(b, [(v, False)]), s2)
        lifetimes(mark, what, key)
        if not outs:
            ob('called', None, None, f'{what}: no path is resolved', f'{key}|none')
            return None
        res = []
        for i, o in enumerate(outs):
            k = f'{key}|{i}'
            cb = [e for e in o.st.events[base:] if e.kind == 'callback']
            if any('told' not in str(e.a['target']) for e in cb):
                ob('called', None, None, f'{what}: calls something that is not resolved', k)
                continue
            if o.kind == 'throw':
                ob('called', False, o.st, f'{what}: {o.v.tname} leaves the message handler', k)
                continue
            if expect is None:
                ob('nothing', not cb, o.st, f'{what}: {len(cb)} functions are called', k)
            elif ob('called', len(cb) == 1, o.st, f'{what}: {len(cb)} functions are called', k):
                judge(o, cb[0], call, seq, expect, what, k)
            if what.endswith('unknown name'):
                answer(o, base, j, what, k)
            res.append(o.st)
        return res[0] if len(res) == 1 else None

    def judge(o, e, call, seq, expect, what, key):
        n, form = expect
        sav, I.st = I.st, o.st
        try:
            a = e.a['args']
            vals = []
            for x in a:
                if isinstance(x, Ptr) and x.loc is not None:
                    x = I.get(x.loc)
                vals.append(x)
            ob('right', vals[0] == n if isinstance(vals[0], int) else None, o.st, f'{what}: function {vals[0]} is called', key + '|id')
            for slot, idx in enumerate(FORMS[form][1]):
                got = vals[1 + slot]
                if idx is None:
                    continue
                w = call.want[idx]
                if isinstance(w, tuple):
                    at = sum(p if isinstance(p, int) else len(p) for p in call.parts[:w[1] + 1])
                    want = Seq([('el', I.seq_get(seq, at + x)) for x in range(w[2])], None, 'string')
                    c = e.a['content'][1 + slot]
                    r, why = wire.same(I, c, want) if c is not None else (None, 'not resolved')
                elif isinstance(w, bool):
                    r, why = (got == w if isinstance(got, (bool, int)) else None), f'{got} instead of {w}'
                else:
                    r, why = number(got, w), f'{got} instead of {w}'
                ob('arguments', r, o.st, f'{what}: parameter {idx + 1} ' + ('is passed' if r else f'is not: {why}'), f'{key}|{slot}')
        finally:
            I.st = sav

    def answer(o, base, j, what, key):
        ws = [e for e in o.st.events[base:] if e.kind == 'net.write']
        if not ob('answered', len(ws) == 1, o.st, f'{what}: {len(ws)} answers', key + '|n'):
            return
        ok = socket_of(ws[0]) == links[j].loc.root
        ob('answered', ok, o.st, f'{what}: answered on {"its" if ok else "another"} link', key + '|link')
        sav, I.st = I.st, o.st
        try:
            tot = wire.concat(ws[0].a.get('wire'))
            p, why = outgoing.payloads(I, tot)
            r = None
            if p is not None:
                r = wire.holds(I, wire.eq(I.uns(I.seq_get(p, 0), 8), 4))
                if r is True:
                    r = wire.holds(I, wire.eq(I.uns(I.seq_get(p, 8), 8), 6))
            ob('answered', r, o.st, f'{what}: answered with {"an error return" if r else "something else"}', key + '|form')
        finally:
            I.st = sav

    # every form, under names of every length form
    names = {'temporary': b'add', 'local': b'ad', 'const': b'added', 'moved': b'Add', 'lambda': b'', 'function': b'a' * 255, 'none': b'a' * 256, 'result': b'r', 'numbers': b'n', 'nested': b't'}
    for form in FORMS:
        s = register(st, form, names[form], 7, f'alone|{form}')
        if s is None:
            continue
        for j, rep in ((0, 1), (0, 2), (1, 3)):
            c = Call(names[form], FORMS[form][0])
            s = send(s, j, c, f'{form}, call {rep}', f'alone|{form}|{rep}', (7, form))
            if s is None:
                break
        if s is None:
            continue
        send(s, 1, Call(b'x', FORMS[form][0]), f'{form}: unknown name', f'alone|{form}|x', None)
        for i, w in enumerate(WRONG.get(form, [])):
            send(s, 0, Call(names[form], w), f'{form}: parameters that do not fit ({i})', f'alone|{form}|w{i}', None)
    # all of them, registered one after the other, with calls in between
    s = st
    have = []
    for n, form in enumerate(FORMS):
        s = register(s, form, names[form], n, f'all|{form}')
        if s is None:
            break
        have.append((n, form))
        send(s, 0, Call(names[form][:-1] + b'?', FORMS[form][0]), f'{len(have)} functions: unknown name', f'all|{n}|x', None)
        for m, g in have:
            send(s, m % 2, Call(names[g], FORMS[g][0]), f'{len(have)} functions, {g}', f'all|{n}|{m}', (m, g))
        if n == 4:
            r = s
            for m, g in (have + have[::-1]):
                r = r and send(r, n % 2, Call(names[g], FORMS[g][0]), f'sequence of calls, {g}', f'seq|{m}', (m, g))
    # before anything is registered
    send(st, 0, Call(b'add', [S3, 2.5]), 'nothing registered: unknown name', 'empty', None)
    ctx.interp(I)
