"""A WebSocket is constructed on an arbitrary socket, given opaque handlers, and driven by an abstract event loop: every order of read
completions (complete frames, several frames in one read, a frame cut in two, empty frames, control frames, a close frame followed by
further frames), read errors, write completions and errors, and calls of start, stop and write by the application, also from within a
handler, is explored until no new state appears.  The received payload bytes are symbols.  In every state at most one read is pending;
after a successful read there is exactly one while the socket is open and none once it is closed; the handlers are called for exactly the
complete frames received while it is open, in order, with exactly the received bytes; the close handler is called exactly once when
the peer closes or an operation fails, and never again."""
from engine.run import *
from engine import events, wire
from engine.events import *

MINIMUM = 300
ASSUMPTIONS = ['frames of 0 to 3 payload bytes, cut into at most two reads, and one frame filling the whole read buffer; at most two writes pending at a time; '
               'a stopped WebSocket is not started again (its socket is closed); frames are not fragmented (C10 covers the decoder itself)']
CLS = 'webfront::websocket::WebSocket'
MASK = (0x11, 0xa2, 0x33, 0xc4)


def frame(opcode, n, key):
    """(bytes, payload as received by the application)"""
    pay = [of(sym(('rx', key, i), 0, 255)) for i in range(n)]
    return [0x80 | opcode, 0x80 | n] + list(MASK), pay


FR = {'T': (1, 3), 't': (1, 0), 'B': (2, 2), 'P': (9, 1), 'C': (8, 0), 'D': (8, 2)}


class Machine:
    def __init__(self, ctx, handlers=True):
        self.ctx, self.P = ctx, ctx.P
        P = ctx.P
        self.I = I = make(P, max_paths=10**7, max_steps=10**9)
        I.track['uninit'] = True
        I.looplimit = 1 << 16
        ctors = [f for f in P.byq.get(CLS + '::(ctor)', []) if 'body' in f and len(f['p']) == 1 and 'WebSocket' not in pname(P, f, 0)]
        self.api = {n: events.methods(P, CLS, n) for n in ('start', 'stop', 'onMessage', 'onClose', 'write')}
        self.where = P.loc(ctors[0]['l']) if ctors else '?'
        rd = events.methods(P, CLS, 'read') or ctors
        self.where = P.loc(rd[0]['l']) if rd else '?'
        self.roots = []
        for c in ctors:
            for o in explore(I, c):
                if o.kind != 'ok':
                    ctx.ob('start', False if not o.st.taint else None, self.where, f'constructing throws {o.v.tname}', key='ctor')
                    continue
                self.this = o.v
                n = Node(o.st, [], (True, 0, None, 0), ())
                n.pend = [('read', e) for e in o.st.events if e.kind == 'net.read'] + [('write', e) for e in o.st.events if e.kind == 'net.write']
                st = o.st
                if handlers:
                    for kind, f in [('text', f) for f in self.api['onMessage'] if 'string_view' in pname(P, f, 0)] + [('binary', f) for f in self.api['onMessage'] if 'span' in pname(P, f, 0)] + \
                            [('close', f) for f in self.api['onClose']]:
                        sav, I.st = I.st, st
                        t = Opq(kind)
                        I.assume(atom(('callable', t)))
                        p = I.new('param', 'handler ' + kind, P.strip(f['p'][0]['t']), Fn(t))
                        I.st = sav
                        outs = [x for x in I.explore(lambda: I.call(f, self.this, [p]), st) if x.kind in ('ok', 'return')]
                        if len(outs) != 1:
                            ctx.ob('start', None, self.where, f'registering the {kind} handler is not resolved', key='handler|' + kind)
                            continue
                        st = outs[0].st
                n.st = st
                self.roots.append(n)
        self.handlers = handlers

    def fingerprint(self, n):
        I = self.I
        sav, I.st = I.st, n.st
        try:
            full, short = [], []
            events.shape(I.P, I.get(self.this.loc), full, short)
            m = str(sorted(k for k, e in n.pend)) + str(n.m[:2]) + str(n.m[2] and (n.m[2][0], len(n.m[2][1])))
            return str(full) + m, str(short) + m
        finally:
            I.st = sav

    # ---- the alphabet
    def steps(self, n):
        opened, reports, part, cnt = n.m
        reads = [e for k, e in n.pend if k == 'read']
        wr = [e for k, e in n.pend if k == 'write']
        deep = self.ctx.tier != 'quick'
        if reads:
            if opened:
                words = ['T', 't', 'B', 'P', 'C', 'D', 'TB', 'BTB', 'PT', 'TCB', 'CT', 'tBC', 'T/', 'B/', 'TB/', 'C/']
                if deep:
                    words += ['PP', 'CC', 'TTT', 'tt', 'PCT', 'DB', 'P/', 't/', 'TT/', 'BP/', 'TC/', 'BBBBBBBB']
                if part:
                    words = ['', 'T', 'B', 'C', 'CT', 'T/', 'TB/'] + (['P', 'D', 'PT', 'B/', 'BB', 'tC'] if deep else [])
                for w in words:
                    for cut in ((3, 7) if '/' in w else (0,)):
                        yield ('rx', w, cut, None)
                        if self.handlers:
                            for at, h in enumerate(w[:-2] if '/' in w else w):
                                if h in 'TtBCD' and cut != 7:
                                    yield ('rx', w, cut, ('stop', at))
                                    if h in 'TB' and len(wr) < 2 and at == 0 and len(w) < 3:
                                        yield ('rx', w, cut, ('write', at))
            for ec in (ABORTED, RESET, EOF):
                yield ('rxerr', ec, None)
                if opened and self.handlers:
                    yield ('rxerr', ec, 'stop')
        if wr:
            for i in range(len(wr)):
                yield ('wok', i)
                for ec in (ABORTED, RESET):
                    yield ('werr', i, ec, None)
                    if opened and self.handlers:
                        yield ('werr', i, ec, 'stop')
        if opened:
            yield ('stop',)
            yield ('start',)
            if len(wr) < 2:
                yield ('write',)
        else:
            yield ('stop',)

    def method(self, name):
        fs = self.api[name]
        if name == 'write':
            fs = [f for f in fs if len(f['p']) == 1 and 'string_view' in pname(self.P, f, 0)]
        return fs[0] if fs else None

    def call(self, name):
        I = self.I
        f = self.method(name)
        a = []
        if name == 'write':
            a = [I.new('param', 'text', self.P.strip(f['p'][0]['t']), sv(I, 'hello'))]
        return I.call(f, self.this, a)

    def label(self, s):
        names = {'T': 'text', 't': 'empty text', 'B': 'binary', 'P': 'ping', 'C': 'close', 'D': 'close with a code'}
        if s[0] == 'rx':
            w = s[1]
            t = ', '.join(names[c] for c in w.rstrip('/')) + (' (first part)' if '/' in w else '')
            return f'read [{t or "rest"}]' + (f' while handler {s[3][1] + 1} calls {s[3][0]}' if s[3] else '')
        if s[0] == 'rxerr':
            return f'read error {s[1]}' + (f' while the close handler calls {s[2]}' if s[2] else '')
        if s[0] == 'wok':
            return 'write done'
        if s[0] == 'werr':
            return f'write error {s[2]}' + (f' while the close handler calls {s[3]}' if s[3] else '')
        return f'{s[0]}()'

    def run(self):
        I, ctx = self.I, self.ctx
        seen, todo, groups = set(), list(self.roots), {}
        limit = 1 if ctx.tier == 'quick' else 3
        for n in todo:
            self.state(n, self.roots[0].trail, 'construction', True)
        while todo:
            n = todo.pop(0)
            fp = self.fingerprint(n)
            if fp[0] in seen or groups.get(fp[1], 0) >= limit:
                continue
            seen.add(fp[0])
            groups[fp[1]] = groups.get(fp[1], 0) + 1
            ctx.count('states')
            for s in self.steps(n):
                todo += self.step(n, s)
        ctx.interp(I)
        for x in definite(I):
            ctx.ob('memory', False, x.where, f'{x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')

    def state(self, n, trail, label, ok=True):
        """pending reads"""
        reads = [e for k, e in n.pend if k == 'read']
        opened = n.m[0]
        text = ' → '.join(trail) or label
        if len(reads) > 1:
            return self.no(n, 'one read', f'{len(reads)} reads pending', text)
        if opened and not reads:
            return self.no(n, 'next read', 'no read is pending while the socket is open', text)
        for e in reads:
            v = events.span_view(self.I, e.a['buffers'])
            if v is None or not isinstance(v.n, int) or v.n < 1:
                return self.no(n, 'next read', f'the read is given the memory {v}', text, None if v is None or not isinstance(v.n, int) else False)
        self.ctx.ob('reads', True, self.where, f'{text}: {len(reads)} read pending', key='reads|' + text)
        return True

    def no(self, n, rule, what, text, verdict=False):
        if verdict is False and n.st.taint:
            verdict = None
        self.ctx.ob(rule, verdict, self.where, f'{text}: {what}', key=f'{rule}|{text}')
        return False

    def step(self, n, s):
        I, ctx = self.I, self.ctx
        self.ctx.count('transitions')
        opened, reports, part, cnt = n.m
        label = self.label(s)
        trail = n.trail + (label,)
        text = ' → '.join(trail)
        st = n.st.copy()
        reads = [(k, e) for k, e in n.pend if k == 'read']
        wr = [(k, e) for k, e in n.pend if k == 'write']
        want = []                     # expected calls: ('text'|'binary', payload) or ('close',)
        calls = [0]
        act = None
        may_close = 0
        if s[0] == 'rx':
            op = reads[0]
            stream, bounds = [], []
            if part:
                kind, rest, pay = part
                stream += rest
                bounds.append((kind, pay, len(stream)))
            w = s[1]
            for i, c in enumerate(w.rstrip('/')):
                o, k = FR[c]
                h, p = frame(o, k, cnt * 16 + i)
                body = h + [I_bxor(I, x, MASK[j % 4]) for j, x in enumerate(p)]
                last = '/' in w and i == len(w) - 2
                if last:
                    m = min(s[2], len(body) - 1)
                    stream += body[:m]
                    newpart = (c, body[m:], p)
                else:
                    stream += body
                    bounds.append((c, p, len(stream)))
            if not stream:
                return []
            newp = newpart if '/' in w else None
            off = 1 if part else 0
            o2 = True
            for i, (c, p, _) in enumerate(bounds):
                if not o2:
                    break
                if c in 'Tt':
                    want.append(('text', p))
                elif c == 'B':
                    want.append(('binary', p))
                elif c in 'CD':
                    want.append(('close',))
                    o2 = False
                if s[3] and s[3][0] == 'stop' and i - off == s[3][1]:
                    o2 = False
            if s[3]:
                # the handler that acts is the one of that frame
                idx = sum(1 for i, (c, p, _) in enumerate(bounds[:s[3][1] + off]) if c != 'P')
                act = (idx, s[3][0])
            opened2, part2 = o2, (newp if o2 else None)
            view = events.span_view(I, op[1].a['buffers'])
            if not events.deliver(I, st, view, stream):
                self.no(n, 'next read', f'the memory of the read is not resolved: {view}', text, None)
                return []
            h, args = op[1].a['handler'], [(code(I, 0), False), (len(stream), False)]
            go = lambda: I.invoke(h, args)
        elif s[0] == 'rxerr':
            op = reads[0]
            if opened:
                want = [('close',)]
            opened2, part2 = False, None
            h, args = op[1].a['handler'], [(code(I, s[1]), False), (0, False)]
            act = (0, 'stop') if s[2] else None
            go = lambda: I.invoke(h, args)
        elif s[0] in ('wok', 'werr'):
            op = wr[s[1]]
            ec = s[2] if s[0] == 'werr' else 0
            if ec and opened:
                want = [('close',)]
                opened2, part2 = False, None
            else:
                opened2, part2 = opened, part
            h, args = op[1].a['handler'], [(code(I, ec), False), (0 if ec else 7, False)]
            act = (0, 'stop') if s[0] == 'werr' and s[3] else None
            go = lambda: I.invoke(h, args)
        else:
            op = None
            opened2, part2 = (False, None) if s[0] == 'stop' else (opened, part)
            if s[0] == 'stop' and opened:
                may_close = 1         # telling the application of its own stop is not excluded
            go = lambda: self.call(s[0])

        def action(J, key):
            i = calls[0]
            calls[0] += 1
            if act and i == act[0] and self.method(act[1]):
                self.call(act[1])

        def run():
            calls[0] = 0
            I.models.action = action
            try:
                return go()
            finally:
                I.models.action = None
        if not opened and not reports and s[0] in ('rxerr', 'werr'):
            may_close = 1             # the application closed it: the aborted operation may report that, once
        if s[0] in ('stop', 'start', 'write') and self.method(s[0]) is None:
            return []
        base = len(st.events)
        outs = I.explore(run, st)
        nxt = []
        for o in outs:
            ev = o.st.events[base:]
            if o.kind == 'throw':
                self.no(Node(o.st, [], n.m, trail), 'calls', f'throws {o.v.tname}', text)
                continue
            pend = [x for x in n.pend if op is None or x[1] is not op[1]]
            pend += [('read', e) for e in ev if e.kind == 'net.read'] + [('write', e) for e in ev if e.kind == 'net.write' and e.a['handler'] is not None]
            m2 = Node(o.st, pend, (opened2, min(1, reports + sum(1 for e in ev if e.kind == 'callback' and e.a['target'] == 'close')), part2, cnt + 1), trail)
            cb = [e for e in ev if e.kind == 'callback'] if self.handlers else []
            if self.handlers and not self.calls(m2, cb, want, text, may_close if not reports else 0):
                continue
            if not opened2 and any(e.kind == 'net.read' for e in ev) and not opened:
                self.no(m2, 'closed', 'a read is started on a closed socket', text)
                continue
            if not opened2 and opened and any(k == 'read' for k, e in pend if s[0] in ('rx', 'rxerr')):
                self.no(m2, 'closed', 'a read is pending although the socket was closed in the handler of the only read', text)
                continue
            if not opened2 and opened and not any(e.kind == 'net.close' for e in ev):
                self.no(m2, 'closed', 'the socket is not closed', text)
                continue
            if self.state(m2, trail, label):
                nxt.append(m2)
        return nxt

    def calls(self, n, cb, want, text, may):
        I = self.I
        got = [(e.a['target'], e) for e in cb]
        if may and [g for g, _ in got] == ['close'] and not want:
            return True
        if [g for g, _ in got] != [w[0] for w in want]:
            return self.no(n, 'calls', f'the handlers called are {[g for g, _ in got]}, expected {[w[0] for w in want]}', text)
        ok = True
        sav, I.st = I.st, n.st
        try:
            for (g, e), w in zip(got, want):
                if g == 'close':
                    continue
                c = e.a['content'][0]
                if c is None:
                    self.no(n, 'payload', f'the content given to the {g} handler is not resolved', text, None)
                    ok = False
                    continue
                r, why = wire.same(I, c, Seq([('el', x) for x in w[1]], c.ety, 'string'))
                if r is not True:
                    self.no(n, 'payload', f'the {g} handler gets other bytes: {why}', text, r)
                    ok = False
        finally:
            I.st = sav
        if ok:
            self.ctx.ob('calls', True, self.where, f'{text}: {[w[0] for w in want]}', key='calls|' + text)
        return ok


def I_bxor(I, a, b):
    return I.bxor(a, b, 8)


def run(ctx):
    Machine(ctx).run()
    Machine(ctx, handlers=False).run()
