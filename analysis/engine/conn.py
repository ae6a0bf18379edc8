"""The HTTP server driven by an abstract event loop: the constructor, then every order of accepted connections, reads of requests cut in
pieces, failed reads, and completed or failed writes, until nothing new appears."""
from .run import *
from . import events, http, wire
from .events import *
from .bounded import definite

CLS = 'webfront::http::Server'
GETREQ = b'GET /index.html HTTP/1.1\r\nHost: a\r\n\r\n'
UPREQ = b'GET /ws HTTP/1.1\r\nConnection: keep-alive, Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n'
REQUESTS = {
    'GET': (GETREQ, None), 'HEAD': (b'HEAD /a.js HTTP/1.1\r\n\r\n', None), 'POST': (b'POST / HTTP/1.1\r\nA: b\r\n\r\n', 501),
    'upgrade': (UPREQ, 101), 'bad target': (b'GET /../x HTTP/1.1\r\n\r\n', 400), 'malformed': (b'GET / HTTQ', 400), 'malformed at once': (b'\x01', 400),
    'malformed header': (b'GET / HTTP/1.1\r\nA\x01', 400), 'two requests': (GETREQ + GETREQ, None), 'upgrade and a frame': (UPREQ + b'\x81\x81\x01\x02\x03\x04\x60', 101),
    'post of an upgrade': (b'POST' + UPREQ[3:], 501),
    'malformed, then more': (b'GET / HTTP/1.1\nHost: x\r\n\r\n', 400),
}


class Conn(Node):
    """m: ('reading', name or None, bytes left) | ('answering', status or None) | ('done',) | ('upgraded',)"""
    __slots__ = ('ptr', 'other')


class Machine:
    def __init__(self, ctx, obs):
        self.ctx, self.P, self.obs = ctx, ctx.P, obs
        P = ctx.P
        self.I = I = http.server(P, mime=False)
        I.looplimit = 1 << 16
        I.models.netthrow = True
        I.summaries.pop('webfront::uri::decode', None)
        self.where = http_where(P)
        self.roots = []
        ctors = [f for f in P.byq.get(CLS + '::(ctor)', []) if 'body' in f and len(f['p']) == 3 and of_served(P, f)]
        for c in ctors[:1]:
            outs = explore(I, c)
            for o in outs:
                if o.kind != 'ok':
                    obs('accept', None, f'the constructor throws {o.v.tname}', 'ctor', o)
                    continue
                self.this = o.v
                st = self.upgrade_handler(o.st)
                if st is None:
                    continue
                for n in self.accepted(st, (), 'first'):
                    self.roots.append(n)

    def upgrade_handler(self, st):
        I, P = self.I, self.P
        fs = [f for f in P.byq.get(CLS + '::onUpgrade', []) if 'body' in f and of_served(P, f)]
        if not fs:
            self.obs('accept', None, 'no way to register an upgrade handler', 'upgrade', None)
            return None
        sav, I.st = I.st, st
        t = Opq('upgrade')
        I.assume(atom(('callable', t)))
        p = I.new('param', 'handler', P.strip(fs[0]['p'][0]['t']), Fn(t))
        I.st = sav
        outs = [x for x in I.explore(lambda: I.call(fs[0], self.this, [p]), st) if x.kind in ('ok', 'return')]
        return outs[0].st if len(outs) == 1 else None

    def accepted(self, st, keep, name, ec=0):
        """states after a connection was accepted"""
        I, P = self.I, self.P
        acc = [e for e in st.events if e.kind == 'net.accept']
        tid = P.find_type(lambda t: t['n'].replace('std::experimental::net::v1::', 'std::experimental::net::') == 'std::experimental::net::ip::tcp::socket') or P.find_type(lambda t: t['n'].endswith('ip::tcp::socket'))
        h = acc[-1].a['handler']
        base = len(st.events)
        sav, I.st = I.st, st
        sock = I.mk_sym(tid, ('socket', name))
        I.st = sav
        out = []
        for o in I.explore(lambda: I.invoke(h, [(code(I, ec), False), (sock, False)]), st):
            if o.kind == 'throw':
                self.obs('accept', False, f'accepting throws {o.v.tname}', f'accept|{name}|{ec}', o)
                continue
            ev = o.st.events[base:]
            again = [e for e in ev if e.kind == 'net.accept']
            closed = any(k[0] == 'is_open' and v is False for k, v in o.st.atoms.items())
            if closed:
                continue
            self.obs('accept', len(again) == 1, f'after accepting a connection{" that failed" if ec else ""} {len(again)} accept operations are pending', f'accept|{name}|{ec}', o)
            reads = [e for e in ev if e.kind in ('net.read', 'net.write')]
            if ec:
                self.obs('accept', not reads, 'a connection that failed is read', f'accept|{name}|{ec}|read', o)
                continue
            made = [e for e in ev if e.kind == 'make']
            n = Conn(o.st, [('read' if e.kind == 'net.read' else 'write', e) for e in reads], ('reading', None, b''), (f'accept',))
            n.ptr = made[-1].a['ptr'] if made else None
            n.other = keep
            out.append(n)
        return out

    def fingerprint(self, n):
        I = self.I
        sav, I.st = I.st, n.st
        try:
            full, short = [], []
            for q in [n.ptr] if n.ptr is not None else []:
                events.shape(I.P, I.get(q.loc), full, short)
            return str(full) + str(sorted(k for k, e in n.pend)) + str(n.m) + str(self.live(n))
        finally:
            I.st = sav

    def live(self, n, ptr=None):
        """is the connection in the set of live ones?  None when that is not resolved"""
        ptr = ptr or n.ptr
        sets = []

        def walk(v):
            if isinstance(v, Rec):
                if 'items' in v.f and 'open' in v.f:
                    sets.append(v)
                for x in v.f.values():
                    walk(x)
        I = self.I
        sav, I.st = I.st, n.st
        try:
            walk(I.get(self.this.loc))
        finally:
            I.st = sav
        if not sets:
            return None
        return any(isinstance(x, SP) and x.ptr is not None and x.ptr.loc == ptr.loc for s in sets for x in s.f['items'])

    def steps(self, n):
        k = n.m[0]
        reads = [e for x, e in n.pend if x == 'read']
        wr = [e for x, e in n.pend if x == 'write']
        if reads:
            if k == 'reading':
                if n.m[1] is None:
                    for name, (b, _) in REQUESTS.items():
                        yield ('rx', name, len(b))
                        for c in cuts(name, b, self.ctx.tier):
                            yield ('rx', name, c)
                else:
                    left = len(n.m[2])
                    yield ('rx', n.m[1], left)
                    if left > 2:
                        yield ('rx', n.m[1], left // 2)
                yield ('rx', n.m[1], 0)
            for ec in (ABORTED, RESET, EOF):
                yield ('rxerr', ec)
        for i in range(len(wr)):
            yield ('wok', i)
            for ec in (ABORTED, RESET):
                yield ('werr', i, ec)

    def run(self):
        seen = set()
        todo = []
        for r in self.roots:
            self.check(r, 'accepted')
            todo.append(r)
            for o in self.accepted(r.st.copy(), (), 'failed', ec=RESET):
                pass
            for o in self.accepted(r.st.copy(), (r,), 'second'):
                # the first one is left as it is while the second one is driven
                self.check(o, 'second accepted')
                todo.append(o)
        while todo:
            n = todo.pop(0)
            fp = self.fingerprint(n) + str(len(n.other))
            if fp in seen:
                continue
            seen.add(fp)
            self.ctx.count('states')
            for s in self.steps(n):
                todo += self.step(n, s)
        self.ctx.interp(self.I)
        for x in definite(self.I):
            self.ctx.ob('memory', False, x.where, f'{x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')

    def check(self, n, text):
        """pending operations and membership in state n"""
        r, w = sum(1 for k, e in n.pend if k == 'read'), sum(1 for k, e in n.pend if k == 'write')
        ph = n.m[0]
        want = {'reading': (1, 0), 'answering': (0, 1), 'done': (0, 0), 'upgraded': (0, 0)}[ph]
        ok = self.obs('pending', (r, w) == want, f'{text}: {r} reads and {w} writes are pending' + ('' if (r, w) == want else f', expected {want[0]} and {want[1]}'), 'pending|' + text, n)
        lv = self.live(n) if n.ptr is not None else None
        if ph in ('reading', 'answering'):
            ok = self.obs('live', lv, f'{text}: the connection is {"" if lv else "not "}among the live ones', 'live|' + text, n) and ok
        elif n.m[-1] != 'aborted':
            ok = self.obs('released', None if lv is None else not lv, f'{text}: the connection is {"still " if lv else "no longer "}among the live ones', 'released|' + text, n) and ok
        for o in n.other:
            lv = self.live(n, o.ptr)
            ok = self.obs('live', lv, f'{text}: the other connection is {"" if lv else "not "}among the live ones', 'other|' + text, n) and ok
        return ok

    def step(self, n, s):
        I = self.I
        self.ctx.count('transitions')
        st = n.st.copy()
        pick = [(k, e) for k, e in n.pend if k == ('read' if s[0].startswith('rx') else 'write')]
        left = b''
        if s[0] == 'rx':
            op = pick[0]
            name = s[1]
            whole = REQUESTS[name][0] if name else b''
            data = n.m[2] if n.m[0] == 'reading' and n.m[1] is not None else whole
            now, left = data[:s[2]], data[s[2]:]
            label = f'read {name or ""}' + (f' ({len(now)} of {len(data)} bytes)' if left or not now else '')
            v = events.span_view(I, op[1].a['buffers'])
            if now and not events.deliver(I, st, v, list(now)):
                self.obs('pending', None, f'the memory of the read is not resolved: {v}', 'mem|' + label, n)
                return []
            args = [(code(I, 0), False), (len(now), False)]
        elif s[0] == 'rxerr':
            op, args, label = pick[0], [(code(I, s[1]), False), (0, False)], f'read error {s[1]}'
        else:
            op = pick[s[1]]
            ec = s[2] if s[0] == 'werr' else 0
            args, label = [(code(I, ec), False), (0 if ec else 100, False)], f'write error {ec}' if ec else 'write done'
        trail = n.trail + (label,)
        text = ' → '.join(trail)
        # the bytes of every pending write are still those it was given
        h = op[1].a['handler']
        base = len(st.events)
        nxt = []
        for o in I.explore(lambda: I.invoke(h, args), st):
            ev = o.st.events[base:]
            m = Conn(o.st, [x for x in n.pend if x[1] is not op[1]], n.m, trail)
            m.ptr, m.other = n.ptr, n.other
            m.pend += [('read', e) for e in ev if e.kind == 'net.read'] + [('write', e) for e in ev if e.kind == 'net.write']
            if o.kind == 'throw':
                self.obs('throws', False, f'{text}: {o.v.tname} leaves the completion handler', f'throws|{text}', m)
                continue
            self.obs('throws', True, f'{text}: nothing leaves the completion handler', f'throws|{text}', m)
            if any(e.kind == 'net.accept' for e in ev):
                self.obs('accept', False, f'{text}: another accept operation is started', f'accept|{text}', m)
            ups = [e for e in ev if e.kind == 'callback']
            writes = [e for e in ev if e.kind == 'net.write']
            ok = True
            if s[0] == 'rx':
                name = s[1]
                done = name is not None and complete(name, left)
                if not done:
                    m.m = ('reading', name, left) if name is not None else ('reading', None, b'')
                else:
                    m.m = ('answering', None)
                    if len(writes) == 1:
                        a = None
                        sav, I.st = I.st, o.st
                        try:
                            tot = wire.concat(writes[0].a.get('wire'))
                            a = http.parse(I, tot) if tot is not None else None
                        finally:
                            I.st = sav
                        if a is None or a.status is None:
                            ok = self.obs('answer', None, f'{text}: the answer is not resolved', f'answer|{text}', m)
                        else:
                            want = REQUESTS[name][1]
                            good = a.status == want if want else a.status in (200, 404)
                            ok = self.obs('answer', good, f'{text}: answered {a.status}', f'answer|{text}', m)
                            m.m = ('answering', a.status)
                        ok = self.obs('answer', bool(writes[0].a.get('whole')), f'{text}: the whole answer is to be written', f'whole|{text}', m) and ok
                ok = self.obs('handed', not ups, f'{text}: {len(ups)} hand-overs', f'handed|{text}', m) and ok
            elif s[0] == 'rxerr':
                m.m = ('done', 'aborted') if s[1] == ABORTED else ('done',)
                ok = self.obs('handed', not ups, f'{text}: {len(ups)} hand-overs', f'handed|{text}', m)
            elif s[0] == 'werr':
                m.m = ('done', 'aborted') if s[2] == ABORTED else ('done',)
                ok = self.obs('handed', not ups, f'{text}: {len(ups)} hand-overs although the answer was not written', f'handed|{text}', m)
            else:
                if n.m[0] == 'answering' and n.m[1] == 101:
                    m.m = ('upgraded',)
                    ok = self.obs('handed', len(ups) == 1, f'{text}: {len(ups)} hand-overs', f'handed|{text}', m)
                    if ups:
                        i = ev.index(ups[0])
                        early = [e for e in ev[:i] if e.kind in ('net.close', 'net.shutdown')]
                        ok = self.obs('handed', not early, f'{text}: ' + ('the socket is handed over open' if not early else 'the socket is closed before it is handed over'), f'open|{text}', m) and ok
                        moved = [e for e in ev[:i] if e.kind == 'socket-move'] or any('socket' in str(x) for x in ups[0].a['args'])
                        late = [e for e in ev[i:] if e.kind in ('net.read', 'net.write')]
                        ok = self.obs('handed', not late, f'{text}: {len(late)} operations are started after the hand-over', f'late|{text}', m) and ok
                else:
                    m.m = ('done',)
                    ok = self.obs('handed', not ups, f'{text}: {len(ups)} hand-overs of a connection not upgraded', f'handed|{text}', m)
                    down = [e for e in ev if e.kind in ('net.close', 'net.shutdown')]
                    ok = self.obs('shut', bool(down), f'{text}: the connection is {"" if down else "not "}shut down', f'shut|{text}', m) and ok
            if self.check(m, text) and ok:
                nxt.append(m)
        return nxt


def of_served(P, f):
    """a member of the server with the opaque file provider of the driver"""
    return any('t' in a and 'Served<0>' in P.ty(a['t'])['n'] for a in P.targs(f['r']))


def complete(name, left):
    b, st = REQUESTS[name]
    used = len(b) - len(left)
    if name.startswith('malformed'):
        first = {'malformed': len(b), 'malformed at once': 1, 'malformed header': len(b), 'malformed, then more': b.find(b'\n') + 1}[name]
        return used >= first
    return used >= b.index(b'\r\n\r\n') + 4


def cuts(name, b, tier):
    n = len(b)
    out = {n - 1, n // 2} if tier == 'quick' else {1, 3, n // 3, n // 2, n - 3, n - 2, n - 1}
    if tier != 'quick' and name in ('GET', 'malformed, then more'):
        out |= set(range(1, n))
    return sorted(x for x in out if 0 < x < n)


def http_where(P):
    f = next((g for g in P.byq.get('webfront::http::Connection::read', []) if 'body' in g), None) or next((g for g in P.byq.get('webfront::http::Connection::start', []) if 'body' in g), None)
    return P.loc(f['l']) if f else '?'
