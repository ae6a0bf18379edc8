"""Every asynchronous operation the HTTP server and the WebSocket start is looked at on the abstract heap, in every state of the two
abstract event loops (C07, C08), from its start until its completion: the memory of each of its buffers belongs to the object that
started it, to an object the completion handler owns (a captured shared pointer, or a captured value), or is static; it has not been
destroyed or released; and the bytes of a write are still those it was started with.  The handlers of the HTTP server own a shared
pointer to the connection they belong to."""
from engine.run import *
from engine import conn, events, wire, stl
from engine.events import *
from engine.quiet import Quiet
from . import c08

MINIMUM = 300
ASSUMPTIONS = ['"stays allocated" is decided for the object that holds the memory; how long the application keeps a WebSocket or a server object is its own responsibility',
               'request and frame contents are representatives (C07, C08); the lifetime of the memory does not depend on the bytes']


def owned(I, v, seen, depth=0):
    """roots of the objects a value keeps alive"""
    if depth > 12:
        return
    if isinstance(v, SP):
        if v.ptr is not None and v.ptr.loc is not None and v.ptr.loc.root not in seen:
            seen.add(v.ptr.loc.root)
            if v.ptr.loc.root in I.st.store:
                owned(I, I.st.store[v.ptr.loc.root], seen, depth + 1)
        return
    if isinstance(v, Fn):
        return owned(I, v.t, seen, depth + 1)
    if isinstance(v, Clo):
        for c in caps(v):
            owned(I, c, seen, depth + 1)
    elif isinstance(v, Rec):
        for x in v.f.values():
            owned(I, x, seen, depth + 1)
    elif isinstance(v, Opt):
        owned(I, v.val, seen, depth + 1)
    elif isinstance(v, Seq):
        for p in v.p:
            if p[0] == 'el':
                owned(I, p[1], seen, depth + 1)
    elif isinstance(v, (tuple, list)):
        for x in v:
            owned(I, x, seen, depth + 1)


def caps(v):
    return [x for d, how, x in v.caps if how == 'val'] + ([SP(v.this)] if v.this is not None and v.this.loc is not None and v.this.loc.root.name == 'captured *this' else [])


def held(v, depth=0):
    """does a completion handler hold sequences by value?"""
    if depth > 6:
        return True
    if isinstance(v, Fn):
        return held(v.t, depth + 1)
    if isinstance(v, Clo):
        return any(held(c, depth + 1) for c in caps(v))
    if isinstance(v, Rec):
        return any(held(c, depth + 1) for c in v.f.values())
    return isinstance(v, Seq)


def resolved(v, depth=0):
    """is everything a completion handler owns known?"""
    if depth > 6 or v is None:
        return False
    if isinstance(v, Fn):
        return isinstance(v.t, Clo) and resolved(v.t, depth + 1)
    if isinstance(v, Clo):
        return all(resolved(c, depth + 1) for c in caps(v))
    if isinstance(v, Rec):
        return all(resolved(c, depth + 1) for c in v.f.values())
    return not isinstance(v, Opq)


def views(I, b):
    if isinstance(b, Ptr):
        b = I.get(b.loc)
    if isinstance(b, Seq):
        return [p[1] if p[0] == 'el' and isinstance(p[1], View) else None for p in b.p]
    return [b if isinstance(b, View) else None]


class Watch:
    """the buffers of every pending operation, in every state"""
    def __init__(self, ctx, I, shared):
        self.ctx, self.I, self.shared = ctx, I, shared

    def place(self, e):
        """the function that started the operation, past the network layer"""
        for q in reversed(e.stack):
            if 'networking' not in q and q.startswith('webfront::'):
                f = next((g for g in self.I.P.byq.get(q, []) if 'body' in g), None)
                if f:
                    return self.I.P.loc(f['l'])
        return e.where

    def state(self, n, text, owner):
        I = self.I
        sav, I.st = I.st, n.st
        try:
            return all([self.op(n, k, e, text, owner) for k, e in n.pend])
        finally:
            I.st = sav

    def op(self, n, k, e, text, owner):
        I, ctx = self.I, self.ctx
        where = self.place(e)
        good = True

        def ob(rule, v, t, key):
            nonlocal good
            if v is False and n.st.taint:
                v = None
            good = good and v is True
            ctx.ob(rule, v, where, f'{text}: {t}', key=f'{rule}|{text}|{k}|{key}')
        h = e.a['handler']
        roots = set()
        owned(I, h, roots)
        if self.shared:
            v = owner in roots
            ob('alive', v if v or resolved(h) else None, f'the handler of the {k} {"keeps" if v else "does not keep"} its connection alive', 'alive')
        for i, v in enumerate(views(I, e.a['buffers'])):
            if v is None:
                ob('memory', None, f'buffer {i} of the {k} is not resolved', f'{i}')
                continue
            if v.ptr.loc is None or v.n == 0:
                continue
            r = v.ptr.loc.root
            name = repr(v.ptr)
            if r in I.st.dead:
                ok, t = False, f'the {k} uses {name}, which no longer exists'
            elif r == owner:
                ok, t = True, f'the {k} uses {name}, part of the object that started it'
            elif r in roots:
                ok, t = True, f'the {k} uses {name}, owned by its handler'
            elif r.kind in ('static', 'lit'):
                ok, t = True, f'the {k} uses {name}, which is static'
            elif r.kind in ('local', 'temp', 'param', 'caught'):
                ok, t = False, f'the {k} uses {name}, which belongs to the function that started it'
            elif r.kind == 'heap':
                ok, t = (False if resolved(h) else None), f'the {k} uses {name}, which its handler does not own'
            else:
                ok, t = None, f'the owner of {name} is not resolved'
            if ok is False and v.ptr.content and held(h):
                ok = None              # the memory of a container may have moved into the handler
            ob('memory', ok, t, f'{i}')
        if k == 'write' and good:
            w0 = e.a.get('wire')
            w1 = stl.wire(I, e.a['buffers'])
            for i, (a, b) in enumerate(zip(w0 or [], w1 or [])):
                if a[2] is None or b[2] is None:
                    ob('bytes', None, f'buffer {i} of the write is not resolved', f'b{i}')
                    continue
                same = a[2] == b[2]
                why = ''
                if not same:
                    same, why = wire.same(I, b[2], a[2])
                ob('bytes', same, f'buffer {i} of the write still holds its bytes' if same else f'buffer {i} of the write has changed: {why}', f'b{i}')
            if not w0 or not w1:
                ob('bytes', None, 'the bytes of the write are not resolved', 'b')
        return good


def run(ctx):
    P = ctx.P

    def obs(rule, ok, text, key, n):
        return bool(ok)

    class Http(conn.Machine):
        def check(self, n, text):
            return Watch(ctx, self.I, True).state(n, text, n.ptr.loc.root if n.ptr is not None else None)
    Http(ctx, obs).run()

    class Socket(c08.Machine):
        def state(self, n, trail, label, ok=True):
            return Watch(ctx, self.I, False).state(n, ' → '.join(trail) or label, self.this.loc.root)

        def no(self, n, rule, what, text, verdict=False):
            return False

        def call(self, name):
            I = self.I
            f = self.method(name)
            a = []
            if name == 'write':       # every message is another one
                self.sent = getattr(self, 'sent', 0) + 1
                a = [I.new('param', 'text', P.strip(f['p'][0]['t']), sv(I, f'{self.sent:05}'))]
            return I.call(f, self.this, a)
    Socket(Quiet(ctx)).run()
