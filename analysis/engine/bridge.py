"""The WebFront object: built by its own constructor, with links made by its own upgrade handler, and messages given to them."""
from .run import *
from . import events, http, link

CLS = 'webfront::BasicWF'


class Bridge:
    def __init__(self, P, fresh=False):
        self.P = P
        self.I = I = http.server(P, mime=False)
        I.fresh = fresh or I.fresh
        I.looplimit = 1 << 17
        I.max_steps = 10 ** 9
        self.outs = []
        self.why = None
        ctor = next((f for f in P.byq.get(CLS + '::(ctor)', []) if 'body' in f and f['p']), None)
        if ctor is None:
            self.why = 'no constructor'
            return
        self.where = P.loc(ctor['l'])
        self.cls = ctor['r']
        outs = [o for o in explore(I, ctor) if o.kind == 'ok']
        if len(outs) != 1:
            self.why = 'the constructor is not resolved'
            return
        self.this, self.st = outs[0].v, outs[0].st
        fs = []
        sav, I.st = I.st, self.st
        link.values(I.get(self.this.loc), fs)
        I.st = sav
        self.upgrade = next((f for f in fs if f.t is not None and len(link.params_of(I, f)[0] or []) == 2 and 'socket' in link.params_of(I, f)[0][0]), None)
        self.socket_t = P.find_type(lambda t: t['n'].endswith('ip::tcp::socket'))
        self.proto = self.enum('webfront::http::Protocol')
        if self.upgrade is None:
            self.why = 'no handler of upgraded connections'

    def enum(self, name):
        t = self.P.find_type(lambda t: t['k'] == 'enum' and t['n'] == name)
        return {k: int(v) for k, v in self.P.enums[self.P.ty(t)['e']]['v'].items()} if t is not None else {}

    def method(self, name, pred=lambda f: True):
        return next((f for f in self.P.byq.get(f'{CLS}::{name}', []) if 'body' in f and f.get('r') == self.cls and pred(f)), None)

    def set_ui(self, st):
        f = self.method('onUIStarted')
        I = self.I
        if f is None:
            return None
        sav, I.st = I.st, st
        t = Opq('ui')
        I.assume(atom(('callable', t)))
        p = I.new('param', 'handler', self.P.strip(f['p'][0]['t']), Fn(t))
        I.st = sav
        outs = I.explore(lambda: I.call(f, self.this, [p]), st)
        return outs[0].st if len(outs) == 1 and outs[0].kind in ('ok', 'return') else None

    def upgraded(self, st, name, proto='WebSocket'):
        """outcomes of a connection being handed over"""
        I = self.I
        sav, I.st = I.st, st
        s = I.mk_sym(self.socket_t, ('socket', name))
        p = I.new('param', 'socket', self.socket_t, s)
        I.st = sav
        return I.explore(lambda: I.invoke(self.upgrade, [(p, True), (self.proto[proto], False)]), st)

    def links(self, st):
        """[(key, pointer)] of the live links, or None"""
        I = self.I
        sav, I.st = I.st, st
        try:
            out = None
            for x in I.get(self.this.loc).f.values():
                if isinstance(x, Rec) and 'items' in x.f and 'open' in x.f:
                    ls = [(k, p) for k, p in x.f['items'] if p is not None and p.loc.root.tid is not None and 'WebLink' in self.P.ty(p.loc.root.tid)['n']]
                    if ls or out is None:
                        out = ls
            return out
        finally:
            I.st = sav

    def handlers(self, st, p):
        I = self.I
        sav, I.st = I.st, st
        try:
            fs = []
            link.values(I.get(p.loc), fs)
        finally:
            I.st = sav
        b = next((x for x in fs if link.is_binary(link.params_of(I, x)[0])), None)
        t = next((x for x in fs if link.is_text(link.params_of(I, x)[0])), None)
        return b, t

    def message(self, st, p, parts=None, name='msg', n=None):
        """outcomes of a binary message arriving on a link"""
        I = self.I
        b, _ = self.handlers(st, p)
        st = st.copy()
        v, s, n = link.message(I, st, name, n, parts)
        return I.explore(lambda: I.invoke(b, [(v, False)]), st)


def num_field(P, v, tname=None):
    """the values of the integer fields of an object"""
    out = []
    if isinstance(v, Rec):
        for k, x in v.f.items():
            if isinstance(k, tuple) and isinstance(k[0], int):
                t = next((f['t'] for f in P.recs[k[0]]['f'] if f['n'] == k[1]), None)
                if t is not None and P.ty(P.strip(t))['k'] == 'int':
                    out.append((k, x))
    return out
