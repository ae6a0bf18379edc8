"""The connection objects as they are once constructed: the message handlers a WebLink registers with its WebSocket, found by what
they accept rather than by name, and the messages they are given."""
from .run import *
from .interp import c_not

MSGMAX = 1 << 48


def values(v, out, seen=None):
    """the function values stored in an object"""
    seen = seen if seen is not None else set()
    if isinstance(v, Fn):
        out.append(v)
    elif isinstance(v, Rec):
        for x in v.f.values():
            values(x, out, seen)
    elif isinstance(v, Opt):
        values(v.val, out, seen)


def params_of(I, fn):
    """parameter type names of a function value, None when unknown"""
    t = fn.t
    if isinstance(t, Clo):
        ops = [I.P.funcs[i] for i in I.P.recs[t.rid]['ops']]
        ops = [o for o in ops if 'body' in o]
        if len(ops) == 1:
            return [I.P.ty(p['t'])['n'] for p in ops[0]['p']], ops[0]
    if isinstance(t, FRef) and 'f' in t.f:
        f = I.P.funcs[t.f['f']]
        return [I.P.ty(p['t'])['n'] for p in f['p']], f
    return None, None


def is_binary(ts):
    return ts is not None and len(ts) == 1 and 'span<const std::byte' in ts[0]


def is_text(ts):
    return ts is not None and len(ts) == 1 and 'basic_string_view<char' in ts[0]


class Link:
    """a WebLink made from an arbitrary socket, identifier and event handler"""

    def __init__(self, P, track=True):
        self.P = P
        self.ctor = next((f for f in P.byq.get('webfront::WebLink::(ctor)', []) if 'body' in f and len(f['p']) == 3), None)
        self.I = I = make(P)
        if track:
            I.track['uninit'] = True
        self.outs = explore(I, self.ctor)
        self.ok = [o for o in self.outs if o.kind == 'ok']

    def handlers(self, o):
        """(binary handler, text handler) registered on constructor outcome o"""
        I = self.I
        sav, I.st = I.st, o.st
        try:
            fs = []
            values(I.get(o.v.loc), fs)
        finally:
            I.st = sav
        b = t = None
        for x in fs:
            ts, f = params_of(I, x)
            if is_binary(ts):
                b = (x, f)
            elif is_text(ts):
                t = (x, f)
        return b, t


def message(I, st, name='msg', n=None, parts=None):
    """a received message of arbitrary content: (View, Seq, length)"""
    ch = I.models.byte_t() or I.models.char_t()
    o = Obj('opaque', name, 0, None)
    if parts is None:
        if n is None:
            n = of(sym(('len', name), 0, MSGMAX))
        s = Seq([('src', Src(name, ch, ()), 0, n)], ch, 'array')
    else:
        els = []
        for i, p in enumerate(parts):
            els += [('el', of(sym((name, i, j), 0, 255))) for j in range(p)] if isinstance(p, int) else [('lit', p)] if isinstance(p, bytes) else [p]
        s = Seq(els, ch, 'array')
        n = s.len()
    st.store[o] = s
    return View(Ptr(Loc(o, ()), 0, True), n), s, n
