"""The HTTP request handler on requests with a given number of headers of arbitrary names and values: the file provider, the content of
the file it finds and the percent-decoding (C27/C28 are about it) are opaque; what is judged is which path is asked for and the bytes of the answer."""
from .run import *
from .interp import PathDead
from . import wire, witness
from .summaries import _args

READS = 3
STATE = Obj('static', 'the file being served', 0, None)


def decoded(I, uri):
    return I.models.str_seq(('decoded', uri.p))


def _decode(I, e):
    v = _args(I, e)[0]
    s = I.models.view_seq(I, v) if isinstance(v, View) else I.get(v.loc) if isinstance(v, Ptr) else v
    return decoded(I, s)


def _found(I, e):
    v = _args(I, e)[0]
    if isinstance(v, Ptr):
        v = I.get(v.loc)
    I.event('provider', path=v)
    return atom(('found', v))


def _read(I, e):
    I.ev(e['o'])
    v = _args(I, e)[0]
    st = I.st.store.get(STATE) or Rec('file', {'n': 0, 'end': False})
    k = st.f['n']
    I.cur = e['l']
    if st.f['end'] or k >= READS:
        I.st.store[STATE] = Rec('file', {'n': k, 'end': True})
        I.event('file-read', n=0, content=None)
        return 0
    c = I.choose(3)
    if c == 0:
        I.st.store[STATE] = Rec('file', {'n': k, 'end': True})
        I.event('file-read', n=0, content=None)
        return 0
    n = of(sym(('read', k), 1, 1 << 40))
    if not isinstance(v, View):
        I.taint('file read into an unknown place')
        return n
    if not getattr(I, 'big', False):
        I.assume(wire.le(n, v.n))
    content = Seq([('src', Src(('file', k), I.models.char_t(), ()), 0, n)], I.models.char_t(), 'string')
    s = I.get(v.ptr.loc)
    if isinstance(s, Seq):
        off = v.ptr.off
        if getattr(I, 'big', False):
            # one read stands for any number of them: the place holds all they deliver
            I.put(v.ptr.loc, s.with_p(list(I.seq_slice(s, 0, off).p) + list(content.p)))
            I.st.store[STATE] = Rec('file', {'n': k + 1, 'end': c == 2})
            I.event('file-read', n=n, content=content)
            return n
        rest = sub(s.len(), add(off, n))
        I.put(v.ptr.loc, s.with_p(list(I.seq_slice(s, 0, off).p) + list(content.p) + ([('src', Src(('stale', k), s.ety, ()), 0, rest)] if not (isinstance(rest, int) and rest == 0) else [])))
    else:
        I.taint('file read into an unknown place')
    I.st.store[STATE] = Rec('file', {'n': k + 1, 'end': c == 2})
    I.event('file-read', n=n, content=content)
    return n


def _eof(I, e):
    I.ev(e['o'])
    st = I.st.store.get(STATE)
    return bool(st and st.f['end'])


def machine(P):
    I = make(P, unroll=READS + 2, max_paths=10 ** 6, max_steps=10 ** 9)
    I.track['uninit'] = True
    I.summaries['webfront::uri::decode'] = _decode
    I.summaries['wfa::found'] = _found
    I.summaries['webfront::fs::File::read'] = _read
    I.summaries['webfront::fs::File::eof'] = _eof
    return I


def _words(I, e):
    o = Obj('opaque', 'words of the file', 0, None)
    if o not in I.st.store:
        I.st.store[o] = Seq([('src', Src('words', I.elem_tid(e['t']), ()), 0, of(sym(('len', 'words'), 0, 1 << 40)))], I.elem_tid(e['t']), 'array')
    return View(Ptr(Loc(o, ()), 0, True), of(sym(('len', 'words'), 0, 1 << 40)))


def _mime(I, e):
    _args(I, e)
    return I.mk_sym(e['t'], ('mime', len(I.st.events)))


def _mime_text(I, e):
    I.ev(e['o'])
    o = Obj('opaque', 'content type', 0, None)
    s = I.models.str_seq(('mime',))
    if o not in I.st.store:
        I.st.store[o] = s
    return View(Ptr(Loc(o, ()), 0, True), s.len())


def server(P, mime=True):
    """machine for the serve entries; without mime the content type is an arbitrary text"""
    I = machine(P)
    I.summaries['wfa::words'] = _words
    I.summaries['wfa::words_size'] = lambda I, e: of(sym('file size', 0, 1 << 40))
    if not mime:
        I.summaries['webfront::http::MimeType::fromExtension'] = _mime
        I.summaries['webfront::http::MimeType::toString'] = _mime_text
    return I


GET, HEAD = 2, 3
METHODS = ['Connect', 'Delete', 'Get', 'Head', 'Options', 'Patch', 'Post', 'Put', 'Trace', 'Undefined']
PHRASES = {101: b'Switching Protocols', 200: b'OK', 400: b'Bad Request', 404: b'Not Found', 501: b'Not Implemented', 506: b'Variant Also Negotiates'}


class Served:
    """one explored serve entry: names/values are texts (bytes) or None for arbitrary ones; method None for all, else a number"""

    def __init__(self, P, kind, headers, method=None, mime=True, uri=None, big=False):
        self.f = func(P, f'wfa::entry_{kind}{len(headers)}')[0]
        self.I = I = server(P, mime)
        I.big = big
        self.kind = kind
        f = self.f
        a = [arg(I, p['t'], ('arg', i)) for i, p in enumerate(f['p'])]
        if method is not None:
            a[2] = param(I, f, 2, method)
        self.uri_at = a[3]
        if uri is not None:
            I.st.store[a[3].loc.root] = string(I, uri)
        self.headers = []
        for i, (n, v) in enumerate(headers):
            for j, x in ((4 + 2 * i, n), (5 + 2 * i, v)):
                if x is not None:
                    a[j] = param(I, f, j, sv(I, x))
        self.uri = seq_of(I, I.get(a[3].loc))
        self.target = decoded(I, self.uri)
        self.method = I.get(a[2].loc)
        for i in range(len(headers)):
            self.headers.append(tuple(seq_of(I, I.get(a[j].loc)) for j in (4 + 2 * i, 5 + 2 * i)))
        self.outs = explore(I, f, args=a)

    def answers(self):
        """(outcome, parsed answer or None with a reason)"""
        I = self.I
        for i, o in enumerate(self.outs):
            sav, I.st = I.st, o.st
            try:
                ws = [e for e in o.st.events if e.kind == 'net.write']
                tot = wire.concat(ws[0].a.get('wire')) if len(ws) == 1 else None
                r = parse(I, tot) if tot is not None else None
            finally:
                I.st = sav
            yield i, o, r


class Answer:
    __slots__ = ('status', 'phrase', 'headers', 'body', 'why')

    def __init__(self, why=None):
        self.why, self.status, self.phrase, self.headers, self.body = why, None, None, [], None

    def header(self, name):
        return [v for n, v in self.headers if n.lower() == name.lower()]


def parse(I, tot):
    """the answer a sequence of bytes is, cut at the line ends among its known bytes (texts taken from elsewhere are taken to hold none)"""
    a = Answer()
    lines, cur = [], []
    ps = list(tot.p)
    for k, p in enumerate(ps):
        if p[0] == 'el' and isinstance(p[1], int):
            p = ('lit', bytes([p[1] & 255]))
        if p[0] != 'lit':
            cur.append(p)
            continue
        b = p[1]
        if cur and cur[-1][0] == 'lit':
            b = cur.pop()[1] + b
        while True:
            i = b.find(b'\r\n')
            if i < 0:
                break
            if i:
                cur.append(('lit', b[:i]))
            b = b[i + 2:]
            lines.append(cur)
            if not cur:
                a.body = Seq(([('lit', b)] if b else []) + ps[k + 1:], tot.ety, 'string')
                break
            cur = []
        if a.body is not None:
            break
        if b:
            cur.append(('lit', b))
    if a.body is None:
        a.why = 'no empty line ends the headers'
        return a
    lines.pop()
    if not lines or len(lines[0]) != 1 or lines[0][0][0] != 'lit':
        a.why = f'no status line'
        return a
    t = lines[0][0][1].split(b' ', 2)
    if len(t) != 3 or t[0] != b'HTTP/1.1' or len(t[1]) != 3 or not t[1].isdigit():
        a.why = f'status line {lines[0][0][1]!r}'
        return a
    a.status, a.phrase = int(t[1]), t[2]
    for l in lines[1:]:
        if not l or l[0][0] != 'lit' or b': ' not in l[0][1]:
            a.why = f'header line {Seq(l, None, "string")}'
            return a
        n, v = l[0][1].split(b': ', 1)
        a.headers.append((n, Seq(([('lit', v)] if v else []) + l[1:], tot.ety, 'string')))
    return a


# ---- reference predicates -------------------------------------------------------------------------------------------
def ci(text):
    return tuple(frozenset({ord(c.lower()), ord(c.upper())}) for c in text)


def is_named(I, h, name):
    from .stl import txt_cond
    return txt_cond(I, 'txteq', h[0], ci(name))


def mentions(I, h, text):
    from .stl import txt_cond
    return txt_cond(I, 'txtfind', h[1], ci(text))


def exists(I, hs, name, text=None):
    """is there a header of that name (mentioning a text)?  Forks where the path leaves it open."""
    r = False
    for h in hs:
        if I.truth(is_named(I, h, name)) and (text is None or I.truth(mentions(I, h, text))):
            r = True
    return r


def refused_target(I, t):
    n = t.len()
    if I.truth(wire.eq(n, 0)):
        return True
    if not I.truth(wire.eq(I.uns(I.seq_get(t, 0), 8), 47)):
        return True
    from .stl import Models
    return I.models.find(I, t, Seq([('lit', b'..')], t.ety, 'string'), 0) is not None


def refer(I, o, pred):
    """[(value, outcome)] of a reference predicate in the state an outcome ends in"""
    return I.explore(pred, o.st)


def new_atoms(a, b):
    return [k for k in b.atoms if k not in a.atoms]


def about(key, pieces):
    """does a condition speak about a text?"""
    if isinstance(key, (tuple, frozenset)):
        if key == pieces:
            return True
        return any(about(x, pieces) for x in key)
    if isinstance(key, Cond):
        return any(about(x, pieces) for x in key.a)
    if isinstance(key, Seq):
        return key.p == pieces
    if isinstance(key, View):
        return False
    return False
