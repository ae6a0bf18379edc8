"""Abstract values and locations."""
from collections import namedtuple
from . import num
from .num import Lin, sym, of, add, sub, mulc

MAXLEN = 1 << 48     # no container or region is larger than this (address-space bound; stated in DESIGN.md)

Obj = namedtuple('Obj', 'kind name n tid')     # kind: local temp param heap static lit opaque caught
Loc = namedtuple('Loc', 'root path')


class V:
    __slots__ = ('_h',)
    def _key(self):
        raise NotImplementedError
    def __hash__(self):
        h = getattr(self, '_h', None)
        if h is None:
            h = self._h = hash((type(self).__name__, self._key()))
        return h
    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self._key() == o._key())
    def __ne__(self, o):
        return not self == o


class Ptr(V):
    """A pointer, reference, lvalue or iterator: a location plus a byte offset.  content=True points into the elements
    of the sequence stored at loc."""
    __slots__ = ('loc', 'off', 'content')
    def __init__(self, loc, off=0, content=False):
        self.loc, self.off, self.content = loc, off, content
    def _key(self):
        return (self.loc, self.off, self.content)
    def plus(self, n):
        return Ptr(self.loc, add(self.off, n), self.content)
    def __repr__(self):
        if self.loc is None:
            return 'null'
        p = ''.join('.' + (k[1][1] if k[0] == 'f' and isinstance(k[1], tuple) else str(k[1])) for k in self.loc.path)
        return f'&{self.loc.root.name}{p}' + ('[]' if self.content else '') + (f'+{self.off}' if self.off != 0 else '')


NULL = Ptr(None)


class Src(V):
    """A symbolic source of elements: its element at index o is a symbol named by (key, o)."""
    __slots__ = ('key', 'ety', 'flags')
    def __init__(self, key, ety, flags=()):
        self.key, self.ety, self.flags = key, ety, flags
    def _key(self):
        return (self.key, self.ety, self.flags)
    def __repr__(self):
        return f'<{fmt(self.key)}>'


def fmt(k):
    if isinstance(k, tuple):
        return '(' + ' '.join(fmt(x) for x in k) + ')'
    return str(k)


class Rec(V):
    __slots__ = ('rn', 'f')
    def __init__(self, rn, f):
        self.rn, self.f = rn, f
    def _key(self):
        return (self.rn, tuple(sorted(self.f.items(), key=lambda p: str(p[0]))))
    def set(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Rec(self.rn, f)
    def __repr__(self):
        return f'{self.rn.split("::")[-1]}{{' + ', '.join(f'{k[1] if isinstance(k, tuple) else k}={v}' for k, v in self.f.items()) + '}'


class Seq(V):
    """Contents of a string, vector, list, array.  pieces: ('lit', bytes) ('el', v) ('src', Src, off, n)
    ('map', boundsym, n, v) ('rep', n, v)."""
    __slots__ = ('p', 'ety', 'kind')
    def __init__(self, p, ety, kind):
        self.p, self.ety, self.kind = canon(p), ety, kind
    def _key(self):
        return (self.p,)
    def len(self):
        n = 0
        for x in self.p:
            n = add(n, plen(x))
        return n
    def with_p(self, p):
        return Seq(p, self.ety, self.kind)
    def concrete(self):
        """bytes if fully known"""
        out = b''
        for x in self.p:
            if x[0] == 'lit':
                out += x[1]
            elif x[0] == 'el' and isinstance(x[1], int) and not isinstance(x[1], bool):
                out += bytes([x[1] & 255])
            elif x[0] == 'rep' and isinstance(x[1], int) and isinstance(x[2], int):
                out += bytes([x[2] & 255]) * x[1]
            else:
                return None
        return out
    def __repr__(self):
        return f'{self.kind}[' + ' ++ '.join(pfmt(x) for x in self.p) + ']'


def pfmt(x):
    if x[0] == 'lit':
        return repr(x[1])
    if x[0] == 'el':
        return f'{{{x[1]}}}'
    if x[0] == 'src':
        return f'{x[1]}[{x[2]}..+{x[3]}]'
    return f'{x[0]}({", ".join(map(str, x[1:]))})'


def plen(x):
    k = x[0]
    if k == 'lit':
        return len(x[1])
    if k == 'el':
        return 1
    if k == 'src':
        return x[3]
    if k == 'map':
        return x[2]
    if k == 'rep':
        return x[1]
    if k == 'fmap':
        return x[3]
    raise KeyError(k)


def canon(p):
    out = []
    for x in p:
        if isinstance(plen(x), int) and plen(x) == 0:
            continue
        if x[0] == 'el' and out and out[-1][0] == 'lit' and isinstance(x[1], int) and not isinstance(x[1], bool) and False:
            pass
        if out:
            y = out[-1]
            if x[0] == 'lit' and y[0] == 'lit':
                out[-1] = ('lit', y[1] + x[1])
                continue
            if x[0] == 'src' and y[0] == 'src' and x[1] == y[1] and add(y[2], y[3]) == x[2]:
                out[-1] = ('src', y[1], y[2], add(y[3], x[3]))
                continue
        out.append(x)
    return tuple(out)


class View(V):
    """string_view / span / initializer_list: pointer + number of elements"""
    __slots__ = ('ptr', 'n')
    def __init__(self, ptr, n):
        self.ptr, self.n = ptr, n
    def _key(self):
        return (self.ptr, self.n)
    def __repr__(self):
        return f'view({self.ptr}, {self.n})'


class Opt(V):
    __slots__ = ('has', 'val')
    def __init__(self, has, val):
        self.has, self.val = has, val
    def _key(self):
        return (self.has, self.val)
    def __repr__(self):
        return f'opt({self.has}, {self.val})'


class Functor(V):
    """an object of a class with a call operator"""
    __slots__ = ('rid', 'val')
    def __init__(self, rid, val):
        self.rid, self.val = rid, val
    def _key(self):
        return (self.rid, self.val)
    def __repr__(self):
        return f'functor({self.val})'


class Fn(V):
    """std::function: None (empty), a closure, or an opaque key (a user callback that may be empty)"""
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def _key(self):
        return (self.t,)
    def __repr__(self):
        return f'fn({self.t})'


class Clo(V):
    __slots__ = ('rid', 'caps', 'this')
    def __init__(self, rid, caps, this):
        self.rid, self.caps, self.this = rid, caps, this
    def _key(self):
        return (self.rid, self.caps, self.this)
    def __repr__(self):
        return f'lambda#{self.rid}'


class Opq(V):
    __slots__ = ('key', 'tid')
    def __init__(self, key, tid=None):
        self.key, self.tid = key, tid
    def _key(self):
        return (self.key,)
    def __repr__(self):
        return f'?{fmt(self.key)}'


class Flt(V):
    __slots__ = ('key',)
    def __init__(self, key):
        self.key = key
    def _key(self):
        return (self.key,)
    def __repr__(self):
        return f'flt{fmt(self.key)}'


class SP(V):
    """shared_ptr / unique_ptr"""
    __slots__ = ('ptr',)
    def __init__(self, ptr):
        self.ptr = ptr
    def _key(self):
        return (self.ptr,)
    def __repr__(self):
        return f'sp({self.ptr})'


class FRef(V):
    __slots__ = ('f',)
    def __init__(self, f):
        self.f = f
    def _key(self):
        return (self.f['n'], self.f.get('f'))


UNINIT = Opq('uninit')


# ---- conditions ---------------------------------------------------------------------------------------------------
class Cond(V):
    __slots__ = ('k', 'a')
    def __init__(self, k, *a):
        self.k, self.a = k, a
    def _key(self):
        return (self.k, self.a)
    def __repr__(self):
        if self.k == 'ge':
            return f'({self.a[0]} >= 0)'
        if self.k == 'eq':
            return f'({self.a[0]} == 0)'
        if self.k == 'atom':
            return fmt(self.a[0])
        if self.k == 'not':
            return f'!{self.a[0]}'
        return '(' + f' {self.k} '.join(map(repr, self.a)) + ')'


def c_ge(l):
    return (l >= 0) if isinstance(l, int) else Cond('ge', l)


def c_eq(l):
    if isinstance(l, int):
        return l == 0
    if l.t[0][1] < 0:
        l = mulc(l, -1)
    return Cond('eq', l)


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c.k == 'not':
        return c.a[0]
    if c.k == 'ge':
        return c_ge(sub(-1, c.a[0]))
    return Cond('not', c)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return a if a == b else Cond('and', a, b)


def c_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return a if a == b else Cond('or', a, b)


def atom(key):
    return Cond('atom', key)
