"""An object that starts asynchronous operations, driven by an abstract event loop: every order of completions (successful or failed) and
of calls by the application is explored to a fixpoint, the states being what the interpreter holds for the object, the operations
pending and the state of the reference model."""
import re
from .run import *
from .bounded import definite

ABORTED, RESET, EOF = 125, 104, 2


class Node:
    __slots__ = ('st', 'pend', 'm', 'trail')

    def __init__(self, st, pend, m, trail):
        self.st, self.pend, self.m, self.trail = st, pend, m, trail


def code(I, v):
    return Rec('std::error_code', {'v': v})


def span_view(I, b):
    """the memory an operation was given, as one view or None"""
    if isinstance(b, Ptr):
        b = I.get(b.loc)
    if isinstance(b, Seq) and len(b.p) == 1 and b.p[0][0] == 'el':
        b = b.p[0][1]
    return b if isinstance(b, View) else None


def deliver(I, st, view, els):
    """store received bytes into the buffer of a read; returns False when that is not resolved"""
    sav, I.st = I.st, st
    try:
        if view is None or view.ptr.loc is None or not isinstance(view.n, int) or view.n < len(els) or not isinstance(view.ptr.off, int):
            return False
        s = I.get(view.ptr.loc)
        if not isinstance(s, Seq):
            return False
        off, total = view.ptr.off, s.len()
        if not isinstance(total, int):
            return False
        head = I.seq_slice(s, 0, off) if off else None
        cnt = len(st.events)
        rest = total - off - len(els)
        # what lies behind the received bytes is left over from earlier reads
        tail = [('src', Src(('stale', cnt), s.ety, ()), 0, rest)] if rest else []
        I.put(view.ptr.loc, s.with_p((list(head.p) if head is not None else []) + [('el', x) for x in els] + tail))
        return True
    finally:
        I.st = sav


def news(st, n):
    return st.events[n:]


def norm(text):
    text = re.sub(r"(rx|stale)[ ,.]+\d+", r'\1', text)
    return re.sub(r'#\d+', '#', text)


def show(v):
    """printed form of a value"""
    return norm(str(v))


def methods(P, cls, name, pred=lambda f: True):
    return [f for f in P.byq.get(f'{cls}::{name}', []) if 'body' in f and pred(f)]


def pname(P, f, i):
    return P.ty(f['p'][i]['t'])['n']


def shape(P, v, full, short, depth=0, name='', enum=False):
    """two descriptions of an object: all of it but large buffers; its flags, functions, enumerators and which of its sequences are empty"""
    if isinstance(v, Rec):
        for k, x in sorted(v.f.items(), key=lambda t: str(t[0])):
            e = False
            if isinstance(k, tuple) and isinstance(k[0], int):
                e = any(P.ty(f['t'])['k'] == 'enum' for f in P.recs[k[0]]['f'] if f['n'] == k[1])
            shape(P, x, full, short, depth + 1, f'{name}.{k[1] if isinstance(k, tuple) else k}', e)
    elif isinstance(v, Seq):
        L = v.len()
        if isinstance(L, int) and L >= 64:
            return
        full.append((name, show(v)))
        if v.kind != 'array':
            short.append((name, L == 0))
    else:
        full.append((name, show(v)))
        if enum or isinstance(v, (bool, Fn, SP, Opt)) or depth <= 1:
            short.append((name, show(v)))
