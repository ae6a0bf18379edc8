"""Helpers shared by the checks: entry states, symbolic arguments, path exploration of one function."""
import sys
from .ir import Program
from .interp import *
from .stl import Models, PathV, pterm
from .values import *
from . import num, summaries
from .num import of, sym, add, sub, mulc

sys.setrecursionlimit(20000)


def make(P, **kw):
    I = Interp(P, Models(P), **kw)
    I.cur = None
    I.summaries = dict(summaries.CALLS)
    I.ctor_summaries = dict(summaries.CTORS)
    return I


def arg(I, tid, key):
    """a parameter location holding an arbitrary value"""
    P = I.P
    if P.ty(tid)['k'] == 'ref':
        return Ptr(Loc(Obj('opaque', key, 0, P.strip(tid)), ()))
    return I.new('param', str(key), tid, I.mk_sym(tid, key))


def this_of(I, f, key='this'):
    return Ptr(Loc(Obj('opaque', key, 0, I.P.rectype(f['r'])), ()))


def func(P, q, pred=lambda f: True):
    fs = [f for f in P.byq.get(q, []) if 'body' in f and pred(f)]
    return fs


def explore(I, f, this=None, args=None, st=None, setup=None):
    st = st if st is not None else I.st

    def go():
        if f.get('kind') == 'ctor':
            q = this if this is not None else I.new('heap', 'object', I.P.rectype(f['r']))
            a = args if args is not None else [arg(I, p['t'], ('arg', i)) for i, p in enumerate(f['p'])]
            I.run_ctor(f, q, a)
            return q
        t = this
        if t is None and f.get('r') is not None and not f.get('static') and f['r'] >= 0:
            t = this_of(I, f)
        a = args if args is not None else [arg(I, p['t'], ('arg', i)) for i, p in enumerate(f['p'])]
        if setup:
            setup(I, t, a)
        return I.call(f, t, a)
    return I.explore(go, st)


# ---- concrete and symbolic arguments ------------------------------------------------------------------------------
def sv(I, text):
    """a string_view over a literal"""
    b = text if isinstance(text, bytes) else text.encode()
    o = Obj('static', 'text ' + repr(b[:24]), ('text', b), None)
    I.st.store[o] = Seq([('lit', b + b'\0')], I.models.char_t(), 'array')
    return View(Ptr(Loc(o, ()), 0, True), len(b))


def string(I, text):
    b = text if isinstance(text, bytes) else text.encode()
    return Seq([('lit', b)], I.models.char_t(), 'string')


def param(I, f, i, v):
    """value v bound to parameter i of f (by value or by reference)"""
    t = f['p'][i]['t']
    return I.new('param', 'arg%d' % i, I.P.strip(t), v)


def text_of(I, v):
    """the concrete bytes of a string, view or C string value, or None"""
    if isinstance(v, View):
        v = I.models.view_seq(I, v)
    elif isinstance(v, Ptr):
        v = I.models.cstr(I, v)
    if isinstance(v, Seq):
        return v.concrete()
    return None


def seq_of(I, v):
    if isinstance(v, View):
        return I.models.view_seq(I, v)
    if isinstance(v, Ptr):
        return I.models.cstr(I, v)
    return v if isinstance(v, Seq) else None
