"""Function summaries: what a call of these /repo functions contributes to the analysis of their callers.  The functions
themselves are analysed on their own by the checks that are about them."""
from . import num
from .num import of, sym
from .values import *


def _args(I, e):
    out = []
    for a in e['a']:
        v = I.ev(a)
        if a.get('lv') and isinstance(v, Ptr):
            try:
                v = I.load(v, a['t'])
            except (KeyError, AttributeError):
                pass
        out.append(v)
    return out


def log(level):
    def h(I, e):
        vals = _args(I, e)
        I.cur = e['l']
        I.event('log', level=level, args=vals)
        return None
    return h


def hexdump(I, e):
    vals = _args(I, e)
    return I.models.str_seq(('hexdump', str(vals)))


def sha1(I, e):
    v = _args(I, e)[0]
    s = I.models.view_seq(I, v) if isinstance(v, View) else v
    et = I.elem_tid(e['t'])
    return Seq([('el', I.mk_sym(et, ('sha1', s, i))) for i in range(5)], et, 'array')


CALLS = {'webfront::log::' + n: log(n) for n in ('info', 'warn', 'error', 'infoHex')}
CALLS['webfront::utils::hexDump'] = hexdump
CALLS['webfront::crypto::sha1'] = sha1
CTORS = {'webfront::log::debug': log('debug')}
