"""Transfer functions for what /repo calls outside itself: the C++ standard library, the networking TS, and opaque user
callbacks.  Each one is the library's documented contract: preconditions become obligations, documented exceptions
become paths, effects on containers are symbolic contents, I/O and user callbacks become events."""
import math
import re
from . import flt, num
from .num import Lin, sym, of, add, sub, mulc, isnum
from .values import *
from .interp import Throw, PathDead, Indefinite, Budget

SEQS = {'std::basic_string': 'string', 'std::vector': 'vector', 'std::list': 'list', 'std::deque': 'vector'}
VIEWS = {'std::basic_string_view', 'std::span', 'std::initializer_list',
         'std::experimental::net::mutable_buffer', 'std::experimental::net::const_buffer'}
NPOS = (1 << 64) - 1
REG = {}


def m(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


NIEBLOID = re.compile(r'std::ranges::(?:__\w+::)?_*([a-z]\w*?|[A-Z]\w*?)_fn::operator\(\)$')


class Call:
    """one external call site"""
    def __init__(self, I, e, name):
        self.I, self.e, self.name = I, e, name
        self.args = e.get('a', [])
        self._o = None

    def obj(self):
        """location of the receiver"""
        if self._o is None:
            I, e = self.I, self.e
            if 'o' in e:
                o = I.ev(e['o'])
                if not e.get('ar') and not e['o'].get('lv'):
                    o = I.temp(o, e['o']['t'])
            else:
                a = self.args[0]
                o = I.ev(a)
                if not a.get('lv'):
                    o = I.temp(o, a['t'])
            if isinstance(o, Ptr):
                o = I.norm(o)
            self._o = o
        return self._o

    def otid(self):
        e = self.e
        if 'o' in e:
            t = e['o']['t']
            if e.get('ar'):
                t = self.I.P.ty(self.I.P.strip(t)).get('to', t)
            return self.I.P.strip(t)
        return self.I.P.strip(self.args[0]['t'])

    def rest(self):
        return self.args if 'o' in self.e else self.args[1:]

    def oval(self):
        I = self.I
        o = self.obj()
        if not isinstance(o, Ptr):
            return o
        return I.load(o, self.otid())

    def setval(self, v):
        self.I.check_live(self.obj(), 'write')
        o = self.obj()
        if o.content:
            self.I.write(o, self.otid(), v)
        else:
            self.I.put(o.loc, v)

    def v(self, i):
        return self.I.rv(self.rest()[i])

    def w(self, i):
        return self.I.rv(self.args[i])

    def ety(self):
        return self.I.elem_tid(self.otid())

    def result(self, key, exact=True):
        t = self.e['t']
        if self.I.P.ty(t)['k'] == 'void':
            return None
        v = self.I.mk_sym(t, key, exact)
        if self.e.get('lv'):
            return self.I.temp(v, self.I.P.strip(t))
        return v


class Models:
    def __init__(self, P):
        self.P = P
        self._sz = None
        self._char = None
        self.cbthrow = False
        self.netthrow = False
        self.fsthrow = None
        self.action = None
        self.hooks = {}

    # ---- interface used by the interpreter ------------------------------------------------------------------------
    def size_t(self, I):
        if self._sz is None:
            self._sz = self.P.find_type(lambda t: t['n'] == 'unsigned long')
        return self._sz

    def unmapped(self, I, hay, needle):
        return unmapped(I, hay, needle)

    def txt_cond(self, I, kind, hay, sets):
        return txt_cond(I, kind, hay, sets)

    def char_t(self):
        if self._char is None:
            self._char = self.P.find_type(lambda t: t['n'] == 'char')
        return self._char

    def double_t(self):
        return self.P.find_type(lambda t: t['n'] == 'double')

    def byte_t(self):
        return self.P.find_type(lambda t: t['n'] in ('std::byte', 'const std::byte'))

    def atom_facts(self, I, key, val):
        if key[0] == 'seqeq' and val:
            a, b = Seq(key[1], None, 'string'), Seq(key[2], None, 'string')
            I.assume(c_eq(sub(a.len(), b.len())))
            for x, y in ((a, b), (b, a)):
                c = x.concrete()
                if c is not None and len(c) <= 64:
                    for i, ch in enumerate(c):
                        z = I.seq_get(y, i)
                        if isnum(z):
                            I.assume(I.compare('==', I.reint(z, self.char_t(), self.char_t()) if False else z, ch))
        elif key[0] == 'contains' and val:
            hay, needle, pos = key[1], key[2], key[3]
            I.assume(c_ge(sub(hay_len(hay), add(pos, hay_len(needle)))))
        elif key[0] == 'txteq' and val:
            I.assume(c_eq(sub(hay_len(key[1]), len(key[2]))))
        elif key[0] == 'txtfind' and val:
            I.assume(c_ge(sub(hay_len(key[1]), len(key[2]))))
        elif key[0] == 'startswith' and val:
            I.assume(c_ge(sub(hay_len(key[1]), hay_len(key[2]))))

    def lazy(self, I, root):
        if root.kind == 'static':
            return self.static_value(I, self.P.vars[root.n], root)
        if root.tid is None:
            return Opq(('obj', root.name))
        if root.kind in ('opaque', 'heap', 'caught'):
            return I.mk_sym(root.tid, ('obj', root.name))
        return I.mk_uninit(root.tid, root.name)

    def str_seq(self, key, n=None, lo=0, hi=MAXLEN, flags=()):
        if n is None:
            n = of(sym(('len', key), lo, hi, 'inexact' not in flags))
        return Seq([('src', Src(key, self.char_t(), flags), 0, n)], self.char_t(), 'string')

    def sym_rec(self, I, tid, rid, key):
        P = self.P
        r = P.recs[rid]
        n = r['name']
        if r.get('repo') and not r.get('union'):
            return Opq(key, tid)
        if r.get('union'):
            return Seq([('src', Src(key, None), 0, r['size'])], None, 'union')
        ta = r.get('ta') or []
        if n in SEQS:
            ety = ta[0]['t']
            return Seq([('src', Src(key, ety), 0, of(sym(('len', key), 0, MAXLEN)))], ety, SEQS[n])
        if n == 'std::array':
            return Seq([('src', Src(key, ta[0]['t']), 0, int(ta[1]['i']))], ta[0]['t'], 'array')
        if n in VIEWS:
            ety = ta[0]['t'] if ta else self.byte_t()
            ln = of(sym(('len', key), 0, MAXLEN))
            o = Obj('opaque', ('data', key), 0, None)
            kind = 'array'
            if o not in I.st.store:
                I.st.store[o] = Seq([('src', Src(key, ety), 0, ln)], ety, kind)
            return View(Ptr(Loc(o, ()), 0, True), ln)
        if n == 'std::optional':
            return Opt(atom(('has', key)), I.mk_sym(ta[0]['t'], ('val', key)))
        if n == 'std::function':
            return Fn(Opq(key, tid))
        if n in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
            return SP(Ptr(Loc(Obj('opaque', ('*', key), 0, ta[0]['t']), ())))
        if n == 'std::filesystem::path':
            return PathV(('sym', key))
        if n == 'std::error_code':
            return Rec(n, {'v': of(sym(('ec', key), -(1 << 31), (1 << 31) - 1))})
        if n in ('std::pair', 'std::tuple'):
            return Rec(n, {i: self.member_sym(I, t['t'], ('tup', key, i)) for i, t in enumerate(ta_list(ta))})
        if n in ('std::map', 'std::unordered_map', 'std::set', 'std::multimap'):
            return Rec(n, {'key': key, 'items': (), 'open': True})
        return Opq(key, tid)

    def member_sym(self, I, tid, key):
        if self.P.ty(tid)['k'] == 'ref':
            return Ptr(Loc(Obj('opaque', ('ref', key), 0, self.P.strip(tid)), ()))
        return I.mk_sym(tid, key)

    def zero_rec(self, I, tid, rid):
        P = self.P
        r = P.recs[rid]
        n = r['name']
        ta = r.get('ta') or []
        if r.get('union'):
            return Seq([('lit', b'\0' * r['size'])], None, 'union')
        if r.get('repo'):
            return Rec(n, {k: I.zero(ft) for k, ft, o, f in P.fields(rid)})
        if n in SEQS:
            return Seq([], ta[0]['t'], SEQS[n])
        if n == 'std::array':
            c = int(ta[1]['i'])
            t = P.ty(ta[0]['t'])
            if t['k'] in ('int', 'enum', 'bool'):
                return Seq([('lit', b'\0' * c)] if t.get('size') == 1 else [('rep', c, 0)], ta[0]['t'], 'array')
            return Seq([('el', I.zero(ta[0]['t'])) for _ in range(c)], ta[0]['t'], 'array')
        if n in VIEWS:
            return View(NULL, 0)
        if n == 'std::optional':
            return Opt(False, UNINIT)
        if n == 'std::function':
            return Fn(None)
        if n in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
            return SP(None)
        if n == 'std::filesystem::path':
            return PathV(('str', Seq([], self.char_t(), 'string')))
        if n == 'std::error_code':
            return Rec(n, {'v': 0})
        if n in ('std::pair', 'std::tuple'):
            return Rec(n, {i: I.zero(t['t']) for i, t in enumerate(ta_list(ta))})
        if n in ('std::map', 'std::unordered_map', 'std::set', 'std::multimap'):
            return Rec(n, {'key': None, 'items': (), 'open': False})
        if n == 'std::basic_ifstream':
            return Rec(n, {'path': None, 'state': 'closed'})
        if n in ('std::basic_stringstream', 'std::basic_ostringstream'):
            return Rec(n, {'out': Seq([], self.char_t(), 'string')})
        return Opq(('zero', n), tid)

    def opaque_call(self, I, target, args):
        key = target.key if isinstance(target, Opq) else str(target)
        if isinstance(target, Opq) and target.key and isinstance(target, Opq):
            d = I.decide(atom(('callable', target)))
            if d is not True:
                if 'empty-call' in I.track:
                    if not I.truth(atom(('callable', target))):
                        raise Throw('std::bad_function_call', None, I.where())
        vals = []
        for v, isref in args:
            vals.append(v)
        cont = []
        for v in vals:
            try:
                cont.append(I.models.view_seq(I, v) if isinstance(v, View) else None)
            except (PathDead, Throw, KeyError):
                cont.append(None)
        I.event('callback', target=key, args=vals, content=cont)
        if self.action:                                     # what the application's function does with the library
            self.action(I, key)
        if self.cbthrow is True and I.choose(2) == 1:
            raise Throw('user-exception(std)', None, I.where())
        if isinstance(self.cbthrow, (list, tuple)):          # exceptions the application's functions may raise
            n = I.choose(1 + len(self.cbthrow))
            if n:
                t = self.cbthrow[n - 1]
                raise Throw(t if isinstance(t, str) else t[0], None, I.where(), None if isinstance(t, str) else t[1])
        return Opq(('ret', key, len(I.st.events)))

    def moved_from(self, I, v):
        if isinstance(v, Seq) and v.kind in ('string', 'vector', 'list'):
            return v.with_p([])
        if isinstance(v, Fn):
            return Fn(None)
        if isinstance(v, SP):
            return SP(None)
        if isinstance(v, Rec):
            f = {k: self.moved_from(I, x) for k, x in v.f.items()}
            return Rec(v.rn, f)
        if isinstance(v, Opt):
            return Opt(v.has, self.moved_from(I, v.val))
        if isinstance(v, Clo):
            return v
        return v

    def apv(self, I, a, tid):
        """a constant-evaluated value"""
        P = self.P
        tid = P.strip(tid)
        t = P.ty(tid)
        if a is None:
            return None
        if t['k'] == 'bool':
            return bool(int(a)) if isinstance(a, (str, int)) else None
        if t['k'] in ('int', 'enum'):
            return int(a) if isinstance(a, (str, int)) else None
        if t['k'] == 'flt':
            return Flt(('const', a))
        if t['k'] == 'ptr':
            if isinstance(a, dict) and 'str' in a:
                b = bytes.fromhex(a['str']['hex'] if isinstance(a['str'], dict) else a['hex'] if 'hex' in a else a['str'])
                o = Obj('lit', 'literal ' + repr(b[:24]), b, None)
                I.st.store[o] = Seq([('lit', b + b'\0')], self.char_t(), 'array')
                return Ptr(Loc(o, ()), int(a.get('off', 0)), True)
            if isinstance(a, dict) and 'var' in a:
                q = I.static(a['var'])
                return Ptr(q.loc, int(a.get('off', 0)), True)
            return None
        if t['k'] == 'arr' or (t['k'] == 'rec' and P.recs[t['r']]['name'] == 'std::array'):
            if t['k'] == 'rec':
                ety, n = P.recs[t['r']]['ta'][0]['t'], int(P.recs[t['r']]['ta'][1]['i'])
                if isinstance(a, dict) and 's' in a:
                    a = a['s'][0]
            else:
                ety, n = t['of'], t.get('len', 0)
            return self.apv_arr(I, a, ety, n)
        if t['k'] == 'rec':
            r = P.recs[t['r']]
            if isinstance(a, dict) and 's' in a:
                if r.get('repo'):
                    f = {}
                    i = 0
                    bs = a.get('b', [])
                    for bi, b in enumerate(r.get('b', [])):
                        bv = self.apv(I, bs[bi], b['t']) if bi < len(bs) else None
                        if isinstance(bv, Rec):
                            f.update(bv.f)
                    for fd, x in zip(r.get('f', []), a['s']):
                        v = self.apv(I, x, fd['t'])
                        f[(t['r'], fd['n'])] = v if v is not None else I.mk_sym(fd['t'], ('static', fd['n'], str(x)))
                    return Rec(r['name'], f)
                if r['name'] == 'std::span' and isinstance(a['s'][0], dict):
                    p = None
                    if 'var' in a['s'][0]:
                        p = Ptr(I.static(a['s'][0]['var']).loc, int(a['s'][0].get('off', 0)), True)
                    n = a['s'][1]['s'][0] if len(a['s']) > 1 and isinstance(a['s'][1], dict) and a['s'][1].get('s') else r['ta'][1]['i']
                    if p is not None:
                        return View(p, int(n))
                if r['name'] == 'std::pair' and len(a['s']) == 2:
                    xs = [self.apv(I, x, y['t']) for x, y in zip(a['s'], r['ta'])]
                    return Rec('std::pair', {0: xs[0] if xs[0] is not None else I.mk_sym(r['ta'][0]['t'], ('static', 'first', str(a))),
                                             1: xs[1] if xs[1] is not None else I.mk_sym(r['ta'][1]['t'], ('static', 'second', str(a)))})
                if r['name'] == 'std::basic_string_view':
                    n, p = None, None
                    for x in a['s']:
                        if isinstance(x, dict) and 'str' in x:
                            b = bytes.fromhex(x['str'])
                            o = Obj('lit', 'literal ' + repr(b[:24]), b, None)
                            I.st.store[o] = Seq([('lit', b + b'\0')], self.char_t(), 'array')
                            p = Ptr(Loc(o, ()), int(x.get('off', 0)), True)
                        elif isinstance(x, dict) and 'var' in x:
                            p = Ptr(I.static(x['var']).loc, int(x.get('off', 0)), True)
                        elif isinstance(x, str):
                            n = int(x)
                    if p is not None and n is not None:
                        return View(p, n)
                    if n == 0:
                        return View(NULL, 0)
        return None

    def apv_arr(self, I, a, ety, n):
        P = self.P
        if isinstance(a, dict) and 'hex' in a and 'w' in a:
            w = max(1, a['w'] // 8)
            b = bytes.fromhex(a['hex'])
            b += b'\0' * (n * w - len(b))
            if w == 1:
                return Seq([('lit', b)], ety, 'array')
            sg = P.ty(ety).get('s')
            return Seq([('el', int.from_bytes(b[i * w:(i + 1) * w], 'big', signed=bool(sg))) for i in range(n)], ety, 'array')
        if isinstance(a, dict) and 'str' in a:
            b = bytes.fromhex(a['str'])
            return Seq([('lit', (b + b'\0' * n)[:n])], ety, 'array')
        if isinstance(a, dict) and 'hex' in a:
            b = bytes.fromhex(a['hex'])
            return Seq([('lit', (b + b'\0' * n)[:n])], ety, 'array')
        if isinstance(a, dict) and 'a' in a:
            out = []
            for x in a['a']:
                v = self.apv(I, x, ety)
                if v is None:
                    v = I.mk_sym(ety, ('static-el', len(out), str(x)))
                out.append(v)
            if P.ty(ety).get('size') == 1 and all(isinstance(x, int) and not isinstance(x, bool) for x in out):
                return Seq([('lit', bytes(x & 255 for x in out) + b'\0' * (n - len(out)))], ety, 'array')
            ps = [('el', x) for x in out]
            if n > len(out):
                ps.append(('rep', n - len(out), I.zero(ety)))
            return Seq(ps, ety, 'array')
        return None

    def static_value(self, I, var, obj):
        P = self.P
        if var.get('apv') is not None:
            v = self.apv(I, var['apv'], var['t'])
            if v is not None:
                return v
        t = P.ty(P.strip(var['t']))
        const = bool(t.get('c')) or var.get('cx') or getattr(I, 'fresh', False)
        if not const:
            return I.mk_sym(P.strip(var['t']), ('static', var['q']))
        if var.get('init') is not None:
            # constant initialiser that the front end did not fold: evaluate it once
            q = I.new('temp', 'static-init', var['t'])
            try:
                I.init_at(var['init'], q, var['t'])
                return I.get(q.loc)
            except (Throw, Indefinite):
                pass
        if getattr(I, 'fresh', False):
            return I.zero(P.strip(var['t']))
        return I.mk_sym(P.strip(var['t']), ('static', var['q']))

    def exc_value(self, I, t):
        return Rec(t.tname, {'what': self.str_seq(('what', t.tname, t.where))})

    def range_of(self, I, r, v, t):
        ety = I.elem_tid(t)
        if v is None:
            v = I.load(r, t)
        if isinstance(v, View):
            return v.ptr, v.n, ety
        if isinstance(v, Seq):
            return Ptr(r.loc, 0, True), v.len(), v.ety if v.ety is not None else ety
        if isinstance(v, Rec) and 'items' in v.f:
            rn = self.P.recname(t)
            et = ety if rn in ('std::set',) else None
            n = len(v.f['items']) if not v.f['open'] else of(sym(('size', v.f['key'], v.f['items']), 0, MAXLEN))
            return None, n, et
        if isinstance(v, Opq):
            return None, of(sym(('size', v.key), 0, MAXLEN)), ety
        I.taint('range over ' + type(v).__name__)
        return None, of(sym(('size', str(v)), 0, MAXLEN, False)), ety

    def range_convert(self, I, val, q, ety, vt):
        if ety is None:
            return val
        a, b = self.P.recname(ety), self.P.recname(vt)
        if a == b:
            return val
        if b in VIEWS and isinstance(val, Seq):
            return View(Ptr(q.loc, 0, True), val.len())
        if b == 'std::basic_string_view' and isinstance(val, Ptr):
            s = self.cstr(I, val)
            return View(val, s.len())
        if b == 'std::basic_string' and isinstance(val, (Ptr, View)):
            return self.to_seq(I, val)
        return val

    # ---- helpers -----------------------------------------------------------------------------------------------------
    def cstr(self, I, p):
        """the characters of a NUL-terminated string at p"""
        if isinstance(p, Seq):
            return p
        if isinstance(p, View):
            return self.view_seq(I, p)
        if not isinstance(p, Ptr) or p.loc is None:
            return self.str_seq(('cstr', str(p)))
        I.check_live(p, 'read of a C string')
        s = I.get(p.loc)
        if isinstance(s, Seq):
            c = s.concrete()
            if c is not None and isinstance(p.off, int):
                if s.kind == 'string':
                    c += b'\0'
                z = c.find(b'\0', p.off)
                I.oblige('unterminated-string', z >= 0, f'{p} is NUL-terminated')
                return Seq([('lit', c[p.off:z])], self.char_t(), 'string')
            if s.kind == 'string' and p.off == 0:
                return s
        if p.loc.root.kind == 'opaque':
            return self.str_seq(('cstr', p.loc, p.off))
        if isinstance(s, Seq):
            # not provably terminated inside the object
            I.oblige('unterminated-string', atom(('terminated', s, p.off)), f'{p} is NUL-terminated')
        return self.str_seq(('cstr', p.loc, p.off))

    def view_seq(self, I, v):
        """contents of a view as a Seq of its elements"""
        if v.ptr.loc is None:
            return Seq([], self.char_t(), 'string')
        if v.n != 0:
            I.check_live(v.ptr, 'read through a view')
        base = I.get(v.ptr.loc)
        if v.ptr.content and isinstance(base, Seq):
            es = I.es_of(base.ety)
            if es == 1:
                self.view_bounds(I, v, base, 1)
                s = I.seq_slice(base, v.ptr.off, v.n)
                return Seq(s.p, s.ety, 'string')
            off = v.ptr.off // es if isinstance(v.ptr.off, int) else num.div(v.ptr.off, es)
            s = I.seq_slice(base, off, v.n)
            return Seq(s.p, base.ety, 'vector')
        if not v.ptr.content and isinstance(v.n, int) and isinstance(v.ptr.off, int) and v.n <= 4096:
            ot = I.loc_tid(v.ptr.loc)
            if ot is not None:
                size = self.P.size(ot)
                I.oblige('out-of-bounds', size is None or v.ptr.off + v.n <= size, f'view of {v.n} bytes over a {size}-byte object')
                return Seq([('el', b) for b in I.obj_bytes(base, ot, v.ptr.off, v.n)], self.char_t(), 'string')
        return Seq([('src', Src(('bytes', v.ptr, base), self.char_t()), 0, v.n)], self.char_t(), 'string')

    def view_bounds(self, I, v, base, es):
        if v.n == 0:
            return
        L = mulc(base.len(), I.es_of(base.ety))
        if base.kind == 'string':
            pass
        I.oblige('out-of-bounds', c_and(c_ge(v.ptr.off), c_ge(sub(L, add(v.ptr.off, mulc(v.n, es))))), f'view [{v.ptr.off}, +{v.n}) of a buffer of {L}')

    def to_seq(self, I, v, tid=None):
        if isinstance(v, Seq):
            return v
        if isinstance(v, View):
            return self.view_seq(I, v)
        if isinstance(v, Ptr):
            if tid is not None and self.P.rid(tid) is not None or (v.loc is not None and not v.content):
                x = I.load(v, tid) if tid is not None and self.P.ty(self.P.strip(tid))['k'] == 'rec' else I.get(v.loc)
                if isinstance(x, (Seq, View)):
                    return self.to_seq(I, x)
            return self.cstr(I, v)
        if isnum(v):
            return Seq([('lit', bytes([v & 255])) if isinstance(v, int) else ('el', I.uns(v, 8))], self.char_t(), 'string')
        if isinstance(v, Opq):
            return self.str_seq(('of', v.key))
        return self.str_seq(('of', str(v)), flags=('inexact',))

    def arg_seq(self, I, a):
        """contents of a string-like argument expression"""
        v = I.ev(a)
        if a.get('lv'):
            t = self.P.ty(self.P.strip(a['t']))
            if t['k'] == 'rec':
                return self.to_seq(I, I.load(I.norm(v), a['t']))
            if t['k'] == 'arr':
                return self.cstr(I, Ptr(v.loc, v.off, True))
            return self.to_seq(I, I.load(v, a['t']))
        return self.to_seq(I, v)

    def elems(self, I, base, first, n, es):
        """n elements starting at pointer first"""
        return self.view_seq(I, View(first, n))

    def iter_base(self, v):
        return v

    def unknown(self, c):
        I = c.I
        I.taint('call ' + c.name)
        if 'o' in c.e:
            c.obj()
        for a in c.args:
            v = I.ev(a)
            # an unknown callee may write through reference/pointer arguments
            t = self.P.ty(a['t'])
            tgt = None
            if a.get('lv') and not t.get('c') and isinstance(v, Ptr):
                tgt = v
            if tgt is not None and tgt.loc is not None and tgt.loc.root.kind not in ('lit', 'static') and tgt.loc.root in I.st.store and not t['k'] == 'rec':
                I.put(tgt.loc, I.mk_sym(a['t'], ('clobber', c.name, tuple(c.e['l'])), False)) if not tgt.content else None
        return c.result(('ret', c.name, tuple(c.e['l']), I.st.cnt), False)

    def call(self, I, e, name):
        c = Call(I, e, name)
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, c)
            if r is not NotImplemented:
                return r
        nb = NIEBLOID.match(name)
        if nb and 'std::' + nb.group(1) in REG:
            a = list(e.get('a', [])) if 'o' in e else list(e.get('a', []))[1:]
            name = 'std::' + nb.group(1)
            e = {k: v for k, v in e.items() if k not in ('o', 'ar')}
            e['a'] = [x for x in a if not x.get('dfa')]
            c = Call(I, e, name)
        f = REG.get(name)
        if f is None and name.startswith('std::ranges::'):
            f = REG.get('std::' + name[len('std::ranges::'):])
        if f is None:
            return self.unknown(c)
        try:
            r = f(self, c)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as x:
            if isinstance(x, RecursionError):
                raise
            # a model that meets values it was not made for: the call is treated like one of an unknown function
            I.taint(f'{name}: {type(x).__name__}')
            r = NotImplemented
        if r is NotImplemented:
            return self.unknown(c)
        return r

    # ---- constructors -----------------------------------------------------------------------------------------------
    def construct(self, I, e, rec, q):
        P = self.P
        n = rec['name']
        a = e['a']
        cm = e.get('cm')
        tid = e['t']
        if cm in ('copy', 'move') and len(a) >= 1:
            v = I.ev(a[0])
            if a[0].get('lv'):
                v = I.copy_from(v, a[0]['t'], cm == 'move')
            if n == 'std::experimental::net::ip::tcp::socket' and cm == 'move':
                I.event('socket-move', src=v)
            return v
        if rec.get('lambda'):
            return I.rv(a[0]) if a else Opq(('lambda',))
        if not a:
            return self.zero_rec(I, tid, rec['id'])
        real = [x for x in a if not (P.recname(x['t']) == 'std::allocator')]
        ta = rec.get('ta') or []
        if n == 'std::basic_string':
            if len(real) == 0:
                return Seq([], self.char_t(), 'string')
            t0 = P.ty(P.strip(real[0]['t']))
            if len(real) == 1:
                return Seq(self.arg_seq(I, real[0]).p, self.char_t(), 'string')
            if t0['k'] == 'ptr' and len(real) == 2 and P.ty(P.strip(real[1]['t']))['k'] == 'int':
                p, cnt = I.rv(real[0]), I.rv(real[1])
                return Seq(self.view_seq(I, View(p, cnt)).p, self.char_t(), 'string')
            if t0['k'] == 'int' and len(real) == 2:
                cnt, ch = I.rv(real[0]), I.rv(real[1])
                return Seq([('rep', cnt, ch)], self.char_t(), 'string')
            if len(real) == 2:   # iterator pair
                b, en = I.rv(real[0]), I.rv(real[1])
                if isinstance(b, Ptr) and isinstance(en, Ptr) and b.loc == en.loc:
                    return Seq(self.view_seq(I, View(b, sub(en.off, b.off))).p, self.char_t(), 'string')
            if len(real) == 3 and n == 'std::basic_string':
                s = self.arg_seq(I, real[0])
                pos, cnt = I.rv(real[1]), I.rv(real[2])
                return self.substr(I, s, pos, cnt)
        if n == 'std::basic_string_view':
            if len(a) == 1:
                t0 = P.ty(P.strip(a[0]['t']))
                if t0['k'] == 'rec':
                    v = I.ev(a[0])
                    v2 = I.load(I.norm(v), a[0]['t']) if a[0].get('lv') else v
                    if isinstance(v2, View):
                        return v2
                    if isinstance(v2, Seq):
                        p = I.norm(v) if a[0].get('lv') else I.temp(v, a[0]['t'])
                        return View(Ptr(p.loc, 0, True), v2.len())
                p = I.rv(a[0])
                return View(p, self.cstr(I, p).len())
            if len(a) == 2:
                p = I.rv(a[0])
                t1 = P.ty(P.strip(a[1]['t']))
                x = I.rv(a[1])
                if t1['k'] == 'int' and isnum(x):
                    return View(p, x)
                if isinstance(x, Ptr) and isinstance(p, Ptr) and x.loc == p.loc:
                    return View(p, sub(x.off, p.off))
        if n == 'std::span':
            ety = ta[0]['t']
            if len(a) == 1:
                v = I.ev(a[0])
                if a[0].get('lv'):
                    p = I.norm(v)
                    x = I.load(p, a[0]['t'])
                    if isinstance(x, View):
                        return x
                    if isinstance(x, Seq):
                        return View(Ptr(p.loc, 0, True), x.len())
                elif isinstance(v, View):
                    return v
                elif isinstance(v, Seq):
                    p = I.temp(v, a[0]['t'])
                    return View(Ptr(p.loc, 0, True), v.len())
            if len(a) == 2:
                p, x = I.rv(a[0]), I.rv(a[1])
                if isnum(x) and isinstance(p, Ptr):
                    return View(p, x)
                if isinstance(x, Ptr) and isinstance(p, Ptr) and x.loc == p.loc:
                    es = I.es_of(ety)
                    return View(p, num.div(sub(x.off, p.off), es))
        if n == 'std::vector':
            ety = ta[0]['t']
            if P.ty(P.strip(real[0]['t']))['k'] == 'int':
                cnt = I.rv(real[0])
                self.allocation(I, cnt)
                if len(real) == 2:
                    return Seq([('rep', cnt, I.rv(real[1]))], ety, 'vector')
                t = P.ty(ety)
                z = I.zero(ety)
                return Seq([('rep', cnt, z)], ety, 'vector')
            if P.recname(real[0]['t']) == 'std::initializer_list':
                s = self.to_seq(I, I.rv(real[0]))
                return Seq(s.p, ety, 'vector')
            if len(real) == 2:
                b, en = I.rv(real[0]), I.rv(real[1])
                if isinstance(b, Ptr) and isinstance(en, Ptr) and b.loc == en.loc:
                    es = I.es_of(ety)
                    return Seq(self.view_seq(I, View(b, num.div(sub(en.off, b.off), es))).p, ety, 'vector')
        if n == 'std::optional' and len(real) == 1:
            if P.recname(real[0]['t']) == 'std::nullopt_t':
                return Opt(False, UNINIT)
            t = ta[0]['t']
            if P.recname(real[0]['t']) == 'std::in_place_t':
                return Opt(True, I.zero(t))
            tmp = I.new('temp', 'optional-value', t)
            self.convert_into(I, real[0], tmp, t)
            return Opt(True, I.get(tmp.loc))
        if n == 'std::function' and len(real) == 1:
            v = I.ev(real[0])
            if isinstance(v, Ptr) and real[0].get('lv'):
                v = I.load(I.norm(v), real[0]['t'])
            if isinstance(v, (Clo, FRef)):
                return Fn(v)
            if isinstance(v, Fn):
                return v
            if v == NULL:
                return Fn(None)
            if isinstance(v, Rec) and P.call_ops(P.rid(P.strip(real[0]['t']))):
                return Fn(Functor(P.rid(P.strip(real[0]['t'])), v))
            if isinstance(v, Rec):
                return Fn(Opq(('functor', v.rn, I.st.cnt)))
            return Fn(Opq(('functor', str(v))))
        if n in ('std::shared_ptr', 'std::unique_ptr'):
            v = I.rv(real[0])
            if isinstance(v, SP):
                return v
            if isinstance(v, Ptr):
                return SP(v if v.loc is not None else None)
        if n == 'std::filesystem::path':
            t0 = P.recname(real[0]['t'])
            return PathV(('str', self.arg_seq(I, real[0])))
        if n == 'std::error_code':
            v = I.rv(real[0])
            return Rec(n, {'v': v if isnum(v) else of(sym(('ecv', str(v)), -(1 << 31), (1 << 31) - 1))})
        if n in ('std::pair', 'std::tuple'):
            ts = [t['t'] for t in ta_list(ta)]
            if len(real) == len(ts):
                f = {}
                for i, (x, t) in enumerate(zip(real, ts)):
                    if P.ty(t)['k'] == 'ref':
                        v = I.ev(x)
                        f[i] = I.norm(v) if isinstance(v, Ptr) else I.temp(v, x['t'])
                    else:
                        tmp = I.new('temp', 'tuple-el', t)
                        self.convert_into(I, x, tmp, t)
                        f[i] = I.get(tmp.loc)
                return Rec(n, f)
            if len(real) == 1:
                v = I.rv(real[0])
                if isinstance(v, Rec):
                    return v
        if n in ('std::experimental::net::mutable_buffer', 'std::experimental::net::const_buffer'):
            if len(a) == 2:
                return View(I.rv(a[0]), I.rv(a[1]))
            if len(a) == 1:
                return I.rv(a[0])
        if n in ('std::runtime_error', 'std::logic_error', 'std::invalid_argument', 'std::out_of_range', 'std::length_error', 'std::domain_error'):
            return Rec(n, {'what': self.arg_seq(I, real[0])})
        if n == '__gnu_cxx::__normal_iterator':
            return I.rv(a[0])
        if n == 'std::basic_ifstream':
            self.open_file(I, self.path_of(I, a[0]))
            return Rec(n, {'path': self.path_of(I, a[0]), 'state': 'opened'})
        if n.startswith('std::experimental::net'):
            for x in a:
                I.ev(x)
            return Opq((n, I.st.cnt), tid)
        if n in ('std::basic_stringstream', 'std::basic_ostringstream'):
            vals = [I.rv(x) for x in a]
            if not [x for x in real if not x.get('dflt')]:
                return I.zero(tid)
            return Opq((n, I.st.cnt), tid)
        if n == 'std::basic_format_args' and len(a) == 1:
            v = I.ev(a[0])
            if isinstance(v, Ptr) and a[0].get('lv'):
                v = I.load(v, a[0]['t'])
            return v if isinstance(v, Rec) else Opq((n,), tid)
        if n == 'std::basic_format_string' and len(a) == 1:
            v = I.ev(a[0])
            if isinstance(v, Ptr) and a[0].get('lv') and I.P.ty(I.P.strip(a[0]['t']))['k'] == 'rec':
                v = I.load(v, a[0]['t'])
            fs = v.f.get('fmt') if isinstance(v, Rec) else v if isinstance(v, Seq) else self.view_seq(I, v) if isinstance(v, View) else self.cstr(I, v) if isinstance(v, Ptr) else None
            return Rec('std::format_string', {'fmt': fs})
        if n in ('std::basic_format_string', 'std::basic_format_args', 'std::allocator', 'std::initializer_list', 'std::integer_sequence'):
            for x in a:
                I.ev(x)
            return Opq((n,), tid)
        if n == 'std::enable_shared_from_this':
            return Opq((n,), tid)
        I.taint('constructor ' + n)
        for x in a:
            I.ev(x)
        return I.mk_sym(tid, ('ctor', n, tuple(e['l']), I.st.cnt), False)

    def map_items(self, v):
        return map_items(v)

    def convert_into(self, I, x, q, t):
        """initialise q (type t) from argument expression x whose type may differ (implicit conversions inside std)"""
        P = self.P
        xt, tt = P.ty(P.strip(x['t'])), P.ty(P.strip(t))
        if xt['k'] == 'rec' and tt['k'] == 'rec' and P.recs[xt['r']]['name'] != P.recs[tt['r']]['name']:
            v = I.rv(x)
            tn = P.recs[tt['r']]['name']
            if tn == 'std::basic_string':
                v = Seq(self.to_seq(I, v).p, self.char_t(), 'string')
            elif tn in VIEWS and isinstance(v, Seq):
                v0 = I.ev(x)
                v = View(Ptr(v0.loc, 0, True), v.len()) if isinstance(v0, Ptr) else v
            I.put(q.loc, v)
            return
        if tt['k'] == 'rec' and xt['k'] in ('ptr', 'arr'):
            tn = P.recs[tt['r']]['name']
            if tn == 'std::basic_string':
                I.put(q.loc, Seq(self.arg_seq(I, x).p, self.char_t(), 'string'))
                return
            if tn == 'std::basic_string_view':
                v = I.ev(x)
                p = Ptr(v.loc, v.off, True) if x.get('lv') and xt['k'] == 'arr' else I.rv(x)
                I.put(q.loc, View(p, self.cstr(I, p).len()))
                return
        if tt['k'] in ('int', 'bool', 'enum', 'flt'):
            v = I.rv(x)
            I.put(q.loc, I.convert(v, x['t'], t))
            return
        if x.get('lv'):
            v = I.ev(x)
            I.put(q.loc, I.copy_from(v, x['t'], x.get('k') == 'call' and x.get('f', {}).get('n') in ('std::move', 'std::forward') and False))
            return
        I.init_at(x, q, t)

    def allocation(self, I, n):
        if 'alloc' in I.track:
            lim = I.track['alloc']
            I.event('alloc', n=n)
            if not I.truth(c_ge(sub(lim, n))):
                raise Throw('std::length_error', None, I.where())

    def substr(self, I, s, pos, cnt, view=None):
        L = s.len() if view is None else view.n
        if not I.truth(c_ge(sub(L, pos))):
            raise Throw('std::out_of_range', None, I.where())
        left = sub(L, pos)
        if isinstance(cnt, int) and cnt == NPOS:
            n = left
        elif I.truth(c_ge(sub(left, cnt))):
            n = cnt
        else:
            n = left
        if view is not None:
            return View(view.ptr.plus(pos), n)
        r = I.seq_slice(s, pos, n)
        return Seq(r.p, s.ety, s.kind)

    def path_of(self, I, a):
        v = I.rv(a)
        if isinstance(v, PathV):
            return v
        if isinstance(v, Opq):
            return PathV(('sym', v.key))
        return PathV(('str', self.to_seq(I, v)))

    def open_file(self, I, p):
        I.event('file-open', path=p)

    def find(self, I, hay, needle, pos, start_ptr=None):
        """position of needle in hay from pos, or None"""
        ch, cn = hay.concrete(), needle.concrete()
        if ch is not None and cn is not None and isinstance(pos, int):
            r = ch.find(cn, pos)
            return None if r < 0 else r
        um = unmapped(I, hay, needle) if pos == 0 else None
        if um is not None:
            if not I.truth(txt_cond(I, 'txtfind', *um)):
                return None
            r = of(sym(('find', hay.p, needle.p, pos), 0, MAXLEN))
            I.assume(c_ge(sub(sub(hay.len(), needle.len()), r)))
            return r
        hn, nn = hay.len(), needle.len()
        if isinstance(hn, int) and isinstance(nn, int) and isinstance(pos, int) and hn <= 80 and nn <= 8:
            he, ne = [I.seq_get(hay, i) for i in range(hn)], [I.seq_get(needle, i) for i in range(nn)]
            if all(isnum(x) for x in he + ne):
                for i in range(pos, hn - nn + 1):
                    c = True
                    for j in range(nn):
                        c = c_and(c, c_eq(sub(he[i + j], ne[j])))
                    if I.truth(c):
                        return i
                return None
        if I.decide(c_ge(sub(hay.len(), add(pos, needle.len())))) is False:
            return None
        key = ('contains', hay.p, needle.p, pos)
        if I.decide(atom(('contains', hay.p, needle.p, 0))) is False:
            return None
        if I.truth(atom(key)):
            r = of(sym(('find', hay.p, needle.p, pos), 0, MAXLEN))
            I.assume(c_ge(sub(r, pos)))
            I.assume(c_ge(sub(sub(hay.len(), needle.len()), r)))
            return r
        return None


class PathV(V):
    """a filesystem path as the term that built it"""
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def _key(self):
        return (self.t,)
    def __repr__(self):
        return 'path:' + pterm(self.t)


def pterm(t):
    if t[0] == 'str':
        return repr(t[1])
    if t[0] == 'sym':
        return '<' + fmt(t[1]) + '>'
    return t[0] + '(' + ', '.join(pterm(x) for x in t[1:]) + ')'


def hay_len(p):
    n = 0
    for x in p:
        n = add(n, plen(x))
    return n


def ta_list(ta):
    out = []
    for x in ta:
        if 'p' in x and isinstance(x['p'], list):
            out += [y for y in x['p'] if 't' in y]
        elif 't' in x:
            out.append(x)
    return out


# ---- small values ----------------------------------------------------------------------------------------------------
@m('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::launder', 'std::move_if_noexcept')
def _(M, c):
    a = c.args[0]
    v = c.I.ev(a)
    if not a.get('lv') and c.e.get('lv'):
        return c.I.temp(v, a['t'])
    return v


@m('std::swap')
def _(M, c):
    I = c.I
    p, q = I.norm(I.ev(c.args[0])), I.norm(I.ev(c.args[1]))
    a, b = I.load(p, c.args[0]['t']), I.load(q, c.args[1]['t'])
    I.write(p, c.args[0]['t'], b)
    I.write(q, c.args[1]['t'], a)


@m('std::exchange')
def _(M, c):
    I = c.I
    p = I.norm(I.ev(c.args[0]))
    old = I.load(p, c.args[0]['t'])
    tmp = I.new('temp', 'new', I.P.strip(c.args[0]['t']))
    M.convert_into(I, c.args[1], tmp, I.P.strip(c.args[0]['t']))
    I.write(p, c.args[0]['t'], I.get(tmp.loc))
    return old


@m('std::to_integer')
def _(M, c):
    return c.I.convert(c.w(0), c.args[0]['t'], c.e['t'])


@m('std::to_underlying')
def _(M, c):
    return c.w(0)


@m('std::bit_cast')
def _(M, c):
    I = c.I
    a = c.args[0]
    v = I.rv(a)
    bs = I.obj_bytes(v, I.P.strip(a['t']), 0, I.P.size(I.P.strip(a['t'])))
    t = I.P.ty(I.P.strip(c.e['t']))
    if t['k'] in ('int', 'enum', 'flt', 'bool'):
        return I.compose(bs, c.e['t'])
    if I.P.recname(c.e['t']) == 'std::array':
        return Seq([('el', b) for b in bs], I.elem_tid(c.e['t']), 'array') if I.es_of(I.elem_tid(c.e['t'])) == 1 else NotImplemented
    return NotImplemented


@m('std::byteswap')
def _(M, c):
    I = c.I
    v = c.w(0)
    return I.compose(list(reversed(I.bytes_of(v, c.e['t']))), c.e['t'])


def byte_bin(op):
    def f(M, c):
        I = c.I
        if len(c.args) != 2:
            return NotImplemented
        t0 = I.P.ty(I.P.strip(c.args[0]['t']))
        if t0['k'] != 'enum':
            return NotImplemented
        a, b = c.w(0), c.w(1)
        if not isnum(a) or not isnum(b):
            return I.mk_sym(c.e['t'], ('op', op, a, b), False)
        if op in ('<<', '>>'):
            if isinstance(b, int):
                return num.mod(mulc(a, 1 << b), 256, I.bnd) if op == '<<' else num.div(a, 1 << b, I.bnd)
            k = I.shift_amount(b, 32)
            return num.mod(mulc(a, 1 << k), 256, I.bnd) if op == '<<' else num.div(a, 1 << k, I.bnd)
        return {'&': I.band, '|': I.bor, '^': I.bxor}[op](a, b, 8)
    return f


def byte_asg(op):
    def f(M, c):
        I = c.I
        if I.P.ty(I.P.strip(c.args[0]['t']))['k'] != 'enum':
            return NotImplemented
        b = I.rv(c.args[1])
        p = I.ev(c.args[0])
        a = I.load(p, c.args[0]['t'])
        if not isnum(a) or not isnum(b):
            r = I.mk_sym(c.args[0]['t'], ('op', op, a, b), False)
        elif op in ('<<', '>>'):
            k = b if isinstance(b, int) else I.shift_amount(b, 32)
            r = num.mod(mulc(a, 1 << k), 256, I.bnd) if op == '<<' else num.div(a, 1 << k, I.bnd)
        else:
            r = {'&': I.band, '|': I.bor, '^': I.bxor}[op](a, b, 8)
        I.write(p, c.args[0]['t'], r)
        return p
    return f


for _op in ('&', '|', '^', '>>'):
    REG['std::operator' + _op] = byte_bin(_op)
for _op in ('&', '|', '^', '<<', '>>'):
    REG['std::operator' + _op + '='] = byte_asg(_op)


@m('std::operator<<')
def _(M, c):
    I = c.I
    t0 = I.P.ty(I.P.strip(c.args[0]['t']))
    if t0['k'] == 'enum':
        return byte_bin('<<')(M, c)
    return stream_out(M, c)


@m('std::operator~')
def _(M, c):
    return sub(255, c.w(0))


@m('std::basic_ostream::operator<<')
def stream_out(M, c):
    I = c.I
    if 'o' in c.e:
        p = I.ev(c.e['o'])
        rest = c.args
    else:
        p = I.ev(c.args[0])
        rest = c.args[1:]
    for a in rest:
        v = I.ev(a)
        if a.get('lv') and isinstance(v, Ptr) and I.P.ty(I.P.strip(a['t']))['k'] not in ('fn',):
            v = I.load(v, a['t'])
        t = I.P.ty(I.P.strip(a['t']))
        q = None
        if isinstance(v, Ptr) and t['k'] in ('ptr', 'arr') and (t.get('to') is not None or t.get('of') is not None):
            tn = I.P.ty(I.P.strip(t.get('to', t.get('of'))))['n']
            if tn in ('const char', 'char'):
                q = M.cstr(I, v)
        if isinstance(p, Ptr) and p.loc is not None and p.loc.root.kind not in ('static', 'opaque'):
            x = I.get(p.loc)
            if isinstance(x, Rec) and 'out' in x.f:
                I.put(p.loc, stream_put(M, I, x, v, q, I.P.strip(a['t']), tuple(c.e['l'])))
    return p


MANIP = {'hex': ('base', 16), 'dec': ('base', 10), 'oct': ('base', 8), 'uppercase': ('upper', True), 'nouppercase': ('upper', False),
         'left': ('adj', 'l'), 'right': ('adj', 'r'), 'showbase': ('?', 0), 'boolalpha': ('?', 0)}


def digits_of(I, v, base, width, fill, upper, adj='r'):
    """the characters a non-negative number prints as: a list of pieces, or None"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        t = format(abs(v), {16: 'x', 10: 'd', 8: 'o', 2: 'b'}[base])
        t = ('-' if v < 0 else '') + t
        t = t.upper() if upper else t
        if len(t) < width:
            t = t.rjust(width, fill) if adj == 'r' else t.ljust(width, fill)
        return [('lit', t.encode('latin1'))]
    if isnum(v):
        lo, hi = num.interval(v, I.bnd)
        if lo is not None and hi is not None and lo >= 0 and hi < 1 << 16 and isinstance(fill, str):
            d = b'0123456789ABCDEF' if upper else b'0123456789abcdef'
            n, p = 1, base
            while p <= hi and I.truth(c_ge(sub(v, p))):
                n, p = n + 1, p * base
            if fill == '0' and adj == 'r' and n < width:
                n, width = width, 0
            out = []
            for k in range(n - 1, -1, -1):
                q = num.div(v, base ** k, I.bnd) if k else v
                out.append(('el', I.piece_get(('lit', d), num.mod(q, base, I.bnd) if base ** (k + 1) <= hi else q, None)))
            pad = [('lit', fill.encode('latin1') * (width - n))] if width > n else []
            return pad + out if adj == 'r' else out + pad
    return None


def stream_put(M, I, x, v, q, tid, where):
    """the stream state after one insertion"""
    st = {'base': 10, 'fill': ' ', 'width': 0, 'upper': False, 'adj': 'r', '?': None}
    st.update({k: w for k, w in x.f.items() if k in st})
    if isinstance(v, FRef):
        k = v.f['n'].split('::')[-1]
        if k in MANIP:
            return x.set(*MANIP[k])
        if k == 'endl':
            return x.set('out', Seq(list(x.f['out'].p) + [('lit', b'\n')], M.char_t(), 'string'))
        return x if k in ('flush', 'ends') else x.set('?', 1)
    if isinstance(v, Rec) and v.rn == 'std::manip':
        return x.set(v.f['k'], v.f['v'])
    out = None
    t = I.P.ty(tid)
    if q is None and isinstance(v, View):
        q = M.view_seq(I, v)
    if q is None and isinstance(v, Seq) and v.kind == 'string':
        q = v
    w = st['width']
    fill = st['fill'] if isinstance(st['fill'], str) else chr(st['fill']) if isinstance(st['fill'], int) else None
    if st['?'] is None and isinstance(w, int) and fill is not None and isinstance(st['base'], int):
        if q is not None or t['k'] == 'int' and t['n'].replace('const ', '') in ('char', 'unsigned char', 'signed char'):
            out = list(q.p) if q is not None else [('lit', bytes([v & 255]))] if isinstance(v, int) and not isinstance(v, bool) else [('el', I.uns(v, 8))] if isnum(v) else None
            n = q.len() if q is not None else 1
            if out is not None and w:
                pad = sub(w, n)
                if isinstance(pad, int):
                    pd = [('lit', fill.encode('latin1') * max(0, pad))]
                    out = pd + out if st['adj'] == 'r' else out + pd
                else:
                    out = None
        elif t['k'] in ('int', 'bool'):
            if isinstance(v, int) and v < 0 and st['base'] != 10:
                v &= (1 << t.get('w', 64)) - 1
            out = digits_of(I, v, st['base'], w, fill, st['upper'], st['adj'])
    if out is None:
        out = list(M.str_seq(('stream', str(x.f['out']), str(v), where, I.st.cnt)).p)
    return x.set('out', Seq(list(x.f['out'].p) + out, M.char_t(), 'string')).set('width', 0)


@m('std::setw', 'std::setfill', 'std::setprecision', 'std::setbase', 'std::hex', 'std::dec', 'std::uppercase', 'std::operator""s', 'std::operator""sv')
def _(M, c):
    I = c.I
    if c.name.endswith('""s'):
        p, n = I.rv(c.args[0]), I.rv(c.args[1])
        return Seq(M.view_seq(I, View(p, n)).p, M.char_t(), 'string')
    if c.name.endswith('""sv'):
        return View(I.rv(c.args[0]), I.rv(c.args[1]))
    vals = [I.rv(a) for a in c.args]
    k = c.name.split('::')[-1]
    if k == 'setw' and isinstance(vals[0], int):
        return Rec('std::manip', {'k': 'width', 'v': vals[0]})
    if k == 'setfill' and isinstance(vals[0], int):
        return Rec('std::manip', {'k': 'fill', 'v': chr(vals[0] & 255)})
    if k == 'setbase' and isinstance(vals[0], int):
        return Rec('std::manip', {'k': 'base', 'v': vals[0]})
    if k in MANIP and vals == []:
        return Rec('std::manip', {'k': MANIP[k][0], 'v': MANIP[k][1]})
    return Rec('std::manip', {'k': '?', 'v': 1})


@m('std::ios_base::flags', 'std::ios_base::setf', 'std::ios_base::width', 'std::basic_ios::fill', 'std::basic_ostream::flush', 'std::basic_ios::clear')
def _(M, c):
    o = c.obj()
    vals = [c.I.rv(a) for a in c.args]
    k = c.name.split('::')[-1]
    I = c.I
    if isinstance(o, Ptr) and o.loc is not None and o.loc.root.kind not in ('static', 'opaque'):
        x = I.get(o.loc)
        if isinstance(x, Rec) and 'out' in x.f:
            keep = {f: x.f[f] for f in ('base', 'upper', 'adj', '?') if f in x.f}
            if k == 'flags':
                if vals:
                    f = vals[0]
                    new = dict(f.f) if isinstance(f, Rec) and f.rn == 'std::fmtflags' else {'?': 1}
                    y = Rec(x.rn, {a: b for a, b in x.f.items() if a not in ('base', 'upper', 'adj', '?')} | new)
                    I.put(o.loc, y)
                return Rec('std::fmtflags', keep)
            if k == 'fill':
                old = x.f.get('fill', ' ')
                if vals:
                    I.put(o.loc, x.set('fill', chr(vals[0] & 255) if isinstance(vals[0], int) else None))
                return ord(old) if isinstance(old, str) else c.result(('ios', c.name, tuple(c.e['l'])))
            if k == 'width':
                old = x.f.get('width', 0)
                if vals:
                    I.put(o.loc, x.set('width', vals[0]))
                return old
            if k == 'setf':
                I.put(o.loc, x.set('?', 1))
    return c.result(('ios', c.name, tuple(c.e['l'])))


@m('std::basic_stringstream::str', 'std::basic_ostringstream::str')
def _(M, c):
    v = c.oval()
    if isinstance(v, Rec) and 'out' in v.f:
        return v.f['out']
    return M.str_seq(('stream', str(v)))


@m('std::source_location::current', 'std::source_location::file_name', 'std::source_location::line', 'std::chrono::system_clock::now', 'std::source_location::function_name')
def _(M, c):
    for a in c.args:
        c.I.rv(a)
    return c.result((c.name, 'v'))


def fmt_values(I, args):
    out = []
    for a in args:
        v = I.ev(a)
        t = a['t']
        if a.get('lv') and isinstance(v, Ptr):
            v = I.load(v, t)
        out.append((v, I.P.strip(t)))
    return out


def fmt_arg(M, I, v, tid, spec):
    """the pieces one replacement field is replaced by"""
    k = I.P.ty(tid)['k']
    if k in ('rec', 'ptr', 'arr'):
        q = None
        if isinstance(v, View):
            q = M.view_seq(I, v)
        elif isinstance(v, Seq) and v.kind == 'string':
            q = v
        elif isinstance(v, Seq):
            try:
                q = M.to_seq(I, v)
            except Exception:
                q = None
        elif isinstance(v, Ptr) and k in ('ptr', 'arr') and v.loc is not None:
            q = M.cstr(I, v)
        if q is not None:
            if not spec or spec == 's':
                return list(q.p)
            c = q.concrete()
            if c is not None and spec.isdigit():
                return [('lit', c.ljust(int(spec)))]
            return list(M.str_seq(('fmt', spec, q.p)).p)
    if isinstance(v, bool) and not spec:
        return [('lit', b'true' if v else b'false')]
    if isinstance(v, int) and not isinstance(v, bool):
        if I.P.ty(tid)['n'].replace('const ', '') == 'char':
            if not spec:
                return [('lit', bytes([v & 255]))]
        else:
            try:
                return [('lit', format(v, spec.replace('T', '')).encode())]
            except ValueError:
                pass
    mm = re.fullmatch(r'(0)?(\d+)?([xXdob])?', spec)
    if mm and isnum(v) and I.P.ty(tid)['n'].replace('const ', '') != 'char':
        r = digits_of(I, v, {'x': 16, 'X': 16, 'd': 10, 'o': 8, 'b': 2, None: 10}[mm.group(3)], int(mm.group(2) or 0), '0' if mm.group(1) else ' ', mm.group(3) == 'X')
        if r is not None:
            return r
    return list(M.str_seq(('fmt', spec, v)).p)


def fmt_text(M, I, fmt, vals):
    """std::format over a concrete format string, or None"""
    c = fmt.concrete() if fmt is not None else None
    if c is None or any(v is None for v in vals):
        return None
    out, i, nxt = [], 0, 0
    while i < len(c):
        b = c[i:i + 1]
        if b in (b'{', b'}') and c[i + 1:i + 2] == b:
            out.append(('lit', b))
            i += 2
        elif b == b'{':
            j = c.find(b'}', i)
            if j < 0 or b'{' in c[i + 1:j]:
                return None
            idx, _, spec = c[i + 1:j].decode('latin1').partition(':')
            if idx == '':
                n = nxt
                nxt += 1
            elif idx.isdigit():
                n = int(idx)
            else:
                return None
            if n >= len(vals):
                return None
            out += fmt_arg(M, I, vals[n][0], vals[n][1], spec)
            i = j + 1
        elif b == b'}':
            return None
        else:
            out.append(('lit', b))
            i += 1
    return Seq(out, M.char_t(), 'string')


@m('std::make_format_args', 'std::vformat', 'std::format', 'std::vformat_to')
def _(M, c):
    I = c.I
    if c.name == 'std::make_format_args':
        return Rec('std::format_args', {i: x for i, x in enumerate(fmt_values(I, c.args))})
    if c.name in ('std::format', 'std::vformat'):
        (f, _), *vals = fmt_values(I, c.args)
        fs = f if isinstance(f, Seq) else M.view_seq(I, f) if isinstance(f, View) else M.cstr(I, f) if isinstance(f, Ptr) else None
        if isinstance(f, Rec) and f.f.get('fmt') is not None:
            fs = f.f['fmt']
        if c.name == 'std::vformat':
            a = vals[-1][0] if vals else None
            vals = [a.f[i] for i in range(len(a.f))] if isinstance(a, Rec) and a.rn == 'std::format_args' else [None]
        r = fmt_text(M, I, fs, vals)
        if r is not None:
            return r
        return M.str_seq(('format', fs.p if fs is not None else str(f), tuple(str(v) for v in vals), tuple(c.e['l'])))
    vals = tuple(I.rv(a) if not (I.P.ty(I.P.strip(a['t']))['k'] == 'rec' and not a.get('lv')) else I.ev(a) for a in c.args)
    return Opq(('fmtargs', tuple(c.e['l'])))


@m('std::to_string')
def _(M, c):
    I = c.I
    v = c.w(0)
    if isinstance(v, (bool, Cond)):
        v = I.toint(v)
    if isinstance(v, int):
        return Seq([('lit', str(v).encode())], M.char_t(), 'string')
    t = I.P.ty(I.P.strip(c.args[0]['t']))
    return M.str_seq(('to_string', v, t.get('w'), t.get('s')), lo=1, hi=20 if t['k'] != 'flt' else MAXLEN)


@m('std::min', 'std::max')
def _(M, c):
    I = c.I
    if len(c.args) != 2:
        return NotImplemented
    pa, pb = I.ev(c.args[0]), I.ev(c.args[1])
    a = I.load(pa, c.args[0]['t']) if c.args[0].get('lv') else pa
    b = I.load(pb, c.args[1]['t']) if c.args[1].get('lv') else pb
    if not c.args[0].get('lv'):
        pa = I.temp(a, c.args[0]['t'])
    if not c.args[1].get('lv'):
        pb = I.temp(b, c.args[1]['t'])
    if isnum(a) and isnum(b):
        c0 = c_ge(sub(b, a)) if c.name == 'std::min' else c_ge(sub(a, b))
        return pa if I.truth(c0) else pb
    return I.temp(I.mk_sym(c.args[0]['t'], (c.name, a, b), False), I.P.strip(c.args[0]['t']))


@m('std::ldexp', 'ldexp', 'scalbn', 'std::scalbn', 'ldexpf', 'std::pow', 'pow', 'std::exp2', 'exp2')
def _(M, c):
    I = c.I
    ws = [I.rv(x) for x in c.args]
    vs = [flt.fval(x) for x in ws]
    n = c.name.split('::')[-1]
    if any(x is None for x in vs):
        return Flt((n,) + tuple(ws))
    try:
        return Flt(('const', math.pow(2, vs[0]) if n == 'exp2' else math.pow(*vs) if n == 'pow' else math.ldexp(vs[0], int(vs[1]))))
    except OverflowError:
        return Flt(('const', math.inf))


@m('std::isnan', 'isnan', '__builtin_isnan')
def _(M, c):
    v = c.I.rv(c.args[0])
    return c_not(c.I.compare('==', v, v)) if isinstance(v, Flt) else False


@m('std::isfinite', 'isfinite', '__builtin_isfinite')
def _(M, c):
    I, v = c.I, c.I.rv(c.args[0])
    mx = Flt(('const', 1.7976931348623157e308))
    return c_and(I.compare('<=', v, mx), I.compare('>=', v, Flt(('const', -1.7976931348623157e308)))) if isinstance(v, Flt) else True


@m('std::isinf', 'isinf')
def _(M, c):
    I, v = c.I, c.I.rv(c.args[0])
    return c_or(I.compare('==', v, Flt(('const', math.inf))), I.compare('==', v, Flt(('const', -math.inf)))) if isinstance(v, Flt) else False


@m('std::clamp')
def _(M, c):
    I = c.I
    ps = []
    for a in c.args[:3]:
        v = I.ev(a)
        ps.append(v if a.get('lv') else I.temp(v, a['t']))
    x, lo, hi = (I.load(p, a['t']) for p, a in zip(ps, c.args))
    if not (isnum(x) and isnum(lo) and isnum(hi)):
        return I.temp(I.mk_sym(c.args[0]['t'], ('clamp', x, lo, hi), False), I.P.strip(c.args[0]['t']))
    if not I.truth(c_ge(sub(x, lo))):
        return ps[1]
    return ps[0] if I.truth(c_ge(sub(hi, x))) else ps[2]


CTYPE = {
    'isxdigit': b'0123456789abcdefABCDEF', 'isdigit': b'0123456789', 'isalpha': bytes(range(65, 91)) + bytes(range(97, 123)),
    'isalnum': b'0123456789' + bytes(range(65, 91)) + bytes(range(97, 123)), 'isspace': b' \t\n\v\f\r',
    'isupper': bytes(range(65, 91)), 'islower': bytes(range(97, 123)), 'iscntrl': bytes(range(32)) + b'\x7f', 'isprint': bytes(range(32, 127)),
    'ispunct': bytes(x for x in range(33, 127) if not chr(x).isalnum()), 'isgraph': bytes(range(33, 127)), 'isblank': b' \t',
}


def runs(bs):
    xs = sorted(set(bs))
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return out


def ctype(name):
    def f(M, c):
        I = c.I
        v = c.w(0)
        if not isnum(v):
            return I.mk_sym(c.e['t'], (name, v), False)
        I.oblige('ctype-range', c_and(c_ge(add(v, 1)), c_ge(sub(255, v))), f'argument of {name} is an unsigned char value')
        if isinstance(v, int):
            return 1 if v in CTYPE[name] else 0
        r = False
        for lo, hi in runs(CTYPE[name]):
            r = c_or(r, c_and(c_ge(sub(v, lo)), c_ge(sub(hi, v))))
        s = num.sym((name, v), 0, 1)
        return 1 if I.truth(r) else 0
    return f


for _n in CTYPE:
    REG[_n] = REG['std::' + _n] = ctype(_n)


def tocase(name):
    def f(M, c):
        I = c.I
        v = c.w(0)
        if not isnum(v):
            return I.mk_sym(c.e['t'], (name, v), False)
        I.oblige('ctype-range', c_and(c_ge(add(v, 1)), c_ge(sub(255, v))), f'argument of {name} is an unsigned char value')
        lo, hi, d = (97, 122, -32) if name == 'toupper' else (65, 90, 32)
        if I.truth(c_and(c_ge(sub(v, lo)), c_ge(sub(hi, v)))):
            return add(v, d)
        return v
    return f


for _n in ('toupper', 'tolower'):
    REG[_n] = REG['std::' + _n] = tocase(_n)


# ---- strings, vectors, arrays ------------------------------------------------------------------------------------------
SQ = ('std::basic_string', 'std::vector', 'std::list', 'std::array', 'std::deque')
VW = ('std::basic_string_view', 'std::span', 'std::ranges::subrange', 'std::ranges::view_interface', 'std::initializer_list', 'std::experimental::net::mutable_buffer', 'std::experimental::net::const_buffer')


def names(classes, *ms):
    return [f'{k}::{x}' for k in classes for x in ms]


def cont(c):
    """(location or None, value) of a container receiver"""
    v = c.oval()
    return c.obj(), v


def rawarr(c):
    """(pointer, length, element size) of a std::array seen through a cast of a byte buffer: its elements are those bytes"""
    o = c.obj()
    if not isinstance(o, Ptr) or not o.content:
        return None
    P = c.I.P
    rid = P.rid(P.strip(c.otid()))
    if rid is None or P.recs[rid]['name'] != 'std::array':
        return None
    return o, int(P.recs[rid]['ta'][1]['i']), c.I.es_of(P.recs[rid]['ta'][0]['t'])


def length(I, v):
    if isinstance(v, Seq):
        return v.len()
    if isinstance(v, View):
        return v.n
    if isinstance(v, Rec) and 'items' in v.f:
        return len(v.f['items']) if not v.f['open'] else of(sym(('size', v.f['key'], v.f['items']), 0, MAXLEN))
    if isinstance(v, Opq):
        return of(sym(('len', v.key), 0, MAXLEN))
    I.taint('size of ' + type(v).__name__)
    return of(sym(('len', str(v)), 0, MAXLEN, False))


@m(*names(SQ + VW, 'size', 'length'), 'std::size', 'std::map::size', 'std::set::size', 'std::ssize')
def _(M, c):
    ra = rawarr(c)
    return ra[1] if ra else length(c.I, c.oval())


@m(*names(('std::span',), 'size_bytes'))
def _(M, c):
    return mulc(length(c.I, c.oval()), c.I.es_of(c.ety()))


@m('std::ranges::view_interface::operator bool', 'std::ranges::subrange::operator bool')
def _(M, c):
    return c_not(c_eq(length(c.I, c.oval())))


@m(*names(SQ + VW, 'empty'), 'std::empty', 'std::map::empty', 'std::set::empty')
def _(M, c):
    return c_eq(length(c.I, c.oval()))


@m(*names(SQ, 'max_size', 'capacity'))
def _(M, c):
    return of(sym(('capacity', str(c.obj())), 0, MAXLEN))


@m(*names(SQ + VW, 'data', 'begin', 'cbegin', 'c_str'), 'std::begin', 'std::data', 'std::cbegin')
def _(M, c):
    ra = rawarr(c)
    if ra:
        return ra[0]
    v = c.oval()
    if isinstance(v, View):
        return v.ptr
    o = c.obj()
    if isinstance(v, Seq):
        return Ptr(o.loc, o.off if o.content else 0, True)
    if isinstance(v, Ptr):
        return v
    return Ptr(o.loc, 0, True)


@m(*names(SQ + VW, 'end', 'cend'), 'std::end', 'std::cend')
def _(M, c):
    ra = rawarr(c)
    if ra:
        return ra[0].plus(ra[1] * ra[2])
    v = c.oval()
    es = c.I.es_of(c.ety())
    if isinstance(v, View):
        return v.ptr.plus(mulc(v.n, es))
    return Ptr(c.obj().loc, mulc(length(c.I, v), es), True)


def element(c, idx, what, strict=True):
    I = c.I
    ra = rawarr(c)
    if ra:
        I.oblige('out-of-bounds', c_and(c_ge(idx), c_ge(sub(ra[1] - 1, idx))), f'{what}: index {idx} of {ra[1]}')
        return I.norm(ra[0].plus(mulc(idx, ra[2])))
    o, v = cont(c)
    es = I.es_of(c.ety())
    n = length(I, v)
    allow = 1 if isinstance(v, Seq) and v.kind == 'string' and not strict else 0
    I.oblige('out-of-bounds', c_and(c_ge(idx), c_ge(sub(add(n, allow - 1), idx))), f'{what}: index {idx} of {n}')
    if isinstance(v, View):
        p = v.ptr.plus(mulc(idx, es))
    else:
        p = Ptr(o.loc, mulc(idx, es), True)
    p = I.norm(p)
    return p


@m(*names(SQ + VW, 'operator[]'))
def _(M, c):
    return element(c, c.v(0), 'operator[]', strict=False)


@m(*names(SQ + VW, 'at'))
def _(M, c):
    I = c.I
    i = c.v(0)
    n = length(I, c.oval())
    if not I.truth(c_ge(sub(sub(n, 1), i))):
        raise Throw('std::out_of_range', None, I.where())
    return element(c, i, 'at')


@m(*names(SQ + VW, 'front'))
def _(M, c):
    return element(c, 0, 'front', strict=True)


@m(*names(SQ + VW, 'back'))
def _(M, c):
    ra = rawarr(c)
    n = ra[1] if ra else length(c.I, c.oval())
    return element(c, sub(n, 1), 'back')


@m(*names(SQ, 'clear'))
def _(M, c):
    v = c.oval()
    c.setval(v.with_p([]) if isinstance(v, Seq) else c.I.zero(c.otid()))


@m(*names(SQ, 'reserve', 'shrink_to_fit'))
def _(M, c):
    c.obj()
    if c.args:
        M.allocation(c.I, c.v(0))


@m(*names(SQ, 'resize'))
def _(M, c):
    I = c.I
    n = c.v(0)
    v = c.oval()
    M.allocation(I, n)
    if not isinstance(v, Seq):
        return NotImplemented
    L = v.len()
    if I.truth(c_ge(sub(L, n))):
        c.setval(Seq(I.seq_slice(v, 0, n).p, v.ety, v.kind))
    else:
        z = c.v(1) if len(c.args) > 1 else I.zero(v.ety)
        c.setval(v.with_p(v.p + (('rep', sub(n, L), z),)))


def el_piece(I, v, s):
    if isinstance(v, (bool, Cond)):
        v = I.toint(v)
    if I.es_of(s.ety) == 1 and not I.is_elem_record(s.ety):
        if isinstance(v, int):
            return ('lit', bytes([v & 255]))
        if isinstance(v, Lin):
            lo, hi = num.interval(v, I.bnd)
            if lo is None or lo < 0 or hi > 255:
                v = num.mod(v, 256, I.bnd)
    return ('el', v)


@m(*names(SQ, 'push_back'))
def _(M, c):
    I = c.I
    a = c.rest()[0]
    v = c.oval()
    ety = c.ety()
    if isinstance(v, Opq):
        v = M.str_seq(v.key)
    if I.P.ty(ety)['k'] == 'rec':
        tmp = I.new('temp', 'element', ety)
        M.convert_into(I, a, tmp, ety)
        x = I.get(tmp.loc)
    else:
        x = I.rv(a)
    v = c.I.get(c.obj().loc) if not c.obj().content else v
    c.setval(v.with_p(v.p + (el_piece(I, x, v),)))


@m(*names(SQ, 'emplace_back'))
def _(M, c):
    I = c.I
    v = c.oval()
    ety = c.ety()
    rest = c.rest()
    t = I.P.ty(ety)
    if t['k'] == 'rec':
        r = I.P.recs[t['r']]
        q = I.new('temp', 'element', ety)
        make_object(M, I, r, ety, rest, q)
        x = I.get(q.loc)
    else:
        x = I.rv(rest[0]) if rest else I.zero(ety)
    v = c.oval()
    c.setval(v.with_p(v.p + (el_piece(I, x, v),)))
    return c.I.norm(Ptr(c.obj().loc, mulc(v.len(), I.es_of(ety)), True))


def make_object(M, I, r, tid, args, q):
    """construct an object of class r from argument expressions (std::make_shared, emplace...)"""
    P = I.P
    if not r.get('repo'):
        v = M.construct(I, {'a': args, 'f': {'r': r['id'], 'n': '(ctor)'}, 't': tid, 'l': I.cur, 'cm': 'copy' if len(args) == 1 and P.recname(args[0]['t']) == r['name'] else None}, r, q)
        I.put(q.loc, v)
        return
    if len(args) == 1 and P.rid(args[0]['t']) == r['id']:
        I.put(q.loc, I.rv(args[0]))
        return
    cands = [f for f in P.funcs if f.get('kind') == 'ctor' and f.get('r') == r['id'] and len(f['p']) == len(args) and 'body' in f]
    if len(cands) > 1:
        cands = [f for f in cands if all(compatible(P, a['t'], p['t']) for a, p in zip(args, f['p']))] or cands
    if not cands:
        if not args:
            I.put(q.loc, I.zero(tid))
            return
        # aggregate
        fs = P.fields(r['id'])
        rec = Rec(r['name'], {k: I.zero(ft) for k, ft, o, f in fs})
        for (k, ft, o, f), a in zip(fs, args):
            tmp = I.new('temp', 'field', ft)
            M.convert_into(I, a, tmp, ft)
            rec = rec.set(k, I.get(tmp.loc))
        I.put(q.loc, rec)
        return
    f = cands[0]
    ps = []
    for a, p in zip(args, f['p']):
        if P.ty(p['t'])['k'] == 'ref' and P.rid(a['t']) == P.rid(p['t']) and P.rid(a['t']) is not None:
            v = I.ev(a)
            ps.append(I.norm(v) if a.get('lv') else I.temp(v, a['t']))
        elif P.ty(p['t'])['k'] == 'ref' and a.get('lv') and P.ty(P.strip(a['t']))['k'] == P.ty(P.strip(p['t']))['k']:
            ps.append(I.norm(I.ev(a)))
        else:
            tmp = I.new('param', 'arg', P.strip(p['t']))
            M.convert_into(I, a, tmp, P.strip(p['t']))
            ps.append(tmp)
    I.run_ctor(f, q, ps)


def compatible(P, a, b):
    x, y = P.ty(P.strip(a)), P.ty(P.strip(b))
    if x['k'] != y['k']:
        return (x['k'], y['k']) in (('int', 'flt'), ('arr', 'ptr')) or y['k'] == 'rec'
    if x['k'] == 'rec':
        return x['r'] == y['r']
    return True


@m(*names(SQ, 'pop_back'))
def _(M, c):
    I = c.I
    v = c.oval()
    I.oblige('out-of-bounds', c_ge(sub(v.len(), 1)), 'pop_back of an empty container')
    c.setval(Seq(I.seq_slice(v, 0, sub(v.len(), 1)).p, v.ety, v.kind))


@m(*names(SQ, 'pop_front'))
def _(M, c):
    I = c.I
    v = c.oval()
    I.oblige('out-of-bounds', c_ge(sub(v.len(), 1)), 'pop_front of an empty container')
    c.setval(Seq(I.seq_slice(v, 1, sub(v.len(), 1)).p, v.ety, v.kind))


def appended(M, c, rest):
    I = c.I
    P = I.P
    a = rest[0]
    t0 = P.ty(P.strip(a['t']))
    if len(rest) == 1:
        v = I.rv(a) if t0['k'] == 'int' else None
        if v is not None:
            return Seq([el_piece(I, v, Seq([], M.char_t(), 'string'))], M.char_t(), 'string')
        return M.arg_seq(I, a)
    t1 = P.ty(P.strip(rest[1]['t']))
    if t0['k'] == 'ptr' and len(rest) == 2 and t1['k'] == 'int':
        return M.view_seq(I, View(I.rv(a), I.rv(rest[1])))
    if t0['k'] == 'int' and len(rest) == 2:
        return Seq([('rep', I.rv(a), I.rv(rest[1]))], M.char_t(), 'string')
    if len(rest) == 2 and t0['k'] in ('ptr', 'rec'):
        x, y = I.rv(a), I.rv(rest[1])
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.loc == y.loc:
            return M.view_seq(I, View(x, sub(y.off, x.off)))
        if isinstance(x, (View, Seq)) and isnum(y):
            return M.substr(I, M.to_seq(I, x), y, NPOS)
    if len(rest) == 3:
        return M.substr(I, M.arg_seq(I, a), I.rv(rest[1]), I.rv(rest[2]))
    return None


@m('std::basic_string::append', 'std::basic_string::operator+=', 'std::basic_string::append_range')
def _(M, c):
    I = c.I
    s = appended(M, c, c.rest())
    if s is None:
        return NotImplemented
    v = c.oval()
    if not isinstance(v, Seq):
        v = M.to_seq(I, v)
    c.setval(v.with_p(v.p + s.p))
    return c.obj()


@m('std::basic_string::operator=', 'std::basic_string::assign', 'std::vector::operator=', 'std::list::operator=', 'std::array::operator=',
   'std::span::operator=', 'std::basic_string_view::operator=', 'std::function::operator=', 'std::optional::operator=', 'std::shared_ptr::operator=',
   'std::filesystem::path::operator=', 'std::error_code::operator=', 'std::unique_ptr::operator=', 'std::set::operator=', 'std::map::operator=',
   'std::basic_ifstream::operator=', 'std::vector::assign', 'std::experimental::net::ip::tcp::socket::operator=', 'std::optional::emplace',
   'std::experimental::net::mutable_buffer::operator=', 'std::experimental::net::const_buffer::operator=', 'std::pair::operator=', 'std::exception::operator=', 'std::runtime_error::operator=',
   'std::enable_shared_from_this::operator=', '__gnu_cxx::__normal_iterator::operator=')
def _(M, c):
    I = c.I
    P = I.P
    rest = c.rest()
    n = P.recname(c.otid())
    if n == 'std::basic_string':
        s = appended(M, c, rest)
        if s is None:
            return NotImplemented
        mv = len(rest) == 1 and rest[0].get('lv') and is_rvalue_ref(P, c.e) and P.recname(rest[0]['t']) == 'std::basic_string'
        if mv:
            p = I.norm(I.ev(rest[0]))
            if p != c.obj():
                I.write(p, rest[0]['t'], s.with_p([])) if p.content else I.put(p.loc, s.with_p([]))
        c.setval(Seq(s.p, M.char_t(), 'string'))
        return c.obj()
    if len(rest) != 1:
        return NotImplemented
    a = rest[0]
    xn = P.recname(a['t'])
    if n == 'std::optional' and xn != 'std::optional':
        if xn == 'std::nullopt_t':
            c.setval(Opt(False, UNINIT))
            return c.obj()
        t = P.targs(P.rid(c.otid()))[0]['t']
        tmp = I.new('temp', 'optional-value', t)
        M.convert_into(I, a, tmp, t)
        c.setval(Opt(True, I.get(tmp.loc)))
        if c.name.endswith('emplace'):
            return Ptr(Loc(c.obj().loc.root, c.obj().loc.path + (('o', None),)))
        return c.obj()
    if n == 'std::function' and xn != 'std::function':
        v = M.construct(I, {'a': [a], 't': c.otid(), 'l': c.e['l']}, P.recs[P.rid(c.otid())], None)
        c.setval(v)
        return c.obj()
    if xn == 'std::initializer_list' and n == 'std::vector':
        s = M.to_seq(I, I.rv(a))
        c.setval(Seq(s.p, c.ety(), 'vector'))
        return c.obj()
    if n == 'std::filesystem::path' and xn != n:
        c.setval(M.path_of(I, a))
        return c.obj()
    if a.get('lv'):
        v = I.ev(a)
        v = I.copy_from(v, a['t'], is_rvalue_ref(P, c.e))
    else:
        v = I.ev(a)
    if n == 'std::shared_ptr' and v == NULL:
        v = SP(None)
    if n == 'std::span' and isinstance(v, Seq):
        p = I.norm(I.ev(a)) if a.get('lv') else I.temp(v, a['t'])
        v = View(Ptr(p.loc, 0, True), v.len())
    c.setval(v)
    return c.obj()


def is_rvalue_ref(P, e):
    ps = e['f'].get('ps')
    if ps:
        t = P.ty(ps[-1]) if isinstance(ps[-1], int) else None
        return bool(t and t['k'] == 'ref' and t.get('rv'))
    return False


@m('std::shared_ptr::reset', 'std::optional::reset', 'std::unique_ptr::reset')
def _(M, c):
    if c.args:
        return NotImplemented
    c.setval(Opt(False, UNINIT) if 'optional' in c.name else SP(None))


@m('std::basic_string::erase')
def _(M, c):
    I = c.I
    v = c.oval()
    rest = c.rest()
    pos = I.rv(rest[0]) if rest else 0
    if isinstance(pos, Ptr):
        if len(rest) == 1:
            I.oblige('out-of-bounds', c_ge(sub(sub(v.len(), 1), pos.off)), 'erase position')
            a, n = pos.off, 1
        else:
            y = I.rv(rest[1])
            a, n = pos.off, sub(y.off, pos.off)
            I.oblige('out-of-bounds', c_and(c_ge(n), c_ge(sub(v.len(), y.off))), 'erase range')
    else:
        if not I.truth(c_ge(sub(v.len(), pos))):
            raise Throw('std::out_of_range', None, I.where())
        cnt = I.rv(rest[1]) if len(rest) > 1 else NPOS
        left = sub(v.len(), pos)
        a, n = pos, (left if isinstance(cnt, int) and cnt == NPOS else cnt if I.truth(c_ge(sub(left, cnt))) else left)
    p = I.seq_slice(v, 0, a).p + I.seq_slice(v, add(a, n), sub(v.len(), add(a, n))).p
    c.setval(v.with_p(p))
    return c.obj()


@m('std::vector::erase')
def _(M, c):
    I = c.I
    v = c.oval()
    rest = c.rest()
    p = I.rv(rest[0])
    es = I.es_of(c.ety())
    if not isinstance(p, Ptr) or not isinstance(v, Seq):
        return NotImplemented
    i = num.div(p.off, es) if not isinstance(p.off, int) else p.off // es
    if len(rest) == 1:
        n = 1
    else:
        y = I.rv(rest[1])
        n = sub(num.div(y.off, es) if not isinstance(y.off, int) else y.off // es, i)
    I.oblige('out-of-bounds', c_and(c_ge(i), c_ge(sub(v.len(), add(i, n)))), 'erase range')
    c.setval(v.with_p(I.seq_slice(v, 0, i).p + I.seq_slice(v, add(i, n), sub(v.len(), add(i, n))).p))
    return Ptr(c.obj().loc, mulc(i, es), True)


@m('std::vector::insert')
def _(M, c):
    I = c.I
    v = c.oval()
    rest = c.rest()
    p = I.rv(rest[0])
    es = I.es_of(c.ety())
    if not isinstance(p, Ptr) or not isinstance(v, Seq):
        return NotImplemented
    i = num.div(p.off, es) if not isinstance(p.off, int) else p.off // es
    if len(rest) == 3:
        b, en = I.rv(rest[1]), I.rv(rest[2])
        if not (isinstance(b, Ptr) and isinstance(en, Ptr) and b.loc == en.loc):
            return NotImplemented
        ins = M.view_seq(I, View(b, num.div(sub(en.off, b.off), es) if es > 1 else sub(en.off, b.off))).p
    elif len(rest) == 2:
        ins = (el_piece(I, I.rv(rest[1]), v),)
    else:
        return NotImplemented
    c.setval(v.with_p(I.seq_slice(v, 0, i).p + tuple(ins) + I.seq_slice(v, i, sub(v.len(), i)).p))
    return Ptr(c.obj().loc, mulc(i, es), True)


@m('std::basic_string::substr')
def _(M, c):
    I = c.I
    pos = c.v(0) if c.rest() else 0
    cnt = c.v(1) if len(c.rest()) > 1 else NPOS
    return M.substr(I, M.to_seq(I, c.oval()), pos, cnt)


@m('std::basic_string_view::substr')
def _(M, c):
    I = c.I
    v = c.oval()
    pos = c.v(0) if c.rest() else 0
    cnt = c.v(1) if len(c.rest()) > 1 else NPOS
    if not isinstance(v, View):
        return NotImplemented
    return M.substr(I, None, pos, cnt, view=v)


@m('std::span::subspan')
def _(M, c):
    I = c.I
    v = c.oval()
    if not isinstance(v, View):
        return NotImplemented
    rest = c.rest()
    pos = c.v(0) if rest else 0
    I.oblige('out-of-bounds', c_ge(sub(v.n, pos)), f'subspan offset {pos} of {v.n}')
    cnt = c.v(1) if len(rest) > 1 else NPOS
    es = I.es_of(c.ety())
    if isinstance(cnt, int) and cnt == NPOS:
        n = sub(v.n, pos)
    else:
        I.oblige('out-of-bounds', c_ge(sub(sub(v.n, pos), cnt)), f'subspan count {cnt} of {sub(v.n, pos)}')
        n = cnt
    return View(v.ptr.plus(mulc(pos, es)), n)


@m('std::span::first')
def _(M, c):
    I = c.I
    v = c.oval()
    n = c.v(0) if c.rest() else NotImplemented
    if n is NotImplemented or not isinstance(v, View):
        return NotImplemented
    I.oblige('out-of-bounds', c_ge(sub(v.n, n)), f'first({n}) of {v.n}')
    return View(v.ptr, n)


@m('std::span::last')
def _(M, c):
    I = c.I
    v = c.oval()
    n = c.v(0) if c.rest() else NotImplemented
    if n is NotImplemented or not isinstance(v, View):
        return NotImplemented
    I.oblige('out-of-bounds', c_ge(sub(v.n, n)), f'last({n}) of {v.n}')
    return View(v.ptr.plus(mulc(sub(v.n, n), I.es_of(c.ety()))), n)


@m('std::basic_string_view::remove_prefix')
def _(M, c):
    I = c.I
    v = c.oval()
    n = c.v(0)
    if not isinstance(v, View):
        return NotImplemented
    I.oblige('out-of-bounds', c_ge(sub(v.n, n)), f'remove_prefix({n}) of {v.n}')
    c.setval(View(v.ptr.plus(n), sub(v.n, n)))


@m('std::basic_string_view::remove_suffix')
def _(M, c):
    I = c.I
    v = c.oval()
    n = c.v(0)
    if not isinstance(v, View):
        return NotImplemented
    I.oblige('out-of-bounds', c_ge(sub(v.n, n)), f'remove_suffix({n}) of {v.n}')
    c.setval(View(v.ptr, sub(v.n, n)))


@m('std::basic_string::(conv)')
def _(M, c):
    o = c.obj()
    v = c.oval()
    return View(Ptr(o.loc, 0, True), length(c.I, v))


@m('std::basic_string::find', 'std::basic_string_view::find', 'std::basic_string::contains', 'std::basic_string_view::contains')
def _(M, c):
    I = c.I
    hay = M.to_seq(I, c.oval())
    rest = c.rest()
    t0 = I.P.ty(I.P.strip(rest[0]['t']))
    if t0['k'] == 'int':
        x = I.rv(rest[0])
        needle = Seq([el_piece(I, x, Seq([], M.char_t(), 'string'))], M.char_t(), 'string')
    else:
        needle = M.arg_seq(I, rest[0])
    pos = I.rv(rest[1]) if len(rest) > 1 else 0
    r = M.find(I, hay, needle, pos)
    if c.name.endswith('contains'):
        return r is not None
    return NPOS if r is None else r


@m('std::basic_string::rfind', 'std::basic_string_view::rfind', 'std::basic_string::find_first_of', 'std::basic_string_view::find_first_of',
   'std::basic_string::find_last_of', 'std::basic_string_view::find_last_of', 'std::basic_string::find_first_not_of', 'std::basic_string_view::find_first_not_of',
   'std::basic_string::find_last_not_of', 'std::basic_string_view::find_last_not_of')
def _(M, c):
    I = c.I
    hay = M.to_seq(I, c.oval())
    rest = c.rest()
    t0 = I.P.ty(I.P.strip(rest[0]['t']))
    needle = Seq([el_piece(I, I.rv(rest[0]), Seq([], M.char_t(), 'string'))], M.char_t(), 'string') if t0['k'] == 'int' else M.arg_seq(I, rest[0])
    pos = I.rv(rest[1]) if len(rest) > 1 else 0
    op = c.name.split('::')[-1]
    if op == 'rfind':
        if I.decide(atom(('contains', hay.p, needle.p, 0))) is False:
            return NPOS
        if len(rest) > 1 and pos != NPOS and hay.concrete() is None:
            if not isinstance(pos, int):
                I.taint('rfind from a position that is not known')
            elif pos <= 32:
                for i in range(pos, -1, -1):
                    if I.truth(c_ge(sub(hay.len(), add(needle.len(), i)))) and I.truth(I.seq_eq(I.seq_slice(hay, i, needle.len()), needle)):
                        return i
                return NPOS
            else:
                I.taint('rfind from a far position')
        if I.truth(atom(('contains', hay.p, needle.p, 0))):
            r = of(sym(('rfind', hay.p, needle.p, pos), 0, MAXLEN))
            I.assume(c_ge(sub(sub(hay.len(), needle.len()), r)))
            return r
        return NPOS
    if I.truth(atom((op, hay.p, needle.p, pos))):
        r = of(sym((op, 'at', hay.p, needle.p, pos), 0, MAXLEN))
        I.assume(c_ge(sub(sub(hay.len(), 1), r)))
        return r
    return NPOS


@m('std::basic_string::starts_with', 'std::basic_string_view::starts_with', 'std::basic_string::ends_with', 'std::basic_string_view::ends_with')
def _(M, c):
    I = c.I
    hay = M.to_seq(I, c.oval())
    t0 = I.P.ty(I.P.strip(c.rest()[0]['t']))
    needle = Seq([el_piece(I, c.v(0), Seq([], M.char_t(), 'string'))], M.char_t(), 'string') if t0['k'] == 'int' else M.arg_seq(I, c.rest()[0])
    n = needle.len()
    if not I.truth(c_ge(sub(hay.len(), n))):
        return False
    off = 0 if 'starts' in c.name else sub(hay.len(), n)
    return I.seq_eq(I.seq_slice(hay, off, n), needle)


@m('std::basic_string::compare', 'std::basic_string_view::compare')
def _(M, c):
    I = c.I
    if len(c.rest()) != 1:
        return NotImplemented
    eq = I.seq_eq(M.to_seq(I, c.oval()), M.arg_seq(I, c.rest()[0]))
    if I.truth(eq):
        return 0
    r = I.mk_sym(c.e['t'], ('compare', I.st.cnt))
    I.assume(c_not(c_eq(r)))
    return r


@m('std::operator+')
def _(M, c):
    I = c.I
    def one(a):
        t = I.P.ty(I.P.strip(a['t']))
        if t['k'] == 'int':
            return Seq([el_piece(I, I.rv(a), Seq([], M.char_t(), 'string'))], M.char_t(), 'string')
        return M.arg_seq(I, a)
    x, y = one(c.args[0]), one(c.args[1])
    return Seq(x.p + y.p, M.char_t(), 'string')


@m('std::operator==', 'std::operator!=', 'std::filesystem::operator==', 'std::function::operator==', '__gnu_cxx::operator==', '__gnu_cxx::operator!=')
def _(M, c):
    I = c.I
    P = I.P
    r = None
    if len(c.args) != 2:
        return NotImplemented
    a, b = c.args
    n0, n1 = P.recname(a['t']), P.recname(b['t'])
    strs = ('std::basic_string', 'std::basic_string_view')
    if n0 in strs or n1 in strs:
        r = I.seq_eq(M.arg_seq(I, a), M.arg_seq(I, b))
    else:
        x, y = I.rv(a), I.rv(b)
        if isinstance(x, MapIter) or isinstance(y, MapIter):
            if isinstance(x, MapIter) and isinstance(y, MapIter):
                r = I.ptr_eq(x.val, y.val)
            else:
                o = y if isinstance(x, MapIter) else x
                r = False if isinstance(o, Opq) and isinstance(o.key, tuple) and o.key[:1] == ('mapend',) else I.compare('==', x, y)
        elif isinstance(x, Rec) and isinstance(y, Rec) and 'v' in x.f and 'v' in y.f:
            r = I.val_eq(x.f['v'], y.f['v'])
        elif isinstance(x, Rec) and 'v' in x.f and isnum(y):
            r = I.val_eq(x.f['v'], y)
        elif isinstance(y, Rec) and 'v' in y.f and isnum(x):
            r = I.val_eq(x, y.f['v'])
        elif isinstance(x, Fn) or isinstance(y, Fn):
            f = x if isinstance(x, Fn) else y
            r = c_not(I.tobool(f))
        elif isinstance(x, SP) or isinstance(y, SP):
            if isinstance(x, SP) and isinstance(y, SP):
                r = x == y if x.ptr is None or y.ptr is None else I.ptr_eq(x.ptr, y.ptr)
            else:
                sp = x if isinstance(x, SP) else y
                r = sp.ptr is None
        elif isinstance(x, Opt) and isinstance(y, Opt):
            return NotImplemented
        elif isinstance(x, Opt) or isinstance(y, Opt):
            o, z = (x, y) if isinstance(x, Opt) else (y, x)
            if isinstance(z, Opq):
                r = c_not(o.has)
            else:
                r = c_and(o.has, I.val_eq(o.val, z))
        elif isinstance(x, PathV) or isinstance(y, PathV):
            u, w = pv(M, I, x), pv(M, I, y)
            ct = [z.t[1].concrete() if z.t[0] == 'str' else None for z in (u, w)]
            if None not in ct:
                ab = [(z[:1] == b'/', [q for q in z.split(b'/') if q], z[-1:] == b'/' and bool(z.strip(b'/'))) for z in ct]
                r = ab[0] == ab[1]
            else:
                r = atom(('patheq', x, y))
        else:
            r = I.compare('==', x, y)
    return c_not(r) if c.name.endswith('!=') else r


@m('std::operator<=>', '__gnu_cxx::operator<=>')
def _(M, c):
    I = c.I
    return Opq(('spaceship', I.rv(c.args[0]), I.rv(c.args[1])))


@m('std::char_traits::length', 'strlen', 'std::strlen')
def _(M, c):
    I = c.I
    return M.cstr(I, I.rv(c.args[0])).len()


# ---- iterators ---------------------------------------------------------------------------------------------------------
@m('__gnu_cxx::__normal_iterator::operator*', 'std::_List_iterator::operator*', 'std::_List_const_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->')
def _(M, c):
    p = c.oval()
    if isinstance(p, Ptr):
        return c.I.norm(p)
    return NotImplemented


@m('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--', 'std::_List_iterator::operator++', 'std::_List_const_iterator::operator++',
   'std::_List_iterator::operator--')
def _(M, c):
    I = c.I
    p = c.oval()
    if not isinstance(p, Ptr):
        return NotImplemented
    es = iter_es(I, c)
    c.setval(p.plus(es if c.name.endswith('++') else -es))
    post = len(c.args) > (0 if 'o' in c.e else 1)
    return p if post else c.obj()


def iter_es(I, c):
    t = I.P.rid(c.otid())
    ta = I.P.targs(t)
    if I.P.recs[t]['name'] == '__gnu_cxx::__normal_iterator':
        pt = I.P.ty(ta[0]['t'])
        return I.P.size(pt['to']) or 1
    return I.P.size(ta[0]['t']) or 1


@m('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-', '__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def _(M, c):
    I = c.I
    p = c.oval()
    n = c.v(0)
    if not isinstance(p, Ptr) or not isnum(n):
        return NotImplemented
    es = iter_es(I, c)
    q = p.plus(mulc(n, es if '+' in c.name.split('::')[-1] else -es))
    if c.name.endswith('='):
        c.setval(q)
        return c.obj()
    return q


@m('__gnu_cxx::operator-', 'std::distance')
def _(M, c):
    I = c.I
    a, b = I.rv(c.args[0]), I.rv(c.args[1])
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc == b.loc):
        return NotImplemented
    if c.name == 'std::distance':
        a, b = b, a
    t = I.P.ty(I.P.strip(c.args[0]['t']))
    es = (I.P.size(t['to']) or 1) if t['k'] == 'ptr' else (I.P.size(I.P.ty(I.P.targs(t['r'])[0]['t'])['to']) or 1)
    return num.div(sub(a.off, b.off), es)


@m('std::next', 'std::prev')
def _(M, c):
    I = c.I
    p = I.rv(c.args[0])
    n = I.rv(c.args[1]) if len(c.args) > 1 else 1
    t = I.P.ty(I.P.strip(c.args[0]['t']))
    if not isinstance(p, Ptr):
        return NotImplemented
    es = (I.P.size(t['to']) or 1) if t['k'] == 'ptr' else (I.P.size(I.P.ty(I.P.targs(t['r'])[0]['t'])['to']) or 1)
    return p.plus(mulc(n, es if c.name == 'std::next' else -es))


# ---- algorithms ---------------------------------------------------------------------------------------------------------
def ptr_es(I, tid):
    t = I.P.ty(I.P.strip(tid))
    if t['k'] == 'ptr':
        return I.P.size(t['to']) or 1
    if t['k'] == 'rec' and I.P.recs[t['r']]['name'] == '__gnu_cxx::__normal_iterator':
        return I.P.size(I.P.ty(I.P.targs(t['r'])[0]['t'])['to']) or 1
    return 1


def ptr_to(I, tid):
    t = I.P.ty(I.P.strip(tid))
    if t['k'] == 'ptr':
        return t['to']
    if t['k'] == 'rec' and I.P.recs[t['r']]['name'] == '__gnu_cxx::__normal_iterator':
        return I.P.ty(I.P.targs(t['r'])[0]['t'])['to']
    if t['k'] == 'rec' and I.P.recs[t['r']]['name'] in ('std::_List_iterator', 'std::_List_const_iterator'):
        return I.P.targs(t['r'])[0]['t']
    return None


def mem_copy(M, I, src, dst, n, st, dt):
    """copy n elements; n may be symbolic"""
    if isinstance(n, int) and n == 0:
        return dst
    if not isinstance(src, Ptr) or not isinstance(dst, Ptr):
        I.taint('copy')
        return dst
    ses, des = I.P.size(I.P.strip(st)) or 1, I.P.size(I.P.strip(dt)) or 1
    I.check_live(src, 'copy source')
    I.check_live(dst, 'copy destination')
    sc, dc = I.get(src.loc), I.get(dst.loc)
    if src.content and isinstance(sc, Seq):
        I.in_bounds(src, sc, mulc(n, ses), 'copy source')
    elif not src.content:
        osz = object_size(I, src)
        if osz is not None:
            I.oblige('out-of-bounds', c_and(c_ge(src.off), c_ge(sub(osz, add(src.off, mulc(n, ses))))), f'copy of {n} elements from a {osz}-byte object')
    if dst.content and isinstance(dc, Seq):
        I.in_bounds(dst, dc, mulc(n, des), 'copy destination')
        des0 = I.es_of(dc.ety)
        if des0 == des:
            s = M.view_seq(I, View(src, n))
            i = I.elem_index(dst.off, des)
            if i is not None:
                head = I.seq_slice(dc, 0, i).p
                tail = I.seq_slice(dc, add(i, n), sub(dc.len(), add(i, n))).p
                I.put(dst.loc, dc.with_p(head + s.p + tail))
                return dst.plus(mulc(n, des))
    elif not dst.content:
        osz = object_size(I, dst)
        if osz is not None:
            I.oblige('out-of-bounds', c_and(c_ge(dst.off), c_ge(sub(osz, add(dst.off, mulc(n, des))))), f'copy of {n} elements into a {osz}-byte object')
    if isinstance(n, int) and n <= 64 and ses == des:
        for i in range(n):
            v = I.load(src.plus(i * ses), st)
            I.write(dst.plus(i * des), dt, v)
        return dst.plus(n * des)
    I.taint('copy')
    return dst.plus(mulc(n, des))


def object_size(I, p):
    t = I.loc_tid(p.loc)
    return I.P.size(t) if t is not None else None


@m('std::copy_n')
def _(M, c):
    I = c.I
    s, n, d = (I.rv(a) for a in c.args[:3])
    if not isnum(n):
        return NotImplemented
    st, dt = ptr_to(I, c.args[0]['t']), ptr_to(I, c.args[2]['t'])
    if st is None or dt is None:
        return NotImplemented
    if isinstance(n, Lin) and I.rng(c.args[1]['t'])[1]:
        pass
    return mem_copy(M, I, s, d, n, st, dt)


@m('std::copy', 'std::move_range')
def _(M, c):
    I = c.I
    out = I.rv(c.args[-1]) if I.P.recname(c.args[-1]['t']) == 'std::back_insert_iterator' or len(c.args) == 2 else None
    if out is not None:
        R = alg_range(M, I, c)
        if R is None:
            return NotImplemented
        base, n, ety, rest, end = R
        if isinstance(out, Rec) and out.rn == 'back_inserter':
            s = I.get(out.f['to'].loc)
            x = M.view_seq(I, View(base, n))
            if isinstance(s, Seq) and isinstance(x, Seq):
                I.put(out.f['to'].loc, s.with_p(s.p + x.p))
                return out
            return NotImplemented
        dt = ptr_to(I, c.args[-1]['t'])
        return mem_copy(M, I, base, out, n, ety, dt) if dt is not None else NotImplemented
    s, e, d = (I.rv(a) for a in c.args[:3])
    st, dt = ptr_to(I, c.args[0]['t']), ptr_to(I, c.args[2]['t'])
    if st is None or dt is None or not (isinstance(s, Ptr) and isinstance(e, Ptr) and s.loc == e.loc):
        return NotImplemented
    n = num.div(sub(e.off, s.off), I.P.size(I.P.strip(st)) or 1)
    return mem_copy(M, I, s, d, n, st, dt)


@m('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy')
def _(M, c):
    I = c.I
    d, s, n = (I.rv(a) for a in c.args[:3])
    bt = M.byte_t()
    if not isnum(n):
        return NotImplemented
    mem_copy(M, I, s, d, n, bt, bt)
    return d


@m('std::fill', 'std::fill_n', 'memset', 'std::memset')
def _(M, c):
    I = c.I
    xs = [I.rv(a) for a in c.args]
    if c.name.endswith('memset'):
        d, v, n = xs
        et = M.byte_t()
    else:
        et = ptr_to(I, c.args[0]['t'])
        if et is None:
            return NotImplemented
        es = I.P.size(et) or 1
        if c.name == 'std::fill':
            d, e2, v = xs
            n = num.div(sub(e2.off, d.off), es)
        else:
            d, n, v = xs
    if not isinstance(d, Ptr) or not d.content:
        return NotImplemented
    s = I.get(d.loc)
    es = I.P.size(et) or 1
    if not isinstance(s, Seq) or I.es_of(s.ety) != es:
        return NotImplemented
    I.in_bounds(d, s, mulc(n, es), c.name)
    i = I.elem_index(d.off, es)
    I.put(d.loc, s.with_p(I.seq_slice(s, 0, i).p + (('rep', n, v),) + I.seq_slice(s, add(i, n), sub(s.len(), add(i, n))).p))
    return d.plus(mulc(n, es))


@m('std::array::fill')
def _(M, c):
    I = c.I
    v = c.oval()
    c.setval(v.with_p([('rep', v.len(), c.v(0))]))


def pred_key(v):
    if isinstance(v, Clo):
        return ('pred', v.rid)
    return ('pred', str(v))


PRED_CACHE = {}


def accepted(I, pred, ch, swap):
    """bytes x with pred(x, ch) (or pred(ch, x) when swap) for a closure over two characters; None when unknown"""
    if not isinstance(pred, Clo):
        return None
    k = (id(I.P), pred.rid, pred.caps, ch, swap)
    if k in PRED_CACHE:
        return PRED_CACHE[k]
    ops = I.P.recs[pred.rid].get('ops', [])
    if not ops:
        return None
    f = I.P.funcs[ops[0]]
    if len(f['p']) != 2:
        return None
    out = set()
    sch = I.sgn(ch, 8, True)
    for x in range(256):
        sx = x - 256 if x > 127 else x
        a, b = (sch, sx) if swap else (sx, sch)
        ar = []
        for v, p in zip((a, b), f['p']):
            tid = I.P.strip(p['t'])
            if I.P.ty(tid)['k'] == 'int':
                w, s = I.rng(tid)
                v = v if s else v & ((1 << w) - 1)
            ar.append(I.new('param', 'ch', tid, v))
        n = len(I.st.events)
        try:
            r = I.call(f, None, ar, pred)
        except (Throw, PathDead):
            return None
        if isinstance(r, int) and not isinstance(r, bool):
            r = r != 0
        if r not in (True, False):
            PRED_CACHE[k] = None
            return None
        if r:
            out.add(x)
    PRED_CACHE[k] = frozenset(out)
    return PRED_CACHE[k]


def table_of(I, fn):
    """the map of bytes a function over one character computes, or None"""
    k = (id(I.P), 'table', getattr(fn, 'rid', None), getattr(fn, 'caps', None), str(fn))
    if k in PRED_CACHE:
        return PRED_CACHE[k]
    PRED_CACHE[k] = None
    f = None
    if isinstance(fn, FRef) and fn.f['n'].split('::')[-1] in ('tolower', 'toupper'):
        up = fn.f['n'].endswith('toupper')
        return bytes(x - 32 if up and 97 <= x <= 122 else x + 32 if not up and 65 <= x <= 90 else x for x in range(256))
    if isinstance(fn, Clo):
        ops = I.P.recs[fn.rid].get('ops', [])
        f = I.P.funcs[ops[0]] if ops else None
        if f is None or len(f['p']) != 1:
            return None
    out = []
    for x in range(256):
        v = x - 256 if x > 127 else x
        cell = I.new('local', 'character', I.models.char_t(), v)
        ne, no = len(I.st.events), len(I.st.taint)
        I.quiet += 1
        try:
            outs = I.explore(lambda: I.invoke(fn, [(cell, True)]), I.st)
        except (AttributeError, TypeError, KeyError, AssertionError):
            return None
        finally:
            I.quiet -= 1
        if len(outs) != 1 or outs[0].kind != 'ok' or len(outs[0].st.events) != ne or len(outs[0].st.taint) != no:
            return None
        r = outs[0].v
        if isinstance(r, Ptr):
            sav, I.st = I.st, outs[0].st
            r = I.get(r.loc)
            I.st = sav
        if not isinstance(r, int):
            return None
        out.append(r & 255)
    PRED_CACHE[k] = bytes(out)
    return PRED_CACHE[k]


def mapped(I, s, tab):
    """the text whose bytes are those of s, each replaced by its entry"""
    b = s.concrete()
    if b is not None:
        return s.with_p((('lit', bytes(tab[x] for x in b)),) if b else ())
    if tab == bytes(range(256)):
        return s
    return s.with_p((('src', Src(('mapped', tab, s.p), s.ety, ()), 0, s.len()),))


def unmapped(I, hay, needle):
    """(text, sets) such that hay contains / is needle exactly when the text contains / is a word of the sets"""
    b = needle.concrete()
    if b is None or len(hay.p) != 1 or hay.p[0][0] != 'src':
        return None
    k = hay.p[0][1].key
    if not (isinstance(k, tuple) and len(k) == 3 and k[0] == 'mapped') or hay.p[0][2] != 0:
        return None
    inner = Seq(k[2], hay.ety, 'string')
    if inner.len() != hay.len():
        return None
    return inner, tuple(frozenset(x for x in range(256) if k[1][x] == ch) for ch in b)


def sets_of(I, pred, lit, swap):
    out = []
    for ch in lit:
        a = accepted(I, pred, ch, swap)
        if a is None:
            return None
        out.append(a)
    return tuple(out)


def txt_match(sets, b, i=0):
    return len(b) - i >= len(sets) and all(b[i + j] in x for j, x in enumerate(sets))


def txt_cond(I, kind, hay, sets):
    """condition: hay equals / contains a text of the language sets[0] sets[1] ..."""
    if all(len(x) == 1 for x in sets):
        lit = bytes(list(x)[0] for x in sets)
        if kind == 'txteq':
            return I.seq_eq(hay, Seq([('lit', lit)], hay.ety, 'string'))
    b = hay.concrete()
    if b is not None:
        return (len(b) == len(sets) and txt_match(sets, b)) if kind == 'txteq' else any(txt_match(sets, b, i) for i in range(len(b) - len(sets) + 1))
    n = hay.len()
    d = I.decide(c_eq(sub(n, len(sets)))) if kind == 'txteq' else I.decide(c_ge(sub(n, len(sets))))
    if d is False:
        return False
    if kind == 'txtfind' and not sets:
        return True
    return atom((kind, hay.p, sets))


@m('std::search')
def _(M, c):
    I = c.I
    R = alg_range(M, I, c) if ptr_to(I, c.args[0]['t']) is None else None
    if R is not None:
        base, n, ety, rest, end = R
        if I.es_of(ety) != 1 or not rest or I.P.recname(rest[0]['t']) not in SQ + VW:
            return NotImplemented
        hay = M.view_seq(I, View(base, n))
        needle = M.arg_seq(I, rest[0])
        lit = needle.concrete()
        if len(rest) > 1:
            sets = sets_of(I, I.rv(rest[1]), lit, False) if lit is not None and isinstance(I.rv(rest[1]), Clo) else None
        else:
            sets = tuple(frozenset({x}) for x in lit) if lit is not None else None
        if sets is None:
            return NotImplemented
        if not I.truth(txt_cond(I, 'txtfind', hay, sets)):
            return View(end, 0)
        hc = hay.concrete()
        if hc is not None:
            return View(base.plus(next(i for i in range(len(hc)) if txt_match(sets, hc, i))), len(lit))
        r = of(sym(('search', hay.p, sets), 0, MAXLEN))
        I.assume(c_ge(sub(sub(hay.len(), len(sets)), r)))
        return View(base.plus(r), len(lit))
    b, e, b2, e2 = (I.rv(a) for a in c.args[:4])
    pk = pred_key(I.rv(c.args[4])) if len(c.args) > 4 else None
    if not all(isinstance(x, Ptr) for x in (b, e, b2, e2)):
        return NotImplemented
    hay, needle = M.view_seq(I, View(b, sub(e.off, b.off))), M.view_seq(I, View(b2, sub(e2.off, b2.off)))
    if pk is None:
        r = M.find(I, hay, needle, 0)
        return e if r is None else b.plus(r)
    lit = needle.concrete()
    sets = sets_of(I, I.rv(c.args[4]), lit, False) if lit is not None else None
    if sets is not None:
        if not I.truth(txt_cond(I, 'txtfind', hay, sets)):
            return e
        hc = hay.concrete()
        if hc is not None:
            return b.plus(next(i for i in range(len(hc)) if txt_match(sets, hc, i)))
        r = of(sym(('search', hay.p, sets), 0, MAXLEN))
        I.assume(c_ge(sub(sub(hay.len(), len(sets)), r)))
        return b.plus(r)
    I.event('search', hay=hay, needle=needle, pred=pk)
    if I.truth(atom(('found', pk, hay.p, needle.p))):
        r = of(sym(('search', pk, hay.p, needle.p), 0, MAXLEN))
        I.assume(c_ge(sub(sub(hay.len(), needle.len()), r)))
        if not (needle.concrete() or b'') == b'':
            pass
        return b.plus(r)
    return e


@m('std::equal')
def _(M, c):
    I = c.I
    args = list(c.args)
    vals = [I.rv(a) for a in args]
    pred = clo = None
    if not isinstance(vals[-1], Ptr):
        clo = vals[-1]
        pred = pred_key(vals[-1])
        vals = vals[:-1]
    if not all(isinstance(x, Ptr) for x in vals):
        return NotImplemented
    b, e, b2 = vals[:3]
    es = ptr_es(I, args[0]['t'])
    n = num.div(sub(e.off, b.off), es) if es > 1 else sub(e.off, b.off)
    x, y = M.view_seq(I, View(b, n)), None
    if len(vals) == 4:
        n2 = num.div(sub(vals[3].off, b2.off), es) if es > 1 else sub(vals[3].off, b2.off)
        if not I.truth(c_eq(sub(n, n2))):
            return False
        n = n2
    if not isinstance(n, int):
        lo, hi = num.interval(n, I.bnd)
        if lo is not None and lo == hi:
            n = lo
    y = M.view_seq(I, View(b2, n))
    if pred is None:
        return I.seq_eq(x, y)
    for u, w, swap in ((x, y, False), (y, x, True)):
        lit = w.concrete()
        if lit is not None and len(lit) <= 256:
            sets = sets_of(I, clo, lit, swap)
            if sets is not None:
                return txt_cond(I, 'txteq', u, sets)
    return atom(('equal', pred, x.p, y.p))


def alg_range(M, I, c):
    """(base pointer, element count, element type, remaining argument values, end pointer) of an algorithm call on a range"""
    a = c.args
    v0 = I.ev(a[0])
    if isinstance(v0, Ptr) and a[0].get('lv'):
        inner = I.rv(a[0])
    else:
        inner = v0
    if ptr_to(I, a[0]['t']) is not None and isinstance(inner, Ptr) and len(a) > 1:
        e = I.rv(a[1])
        if not isinstance(e, Ptr) or e.loc != inner.loc:
            return None
        t = ptr_to(I, a[0]['t'])
        es = I.P.size(I.P.strip(t)) or 1
        n = sub(e.off, inner.off)
        return inner, n if es == 1 else num.div(n, es), t, list(a[2:]), e
    if ptr_to(I, a[0]['t']) is None and I.P.recname(a[0]['t']) in SQ + VW:
        q = v0 if isinstance(v0, Ptr) and not v0.content else None
        if q is None:
            v = inner
            q = I.temp(v, I.P.strip(a[0]['t']))
        v = I.get(q.loc)
        base, n, ety = M.range_of(I, q, v, a[0]['t'])
        if base is None or ety is None:
            return None
        es = I.es_of(ety)
        return base, n, ety, list(a[1:]), base.plus(mulc(n, es))
    return None


def alg_loop(I, c, n, step):
    """step(i) for the elements 0..n-1 in order; step returns True to stop; index of the element that stopped it, or None"""
    from .interp import BreakX
    st = I.models.size_t(I)
    idx = I.new('local', 'algorithm-index', st, 0)
    hit = I.new('local', 'algorithm-hit', st, 0)
    if isinstance(n, Lin):
        I.assume(c_ge(n))

    def body():
        if step(I.get(idx.loc)):
            I.put(hit.loc, 1)
            raise BreakX()
    I.loop({'l': c.e['l'], 'k': 'alg'}, lambda: c_not(c_eq(sub(I.get(idx.loc), n))), body, lambda: I.put(idx.loc, add(I.get(idx.loc), 1)), rng=(idx, n))
    h = I.get(hit.loc)
    if isinstance(h, Lin):
        h = 1 if I.truth(c_not(c_eq(h))) else 0
    return I.get(idx.loc) if h else None


@m('std::any_of', 'std::all_of', 'std::none_of', 'std::find', 'std::find_if', 'std::find_if_not', 'std::count', 'std::count_if', 'std::for_each',
   'std::accumulate', 'std::contains', 'std::transform', 'std::replace', 'std::generate', 'std::for_each_n')
def _(M, c):
    I = c.I
    k = c.name.split('::')[-1]
    if k == 'transform' and len(c.args) == 3 and ptr_to(I, c.args[0]['t']) is None:
        pass
    if k in ('generate', 'for_each_n'):
        return NotImplemented
    R = alg_range(M, I, c)
    if R is None:
        return NotImplemented
    base, n, ety, rest, end = R
    es = I.P.size(I.P.strip(ety)) or 1
    lv = I.P.ty(I.P.strip(ety))['k']

    def at(i):
        return I.norm(Ptr(base.loc, add(base.off, mulc(i, es)), True))

    def elem(i):
        return I.load(at(i), ety)

    def equal(x, y):
        if isnum(x) and isnum(y):
            return c_eq(sub(x, y))
        sx, sy = (M.to_seq(I, z) if isinstance(z, (Seq, View, Ptr)) else None for z in (x, y))
        if sx is not None and sy is not None:
            return I.seq_eq(sx, sy)
        return None
    if k in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'for_each'):
        fn = I.rv(rest[0])
        if len(rest) > 1:
            return NotImplemented      # a projection
        call = lambda i: I.invoke(fn, [(at(i), True)])
    elif k in ('find', 'count', 'contains'):
        val = I.rv(rest[0])
        if len(rest) > 1:
            return NotImplemented
        def call(i):
            r = equal(elem(i), val)
            if r is None:
                I.taint('algorithm on unknown elements')
                return atom(('found', str(val)))
            return r
    if k in ('any_of', 'none_of', 'contains'):
        r = alg_loop(I, c, n, lambda i: I.truth(I.tobool(call(i))))
        return (r is not None) == (k != 'none_of')
    if k == 'all_of':
        return alg_loop(I, c, n, lambda i: not I.truth(I.tobool(call(i)))) is None
    if k in ('find', 'find_if', 'find_if_not'):
        r = alg_loop(I, c, n, lambda i: I.truth(I.tobool(call(i))) != (k == 'find_if_not'))
        return end if r is None else at(r)
    if k in ('count', 'count_if'):
        t = I.new('local', 'count', M.size_t(I), 0)
        def step(i):
            if I.truth(I.tobool(call(i))):
                I.put(t.loc, add(I.get(t.loc), 1))
        alg_loop(I, c, n, step)
        return I.get(t.loc)
    if k == 'for_each':
        alg_loop(I, c, n, lambda i: call(i) and False)
        return fn
    if k == 'accumulate':
        t = I.new('local', 'accumulator', I.P.strip(c.e['t']), I.rv(rest[0]))
        fn = I.rv(rest[1]) if len(rest) > 1 else None
        def step(i):
            if fn is None:
                if not isnum(elem(i)) or not isnum(I.get(t.loc)):
                    I.taint('accumulate')
                    return False
                I.put(t.loc, I.fit(add(I.get(t.loc), elem(i)), I.P.strip(c.e['t'])))
            else:
                r = I.invoke(fn, [(t, True), (at(i), True)])
                I.put(t.loc, I.load(r, I.P.strip(c.e['t'])) if isinstance(r, Ptr) and not isinstance(I.get(t.loc), Ptr) else r)
            return False
        alg_loop(I, c, n, step)
        return I.get(t.loc)
    if k == 'transform' and len(rest) == 2:
        dt = ptr_to(I, rest[0]['t'])
        fn = I.rv(rest[1])
        ins = I.rv(rest[0])
        if dt is not None and isinstance(ins, Ptr):
            des = I.P.size(I.P.strip(dt)) or 1
            if es == 1 and des == 1 and not isinstance(n, int) and ins == base:
                s = I.get(base.loc)
                tab = table_of(I, fn) if isinstance(s, Seq) and base.content and base.off == 0 and c_eq(sub(s.len(), n)) is True else None
                if tab is not None:
                    I.put(base.loc, mapped(I, s, tab))
                    return ins.plus(n)
            def step(i):
                r = I.invoke(fn, [(at(i), True)])
                I.write(ins.plus(mulc(i, des)), dt, r)
                return False
            alg_loop(I, c, n, step)
            return ins.plus(mulc(n, des))
        if isinstance(ins, Rec) and ins.rn == 'back_inserter':
            s, d = I.get(base.loc), I.get(ins.f['to'].loc)
            if es == 1 and not isinstance(n, int) and isinstance(s, Seq) and isinstance(d, Seq) and I.es_of(d.ety) == 1 and base.content and base.off == 0 and c_eq(sub(s.len(), n)) is True:
                tab = table_of(I, fn)
                if tab is not None:
                    I.put(ins.f['to'].loc, d.with_p(d.p + mapped(I, s, tab).p))
                    return ins
            def step(i):
                r = I.invoke(fn, [(at(i), True)])
                s = I.get(ins.f['to'].loc)
                I.put(ins.f['to'].loc, s.with_p(s.p + (('el', r),)))
                return False
            if isinstance(I.get(ins.f['to'].loc), Seq):
                alg_loop(I, c, n, step)
                return ins
    if k == 'replace' and len(rest) == 2:
        old, nw = I.rv(rest[0]), I.rv(rest[1])
        def step(i):
            r = equal(elem(i), old)
            if r is None:
                I.taint('replace')
            elif I.truth(r):
                I.write(at(i), ety, nw)
            return False
        alg_loop(I, c, n, step)
        return None
    return NotImplemented


@m('std::erase_if', 'std::erase')
def _(M, c):
    I = c.I
    q = I.ev(c.args[0])
    v = I.get(q.loc) if isinstance(q, Ptr) else None
    if not isinstance(v, Seq) or not isinstance(v.len(), int) or v.len() > 64:
        return NotImplemented
    x = I.rv(c.args[1])
    keep, n = [], 0
    es = I.es_of(v.ety)
    for i in range(v.len()):
        el = I.seq_get(v, i)
        if c.name == 'std::erase_if':
            r = I.truth(I.tobool(I.invoke(x, [(I.norm(Ptr(q.loc, i * es, True)), True)])))
        elif isnum(el) and isnum(x):
            r = I.truth(c_eq(sub(el, x)))
        else:
            return NotImplemented
        if not r:
            keep.append(('el', el))
    I.put(q.loc, v.with_p(tuple(keep)))
    return v.len() - len(keep)


@m('std::back_inserter')
def _(M, c):
    v = c.I.ev(c.args[0])
    return Rec('back_inserter', {'to': v}) if isinstance(v, Ptr) else NotImplemented


@m('std::rotl', 'std::rotr')
def _(M, c):
    I = c.I
    v, k = c.w(0), c.w(1)
    w, s = I.rng(c.args[0]['t'])
    if not isnum(v) or not isinstance(k, int):
        return NotImplemented
    k %= w
    if c.name == 'std::rotr':
        k = (w - k) % w
    if k == 0:
        return v
    return add(num.mod(mulc(v, 1 << k), 1 << w, I.bnd), num.div(v, 1 << (w - k), I.bnd))


# ---- optional, function, pointers, tuples ---------------------------------------------------------------------------------
@m('std::optional::has_value', 'std::optional::(conv)', 'std::function::(conv)', 'std::shared_ptr::(conv)', 'std::unique_ptr::(conv)', 'std::__shared_ptr::(conv)')
def _(M, c):
    return c.I.tobool(c.oval())


@m('std::optional::operator->', 'std::optional::operator*')
def _(M, c):
    I = c.I
    v = c.oval()
    if isinstance(v, Opt):
        I.oblige('empty-optional', v.has, 'dereference of an optional')
    o = c.obj()
    return Ptr(Loc(o.loc.root, o.loc.path + (('o', None),)))


@m('std::optional::value')
def _(M, c):
    I = c.I
    v = c.oval()
    if isinstance(v, Opt) and not I.truth(v.has):
        raise Throw('std::bad_optional_access', None, I.where())
    o = c.obj()
    return Ptr(Loc(o.loc.root, o.loc.path + (('o', None),)))


@m('std::optional::value_or')
def _(M, c):
    I = c.I
    v = c.oval()
    if isinstance(v, Opt):
        if I.truth(v.has):
            return v.val
        tmp = I.new('temp', 'value_or', c.e['t'])
        M.convert_into(I, c.rest()[0], tmp, c.e['t'])
        return I.get(tmp.loc)
    return NotImplemented


@m('std::make_optional')
def _(M, c):
    I = c.I
    t = I.P.targs(I.P.rid(c.e['t']))[0]['t']
    tmp = I.new('temp', 'optional-value', t)
    M.convert_into(I, c.args[0], tmp, t)
    return Opt(True, I.get(tmp.loc))


@m('std::function::operator()', 'std::invoke')
def _(M, c):
    I = c.I
    if c.name == 'std::invoke':
        f = callee_of(c, c.args[0])
        rest = c.args[1:]
    else:
        f = c.oval()
        rest = c.rest()
    args = []
    for a in rest:
        v = I.ev(a)
        args.append((v, bool(a.get('lv'))))
    I.cur = c.e['l']
    if isinstance(f, Opq):
        f = Fn(f)
    if isinstance(f, Fn) and f.t is None:
        raise Throw('std::bad_function_call', None, I.where())
    r = I.invoke(f, args)
    if isinstance(r, Opq) and I.P.ty(c.e['t'])['k'] != 'void':
        return c.result(('ret', r.key))
    if c.e.get('lv') and not isinstance(r, Ptr):
        return I.temp(r, I.P.strip(c.e['t']))
    return r


@m('std::__shared_ptr::get', 'std::shared_ptr::get', 'std::unique_ptr::get', 'std::__shared_ptr_access::operator->', 'std::__shared_ptr_access::operator*',
   'std::unique_ptr::operator->', 'std::unique_ptr::operator*', 'std::shared_ptr::operator->', 'std::shared_ptr::operator*')
def _(M, c):
    I = c.I
    v = c.oval()
    if isinstance(v, SP):
        if v.ptr is None:
            if c.name.endswith('get'):
                return NULL
            I.oblige('null-deref', False, 'smart pointer')
            raise PathDead()
        return v.ptr
    return NotImplemented


@m('std::enable_shared_from_this::shared_from_this', 'std::enable_shared_from_this::weak_from_this')
def _(M, c):
    return SP(c.obj())


@m('std::weak_ptr::lock')
def _(M, c):
    return c.oval()


@m('std::make_shared', 'std::make_unique')
def _(M, c):
    I = c.I
    t = I.P.targs(I.P.rid(c.e['t']))[0]['t']
    r = I.P.recs[I.P.rid(t)] if I.P.rid(t) is not None else None
    if r is None:
        return NotImplemented
    q = I.new('heap', r['name'].split('::')[-1], t)
    make_object(M, I, r, t, c.args, q)
    I.event('make', cls=r['name'], ptr=q)
    return SP(q)


def tup_index(e):
    for x in e['f'].get('ta') or []:
        if 'i' in x:
            return int(x['i'])
    return None


@m('std::get')
def _(M, c):
    I = c.I
    i = tup_index(c.e)
    n = I.P.recname(c.args[0]['t'])
    if i is None:
        return NotImplemented
    o = c.obj()
    if n == 'std::array':
        return I.norm(Ptr(o.loc, i * I.es_of(c.ety()), True))
    if n == 'std::variant':
        return NotImplemented
    v = I.load(o, c.args[0]['t'])
    if isinstance(v, Rec) and isinstance(v.f.get(i), Ptr):
        ta = ta_list(I.P.targs(I.P.rid(c.args[0]['t'])))
        if i < len(ta) and I.P.ty(ta[i]['t'])['k'] == 'ref':
            return v.f[i]
    if o.content:
        return I.temp(v.f[i], I.P.strip(c.e['t'])) if isinstance(v, Rec) else NotImplemented
    return Ptr(Loc(o.loc.root, o.loc.path + (('f', i),)))


@m('std::tie', 'std::forward_as_tuple')
def _(M, c):
    I = c.I
    f = {}
    for i, a in enumerate(c.args):
        v = I.ev(a)
        f[i] = I.norm(v) if a.get('lv') else I.temp(v, a['t'])
    return Rec('std::tuple', f)


@m('std::make_tuple', 'std::make_pair')
def _(M, c):
    I = c.I
    return Rec('std::tuple' if 'tuple' in c.name else 'std::pair', {i: I.rv(a) for i, a in enumerate(c.args)})


@m('std::tuple::operator=')
def _(M, c):
    I = c.I
    dst = c.oval()
    src = I.rv(c.rest()[0])
    if not isinstance(dst, Rec) or not isinstance(src, Rec):
        return NotImplemented
    ts = ta_list(I.P.targs(I.P.rid(c.otid())))
    if len(ts) == len(src.f) and all(I.P.ty(t['t'])['k'] == 'ref' for t in ts) and ts:
        for i, t in enumerate(ts):
            x = src.f[i]
            if isinstance(x, Ptr) and I.P.ty(I.P.strip(t['t']))['k'] != 'ptr':
                x = I.load(x, t['t'])
            I.write(dst.f[i], t['t'], x)
        return c.obj()
    c.setval(src)
    return c.obj()


def callee_of(c, a):
    v = c.I.rv(a)
    r = c.I.P.rid(c.I.P.strip(a['t']))
    return Functor(r, v) if isinstance(v, Rec) and r is not None and c.I.P.call_ops(r) else v


@m('std::apply')
def _(M, c):
    I = c.I
    f = callee_of(c, c.args[0])
    a = c.args[1]
    v = I.ev(a)
    p = I.norm(v) if a.get('lv') else I.temp(v, a['t'])
    ts = ta_list(I.P.targs(I.P.rid(a['t'])))
    tv = I.load(p, a['t'])
    args = []
    for i, t in enumerate(ts):
        if isinstance(tv, Rec) and isinstance(tv.f.get(i), Ptr) and I.P.ty(t['t'])['k'] == 'ref':
            args.append((tv.f[i], True))
        elif p.content:
            args.append((I.temp(tv.f[i] if isinstance(tv, Rec) else I.mk_sym(t['t'], ('tupel', str(tv), i)), t['t']), True))
        else:
            args.append((Ptr(Loc(p.loc.root, p.loc.path + (('f', i),))), True))
    I.cur = c.e['l']
    return I.invoke(f, args)


# ---- associative containers ----------------------------------------------------------------------------------------------
def map_find(M, c, v, k):
    """the value stored under k: a pointer, None (none), or NotImplemented (the content of the map is not known)"""
    I = c.I
    if isinstance(v, Rec):
        for kk, val in v.f['items']:
            if val is not None and I.truth(I.val_eq(kk, k)):
                return val
        if not v.f['open']:
            return None
    return NotImplemented


def map_put(M, c, keyargs, how='emplace'):
    """(pointer to the value, was it inserted)"""
    I = c.I
    v = c.oval()
    k = I.rv(keyargs[0])
    if isinstance(k, (View, Ptr)):
        k = M.to_seq(I, k)
    rest = keyargs[1:]
    there = map_find(M, c, v, k)
    if there is not None and there is not NotImplemented:
        if how == 'assign' and rest:
            I.put(there.loc, I.rv(rest[0]))
            I.event('map-insert', map=c.obj(), key=k, val=I.get(there.loc), how=c.name)
        else:
            for a in rest:
                I.ev(a)
        return there, False
    ta = I.P.targs(I.P.rid(c.otid()))
    vt = ta[1]['t'] if len(ta) > 1 and 't' in ta[1] else rest[0]['t'] if rest else None
    val = I.new('heap', 'mapped', vt)
    r = I.P.recs[I.P.rid(vt)] if vt is not None and I.P.rid(vt) is not None else None
    if r is not None and rest:
        make_object(M, I, r, vt, rest, val)
    elif rest:
        I.put(val.loc, I.rv(rest[0]))
        for a in rest[1:]:
            I.ev(a)
    elif vt is not None:
        I.put(val.loc, I.zero(vt))
    I.event('map-insert', map=c.obj(), key=k, val=I.get(val.loc), how=c.name)
    v = c.oval()
    if isinstance(v, Rec):
        c.setval(v.set('items', v.f['items'] + ((k, val),)))
    return val, atom(('inserted', I.st.cnt)) if there is NotImplemented else True


def pair_args(c, args):
    """the expressions of (key, constructor arguments...) of emplace / insert, or None"""
    P = c.I.P
    def bare(a):
        while a['k'] in ('full', 'cast', 'temp', 'mat', 'paren', 'bindtemp', 'ilist1') and isinstance(a.get('e'), dict):
            a = a['e']
        return a
    if args and P.recname(args[0]['t']) == 'std::piecewise_construct_t' and len(args) == 3:
        ts = [bare(a) for a in args[1:]]
        if all(t['k'] == 'call' and isinstance(t.get('f'), dict) and t['f'].get('n') in ('std::forward_as_tuple', 'std::tie') for t in ts) and len(ts[0]['a']) == 1:
            return ts[0]['a'] + ts[1]['a']
        return None
    if len(args) == 2:
        return args
    if len(args) == 1:
        a = bare(args[0])
        if P.recname(a['t']) == 'std::pair' and a['k'] in ('call', 'ctor', 'construct', 'init') and len(a.get('a', [])) == 2:
            return a['a']
    return None


@m(*[f'std::{x}map::{y}' for x in ('', 'unordered_') for y in ('try_emplace', 'emplace', 'insert_or_assign', 'insert')])
def _(M, c):
    I = c.I
    op = c.name.rsplit('::', 1)[-1]
    args = c.rest() if op in ('try_emplace', 'insert_or_assign') else pair_args(c, c.rest())
    if args is None or not args:
        I.taint('arguments of ' + c.name)
        for a in c.rest():
            I.ev(a)
        v = c.oval()
        if isinstance(v, Rec):
            c.setval(v.set('open', True).set('key', ('unknown', I.st.cnt)))
        return c.result(('inserted', I.st.cnt))
    val, new = map_put(M, c, args, 'assign' if op == 'insert_or_assign' else 'emplace')
    return Rec('std::pair', {0: MapIter(val, I.rv(args[0])), 1: new})


@m('std::map::operator[]', 'std::unordered_map::operator[]')
def _(M, c):
    return map_put(M, c, c.rest()[:1])[0]


def map_lookup(M, c, throwing):
    I = c.I
    v = c.oval()
    k = I.rv(c.rest()[0])
    if isinstance(k, (View, Ptr)):
        k = M.to_seq(I, k)
    I.event('map-lookup', map=c.obj(), key=k)
    if isinstance(v, Rec):
        for kk, val in v.f['items']:
            e = I.val_eq(kk, k)
            if val is not None and I.truth(e):
                return val
        if not v.f['open']:
            return None
        mk = v.f['key']
    else:
        mk = getattr(v, 'key', str(v))
    if not I.truth(atom(('mapped', mk, k))):
        return None
    ta = I.P.targs(I.P.rid(c.otid()))
    vt = ta[1]['t'] if len(ta) > 1 and 't' in ta[1] else None
    return Ptr(Loc(Obj('opaque', ('mapval', mk, k), 0, vt), ()))


@m('std::map::at', 'std::unordered_map::at')
def _(M, c):
    r = map_lookup(M, c, True)
    if r is None:
        raise Throw('std::out_of_range', None, c.I.where())
    return r


@m('std::map::find', 'std::unordered_map::find')
def _(M, c):
    r = map_lookup(M, c, False)
    if r is None:
        return Opq(('mapend', str(c.obj().loc)))
    return MapIter(r, c.I.rv(c.rest()[0]))


@m('std::map::contains', 'std::unordered_map::contains', 'std::map::count', 'std::unordered_map::count')
def _(M, c):
    r = map_lookup(M, c, False) is not None
    return int(r) if c.name.endswith('count') else r


@m('std::map::end', 'std::unordered_map::end', 'std::map::cend', 'std::unordered_map::cend')
def _(M, c):
    return Opq(('mapend', str(c.obj().loc)))


def map_items(v):
    """the entries of a map whose content is known, in the order of their keys, or None"""
    if not (isinstance(v, Rec) and v.rn in ('map', 'std::map') and v.f.get('open') is False):
        return None
    ks = []
    for k, p in v.f['items']:
        k = k.concrete() if isinstance(k, Seq) else k
        if p is None or not isinstance(k, (int, bytes)):
            return None
        ks.append(k)
    if len({type(k) for k in ks}) > 1:
        return None
    return [v.f['items'][i] for i in sorted(range(len(ks)), key=lambda i: ks[i])]


def map_at(M, c, pred):
    """iterator to the first entry that satisfies pred"""
    v = c.oval()
    xs = map_items(v)
    if xs is None:
        return NotImplemented
    for k, p in xs:
        if pred(k.concrete() if isinstance(k, Seq) else k):
            return MapIter(p, k)
    return Opq(('mapend', str(c.obj().loc)))


def map_key(M, c):
    k = c.I.rv(c.rest()[0])
    if isinstance(k, (View, Ptr)):
        k = M.to_seq(c.I, k)
    k = k.concrete() if isinstance(k, Seq) else k
    return k if isinstance(k, (int, bytes)) else None


@m('std::map::begin', 'std::map::cbegin')
def _(M, c):
    return map_at(M, c, lambda k: True)


@m('std::map::lower_bound')
def _(M, c):
    k = map_key(M, c)
    return NotImplemented if k is None else map_at(M, c, lambda x: x >= k)


@m('std::map::upper_bound')
def _(M, c):
    k = map_key(M, c)
    return NotImplemented if k is None else map_at(M, c, lambda x: x > k)


class MapIter(V):
    __slots__ = ('val', 'k')
    def __init__(self, val, k):
        self.val, self.k = val, k
    def _key(self):
        return (self.val, self.k)


ITERS = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator')


@m(*[f'{x}::operator{y}' for x in ITERS for y in ('->', '*')])
def _(M, c):
    I = c.I
    it = c.oval()
    if isinstance(it, MapIter):
        return I.new('temp', 'map-entry', None, Rec('std::pair', {0: it.k, 1: it.val}))
    return NotImplemented


@m('std::map::erase', 'std::map::clear', 'std::unordered_map::erase', 'std::unordered_map::clear')
def _(M, c):
    I = c.I
    k = I.rv(c.rest()[0]) if c.rest() else None
    if isinstance(k, MapIter):
        k = k.k
    elif isinstance(k, (View, Ptr)):
        k = M.to_seq(I, k)
    I.event('map-erase', map=c.obj(), key=k)
    v = c.oval()
    if isinstance(v, Rec):
        for kk, p in v.f['items']:
            if p is not None and p.loc.root.tid is not None and (k is None or kk == k):
                I.destroy_at(p.loc, p.loc.root.tid)
                I.kill(p)
        v = c.oval()
        items = tuple(x for x in v.f['items'] if k is not None and not (x[0] == k)) if k is not None else ()
        c.setval(Rec(v.rn, {'key': ('erased', v.f['key'], str(k)) if v.f['key'] is not None else None, 'items': items, 'open': v.f['open'] and k is not None}))
    return c.result(('erased', I.st.cnt))


@m('std::set::insert', 'std::set::emplace')
def _(M, c):
    I = c.I
    x = I.rv(c.rest()[0])
    v = c.oval()
    I.event('set-insert', set=c.obj(), val=x)
    if isinstance(v, Rec):
        c.setval(v.set('items', tuple(i for i in v.f['items'] if i != x) + (x,)))
    return Rec('std::pair', {0: Opq('setiter'), 1: atom(('inserted', I.st.cnt))})


@m('std::set::erase', 'std::set::clear')
def _(M, c):
    I = c.I
    x = I.rv(c.rest()[0]) if c.rest() else None
    v = c.oval()
    I.event('set-erase', set=c.obj(), val=x)
    if isinstance(v, Rec):
        if x is None:
            c.setval(Rec(v.rn, {'key': None, 'items': (), 'open': False}))
        else:
            c.setval(v.set('items', tuple(i for i in v.f['items'] if i != x)))
    return c.result(('erased', I.st.cnt))


@m('std::set::contains', 'std::set::count')
def _(M, c):
    I = c.I
    x = I.rv(c.rest()[0])
    v = c.oval()
    if isinstance(v, Rec) and x in v.f['items']:
        return True
    return atom(('in-set', str(c.obj()), x))


# ---- files and paths ---------------------------------------------------------------------------------------------------------
def pv(M, I, v):
    if isinstance(v, PathV):
        return v
    if isinstance(v, Opq):
        return PathV(('sym', v.key))
    return PathV(('str', M.to_seq(I, v)))


def fold(M, I, t):
    """evaluate a path term over concrete texts (POSIX rules); other terms stay as they are"""
    def txt(u):
        return u[1].concrete() if u[0] == 'str' else None
    xs = [txt(u) for u in t[1:] if isinstance(u, tuple)]
    if not xs or any(x is None for x in xs) or len(xs) != len(t) - 1:
        return t
    p = xs[0]
    rel = p.lstrip(b'/')
    name = p[p.rfind(b'/') + 1:]
    op = t[0]
    dot = -1 if name in (b'.', b'..') else name.rfind(b'.')
    if op == 'join' and len(xs) == 2:
        b = xs[1]
        r = b if b.startswith(b'/') else p + (b'/' if name else b'') + b
    elif op == 'concat' and len(xs) == 2:
        r = p + xs[1]
    elif len(xs) > 1:
        return t
    elif op == 'relative_path':
        r = rel
    elif op == 'filename':
        r = name
    elif op == 'extension':
        r = name[dot:] if dot > 0 else b''
    elif op == 'stem':
        r = name[:dot] if dot > 0 else name
    elif op in ('root_path', 'root_directory'):
        r = b'/' if p.startswith(b'/') else b''
    elif op == 'root_name':
        r = b''
    elif op == 'parent_path':
        if not rel:
            r = p
        else:
            r = p[:len(p) - len(name)]
            while r.endswith(b'/') and r.rstrip(b'/'):
                r = r[:-1]
            if r and not r.rstrip(b'/'):
                r = b'/'
    elif op == 'lexically_normal':
        if not p:
            r = b''
        else:
            out = []
            tail = b''
            parts = rel.split(b'/')
            for i, x in enumerate(parts):
                if x == b'' or x == b'.':
                    tail = b'/'
                elif x == b'..':
                    if out and out[-1] != b'..':
                        out.pop()
                        tail = b'/'
                    elif not p.startswith(b'/'):
                        out.append(x)
                        tail = b''
                else:
                    out.append(x)
                    tail = b''
            r = (b'/' if p.startswith(b'/') else b'') + b'/'.join(out)
            if out and tail and out[-1] != b'..':
                r += b'/'
            r = r or b'.'
    else:
        return t
    return ('str', Seq([('lit', r)] if r else [], M.char_t(), 'string'))


def folded(M, I, t):
    return PathV(fold(M, I, t))


def path_pred(M, name, t):
    """has_x/is_x of a concrete path, or None"""
    if t[0] != 'str' or t[1].concrete() is None:
        return None
    p = t[1].concrete()
    name = name.split('::')[-1]
    if name == 'empty':
        return not p
    if name in ('is_absolute', 'has_root_path', 'has_root_directory'):
        return p.startswith(b'/')
    if name == 'is_relative':
        return not p.startswith(b'/')
    part = {'has_filename': 'filename', 'has_extension': 'extension', 'has_stem': 'stem', 'has_parent_path': 'parent_path', 'has_relative_path': 'relative_path'}.get(name)
    if part is None:
        return None
    return bool(fold(M, None, (part, t))[1].concrete())


FSTHROW = tuple('std::filesystem::' + x for x in 'exists is_regular_file is_directory status symlink_status is_symlink canonical weakly_canonical absolute file_size last_write_time equivalent is_empty'.split())


def fs_throw(M, c, p):
    """asking the system about a name taken from outside raises an error unless an error code is passed: the name may be too long for it"""
    if not M.fsthrow or c.name not in FSTHROW or not M.fsthrow(p.t):
        return
    I = c.I
    if any(I.P.recname(a['t']) == 'std::error_code' for a in c.args):
        return
    if c.name.split('::')[-1] not in ('exists', 'is_regular_file', 'is_directory', 'status', 'symlink_status', 'is_symlink') and any(k[0] in ('exists', 'is_regular_file') and v for k, v in I.st.atoms.items()):
        return
    if I.choose(2):
        raise Throw('std::filesystem::filesystem_error', None, I.where())


PSTR = ('std::filesystem::path::string', 'std::filesystem::path::native', 'std::filesystem::path::c_str', 'std::filesystem::path::generic_string', 'std::filesystem::path::u8string')


@m(*PSTR, 'std::filesystem::path::(conv)')
def _(M, c):
    I = c.I
    p = pv(M, I, c.oval())
    s = p.t[1] if p.t[0] == 'str' else M.str_seq(('path', p.t))
    if c.e.get('lv'):
        return I.temp(s, I.P.strip(c.e['t']))
    if c.name.endswith('c_str'):
        q = I.temp(s, I.P.strip(c.e['t']))
        return Ptr(q.loc, 0, True)
    return s


@m(*[f'std::filesystem::path::{x}' for x in ('relative_path', 'lexically_normal', 'extension', 'filename', 'parent_path', 'root_path', 'stem', 'root_name', 'root_directory')],
   'std::filesystem::path::lexically_relative', 'std::filesystem::canonical', 'std::filesystem::weakly_canonical', 'std::filesystem::absolute', 'std::filesystem::path::lexically_proximate')
def _(M, c):
    I = c.I
    p = pv(M, I, c.oval())
    fs_throw(M, c, p)
    extra = tuple(pv(M, I, I.rv(a)).t for a in c.rest())
    return folded(M, I, (c.name.split('::')[-1], p.t) + extra)


@m('std::filesystem::operator/')
def _(M, c):
    I = c.I
    a, b = (M.path_of(I, x) for x in c.args)
    return folded(M, I, ('join', a.t, b.t))


@m('std::filesystem::path::operator/=', 'std::filesystem::path::append')
def _(M, c):
    I = c.I
    b = M.path_of(I, c.rest()[0])
    a = pv(M, I, c.oval())
    c.setval(folded(M, I, ('join', a.t, b.t)))
    return c.obj()


@m('std::filesystem::path::operator+=', 'std::filesystem::path::concat')
def _(M, c):
    I = c.I
    b = M.path_of(I, c.rest()[0])
    a = pv(M, I, c.oval())
    c.setval(folded(M, I, ('concat', a.t, b.t)))
    return c.obj()


@m('std::filesystem::path::replace_extension', 'std::filesystem::path::replace_filename', 'std::filesystem::path::make_preferred', 'std::filesystem::path::remove_filename')
def _(M, c):
    I = c.I
    a = pv(M, I, c.oval())
    extra = tuple(M.path_of(I, x).t for x in c.rest())
    c.setval(PathV((c.name.split('::')[-1], a.t) + extra))
    return c.obj()


@m(*[f'std::filesystem::path::{x}' for x in ('has_filename', 'empty', 'is_absolute', 'is_relative', 'has_extension', 'has_root_path', 'has_relative_path', 'has_root_directory', 'has_stem', 'has_parent_path')],
   'std::filesystem::exists', 'std::filesystem::is_regular_file', 'std::filesystem::is_directory')
def _(M, c):
    I = c.I
    p = pv(M, I, c.oval())
    fs_throw(M, c, p)
    r = path_pred(M, c.name, p.t)
    if r is not None:
        return r
    return atom((c.name.split('::')[-1], p.t))


@m('std::filesystem::file_size', 'std::filesystem::is_symlink', 'std::filesystem::is_empty')
def _(M, c):
    p = pv(M, c.I, c.oval())
    fs_throw(M, c, p)
    for a in c.args[1:]:
        c.I.ev(a)
    if c.name.endswith('file_size'):
        return of(sym(('file_size', p.t), 0, (1 << 63) - 1))
    return atom((c.name.split('::')[-1], p.t))


@m(*['std::' + x for x in 'stoi stol stoll stoul stoull stof stod stold'.split()])
def _(M, c):
    I = c.I
    v = I.rv(c.args[0])
    s = v if isinstance(v, Seq) else I.get(v.loc) if isinstance(v, Ptr) and v.loc is not None else None
    pos = I.rv(c.args[1]) if len(c.args) > 1 else None
    base = I.rv(c.args[2]) if len(c.args) > 2 else 10
    if isinstance(pos, Ptr) and pos.loc is not None or not isinstance(s, Seq) or not isinstance(base, int) or c.name[-1] in 'fd':
        I.taint('number read from a text')
    if not isinstance(s, Seq) or not isinstance(base, int):
        return I.mk_sym(c.e['t'], ('number', I.st.cnt), False)
    if I.truth(c_eq(s.len())):
        raise Throw('std::invalid_argument', None, I.where())
    first = I.uns(I.seq_get(s, 0), 8)
    ok = b' \t\n\v\f\r+-' + (b'.iInN' if c.name[-1] in 'fd' else b'') + bytes(x for x in b'0123456789abcdefghijklmnopqrstuvwxyz' if (x - 48 if x < 58 else x - 87) < (base or 10))
    ok += ok.upper()
    cond = False
    for lo, hi in runs(ok):
        cond = c_or(cond, c_and(c_ge(sub(first, lo)), c_ge(sub(hi, first))))
    if not I.truth(cond):
        raise Throw('std::invalid_argument', None, I.where())
    I.taint('number read from a text')
    return I.mk_sym(c.e['t'], ('number', s, base), False)


@m('std::basic_ifstream::open')
def _(M, c):
    I = c.I
    p = M.path_of(I, c.rest()[0])
    for a in c.rest()[1:]:
        I.rv(a)
    M.open_file(I, p)
    v = c.oval()
    c.setval(Rec('std::basic_ifstream', {'path': p, 'state': 'opened'}))


def stream(c):
    """the modelled state of the input stream a call is made on"""
    I = c.I
    v = c.oval()
    if isinstance(v, Rec) and 'pos' in v.f:
        return v
    if isinstance(v, Rec) and v.f.get('state') == 'closed':
        return Rec('std::basic_ifstream', dict(v.f, file=('none',), pos=0, eof=False, fail=True, gcount=0))
    if isinstance(v, Rec):
        return Rec('std::basic_ifstream', dict(v.f, file=('path', v.f['path']), pos=0, eof=False, fail=False, gcount=0))
    return Rec('std::basic_ifstream', {'path': None, 'state': 'opened', 'file': ('stream', v), 'pos': 0, 'eof': False, 'fail': False, 'gcount': 0})


@m('std::basic_ifstream::is_open')
def _(M, c):
    v = c.oval()
    if isinstance(v, Rec) and v.f.get('state') == 'closed':
        return False
    return atom(('is_open', v.f['path'] if isinstance(v, Rec) else str(v)))


@m('std::basic_ifstream::close')
def _(M, c):
    v = stream(c)
    c.I.event('file-close', v=v)
    c.setval(v.set('state', 'closed'))


@m('std::basic_istream::read')
def _(M, c):
    I = c.I
    p, n = c.v(0), c.v(1)
    v = stream(c)
    size = of(sym(('fsize', v.f['file']), 0, MAXLEN))
    pos = v.f['pos']
    if v.f['state'] == 'closed' or not isnum(n) or not isnum(pos) or (v.f['fail'] if isinstance(v.f['fail'], bool) else I.truth(v.f['fail'])):
        got = 0
        v = v.set('gcount', 0).set('fail', True)
    elif I.truth(c_ge(sub(size, add(pos, n)))):
        got = n
        v = v.set('gcount', got).set('pos', add(pos, got))
    else:
        got = sub(size, pos)
        v = v.set('gcount', got).set('pos', size).set('eof', True).set('fail', True)
    I.event('file-read', stream=c.obj(), dst=p, n=n, got=got, file=v.f['file'])
    c.setval(v)
    if isinstance(p, Ptr) and p.loc is not None:
        s = I.get(p.loc)
        if p.content and isinstance(s, Seq) and isnum(n):
            I.in_bounds(p, s, n, 'file read destination')
            es = I.es_of(s.ety)
            if es != 1:
                I.taint('file read into wide elements')
            elif got != 0:
                new = I.seq_slice(s, 0, p.off).p + (('src', Src(('file', v.f['file']), s.ety), pos, got),) + I.seq_slice(s, add(p.off, got), sub(s.len(), add(p.off, got))).p
                I.put(p.loc, s.with_p(new))
    return c.obj()


@m('std::basic_istream::gcount')
def _(M, c):
    return stream(c).f['gcount']


@m('std::basic_ios::eof', 'std::basic_ios::good', 'std::basic_ios::fail', 'std::basic_ios::bad', 'std::basic_ios::(conv)', 'std::basic_ios::operator!', 'std::basic_ios::operator bool')
def _(M, c):
    n = c.name.split('::')[-1]
    v = c.oval()
    if isinstance(v, Rec) and v.rn in ('std::basic_stringstream', 'std::basic_ostringstream'):
        return atom((c.name, v))
    if not isinstance(v, Rec) and 'fstream' not in str(c.I.P.recname(c.I.P.strip(c.otid())) or '') and 'ios' not in str(c.I.P.recname(c.I.P.strip(c.otid())) or ''):
        return atom((c.name, v if isinstance(v, V) else str(v), len(c.I.st.events)))
    v = stream(c)
    if n == 'eof':
        return v.f['eof']
    if n == 'bad':
        return False
    if n in ('fail', 'operator!'):
        return v.f['fail']
    if n == 'good':
        return c_not(v.f['fail']) if not isinstance(v.f['fail'], bool) else not v.f['fail']
    return c_not(v.f['fail']) if not isinstance(v.f['fail'], bool) else not v.f['fail']


# ---- errors and exceptions -----------------------------------------------------------------------------------------------
@m('std::exception::what', 'std::runtime_error::what', 'std::logic_error::what')
def _(M, c):
    I = c.I
    v = c.oval()
    o = c.obj()
    s = v.f['what'] if isinstance(v, Rec) and 'what' in v.f else None
    if s is None and isinstance(v, Rec):
        for k, x in v.f.items():
            if isinstance(k, tuple) and k[0] == 'base' and isinstance(x, Rec) and 'what' in x.f:
                s = x.f['what']
    if s is None:
        s = M.str_seq(('what', o.loc))
    root = Obj('opaque', ('what', o.loc), 0, None)
    c_ = s.concrete()
    I.st.store[root] = Seq(s.p, M.char_t(), 'string')
    return Ptr(Loc(root, ()), 0, True)


@m('std::error_code::(conv)')
def _(M, c):
    v = c.oval()
    if isinstance(v, Rec) and 'v' in v.f:
        return c_not(c_eq(v.f['v']))
    return atom(('error', v))


@m('std::error_code::value')
def _(M, c):
    v = c.oval()
    return v.f['v'] if isinstance(v, Rec) and 'v' in v.f else c.result(('ecval', v))


@m('std::error_code::message')
def _(M, c):
    return M.str_seq(('ecmsg', c.oval()))


@m('std::experimental::net::error::make_error_code', 'std::make_error_code')
def _(M, c):
    v = c.w(0)
    return Rec('std::error_code', {'v': v if isnum(v) else of(sym(('ecv', str(v)), -(1 << 31), (1 << 31) - 1))})


# ---- networking ------------------------------------------------------------------------------------------------------------
NET = 'std::experimental::net::'


def wire(I, b):
    """what a gather write would send now: [(pointer, length, contents or None)] for the buffers in b, or None"""
    if isinstance(b, Ptr):
        b = I.get(b.loc)
    if isinstance(b, View) and b.ptr.loc is not None:
        s = I.get(b.ptr.loc)
        e = s.ety if isinstance(s, Seq) else None
        if e is not None and I.P.ty(I.P.strip(e))['k'] == 'rec' and isinstance(b.n, int):
            b = I.models.view_seq(I, b)
    if isinstance(b, View):
        b = Seq([('el', b)], None, 'array')
    if not isinstance(b, Seq):
        return None
    out = []
    for p in b.p:
        if p[0] != 'el' or not isinstance(p[1], View):
            return None
        v = p[1]
        c = None
        if (isinstance(v.n, int) and v.n == 0) or (v.ptr.loc is None and I.decide(c_eq(v.n)) is True):
            c = Seq([], I.models.char_t(), 'string')
        elif v.ptr.loc is not None and isinstance(I.get(v.ptr.loc), Seq) and (not isinstance(v.ptr.loc.root, Obj) or v.ptr.loc.root not in I.st.dead):
            c = I.models.view_seq(I, v)
        elif v.ptr.loc is not None and isinstance(v.n, int) and v.n <= 4096 and isinstance(v.ptr.off, int) and not v.ptr.content \
                and (not isinstance(v.ptr.loc.root, Obj) or v.ptr.loc.root not in I.st.dead) and isinstance(I.get(v.ptr.loc), (Rec, int, Lin)):
            ot = I.loc_tid(v.ptr.loc)
            if ot is not None and v.ptr.off + v.n <= (I.P.size(I.P.strip(ot)) or 0):
                bs = I.obj_bytes(I.get(v.ptr.loc), ot, v.ptr.off, v.n)
                c = Seq([('el', x) for x in bs], I.models.char_t(), 'string') if bs is not None and len(bs) == v.n else None
        out.append((v.ptr, v.n, c))
    return out


@m(NET + 'ip::tcp::socket::async_read_some')
def _(M, c):
    I = c.I
    b, h = I.rv(c.rest()[0]), I.rv(c.rest()[1])
    I.event('net.read', socket=c.obj(), buffers=b, handler=h)


@m(NET + 'ip::tcp::socket::async_write_some')
def _(M, c):
    I = c.I
    b, h = I.rv(c.rest()[0]), I.rv(c.rest()[1])
    I.event('net.write', socket=c.obj(), buffers=b, handler=h, whole=False, wire=wire(I, b))


@m(NET + 'async_write')
def _(M, c):
    I = c.I
    s = I.ev(c.args[0])
    b, h = I.rv(c.args[1]), I.rv(c.args[2])
    I.event('net.write', socket=s, buffers=b, handler=h, whole=True, wire=wire(I, b))


@m(NET + 'write')
def _(M, c):
    I = c.I
    s = I.ev(c.args[0])
    b = I.rv(c.args[1])
    I.event('net.write', socket=s, buffers=b, handler=None, whole=True, wire=wire(I, b))
    return c.result(('written', I.st.cnt))


@m(NET + 'ip::tcp::acceptor::async_accept')
def _(M, c):
    I = c.I
    o = c.obj()
    I.event('net.accept', acceptor=o, handler=I.rv(c.rest()[0]))


@m(NET + 'ip::tcp::socket::close', NET + 'ip::tcp::socket::shutdown', NET + 'ip::tcp::acceptor::close')
def _(M, c):
    I = c.I
    o = c.obj()
    for a in c.rest():
        I.ev(a)
    I.event('net.' + c.name.split('::')[-1], socket=o, nothrow=len([a for a in c.rest() if I.P.recname(a['t']) == 'std::error_code']) > 0)
    if M.netthrow and c.name.endswith('::shutdown') and not I.st.events[-1].a['nothrow'] and I.choose(2):
        raise Throw('std::system_error', None, I.where())      # the peer is already gone


@m(NET + 'ip::tcp::socket::is_open', NET + 'ip::tcp::acceptor::is_open')
def _(M, c):
    I = c.I
    return atom(('is_open', c.obj().loc, sum(1 for x in I.st.events if x.kind == 'net.close')))


@m(*[NET + x for x in ('ip::tcp::acceptor::bind', 'ip::tcp::acceptor::listen', 'ip::tcp::acceptor::open', 'ip::tcp::acceptor::set_option', 'ip::tcp::endpoint::protocol',
                       'ip::tcp::resolver::resolve', 'ip::tcp::resolver::results_type::begin', 'ip::tcp::resolver::results_type::end', 'io_context::run', 'io_context::run_one',
                       'io_context::poll', 'io_context::stop')])
def _(M, c):
    I = c.I
    c.obj()
    for a in c.rest():
        I.ev(a)
    I.event('net.' + c.name.split('::')[-1])
    return c.result((c.name, I.st.cnt))
