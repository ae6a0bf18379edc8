"""Interval and pointer-base analysis of every buffer helper.  Each overload is instantiated for a container of a distinct element
size and interpreted with arbitrary length, content and requested count; on every path the resulting view must start at the
container's own storage and its byte size must be the container's byte size (or the requested count when the container has that
many), never more.  Mutability of the result is read from its type, and advancing a buffer must keep offset plus size equal to the
original size."""
from engine.run import *
from engine.values import *
from engine.bounded import definite
from engine import witness
from engine.interp import PathDead

MINIMUM = 80


def le(a, b):
    return c_ge(sub(b, a))


def minus(p, base):
    return sub(p.off, base.off)


def verdict(I, o, c):
    sav, I.st = I.st, o.st
    try:
        r = witness.prove(I, c) if not isinstance(c, bool) else c
    finally:
        I.st = sav
    return None if r is False and o.st.taint else r


def start(I, f, v):
    """(pointer to the first byte, element count, element size) of the object bound to parameter 0"""
    if isinstance(v, View):
        ety = I.P.targs(I.P.rid(I.P.strip(f['p'][0]['t'])))[0]['t']
        return v.ptr, v.n, I.P.size(ety)
    return None, v.len(), I.P.size(v.ety)


def run(ctx):
    P = ctx.P
    for q in sorted(x for x in P.byq if x.startswith('wfa::entry_buf')):
        name = q.split('entry_')[1]
        kind = name.split('_')[0]
        for f in func(P, q):
            I = make(P)
            args = []
            base = None
            for i, p in enumerate(f['p']):
                t = P.strip(p['t'])
                v = I.mk_sym(t, ('arg', i))
                if i == 0 and (kind in ('bufn', 'bufw') or (kind == 'buf' and not name.startswith(('buf_ptr', 'buf_same', 'buf_cut', 'buf_step')))):
                    a = param(I, f, i, v)
                    base, n, es = start(I, f, v)
                    if base is None:
                        base = Ptr(a.loc, 0, True)
                    args.append(a)
                else:
                    args.append(param(I, f, i, v) if P.ty(p['t'])['k'] != 'ref' else param(I, f, i, v))
                    if i == 0:
                        base, es = v, 1
            outs = explore(I, f, args=args)
            ctx.interp(I)
            num_ = [I.get(a.loc) for a in args]
            callee = [P.funcs[x['f']['f']] for x in P.calls(f) if isinstance(x.get('f'), dict) and 'f' in x['f'] and P.funcs[x['f']['f']].get('repo')]
            callee = [g for g in callee if 'BasicNetworking' in g['q']] or [f]
            where = P.loc(callee[-1]['l'])
            for x in definite(I):
                ctx.ob('memory', False, x.where, f'{name}: {x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')
            for j, o in enumerate(outs):
                key = f'{name}|{j}'
                if o.kind != 'ok':
                    ctx.ob('view', None if o.st.taint else False, where, f'{name}: throws {o.v.tname}', key=key)
                    continue
                if kind == 'bufw':
                    want = name.split('_')[1] == 'm'
                    got = o.v if isinstance(o.v, bool) else None
                    ctx.ob('writable', None if got is None else want or not got, where, f'{name}: the view is {"writable" if got else "read-only"}', key=key)
                    continue
                ptr, size = (o.v.f.get(0), o.v.f.get(1)) if isinstance(o.v, Rec) else (None, None)
                if not isinstance(ptr, Ptr) or not isnum(size):
                    ctx.ob('view', None, where, f'{name}: the view is not resolved: {str(o.v)[:160]}', key=key)
                    continue
                empty = verdict(I, o, c_eq(size) if not isinstance(size, int) else size == 0)
                if name.startswith('buf_none'):
                    ctx.ob('view', empty, where, f'{name}: a default buffer has size {size}', key=key)
                    continue
                same = isinstance(base, Ptr) and ptr.loc == base.loc and ptr.loc is not None
                off = sub(ptr.off, base.off) if same else None
                if name.startswith(('buf_step', 'buf_cut', 'buf_same', 'buf_ptr')):
                    total, es = num_[1], 1
                else:
                    total = mulc(n, es)
                if not same:
                    ok = empty if not name.startswith('buf_step') else False
                    ctx.ob('start', None if o.st.taint else ok, where, f'{name}: the view starts at {ptr}, the storage at {base}', key='start|' + key)
                    if ok is not True:
                        continue
                    off = 0
                elif not name.startswith('buf_step'):
                    ctx.ob('start', verdict(I, o, c_eq(off) if not isinstance(off, int) else off == 0), where, f'{name}: the view starts {off} bytes into the storage', key='start|' + key)
                if name.startswith('buf_step'):
                    end = add(off, size)
                    ctx.ob('advance', verdict(I, o, eq(end, total)), where, f'{name}: after advancing, offset {off} and size {size} of {total} bytes', key='end|' + key)
                    ctx.ob('advance', verdict(I, o, c_and(le(off, total), le(0, off))), where, f'{name}: offset {off} within {total} bytes', key='off|' + key)
                    want = num_[2]
                    if len(num_) == 3:
                        case(ctx, I, o, le(want, total), eq(off, want), 'advance', where, f'{name}: advanced by {off} for {want}', 'by|' + key)
                    else:
                        case(ctx, I, o, c_and(le(num_[2], total), le(num_[3], sub(total, num_[2]))), eq(off, add(num_[2], num_[3])), 'advance', where,
                             f'{name}: advanced by {off} for {num_[2]} and {num_[3]}', 'by|' + key)
                    continue
                ctx.ob('extent', verdict(I, o, le(size, total)), where, f'{name}: {size} bytes of {total}', key='max|' + key)
                if kind == 'bufn' or name.startswith('buf_cut'):
                    cnt = num_[-1]
                    units = n if kind == 'bufn' else total
                    case(ctx, I, o, le(cnt, units), eq(size, mulc(cnt, es)), 'extent', where, f'{name}: {size} bytes for {cnt} requested elements of {es} bytes', 'cnt|' + key)
                else:
                    ctx.ob('extent', verdict(I, o, eq(size, total)), where, f'{name}: {size} bytes of {total}', key='all|' + key)


def eq(a, b):
    d = sub(a, b)
    return d == 0 if isinstance(d, int) else c_eq(d)


def case(ctx, I, o, pre, c, rule, where, text, key):
    """obligation c on the part of the path where pre holds"""
    sav, I.st = I.st, o.st.copy()
    try:
        d = I.decide(pre) if not isinstance(pre, bool) else pre
        if d is False:
            return
        if d is not True:
            I.assume(pre)
        r = c if isinstance(c, bool) else witness.prove(I, c)
        if c is False and r is False and witness.feasible(I) is False:
            return
        ctx.ob(rule, None if r is False and o.st.taint else r, where, text, key=key)
    except PathDead:
        pass
    finally:
        I.st = sav
