"""Call graph and uses of objects with static storage duration, over the exported program."""

ACCESSORS = {'operator[]', 'at', 'begin', 'end', 'cbegin', 'cend', 'data', 'front', 'back', 'size', 'empty', 'length', 'c_str', 'find',
             'rbegin', 'rend', 'get', 'value', 'operator*', 'operator->'}


def callees(P, f):
    """ids of the functions of the program that f may call (lambdas it creates count as called)"""
    out = []
    parts = [f.get('inits'), f.get('body')]
    for part in parts:
        if part is None:
            continue
        for n in P.walk(part):
            k = n['k']
            if k in ('call', 'ctor', 'fref', 'bind'):
                g = n.get('f')
                if isinstance(g, dict) and 'f' in g:
                    out.append(g['f'])
                elif isinstance(g, dict) and 'r' in g and k == 'ctor':
                    pass
            if k == 'lambda':
                out += P.recs[n['r']].get('ops', [])
            if k == 'decl':
                for d in n['d']:
                    out += dtors(P, P.vars[d['d']]['t'])
            if k in ('ctor', 'mat', 'init', 'zero', 'new'):
                t = n.get('t')
                if isinstance(t, int):
                    out += dtors(P, t)
    for p in f.get('p', []):
        out += dtors(P, p['t'])
    # a user callable stored by value is destroyed and called through the standard wrappers: reached via 'lambda'
    return out


def dtors(P, tid, seen=None):
    seen = set() if seen is None else seen
    r = P.ty(P.strip(tid)).get('r') if P.ty(P.strip(tid))['k'] == 'rec' else None
    if r is None or r in seen:
        return []
    seen.add(r)
    out = []
    rec = P.recs[r]
    if isinstance(rec.get('dtor'), int):
        out.append(rec['dtor'])
    for fl in rec.get('f', []):
        out += dtors(P, fl['t'], seen)
    for b in rec.get('b', []):
        if isinstance(P.recs[b['r']].get('dtor'), int):
            out.append(P.recs[b['r']]['dtor'])
    for a in rec.get('ta') or []:
        if 't' in a and not rec.get('repo'):
            out += dtors(P, a['t'], seen)
    return out


def reachable(P, roots):
    """{function id: (caller id or None)}"""
    via = {}
    st = []
    for r in roots:
        if r not in via:
            via[r] = None
            st.append(r)
    while st:
        x = st.pop()
        for y in callees(P, P.funcs[x]):
            if isinstance(y, int) and y not in via:
                via[y] = x
                st.append(y)
    return via


def chain(P, via, f):
    out = []
    while f is not None:
        out.append(P.funcs[f]['q'])
        f = via[f]
    return ' <- '.join(out[:8])


def base_static(P, e):
    """the variable with static storage an lvalue expression designates (part of)"""
    while isinstance(e, dict):
        k = e['k']
        if k == 'ref':
            v = P.vars[e['d']]
            return e['d'] if v.get('st') in ('slocal', 'global', 'smember') else None
        if k in ('mem', 'sub'):
            e = e.get('b') or e.get('e') or e.get('a')
            if isinstance(e, list):
                e = e[0]
            continue
        if k in ('full', 'mat', 'bind'):
            e = e.get('e')
            continue
        if k == 'cast':
            if e['ck'] == 'LValueToRValue' and P.ty(P.strip(e['e']['t']))['k'] != 'ptr':
                return None
            if e['ck'] == 'LValueToRValue':
                return None
            e = e['e']
            continue
        if k == 'call':
            f = e.get('f')
            if not f:
                return None
            n = f['n'].split('::')[-1]
            if 'o' in e and n in ACCESSORS:
                e = e['o']
                continue
            if f['n'] in ('std::move', 'std::forward', 'std::as_const', 'std::get') and e['a']:
                e = e['a'][0]
                continue
            return None
        if k == 'un' and e['op'] in ('*', '&'):
            e = e['e']
            continue
        if k == 'cond':
            return base_static(P, e['a']) or base_static(P, e['b'])
        return None
    return None


def is_const_ref(P, tid):
    """can the object be changed through a parameter/variable of this type?"""
    t = P.ty(tid)
    if t['k'] == 'ref':
        u = P.ty(t['to'])
        return bool(u.get('c')) or u['k'] in ('fn',)
    if t['k'] == 'ptr':
        return bool(P.ty(t['to']).get('c')) or P.ty(t['to'])['k'] == 'fn'
    return True


def static_uses(P, f):
    """[(var, 'write' | 'read' | 'alias', node)] for every static object f touches"""
    out = []
    roots = [x for x in (f.get('inits'), f.get('body')) if x is not None]

    def w(e, n, what):
        v = base_static(P, e)
        if v is not None:
            out.append((v, what, n))
    for part in roots:
        for n in P.walk(part):
            k = n['k']
            if k == 'asg':
                w(n['a'], n, 'write')
            elif k == 'un' and n['op'] in ('++', '--'):
                w(n['e'], n, 'write')
            elif k == 'call':
                g = n.get('f')
                if not g:
                    continue
                nm = g['n'].split('::')[-1]
                if 'o' in n and not g.get('c') and not g.get('st') and nm not in ACCESSORS:
                    w(n['o'], n, 'write')
                if g['n'] in ('std::move', 'std::forward', 'std::as_const', 'std::get'):
                    continue
                for a, pt in zip(n['a'], g.get('ps', [])):
                    if not is_const_ref(P, pt):
                        w(a, n, 'write')
            elif k == 'ctor':
                for a, pt in zip(n.get('a', []), n['f'].get('ps', [])):
                    if not is_const_ref(P, pt):
                        w(a, n, 'write')
            elif k == 'decl':
                for d in n['d']:
                    if d.get('init') and P.ty(P.vars[d['d']]['t'])['k'] in ('ref', 'ptr') and not is_const_ref(P, P.vars[d['d']]['t']):
                        w(d['init'], n, 'alias')
            elif k == 'rfor':
                d = n['v']
                if P.ty(P.vars[d['d']]['t'])['k'] == 'ref' and not is_const_ref(P, P.vars[d['d']]['t']):
                    w(n['r'], n, 'alias')
            elif k == 'ref':
                v = P.vars[n['d']]
                if v.get('st') in ('slocal', 'global', 'smember'):
                    out.append((n['d'], 'read', n))
    return out


def initialiser_depends(P, f, var):
    """non-constant inputs of a function-local static's initialiser"""
    out = []
    init = P.vars[var].get('init')
    if init is None:
        return out
    for n in P.walk(init):
        if n['k'] == 'this':
            out.append('this')
        elif n['k'] == 'ref' and P.vars[n['d']].get('st') in ('param', 'local') and not P.vars[n['d']].get('cx'):
            out.append(P.vars[n['d']]['n'])
    return out
