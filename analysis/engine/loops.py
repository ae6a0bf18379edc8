"""Loop rules: what a loop carries from one iteration to the next."""
from .run import *


def conds(c):
    if isinstance(c, bool):
        return
    if c.k in ('not', 'and', 'or'):
        for x in c.a:
            if isinstance(x, Cond):
                yield from conds(x)
    else:
        yield c


def deep(L, acc):
    """all symbols of a form, through divisions and operators"""
    if isinstance(L, Lin):
        for s in L.syms():
            acc.add(s)
            if s.div:
                deep(s.div[0], acc)
            elif s.op and s.op[0] != 'elem':
                for x in s.op[1:]:
                    deep(x, acc)
    elif isinstance(L, (tuple, frozenset)):
        for x in L:
            deep(x, acc)
    return acc


def positional(s, plan):
    return s is plan['k'] or (isinstance(s.key, tuple) and s.key and s.key[0] == 'gen' and s.key[1] == plan['uid'])


def lengthlike(s, plan):
    return not positional(s, plan) and s.hi is not None and s.hi > 255


def step_problem(I, plan):
    """None when the loop's steps are memoryless and position independent, else what they carry"""
    free = []
    for loc, kind in plan['leaves'].items():
        if kind[0] in ('aff', 'paff', 'app', 'samelen', 'affl'):
            continue
        if kind[0] in ('mono', 'pmono'):
            free.append(loc)
            continue
        return f'{loc.root.name} is carried between iterations'
    if len(free) > 1:
        return 'several positions are carried between iterations: ' + ', '.join(str(l.root.name) for l in free)
    for o in plan.get('outs', ()):
        mark = o.v.mark if isinstance(o.v, dict) else 0
        for where, c, val in o.st.trail[mark:]:
            if isinstance(c, str) or c is None:
                continue
            for x in conds(c):
                if x.k == 'atom':
                    continue
                ss = deep(x.a[0], set()) if x.a else set()
                if any(positional(s, plan) for s in ss) and not any(lengthlike(s, plan) for s in ss):
                    return f'the branch at {where} depends on the position'
        for loc, kind in plan['leaves'].items():
            if kind[0] == 'app':
                for t in kind[1]:
                    for p in t:
                        if p[0] == 'el' and any(positional(s, plan) for s in deep(p[1], set())):
                            return f'what is appended to {loc.root.name} depends on the position'
    return None


def plans_of(I, outs):
    out = {}
    for o in outs:
        for e in o.st.events:
            if e.kind == 'loop':
                out[e.a['plan']['uid']] = e.a['plan']
    return list(out.values())


def memoryless(ctx, f, rule, args=None):
    """every loop of f, on an input of arbitrary length, is memoryless and position independent"""
    P = ctx.P
    I = make(P, max_paths=2000, max_steps=600000)
    where = P.loc(f['l'])
    try:
        outs = explore(I, f, args=args(I) if args else None)
    except Budget as e:
        ctx.ob(rule + '-loop', None, where, f'not resolved within the budget: {e}', key=rule + '|loop')
        return []
    ctx.interp(I)
    ps = plans_of(I, outs)
    for x in I.findings.values():
        if not x.taint and not x.inexact:
            ctx.ob(rule + '-memory', False, x.where, f'{f["q"]}: {x.kind}: {x.detail}', key=f'{rule}|mem|{x.kind}')
    for k, (pr, fl) in I.obl.items():
        if not fl and pr:
            ctx.ob(rule + '-memory', True, k[1], f'{k[0]} holds for every length')
    for pl in ps:
        why = step_problem(I, pl)
        ctx.ob(rule + '-loop', True if why is None else None, P.loc(pl['uid'][:0] and None) if False else where,
               f'loop at line {pl["uid"][0]}: ' + (why or 'carries only positions and produced text'), key=f'{rule}|loop|{pl["uid"][:2]}')
    if not ps and any(o.kind == 'ok' for o in outs):
        ctx.ob(rule + '-loop', None, where, 'no loop recognised over the input', key=rule + '|loop')
    return thresholds(I, outs)


def thresholds(I, outs):
    """lengths and positions the code compares with constants"""
    out = set()
    seen = [(0, o, None) for o in outs]
    for pl in plans_of(I, outs):
        seen += [(o.v.mark if isinstance(o.v, dict) else 0, o, pl) for o in pl.get('outs', ())]
    for mark, o, pl in seen:
        for w, c, val in o.st.trail[mark:]:
            if not isinstance(c, Cond):
                continue
            for x in conds(c):
                L = x.a[0] if x.k in ('ge', 'eq') else None
                if not isinstance(L, Lin):
                    continue
                for s in deep(L, set()):
                    if s.div and abs(s.div[1]) > 1:
                        out.add(abs(s.div[1]))
                if len(L.t) == 1 and L.t[0][0].hi is not None and L.t[0][0].hi > 255:
                    k = abs(L.t[0][1])
                    out.add(abs(L.c) // max(k, 1))
                    out.add(abs(L.c))
    return sorted(x for x in out if x < 4096)


def lengths(T, lo, hi):
    """input lengths at which a comparison with a threshold can change its outcome: around each, its multiples, sums of two"""
    base = set(T) | {2 * t for t in T} | {3 * t for t in T} | {a + b for a in T for b in T}
    out = {x for t in base for x in range(t - 1, t + 4) if lo < x <= hi}
    if T and max(T) > 12:      # a constant of its own: every length up to a few of its multiples
        out |= {x for x in range(lo + 1, min(hi, 300, 8 * max(T)) + 1)}
    return sorted(out)


def constants(P, f, lo=0, hi=1 << 20):
    """integer constants appearing in f and the library functions it reaches"""
    out, seen, todo = set(), set(), [f['id']]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        g = P.funcs[i]
        for part in (g.get('body'), g.get('inits')):
            for n in P.walk(part) if part else ():
                v = n.get('cv') if n.get('cv') is not None else n.get('v') if n.get('k') == 'int' else None
                if isinstance(v, str) and v.lstrip('-').isdigit() and lo < abs(int(v)) <= hi:
                    out.add(abs(int(v)))
                c = n.get('f')
                if isinstance(c, dict) and 'f' in c and P.funcs[c['f']].get('repo'):
                    todo.append(c['f'])
    return sorted(out)
