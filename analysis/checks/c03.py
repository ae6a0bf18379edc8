"""Extraction of the request parser's automaton by abstract interpretation and simulation against a reference transducer.
Starting from the abstraction of a freshly constructed request, every abstract parser state is fed one byte whose value is the
whole 256-element domain; the interpreter partitions that domain by the branches the code takes.  Strings, numbers and the header
list are symbolic: after each step every field that equals the reference's value of the same ghost (method text, target, version
numbers, header list) is generalised to a fresh symbol, so the exploration closes over a finite set of abstract states.  Each
(abstract state, byte class) is one obligation: accept / reject / complete, and the values at completion, agree with the
reference.  The same is done for empty chunks and for chunks of two bytes, which with the one-byte step gives independence from
the way the bytes are split."""
from engine.run import *

MINIMUM = 60
ASSUMPTIONS = ['a request is parsed by one object from construction to completion or rejection',
               'version numbers above 255 may be either rejected or parsed exactly']
SPECIAL = set(b'()<>@,;:\\"/[]?={} \t')
NAMES = ['CONNECT', 'DELETE', 'GET', 'HEAD', 'OPTIONS', 'PATCH', 'POST', 'PUT', 'TRACE']
CR, LF, SP, HT = 13, 10, 32, 9


def ctrl(b):
    return b <= 31 or b == 127


def token(b):
    return b < 128 and not ctrl(b) and b not in SPECIAL


def ref_step(ctl, b, has):
    """(next control state, action) of the reference; action: None or (ghost, operation)"""
    if ctl == 'start':
        return ('method', ('M', 'set')) if token(b) else 'reject'
    if ctl == 'method':
        return ('uri', ('LM', 'lookup')) if b == SP else ('method', ('M', 'push')) if token(b) else 'reject'
    if ctl == 'uri':
        return ('H', None) if b == SP else 'reject' if ctrl(b) else ('uri', ('U', 'push'))
    lit = {'H': ('H', 'T1'), 'T1': ('T', 'T2'), 'T2': ('T', 'P'), 'P': ('P', '/'), '/': ('/', 'maj0')}
    if ctl in lit:
        c, nx = lit[ctl]
        return (nx, None) if b == ord(c) else 'reject'
    dig = 48 <= b <= 57
    if ctl == 'maj0':
        return ('maj', ('maj', 'digit')) if dig else 'reject'
    if ctl == 'maj':
        return ('min0', None) if b == ord('.') else ('maj', ('maj', 'digit')) if dig else 'reject'
    if ctl == 'min0':
        return ('min', ('min', 'digit')) if dig else 'reject'
    if ctl == 'min':
        return ('nl', None) if b == CR else ('min', ('min', 'digit')) if dig else 'reject'
    if ctl == 'nl':
        return ('line', None) if b == LF else 'reject'
    if ctl == 'line':
        if b == CR:
            return ('end', None)
        if has and b in (SP, HT):
            return ('lws', None)
        return ('name', ('headers', 'new')) if token(b) else 'reject'
    if ctl == 'lws':
        return ('nl', None) if b == CR else ('lws', None) if b in (SP, HT) else 'reject' if ctrl(b) else ('value', ('V', 'push'))
    if ctl == 'name':
        return ('sp', None) if b == ord(':') else ('name', ('N', 'push')) if token(b) else 'reject'
    if ctl == 'sp':
        return ('value', None) if b == SP else 'reject'
    if ctl == 'value':
        return ('nl', None) if b == CR else 'reject' if ctrl(b) else ('value', ('V', 'push'))
    if ctl == 'end':
        return ('done', None) if b == LF else 'reject'
    return ('done', None)


RESULT = {'uri': 'U', 'httpVersionMajor': 'maj', 'httpVersionMinor': 'min', 'name': 'N', 'value': 'V'}


def iswrong(u):
    if isinstance(u, Lin):
        return any(isinstance(s.key, tuple) and s.key[0] == 'ghost' and isinstance(s.key[1], tuple) and s.key[1][0] == 'wrong' for s in u.syms())
    return isinstance(u, Seq) and any(p[0] == 'src' and p[1].key[0] == 'ghost' and isinstance(p[1].key[1], tuple) and p[1].key[1][0] == 'wrong' for p in u.p)


class Ref:
    """ghost values: M U N V are Seq, maj min numbers, pre the headers before the last one (pieces), cur whether there is one, LM"""
    def __init__(self, ctl, g):
        self.ctl, self.g = ctl, g


def bname(b):
    return repr(bytes([b]))


class Sim:
    def __init__(self, ctx, f):
        self.ctx, self.P, self.f = ctx, ctx.P, f
        P = self.P
        self.rt = P.strip(f['p'][0]['t'])
        self.rid = P.rid(self.rt)
        self.flds = P.fields(self.rid)
        self.key = {k[1]: k for k, t, o, d in self.flds}
        self.tid = {k[1]: t for k, t, o, d in self.flds}
        self.ct = None
        self.seen = {}
        self.why = ''
        callees = [g for n in P.walk(f['body']) if n['k'] == 'call' and isinstance(n.get('f'), dict) and 'f' in n['f'] for g in [P.funcs[n['f']['f']]] if g.get('repo') and not g['q'].startswith('wfa::')]
        self.at = P.loc((callees or [f])[0]['l'])

    def ghost_seq(self, I, name, lo=1):
        return Seq([('src', Src(('ghost', name), I.models.char_t()), 0, of(sym(('len', ('ghost', name)), lo, MAXLEN)))], I.models.char_t(), 'string')

    def ghost_int(self, name):
        return of(sym(('ghost', name), 0, 2147483647))

    def start(self):
        P = self.P
        ctors = [g for g in P.funcs if g.get('kind') == 'ctor' and g.get('r') == self.rid and not g['p'] and 'body' in g]
        I = make(P)
        q = I.new('heap', 'request', self.rt)

        def go():
            if ctors:
                I.run_ctor(ctors[0], q, [])
            else:
                I.put(q.loc, I.models.zero_rec(I, self.rt, self.rid))
            return I.get(q.loc)
        outs = I.explore(go, I.st)
        E = Seq([], I.models.char_t(), 'string')
        return outs[0].v, Ref('start', {'M': E, 'U': E, 'N': E, 'V': E, 'maj': 0, 'min': 0, 'pre': (), 'cur': False, 'LM': None})

    def hdr(self, I, v):
        """(prefix pieces, last record) of a header list value"""
        if not isinstance(v, Seq):
            return None
        if not v.p:
            return (), None
        l = v.p[-1]
        if l[0] != 'el' or not isinstance(l[1], Rec):
            return None
        return v.p[:-1], l[1]

    def rget(self, r, name):
        for k, v in r.f.items():
            if (k[1] if isinstance(k, tuple) else k) == name:
                return v
        return None

    def eq(self, I, a, b):
        if a is None or b is None:
            return None
        if iswrong(a) and not iswrong(b):
            return False
        if isinstance(a, Seq) and isinstance(b, Seq):
            c = I.seq_eq(a, b)
        elif isnum(a) and isnum(b):
            c = c_eq(sub(a, b))
        else:
            return a == b
        return I.decide(c)

    def ref_apply(self, I, r, act, c):
        g = dict(r.g)
        if act:
            x, op = act
            el = ('el', I.uns(c, 8))
            if op == 'set':
                g[x] = Seq([el], I.models.char_t(), 'string')
            elif op == 'push':
                g[x] = Seq(list(g[x].p) + [el], I.models.char_t(), 'string')
            elif op == 'digit':
                g[x] = add(mulc(g[x], 10), sub(c, 48))
            elif op == 'new':
                if g['cur']:
                    g['pre'] = g['pre'] + ((g['N'], g['V']),)
                g['cur'] = True
                g['N'] = Seq([el], I.models.char_t(), 'string')
                g['V'] = Seq([], I.models.char_t(), 'string')
            elif op == 'lookup':
                g['LM'] = 'LM'
        return g

    def prefix_eq(self, I, pieces, pre):
        """does the header list prefix consist of the ghost prefix and the given (name, value) pairs?"""
        if len(pieces) != len(pre):
            return False
        r = True
        for p, q in zip(pieces, pre):
            if q == 'H':
                if not (p[0] == 'src' and p[1].key == ('ghost', 'H')):
                    return None
            else:
                if p[0] != 'el' or not isinstance(p[1], Rec):
                    return None
                for n, want in (('name', q[0]), ('value', q[1])):
                    e = self.eq(I, self.rget(p[1], n), want)
                    if e is not True:
                        r = e
        return r

    def method_ok(self, I, v, M):
        """is the concrete enumerator v the method called M on this path?"""
        if not isinstance(v, int):
            return None
        known = {n: I.decide(I.seq_eq(M, string(I, n))) for n in NAMES}
        if True in known.values():
            known = {n: e is True for n, e in known.items()}
        for i, n in enumerate(NAMES):
            e = known[n]
            want = v == self.members.get(n.capitalize())
            if want and e is not True:
                return f'the text {M} is given the method {n} although it is not known to be {n!r}'
            if not want and e is not False:
                return f'{n!r} is not recognised (method {v})'
        return True

    def compare(self, I, v, g, final):
        """[(what, verdict)] of the request fields against the ghosts"""
        out = []
        F = {n: I_get(self, v, n) for n in self.key}
        out.append(('target', self.eq(I, F.get('uri'), g['U'])))
        for n, x in (('httpVersionMajor', 'maj'), ('httpVersionMinor', 'min')):
            out.append((n, self.eq(I, F.get(n), g[x])))
        h = self.hdr(I, F.get('headers'))
        if h is None:
            out.append(('headers', None))
        else:
            pre, last = h
            if g['cur'] != (last is not None):
                out.append(('headers', False))
            elif last is None:
                out.append(('headers', True))
            else:
                out.append(('number of headers', self.prefix_eq(I, pre, g['pre'])))
                out.append(('header name', self.eq(I, self.rget(last, 'name'), g['N'])))
                out.append(('header value', self.eq(I, self.rget(last, 'value'), g['V'])))
        m = F.get('method')
        if iswrong(m):
            out.append((f'method: {self.why}', False))
        elif isinstance(m, Lin) and m == of(sym(('ghost', 'LM'), 0, 9)):
            out.append(('method', True))
        elif isinstance(m, int):
            r = self.method_ok(I, m, g['M'])
            if final or r is True:
                out.append(('method' if r is True else f'method: {r}', True if r is True else False if r else None))
        elif final:
            out.append(('method: never set', False if m == UNINIT or isinstance(m, Opq) else None))
        return out

    def wrongs(self, v):
        """names of the result fields that carry a value known to be wrong"""
        F = {n: I_get(self, v, n) for n in self.key}
        out = [w for w, n in (('target', 'uri'), ('method', 'method'), ('httpVersionMajor', 'httpVersionMajor'), ('httpVersionMinor', 'httpVersionMinor')) if iswrong(F.get(n))]
        h = self.hdr(None, F.get('headers'))
        if h and h[1]:
            out += ['header ' + n for n in ('name', 'value') if iswrong(self.rget(h[1], n))]
        return out

    def generalise(self, I, v, g, ctl, prev, before):
        """abstract state after a step: (canonical request value, canonical ghosts)"""
        fields = dict(v.f)
        ng = dict(g)
        ren = {}
        for x in ('M', 'U', 'N', 'V'):
            if isinstance(g[x], Seq) and g[x].p:
                ng[x] = self.ghost_seq(I, x)
                ren[x] = g[x]
        for x in ('maj', 'min'):
            if not isinstance(g[x], int):
                ng[x] = self.ghost_int(x)
                ren[x] = g[x]
        if g['pre'] or False:
            ng['pre'] = ('H',)
        inexact = False

        def wrongname(u, name):
            """a result field which definitely differs from the reference: arbitrary from here on, but known to be wrong"""
            x = RESULT.get(name)
            if x is None and ctl == 'method' and isinstance(prev.f.get(self.key.get(name)), Seq) and self.eq(I, prev.f[self.key[name]], before['M']) is True and before['M'].p:
                x = 'M'
            if x is not None and (self.eq(I, u, g[x]) is False or iswrong(u)):
                return ('wrong', name)
            return ('junk', name)

        def canon_val(u, tid, name):
            nonlocal inexact
            own = RESULT.get(name)
            if isinstance(u, Seq) and u.p and u.kind == 'string':
                for x in ([own] if own else []) + ['M', 'U', 'N', 'V']:
                    if x in ren and self.eq(I, u, ren[x]) is True:
                        return ng[x]
                if u.concrete() is not None:
                    return u
                inexact = True
                return self.ghost_seq(I, wrongname(u, name), 0)
            if isinstance(u, Lin):
                for x in ([own] if own else []) + ['maj', 'min']:
                    if x in ren and self.eq(I, u, ren[x]) is True:
                        return ng[x]
                if u == of(sym(('ghost', 'LM'), 0, 9)):
                    return u
                if tid is not None and I.P.ty(tid)['k'] in ('int', 'enum', 'bool'):
                    inexact = True
                    lo, hi = I.rng(tid) if I.P.ty(tid)['k'] == 'int' else (0, 9)
                    return of(sym(('ghost', wrongname(u, name)), lo, hi, False))
            return u
        for k, t, o, d in self.flds:
            u = fields.get(k)
            if k[1] == 'headers':
                h = self.hdr(I, u)
                if h is None:
                    continue
                pre, last = h
                if last is not None and self.prefix_eq(I, pre, g['pre']) is True:
                    if g['pre']:
                        pre = (('src', Src(('ghost', 'H'), u.ety), 0, of(sym(('len', ('ghost', 'H')), 1, MAXLEN))),)
                    last = Rec(last.rn, {kk: canon_val(x, I.P.field_type(kk) if isinstance(kk, tuple) else None, kk[1]) for kk, x in last.f.items()})
                    fields[k] = Seq(list(pre) + [('el', last)], u.ety, u.kind)
                continue
            if k[1] == 'method':
                if isinstance(u, int):
                    ok = self.method_ok(I, u, g['M'])
                    if ok is True:
                        fields[k] = of(sym(('ghost', 'LM'), 0, 9))
                    elif isinstance(ok, str) and g['LM'] and g['M'].p:
                        if all(a[0] == 'seqeq' for a in I.st.atoms if repr(g['M'].p) in repr(a)):
                            self.why = ok
                            fields[k] = of(sym(('ghost', ('wrong', 'method')), 0, 9))
                            inexact = True
                continue
            fields[k] = canon_val(u, t, k[1])
        return Rec(v.rn, fields), Ref(ctl, ng), inexact

    def prepare(self, I, v, nbytes, st=None):
        I.st.cnt = 1000
        q = I.new('heap', 'request', self.rt, v)
        buf = Obj('heap', 'chunk', 0, None)
        cs = [of(sym(('byte', i), -128, 127)) for i in range(nbytes)]
        I.st.store[buf] = Seq([('el', c) for c in cs] + [('lit', b'\0')], I.models.char_t(), 'array')
        b = Ptr(Loc(buf, ()), 0, True)
        args = [q, I.new('param', 'begin', self.f['p'][1]['t'], b), I.new('param', 'end', self.f['p'][2]['t'], b.plus(nbytes))]
        return q, cs, args

    def domain(self, I, st, c):
        s = list(I.bases_of(c))[0]
        d = st.dom.get(s)
        if d is None:
            d = range(-128, 128)
        out = []
        lo, hi = st.b.get(s, (-128, 127)) if isinstance(st.b.get(s), tuple) else (-128, 127)
        return [x for x in d if lo <= x <= hi]

    def run(self, nbytes, v, ref, inexact, label):
        """one chunk of nbytes from the abstract state; returns successors when nbytes == 1"""
        ctx, P = self.ctx, self.P
        I = make(P, max_paths=20000)
        q, cs, args = self.prepare(I, v, nbytes)
        outs = explore(I, self.f, this=None, args=args)
        ctx.interp(I)
        ctx.count('byte-class transitions', len(outs))
        for fd in I.findings.values():
            if not fd.taint and not fd.inexact and not inexact:
                ctx.ob('step-is-defined', False, fd.where, f'{fd.kind} in state {label}: {fd.detail}', key=f'def|{fd.kind}|{ref.ctl}')
            else:
                ctx.ob('step-is-defined', None, fd.where, f'{fd.kind} in state {label}: {fd.detail}')
        succ = []
        for o in outs:
            if o.st.taint:
                ctx.ob('transition', None, P.loc(self.f['l']), f'state {label}: {list(o.st.taint)[:2]}')
                continue
            sv_, I.st = I.st, o.st
            try:
                succ += self.judge(I, o, q, cs, ref, inexact, label, v)
            finally:
                I.st = sv_
        return succ

    def judge(self, I, o, q, cs, ref, inexact, label, v0):
        ctx, P = self.ctx, self.P
        final = o.st.store.get(q.loc.root)
        doms = [self.domain(I, o.st, c) for c in cs]
        # reference runs over the byte classes of this path
        groups = {}

        def rec(i, ctl, has, acts, ex):
            if i == len(cs) or ctl in ('done', 'reject'):
                groups.setdefault((ctl, tuple(acts)), ex)
                return
            cl = {}
            for b in doms[i]:
                st = ref_step(ctl, b & 255, has)
                cl.setdefault(st, b & 255)
            for st, b in cl.items():
                if st == 'reject':
                    rec(i + 1, 'reject', has, acts, ex + [b])
                else:
                    rec(i + 1, st[0], has or (st[1] == ('headers', 'new')), acts + [(i, st[1])], ex + [b])
        rec(0, ref.ctl, ref.g['cur'], [], [])
        succ = []
        for (ctl, acts), ex in groups.items():
            sav = I.st
            I.st = o.st.copy()
            g = dict(ref.g)
            r = Ref(ref.ctl, g)
            toobig = False
            for i, a in acts:
                r.g = self.ref_apply(I, r, a, cs[i])
                if a and a[1] == 'digit' and I.decide(c_ge(sub(r.g[a[0]], 256))) is True:
                    toobig = True
            g = r.g
            exs = ''.join(bname(b)[2:-1] for b in ex)
            where = self.at
            key = f'{ref.ctl}|{len(cs)}|{ctl}|{"throw" if o.kind == "throw" else o.v}'
            det = f'after {label}, receiving {exs!r}: '
            unsure = inexact

            def report(ok, what, sure=False):
                if ok is False and unsure and not sure:
                    ok = None
                ctx.ob('transition', ok, o.v.where if o.kind == 'throw' and not ok else where, det + what, key=key + ('' if ok else '|' + what[:40]))
            try:
                if o.kind == 'throw':
                    bad = 'BadRequest' in o.v.tname
                    if not bad:
                        report(False, f'{o.v.tname} is thrown')
                    elif ctl == 'reject' or toobig:
                        report(True, 'rejected')
                    else:
                        report(False, f'rejected, the reference goes to {ctl}')
                    continue
                if ctl == 'reject':
                    report(False, 'accepted, the reference rejects')
                    continue
                done = o.v
                if ctl == 'done' and done is not True:
                    report(False if done is False else None, 'the request is complete but parsing goes on')
                    continue
                if ctl != 'done' and done is not False:
                    report(False if done is True else None, f'the request is declared complete, the reference is in {ctl}')
                    continue
                if not isinstance(final, Rec):
                    report(None, f'request value {final}')
                    continue
                cmp_ = self.compare(I, final, g, ctl == 'done')
                if ctl == 'done':
                    bad = [w for w, e in cmp_ if e is False]
                    und = [w for w, e in cmp_ if e is None]
                    hard = any(e is False and w.split(':')[0] in self.wrongs(final) for w, e in cmp_)
                    report(False if bad else None if und else True, ('differs from the reference in ' + ', '.join(bad or und)) if bad or und else 'complete with the reference values', hard)
                    continue
                report(True, f'goes to {ctl}')
                succ.append(self.generalise(I, final, g, ctl, v0, ref.g) + (label + ' ' + exs if len(label) < 60 else label,))
            finally:
                I.st = sav
        return succ

    def statekey(self, v, r):
        # control part and which ghosts are symbolic
        return (v, r.ctl, tuple((k, x if not isinstance(x, (Seq,)) else x) for k, x in sorted(r.g.items(), key=lambda p: p[0])))


def I_get(sim, v, n):
    return v.f.get(sim.key[n])


def run(ctx):
    P = ctx.P
    for f in func(P, 'wfa::entry_parse'):
        S = Sim(ctx, f)
        mt = S.tid.get('method')
        S.members = {c: int(x) for c, x in P.enums[P.ty(mt)['e']]['v'].items()} if mt is not None and 'e' in P.ty(mt) else {}
        v, r = S.start()
        work = [(v, r, False, 'the start')]
        S.seen[S.statekey(v, r)] = 1
        allst = list(work)
        while work:
            v, r, ix, label = work.pop(0)
            for n in ((1, 2, 3) if ctx.tier == 'thorough' else (1, 2)):
                for s in S.run(n, v, r, ix, label):
                    k = S.statekey(s[0], s[1])
                    if k not in S.seen and len(S.seen) < 150:
                        S.seen[k] = 1
                        t = (s[0], s[1], s[2] or ix, s[3])
                        work.append(t)
                        allst.append(t)
        ctx.count('abstract parser states', len(allst))
        if len(S.seen) >= 150:
            ctx.ob('closure', None, P.loc(f['l']), 'the exploration of the parser states does not close')
        reach = {r.ctl for _, r, _, _ in allst}
        ctx.ob('coverage', True if len(reach) >= 15 else None, P.loc(f['l']), f'{len(reach)} reference states reached')
        # completed requests and empty chunks
        for v, r, ix, label in allst:
            I = make(P)
            q, cs, args = S.prepare(I, v, 0)
            outs = explore(I, f, this=None, args=args)
            ctx.interp(I)
            for o in outs:
                same = o.kind == 'ok' and o.v is False and o.st.store.get(q.loc.root) == v
                ctx.ob('empty-chunk', True if same else None if o.st.taint or ix else False, P.loc(f['l']), f'after {label}: an empty chunk ' + ('changes nothing' if same else f'gives {o}'), key='empty|' + r.ctl)
