"""Path-partitioned abstract interpreter over the exported program.

States are abstract (symbols, linear constraints, finite sets, symbolic contents); control-flow merges are partitioned,
loops are generalised to an arbitrary iteration (affine induction variables, append templates, havoc for the rest), calls
into /repo are inlined, calls out of it go to the models in stl.py.  Nothing of the analysed program is executed.
"""
import time
from . import flt, num
from .num import Lin, Sym, sym, of, add, sub, mulc, mk, isnum
from .values import *


class PathDead(Exception):
    pass


class Indefinite(Exception):
    pass


class Budget(Exception):
    pass


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class Throw(Exception):
    def __init__(self, tname, v, where, rid=None):
        self.tname, self.v, self.where, self.rid = tname, v, where, rid


STD_BASES = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::bad_alloc': 'std::exception',
    'std::bad_array_new_length': 'std::bad_alloc',
    'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
    'std::domain_error': 'std::logic_error', 'std::bad_function_call': 'std::exception', 'std::bad_optional_access': 'std::exception',
    'std::system_error': 'std::runtime_error', 'std::filesystem::filesystem_error': 'std::system_error',
    'std::format_error': 'std::runtime_error', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::bad_weak_ptr': 'std::exception', 'std::bad_cast': 'std::exception', 'std::bad_variant_access': 'std::exception',
    'std::ios_base::failure': 'std::system_error', 'std::underflow_error': 'std::runtime_error',
    'user-exception(std)': 'std::exception',
}


class State:
    def __init__(self):
        self.store, self.cons, self.b, self.dom, self.atoms = {}, [], {}, {}, {}
        self.neqs, self.events, self.dead, self.taint, self.trail, self.cnt = set(), [], set(), {}, [], 0
        self.static_inited = set()

    def copy(self):
        s = State.__new__(State)
        s.store, s.cons, s.b, s.dom, s.atoms = dict(self.store), list(self.cons), dict(self.b), dict(self.dom), dict(self.atoms)
        s.neqs, s.events, s.dead, s.taint = set(self.neqs), list(self.events), set(self.dead), dict(self.taint)
        s.trail, s.cnt = list(self.trail), self.cnt
        s.static_inited = set(self.static_inited)
        return s


class Frame:
    def __init__(self, func, this, clo=None):
        self.func, self.this, self.clo, self.env, self.locals = func, this, clo, {}, []


class Event:
    __slots__ = ('kind', 'a', 'where', 'st', 'stack')
    def __init__(self, kind, a, where, st=None, stack=()):
        self.kind, self.a, self.where, self.st, self.stack = kind, a, where, st, stack
    def __repr__(self):
        return f'{self.kind}@{self.where} ' + ' '.join(f'{k}={v}' for k, v in self.a.items() if k not in ('clo',))


class Start(dict):
    mark = 0


class Outcome:
    def __init__(self, kind, v, st, extra=None):
        self.kind, self.v, self.st, self.extra = kind, v, st, extra
    def __repr__(self):
        return f'Outcome({self.kind}, {self.v})'


class Finding:
    def __init__(self, kind, where, detail, trail, taint, inexact, stack):
        self.kind, self.where, self.detail, self.trail, self.taint, self.inexact, self.stack = kind, where, detail, trail, taint, inexact, stack
    def key(self):
        return (self.kind, self.where)


class Interp:
    def __init__(self, P, models, unroll=0, max_paths=4000, max_steps=3_000_000, looplimit=512):
        self.looplimit = looplimit
        self.P, self.models = P, models
        self.unroll, self.max_paths, self.max_steps = unroll, max_paths, max_steps
        self.st = State()
        self.frames = []
        self.script, self.pos, self.prefix = [], 0, []
        self.nofork = 0
        self.quiet = 0           # >0: obligations are not recorded (trial runs of loops)
        self.findings = {}
        self.obl = {}            # (kind, where) -> [proved, failed]
        self.plans = {}
        self.summaries, self.ctor_summaries = {}, {}
        self.fn_hooks = {}              # called through a pointer: name -> handler(I, argument values)
        self.fresh = False
        self.modular = False            # unsigned sums stay modular expressions, they are never split by the number of wraps
        self.mbound = {}
        self.deadline = None
        self.functions = set()   # functions interpreted
        self.steps = 0
        self.npaths = 0
        self.cur = None
        self.loopctx = []
        self.temps = [[]]
        self.track = {}          # per-check switches
        self.static_objs = {}

    # ---- choices ------------------------------------------------------------------------------------------------
    def choose(self, n, what=None):
        if n == 1:
            return 0
        if self.nofork:
            raise Indefinite()
        if self.pos < len(self.script):
            c = self.script[self.pos][0]
        else:
            c = 0
            self.script.append([0, n])
        self.pos += 1
        self.prefix.append(c)
        return c

    def explore(self, fn, st0, catch=()):
        """All abstract paths of fn() from st0."""
        saved = (self.st, self.script, self.pos, self.prefix, self.nofork)
        frames_env = [(f, dict(f.env), list(f.locals)) for f in self.frames]
        stk = list(self.frames)
        tstk = [list(t) for t in self.temps]
        outs = []
        script = []
        n = 0
        try:
            while True:
                n += 1
                self.npaths += 1
                if n > self.max_paths:
                    raise Budget('paths')
                self.st = st0.copy()
                self.script, self.pos, self.nofork = script, 0, 0
                self.prefix = list(saved[3]) + ['|']
                self.frames = list(stk)
                self.temps = [list(t) for t in tstk]
                for f, env, loc in frames_env:
                    f.env = dict(env)
                    f.locals = list(loc)
                try:
                    v = fn()
                    outs.append(Outcome('ok', v, self.st))
                except PathDead:
                    pass
                except ReturnX as r:
                    outs.append(Outcome('return', r.v, self.st))
                except BreakX:
                    outs.append(Outcome('break', None, self.st))
                except ContinueX:
                    outs.append(Outcome('continue', None, self.st))
                except Throw as t:
                    outs.append(Outcome('throw', t, self.st))
                del script[self.pos:]
                while script and script[-1][0] + 1 >= script[-1][1]:
                    script.pop()
                if not script:
                    return outs
                script[-1][0] += 1
        finally:
            self.st, self.script, self.pos, self.prefix, self.nofork = saved
            self.frames = stk
            self.temps = tstk
            for f, env, loc in frames_env:
                f.env = env
                f.locals = loc

    # ---- numeric facts -------------------------------------------------------------------------------------------
    def bnd(self, s):
        st = self.st
        d = st.dom.get(s)
        if d is not None:
            return min(d), max(d)
        lo, hi = st.b.get(s, (None, None))
        if s.lo is not None and (lo is None or s.lo > lo):
            lo = s.lo
        if s.hi is not None and (hi is None or s.hi < hi):
            hi = s.hi
        if s.div:
            if self.modular:
                r = self.mbound.get(s)
                if r is None:
                    r = self.mbound[s] = num.interval(s.div[0], self.bnd)
                l, h = r
            else:
                L = s.div[0]
                l, h = num.interval(L, self.bnd)
                if len(L.t) > 1:
                    for c in st.cons:       # rows that bound this very sum
                        if len(c.t) == len(L.t):
                            if c.t == L.t:
                                if l is None or L.c - c.c > l:
                                    l = L.c - c.c
                            elif all(x[0] is y[0] and x[1] == -y[1] for x, y in zip(c.t, L.t)) and (h is None or L.c + c.c < h):
                                h = L.c + c.c
            m = s.div[1]
            if l is not None and (lo is None or l // m > lo):
                lo = l // m
            if h is not None and (hi is None or h // m < hi):
                hi = h // m
        return lo, hi

    def bases_of(self, L, acc=None):
        acc = set() if acc is None else acc
        if isinstance(L, int):
            return acc
        for s in L.syms():
            if s.div:
                self.bases_of(s.div[0], acc)
            else:
                acc.add(s)
        return acc

    def bases_in(self, L, seen):
        if isinstance(L, Lin):
            for s in L.syms():
                if s not in seen:
                    seen.add(s)
                    if s.div:
                        self.bases_in(s.div[0], seen)

    def evalat(self, L, asg):
        if isinstance(L, int):
            return L
        r = L.c
        for s, k in L.t:
            if s.div:
                x = self.evalat(s.div[0], asg)
                r += k * (x // s.div[1])
            else:
                r += k * asg[s]
        return r

    def dom_of(self, s):
        d = self.st.dom.get(s)
        if d is None:
            lo, hi = self.bnd(s)
            if lo is not None and hi is not None and hi - lo <= 300:
                d = frozenset(range(lo, hi + 1))
        return d

    def single_dom(self, L):
        b = self.bases_of(L)
        if len(b) == 1:
            s = next(iter(b))
            d = self.dom_of(s)
            if d is not None:
                return s, d
        return None

    def rows(self):
        return self.st.cons

    def entails_ge(self, L):
        """state |= L >= 0"""
        if isinstance(L, int):
            return L >= 0
        lo, hi = num.interval(L, self.bnd)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        sd = self.single_dom(L)
        if sd:
            if all(self.evalat(L, {sd[0]: x}) >= 0 for x in sd[1]):
                return True
            if not self.st.cons:
                return False
        # a symbol pinned to one value elsewhere does not matter here
        neg = sub(-1, L)
        rel = self.relevant(neg)
        if not rel and not self.hasdiv(neg):
            return False
        return num.infeasible([neg] + rel, self.bnd)

    def hasdiv(self, L):
        return not isinstance(L, int) and any(s.div for s in L.syms())

    def relevant(self, L):
        need = set()
        def addsyms(M):
            new = False
            if isinstance(M, int):
                return False
            for s in M.syms():
                if s not in need:
                    need.add(s)
                    new = True
                    if s.div:
                        addsyms(s.div[0])
            return new
        addsyms(L)
        out, left = [], list(self.st.cons)
        changed = True
        while changed:
            changed = False
            rest = []
            for c in left:
                if any(s in need for s in self.closure(c)):
                    out.append(c)
                    addsyms(c)
                    changed = True
                else:
                    rest.append(c)
            left = rest
        return out

    def closure(self, c):
        out = set()
        st = [c]
        while st:
            x = st.pop()
            if isinstance(x, int):
                continue
            for s in x.syms():
                if s not in out:
                    out.add(s)
                    if s.div:
                        st.append(s.div[0])
        return out

    def decide(self, c):
        """True / False / None"""
        if isinstance(c, bool):
            return c
        if c.k == 'atom':
            r = self.st.atoms.get(c.a[0])
            if r is None and c.a[0][0] in ('seqeq', 'txteq', 'txtfind'):
                r = self.text_decide(c.a[0])
            elif r is None and c.a[0][0] == 'cmp':
                r = flt.decide(self, c.a[0])
            elif r is None and c.a[0][0] == 'contains':
                r = self.contains_decide(c.a[0])
            return r
        if c.k == 'not':
            r = self.decide(c.a[0])
            return None if r is None else not r
        if c.k == 'and':
            a, b = self.decide(c.a[0]), self.decide(c.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if c.k == 'or':
            a, b = self.decide(c.a[0]), self.decide(c.a[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        L = c.a[0]
        if c.k == 'ge':
            if self.entails_ge(L):
                return True
            if self.entails_ge(sub(-1, L)):
                return False
            return None
        if c.k == 'eq':
            lo, hi = num.interval(L, self.bnd)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
            sd = self.single_dom(L)
            if sd:
                vals = [self.evalat(L, {sd[0]: x}) == 0 for x in sd[1]]
                if all(vals):
                    return True
                if not any(vals):
                    return False
            if L in self.st.neqs or mulc(L, -1) in self.st.neqs:
                return False
            if self.entails_ge(L):
                if self.entails_ge(sub(L, 1)):
                    return False
                if self.entails_ge(mulc(L, -1)):
                    return True
            elif self.entails_ge(sub(-1, L)):
                return False
            return None
        raise KeyError(c.k)

    def text_decide(self, key):
        """equality of a text with a constant, from what is known of its elements and of its other comparisons"""
        if key[0] != 'seqeq':
            return self.lang_decide(key)
        lit, p = key[1], key[2]
        if len(lit) != 1 or lit[0][0] != 'lit':
            return None
        for k, val in self.st.atoms.items():
            if k[0] == 'txteq' and k[1] == p:
                b = lit[0][1]
                inside = len(k[2]) == len(b) and all(ch in x for ch, x in zip(b, k[2]))
                if val is True and not inside or val is False and inside:
                    return False
        for k, val in self.st.atoms.items():
            if val is True and k[0] == 'seqeq' and k[2] == p and k[1] != lit and len(k[1]) == 1 and k[1][0][0] == 'lit':
                return False
        if not p or p[0][0] != 'src':
            return None
        s = Seq(p, p[0][1].ety, 'string')
        n = s.len()
        b = lit[0][1]
        eq, exact = True, self.decide(c_eq(sub(n, len(b))))
        if exact is False:
            return False
        for i, c in enumerate(b[:64]):
            if exact is not True and self.decide(c_ge(sub(n, i + 1))) is not True:
                return None
            v = self.seq_get(s, i)
            e = self.decide(self.val_eq(v, c)) if isinstance(v, int) or v.syms()[0] in self.st.dom or v.syms()[0] in self.st.b or self.st.neqs or self.st.cons else None
            if e is False:
                return False
            if e is None:
                eq = None
        return True if exact and eq and len(b) <= 64 else None

    def contains_decide(self, key):
        """does a text contain a known one?  yes when one of its slices is known to be a text that contains it"""
        _, hay, needle, pos = key
        if pos != 0 or len(hay) != 1 or hay[0][0] != 'src' or len(needle) != 1 or needle[0][0] != 'lit':
            return None
        for k, val in self.st.atoms.items():
            if val is True and k[0] == 'seqeq' and len(k[1]) == 1 and k[1][0][0] == 'lit' and needle[0][1] in k[1][0][1] and len(k[2]) == 1 and k[2][0][0] == 'src' and k[2][0][1] == hay[0][1]:
                return True
            if val is True and k[0] == 'contains' and k[1] == hay and len(k[2]) == 1 and k[2][0][0] == 'lit' and needle[0][1] in k[2][0][1]:
                return True
        s, b = Seq(hay, hay[0][1].ety, 'string'), needle[0][1]
        for i in range(8):
            if self.decide(c_ge(sub(s.len(), i + len(b)))) is not True:
                break
            if all(self.decide(self.val_eq(self.seq_get(s, i + j), self.sgn(c, 8, True))) is True for j, c in enumerate(b)):
                return True
        return None

    def lang_decide(self, key):
        """membership of a text in a language of character sets, from its other comparisons"""
        kind, p, sets = key
        for k, val in self.st.atoms.items():
            if val is not True and not (val is False and k[0] == kind):
                continue
            if k[0] == 'seqeq' and k[2] == p and len(k[1]) == 1 and k[1][0][0] == 'lit' and val is True:
                b = k[1][0][1]
                if kind == 'txteq':
                    return len(b) == len(sets) and all(ch in x for ch, x in zip(b, sets))
                return any(all(b[i + j] in x for j, x in enumerate(sets)) for i in range(len(b) - len(sets) + 1))
            if k[0] in ('txteq', 'txtfind') and k[1] == p:
                o = k[2]
                if val is True and k[0] == 'txteq':
                    if kind == 'txteq':
                        if len(o) != len(sets) or any(not (x & y) for x, y in zip(o, sets)):
                            return False
                        if all(x <= y for x, y in zip(o, sets)):
                            return True
                    else:
                        ws = [[(o[i + j] <= x, bool(o[i + j] & x)) for j, x in enumerate(sets)] for i in range(len(o) - len(sets) + 1)]
                        if any(all(a for a, _ in w) for w in ws):
                            return True
                        if not any(all(b for _, b in w) for w in ws):
                            return False
                elif val is False and len(o) == len(sets) and all(x <= y for x, y in zip(sets, o)):
                    return False
                elif val is True and k[0] == 'txtfind' and kind == 'txtfind' and len(o) >= len(sets):
                    if any(all(o[i + j] <= x for j, x in enumerate(sets)) for i in range(len(o) - len(sets) + 1)):
                        return True
        return None

    def assume(self, c, val=True):
        """refine the state; PathDead if contradictory"""
        if isinstance(c, bool):
            if c != val:
                raise PathDead()
            return
        if c.k == 'not':
            return self.assume(c.a[0], not val)
        if c.k == 'atom':
            cur = self.st.atoms.get(c.a[0])
            if cur is not None and cur != val:
                raise PathDead()
            self.st.atoms[c.a[0]] = val
            hook = self.models.atom_facts
            hook(self, c.a[0], val)
            return
        if (c.k == 'and' and val) or (c.k == 'or' and not val):
            self.assume(c.a[0], val)
            self.assume(c.a[1], val)
            return
        if c.k in ('and', 'or'):
            # or-true / and-false: partition
            d0 = self.decide(c.a[0])
            want = val
            if d0 is (not want):
                return self.assume(c.a[1], val)
            if d0 is want:
                return
            if self.choose(2) == 0:
                return self.assume(c.a[0], val)
            self.assume(c.a[0], not val)
            return self.assume(c.a[1], val)
        L = c.a[0]
        if c.k == 'ge':
            self.add_ge(L if val else sub(-1, L))
        elif val:
            self.add_eq(L)
        else:
            self.add_neq(L)

    def refine_dom(self, L, pred):
        sd = self.single_dom(L)
        if not sd:
            return False
        s, d = sd
        nd = frozenset(x for x in d if pred(self.evalat(L, {s: x})))
        if not nd:
            raise PathDead()
        if len(nd) != len(d) or s not in self.st.dom:
            self.st.dom[s] = nd
        return True

    def add_ge(self, L):
        if isinstance(L, int):
            if L < 0:
                raise PathDead()
            return
        if self.refine_dom(L, lambda x: x >= 0):
            return
        if len(L.t) == 1:
            s, k = L.t[0]
            lo, hi = self.bnd(s)
            if k > 0:
                v = -(L.c // k)
                lo = v if lo is None or v > lo else lo
            else:
                v = L.c // -k
                hi = v if hi is None or v < hi else hi
            if lo is not None and hi is not None and lo > hi:
                raise PathDead()
            self.st.b[s] = (lo, hi)
            if self.st.cons and num.infeasible([L] + self.relevant(L), self.bnd):
                raise PathDead()
            if s.div:
                self.st.cons.append(L)
            return
        if num.infeasible([L] + self.relevant(L), self.bnd):
            raise PathDead()
        self.st.cons.append(L)

    def add_eq(self, L):
        if self.refine_dom(L, lambda x: x == 0):
            return
        self.add_ge(L)
        self.add_ge(mulc(L, -1) if not isinstance(L, int) else -L)

    def add_neq(self, L):
        if isinstance(L, int):
            if L == 0:
                raise PathDead()
            return
        if self.refine_dom(L, lambda x: x != 0):
            return
        if self.entails_ge(L):
            return self.add_ge(sub(L, 1))
        if self.entails_ge(mulc(L, -1)):
            return self.add_ge(sub(-1, L))
        self.st.neqs.add(L)

    def truth(self, c, where=None):
        if isinstance(c, bool):
            return c
        if isnum(c):
            c = c_not(c_eq(c))
            if isinstance(c, bool):
                return c
        if not isinstance(c, Cond):
            c = atom(('truth', c))
        d = self.decide(c)
        if d is not None:
            return d
        if self.choose(2) == 0:
            self.assume(c, True)
            self.st.trail.append((self.where(), c, True))
            return True
        self.assume(c, False)
        self.st.trail.append((self.where(), c, False))
        return False

    def where(self):
        return self.P.loc(self.cur)

    def stack(self):
        return tuple(f.func['q'] if f.func else '?' for f in self.frames)

    # ---- obligations ----------------------------------------------------------------------------------------------
    def inexact_in(self, c):
        seen = set()
        def go(x):
            if isinstance(x, Cond):
                for y in x.a:
                    go(y)
            elif isinstance(x, Lin):
                self.bases_in(x, seen)
        go(c)
        return {s for s in seen if not s.div and not s.exact}

    def oblige(self, kind, c, detail=''):
        d = self.decide(c)
        where = self.where()
        if self.quiet == 0:
            r = self.obl.setdefault((kind, where), [0, 0])
            r[0 if d is True else 1] += 1
            if d is not True:
                inx = self.inexact_in(c)
                if not inx and not self.st.taint:
                    from . import witness
                    if (d is None and not witness.violated(self, c)) or (d is False and witness.feasible(self) is False):
                        inx = {'no witness'}
                f = Finding(kind, where, f'{detail} [{c}]', list(self.st.trail), dict(self.st.taint), inx, self.stack())
                self.findings.setdefault((kind, where), f)
                old = self.findings[(kind, where)]
                if (old.taint or old.inexact) and not (f.taint or f.inexact):
                    self.findings[(kind, where)] = f
        if d is False:
            raise PathDead()
        if d is None:
            if isinstance(c, Cond):
                self.assume(c, True)
        return d is True

    def fail(self, kind, detail=''):
        if self.quiet == 0:
            where = self.where()
            self.obl.setdefault((kind, where), [0, 0])[1] += 1
            self.findings.setdefault((kind, where), Finding(kind, where, detail, list(self.st.trail), dict(self.st.taint), set(), self.stack()))

    def taint(self, why):
        self.st.taint.setdefault(why, self.where())

    def event(self, kind, **a):
        self.st.events.append(Event(kind, a, self.where(), self.st.copy() if kind in self.track.get('snap', ()) else None, self.stack()))

    # ---- objects ----------------------------------------------------------------------------------------------------
    def new(self, kind, name, tid, value=None):
        o = Obj(kind, name, self.st.cnt, tid)
        self.st.cnt += 1
        if value is not None:
            self.st.store[o] = value
        return Ptr(Loc(o, ()))

    def kill(self, ptr):
        if ptr.loc is not None and not ptr.loc.path:
            self.st.dead.add(ptr.loc.root)

    def get(self, loc):
        st = self.st.store
        if loc.root not in st:
            v = self.models.lazy(self, loc.root)
            st[loc.root] = v
        v = st[loc.root]
        for i, (k, x) in enumerate(loc.path):
            if k == 'f':
                v = self.field(v, x, Loc(loc.root, loc.path[:i]))
            elif k == 'e':
                v = self.seq_get(v, x)
            elif k == 'o':
                v = v.val if isinstance(v, Opt) else self.mk_sym(self.loc_tid(Loc(loc.root, loc.path[:i + 1])), ('optval', v))
            else:
                raise KeyError(k)
        return v

    def field(self, v, key, loc=None):
        if isinstance(v, Rec):
            if key in v.f:
                return v.f[key]
            t = self.P.field_type(key) if isinstance(key, tuple) and isinstance(key[0], int) else None
            return UNINIT if t is None else self.mk_uninit(t, key)
        if isinstance(v, Opq):
            if isinstance(key, tuple) and isinstance(key[0], int):
                t = self.P.field_type(key)
                if v == UNINIT:
                    return self.mk_uninit(t, key)
                return self.mk_sym(t, ('.', v.key, key))
            return Opq(('.', v.key, key))
        self.taint(f'field {key} of {type(v).__name__}')
        return Opq(('.', str(v), key))

    def put(self, loc, val):
        st = self.st.store
        if not loc.path:
            st[loc.root] = val
            return
        if loc.root not in st:
            st[loc.root] = self.models.lazy(self, loc.root)
        def go(v, path):
            if not path:
                return val
            k, x = path[0]
            if k == 'f':
                if isinstance(v, Opq):
                    tid = None
                    v = self.open_opq(v, x)
                if not isinstance(v, Rec):
                    self.taint('field store into ' + type(v).__name__)
                    v = Rec('?', {})
                return v.set(x, go(self.field(v, x), path[1:]))
            if k == 'e':
                if not isinstance(v, Seq):
                    self.taint('element store into ' + type(v).__name__)
                    return v
                return self.seq_set(v, x, go(self.seq_get(v, x) if len(path) > 1 else None, path[1:]))
            if k == 'o':
                return Opt(v.has if isinstance(v, Opt) else True, go(v.val if isinstance(v, Opt) else UNINIT, path[1:]))
            raise KeyError(k)
        st[loc.root] = go(st[loc.root], loc.path)

    def open_opq(self, v, key):
        """expand an opaque repo record so that one field can be written"""
        rid = key[0] if isinstance(key, tuple) and isinstance(key[0], int) else None
        if rid is None:
            return Rec('?', {})
        r = Rec(self.P.recs[rid]['name'], {})
        for k, t, o, f in self.P.fields(rid):
            r.f[k] = self.field(v, k)
        return r

    def loc_tid(self, loc):
        """static type of the object at loc"""
        t = loc.root.tid
        for k, x in loc.path:
            if k == 'f':
                t = self.P.field_type(x) if isinstance(x, tuple) and isinstance(x[0], int) else None
            elif k == 'e':
                t = self.elem_tid(t)
            elif k == 'o':
                ta = self.P.targs(self.P.rid(t)) if t is not None and self.P.rid(t) is not None else []
                t = ta[0].get('t') if ta else None
            if t is None:
                return None
        return self.P.strip(t) if t is not None else None

    def elem_tid(self, tid):
        if tid is None:
            return None
        t = self.P.ty(self.P.strip(tid))
        if t['k'] in ('arr',):
            return t['of']
        if t['k'] == 'ptr':
            return t['to']
        if t['k'] == 'rec':
            ta = self.P.targs(t['r'])
            if ta and 't' in ta[0]:
                return ta[0]['t']
            if self.P.recs[t['r']].get('union'):
                return None
        return None

    def es_of(self, ety):
        if ety is None:
            return 1
        t = self.P.ty(ety)
        return t.get('size') or 1

    # ---- symbolic values -----------------------------------------------------------------------------------------
    def mk_sym(self, tid, key, exact=True):
        P = self.P
        tid = P.strip(tid)
        t = P.ty(tid)
        k = t['k']
        if k == 'bool':
            return atom(key)
        if k == 'int':
            w, s = t['w'], t['s']
            return of(sym(key, -(1 << (w - 1)) if s else 0, (1 << (w - 1)) - 1 if s else (1 << w) - 1, exact))
        if k == 'enum':
            vals = [int(v) for v in P.enums[t['e']]['v'].values()]
            w, s = t['w'], t['s']
            if vals and P.enums[t['e']]['name'].startswith('webfront') and exact == 'enum':
                sy = sym(key, min(vals), max(vals), True)
                return of(sy)
            return of(sym(key, -(1 << (w - 1)) if s else 0, (1 << (w - 1)) - 1 if s else (1 << w) - 1, exact))
        if k == 'flt':
            return Flt(key)
        if k == 'ptr':
            o = Obj('opaque', ('*', key), 0, t['to'])
            return Ptr(Loc(o, ()))
        if k == 'arr':
            n = t.get('len')
            return Seq([('src', Src(key, t['of']), 0, n if n is not None else of(sym(('len', key), 0, MAXLEN)))], t['of'], 'array')
        if k == 'rec':
            return self.models.sym_rec(self, tid, t['r'], key)
        return Opq(key, tid)

    def mk_uninit(self, tid, key=None):
        P = self.P
        tid = P.strip(tid)
        t = P.ty(tid)
        if t['k'] == 'arr':
            return Seq([('src', Src(('uninit', key), t['of'], ('uninit',)), 0, t.get('len', 0))], t['of'], 'array')
        if t['k'] == 'rec':
            rid = t['r']
            r = P.recs[rid]
            if r['name'] == 'std::array':
                n = int(r['ta'][1]['i'])
                return Seq([('src', Src(('uninit', key), r['ta'][0]['t'], ('uninit',)), 0, n)], r['ta'][0]['t'], 'array')
            if r.get('union'):
                return Seq([('src', Src(('uninit', key), None, ('uninit',)), 0, r['size'])], None, 'union')
            if r.get('repo') and not r.get('lambda'):
                return Rec(r['name'], {k: self.mk_uninit(ft, k) for k, ft, o, f in P.fields(rid)})
            return self.zero(tid)
        return UNINIT

    def zero(self, tid):
        P = self.P
        tid = P.strip(tid)
        t = P.ty(tid)
        k = t['k']
        if k == 'bool':
            return False
        if k in ('int', 'enum'):
            return 0
        if k == 'flt':
            return Flt(('const', 0.0))
        if k in ('ptr', 'nullptr'):
            return NULL
        if k == 'arr':
            n = t.get('len', 0)
            et = P.ty(t['of'])
            if et['k'] in ('int', 'enum', 'bool') and n > 0:
                return Seq([('lit', b'\0' * n)] if et.get('size') == 1 else [('rep', n, 0)], t['of'], 'array')
            return Seq([('el', self.zero(t['of'])) for _ in range(n)], t['of'], 'array')
        if k == 'rec':
            return self.models.zero_rec(self, tid, t['r'])
        return Opq(('zero', tid))

    # ---- sequences -------------------------------------------------------------------------------------------------
    def src_elem(self, src, off, ety=None):
        ety = src.ety if src.ety is not None else ety
        if 'uninit' in src.flags:
            if 'uninit' in self.track:
                self.fail('uninitialised-read', f'element {off} of {fmt(src.key)} is read before it is written')
            es = self.es_of(ety)
            if es == 1:
                return of(sym(('uninit', src.key, off), 0, 255, False))
            return UNINIT
        t = self.P.ty(ety) if ety is not None else None
        if t is None or (t['k'] in ('int', 'enum', 'bool') and t.get('size') == 1):
            return of(sym(('e', src.key, off), 0, 255, 'inexact' not in src.flags, op=('elem', src, off)))
        return self.mk_sym(ety, ('e', src.key, off))

    def seq_get(self, s, idx):
        if not isinstance(s, Seq):
            if isinstance(s, Opq):
                return Opq(('elem', s.key, idx))
            self.taint('indexing ' + type(s).__name__)
            return Opq(('elem', str(s), idx))
        if isinstance(idx, Lin) and 1 < len(s.p) <= 256 and all(x[0] == 'el' and isnum(x[1]) for x in s.p):
            lo, hi = num.interval(idx, self.bnd)
            if lo is not None and hi is not None and lo >= 0 and hi < len(s.p):
                vals = [x[1] for x in s.p]
                if all(isinstance(v, int) and 0 <= v <= 255 for v in vals):
                    return self.piece_get(('lit', bytes(vals)), idx, s.ety)
                if all(isinstance(v, int) for v in vals):
                    return self.select(tuple(vals), idx)
        pos = 0
        for i, x in enumerate(s.p):
            n = plen(x)
            end = add(pos, n)
            last = i == len(s.p) - 1
            inside = True if last else self.truth(c_ge(sub(sub(end, 1), idx)))
            if inside:
                rel = sub(idx, pos)
                return self.piece_get(x, rel, s.ety)
            pos = end
        return Opq(('elem-of-empty', idx))

    def piece_get(self, x, rel, ety):
        k = x[0]
        if k == 'lit':
            if isinstance(rel, int):
                return x[1][rel] if 0 <= rel < len(x[1]) else 0
            d = self.single_dom(rel)
            vals = set(x[1])
            return of(sym(('litat', x[1], rel), min(vals), max(vals), True, op=('lit', x[1], rel)))
        if k == 'el':
            return x[1]
        if k == 'src':
            return self.src_elem(x[1], add(x[2], rel), ety)
        if k == 'map':
            return self.subst(x[3], x[1], rel)
        if k == 'rep':
            return x[2]
        self.taint('piece ' + k)
        return Opq((k, rel))

    def seq_set(self, s, idx, v):
        out, pos, done = [], 0, False
        for x in s.p:
            n = plen(x)
            end = add(pos, n)
            if done:
                out.append(x)
            else:
                inside = self.decide(c_and(c_ge(sub(idx, pos)), c_ge(sub(sub(end, 1), idx))))
                if inside is True:
                    rel = sub(idx, pos)
                    out += self.piece_split(x, rel, v)
                    done = True
                elif inside is None and self.decide(c_ge(sub(pos, add(idx, 1)))) is not True and self.decide(c_ge(sub(idx, end))) is not True:
                    # unknown position: forget the contents, keep the length
                    L = s.len()
                    return s.with_p([('src', Src(('havoc', s, idx, v), s.ety, ('inexact',)), 0, L)])
                else:
                    out.append(x)
            pos = end
        return s.with_p(self.mergebytes(out, s))

    def mergebytes(self, out, s):
        return out

    def piece_split(self, x, rel, v):
        n = plen(x)
        a = self.piece_sub(x, 0, rel)
        b = self.piece_sub(x, add(rel, 1), sub(n, add(rel, 1)))
        mid = ('lit', bytes([v & 255])) if x[0] == 'lit' and isinstance(v, int) and not isinstance(v, bool) else ('el', v)
        return [a, mid, b]

    def piece_sub(self, x, off, n):
        k = x[0]
        if k == 'lit':
            if isinstance(off, int) and isinstance(n, int):
                return ('lit', x[1][off:off + n])
            return ('src', Src(('litslice', x[1]), None), off, n)
        if k == 'el':
            return x if n == 1 else ('lit', b'')
        if k == 'src':
            return ('src', x[1], add(x[2], off), n)
        if k == 'rep':
            return ('rep', n, x[2])
        if k == 'map':
            if off == 0:
                return ('map', x[1], n, x[3])
            return ('map', x[1], n, self.subst(x[3], x[1], add(of(x[1]), off)))
        return ('src', Src(('sub', x), None), off, n)

    def seq_slice(self, s, off, n):
        """elements [off, off+n) as a Seq (caller guarantees bounds)"""
        if not isinstance(s, Seq):
            return Seq([('src', Src(('of', s), None), off, n)], None, 'string')
        L = s.len()
        if off == 0 and n == L:
            return s
        out, pos = [], 0
        end_all = add(off, n)
        for x in s.p:
            pn = plen(x)
            end = add(pos, pn)
            # intersect [pos,end) with [off,end_all)
            before = self.decide(c_ge(sub(off, end)))          # whole piece before slice
            after = self.decide(c_ge(sub(pos, end_all)))       # whole piece after
            if before is True or after is True:
                pos = end
                continue
            ls = self.decide(c_ge(sub(pos, off)))              # piece starts inside slice
            le = self.decide(c_ge(sub(end_all, end)))
            if None in (before, after) and len(s.p) > 1 and (ls is None or le is None):
                return s.with_p([('src', Src(('slice', s, off), s.ety), 0, n)])
            if len(s.p) == 1:
                out.append(self.piece_sub(x, off, n))
                break
            if ls is None or le is None:
                return s.with_p([('src', Src(('slice', s, off), s.ety), 0, n)])
            st = 0 if ls else sub(off, pos)
            en = pn if le else sub(end_all, pos)
            out.append(self.piece_sub(x, st, sub(en, st)))
            pos = end
        return s.with_p(out)

    def seq_eq(self, a, b):
        """condition: two sequences have equal contents"""
        if a.p == b.p:
            return True
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None:
            return ca == cb
        le = self.decide(c_eq(sub(a.len(), b.len())))
        if le is False:
            return False
        for x, y in ((a, b), (b, a)):
            um = self.models.unmapped(self, x, y)
            if um is not None:
                return self.models.txt_cond(self, 'txteq', *um)
        # element-wise when both are short and fully element-wise known
        n = a.len()
        if isinstance(n, int) and n <= 64 and b.len() == n:
            c = True
            for i in range(n):
                x, y = self.seq_get(a, i), self.seq_get(b, i)
                c = c_and(c, self.val_eq(x, y))
                if c is False:
                    return False
            return c
        if cb is not None or (ca is None and repr(a) > repr(b)):
            a, b = b, a     # constant first
        # compare a constant prefix when lengths may match
        return atom(('seqeq', a.p, b.p))

    def val_eq(self, a, b):
        if isnum(a) and isnum(b):
            return c_eq(sub(a, b))
        if a == b:
            return True
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq_eq(a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.ptr_eq(a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return atom(('eq',) + tuple(sorted((a, b), key=str)))

    def ptr_eq(self, a, b):
        if a.loc == b.loc and a.content == b.content:
            return c_eq(sub(a.off, b.off)) if a.loc is not None else True
        for x, y in ((a, b), (b, a)):
            if x.loc is None:
                if y.loc.root.kind == 'opaque':
                    return atom(('null', y.loc))
                return False
        if a.loc.root.kind != 'opaque' and b.loc.root.kind != 'opaque' and a.loc != b.loc:
            return False
        return atom(('ptreq', a, b))

    # ---- substitution -----------------------------------------------------------------------------------------------
    def subst(self, v, s, r):
        if isinstance(v, (bool, str, bytes, type(None))) or isinstance(v, int):
            return v
        if isinstance(v, Sym):
            return v
        if isinstance(v, Lin):
            out = v.c
            for t, k in v.t:
                out = add(out, mulc(self.subst_sym(t, s, r), k))
            return out
        if isinstance(v, tuple):
            return tuple(self.subst(x, s, r) for x in v)
        if isinstance(v, Rec):
            return Rec(v.rn, {k: self.subst(x, s, r) for k, x in v.f.items()})
        if isinstance(v, Seq):
            return Seq([self.subst_piece(x, s, r) for x in v.p], v.ety, v.kind)
        if isinstance(v, View):
            return View(self.subst(v.ptr, s, r), self.subst(v.n, s, r))
        if isinstance(v, Ptr):
            if v.loc is None:
                return v
            return Ptr(Loc(v.loc.root, tuple((k, self.subst(x, s, r) if k == 'e' else x) for k, x in v.loc.path)), self.subst(v.off, s, r), v.content)
        if isinstance(v, Opt):
            return Opt(self.subst(v.has, s, r), self.subst(v.val, s, r))
        if isinstance(v, Cond):
            if v.k in ('ge', 'eq'):
                L = self.subst(v.a[0], s, r)
                return c_ge(L) if v.k == 'ge' else c_eq(L)
            if v.k == 'atom':
                return Cond('atom', self.subst(v.a[0], s, r))
            if v.k == 'not':
                return c_not(self.subst(v.a[0], s, r))
            return (c_and if v.k == 'and' else c_or)(*(self.subst(x, s, r) for x in v.a))
        if isinstance(v, Flt):
            return Flt(self.subst(v.key, s, r))
        if isinstance(v, Opq):
            return Opq(self.subst(v.key, s, r), v.tid)
        if isinstance(v, Src):
            return Src(self.subst(v.key, s, r), v.ety, v.flags)
        return v

    def subst_piece(self, x, s, r):
        return tuple(self.subst(y, s, r) for y in x)

    def subst_sym(self, t, s, r):
        if t is s:
            return r
        if t.div:
            return num.div(self.subst(t.div[0], s, r), t.div[1], self.bnd)
        if t.op:
            o = t.op[0]
            if o == 'elem':
                src2, off2 = self.subst(t.op[1], s, r), self.subst(t.op[2], s, r)
                if src2 != t.op[1] or off2 != t.op[2]:
                    return self.src_elem(src2, off2)
                return of(t)
            if o == 'xor':
                acc = 0
                for y in t.op[1]:
                    acc = self.bxor(acc, self.subst_sym(y, s, r) if isinstance(y, Sym) else self.subst(y, s, r), t.op[2])
                return acc
            if o == 'sel':
                return self.select(t.op[1], self.subst(t.op[2], s, r))
            if o == 'lit':
                return self.piece_get(('lit', t.op[1]), self.subst(t.op[2], s, r), None)
            if o in ('or', 'and', 'mul'):
                a, b = self.subst(t.op[1], s, r), self.subst(t.op[2], s, r)
                return {'or': self.bor, 'and': self.band, 'mul': lambda x, y, w: self.mul(x, y)}[o](a, b, t.op[3])
        key2 = self.subst(t.key, s, r) if isinstance(t.key, tuple) else t.key
        if key2 != t.key:
            return of(sym(key2, t.lo, t.hi, t.exact))
        return of(t)

    # ---- integer operators --------------------------------------------------------------------------------------------
    def rng(self, tid):
        t = self.P.ty(tid)
        if t['k'] == 'bool':
            return 1, False
        return t.get('w', 64), bool(t.get('s'))

    def fit(self, r, tid, op=''):
        """bring an arithmetic result into the range of its type (wrap if unsigned)"""
        w, s = self.rng(tid)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if isinstance(r, int):
            if lo <= r <= hi:
                return r
            if s and 'overflow' in self.track:
                self.fail('signed-overflow', f'{op} overflows')
            return num.wrap(r, w, s)
        l, h = num.interval(r, self.bnd)
        if l is not None and h is not None and l >= lo and h <= hi:
            return r
        if self.modular and not s:
            return self.residue(r, w)
        if self.entails_ge(sub(r, lo)) and self.entails_ge(sub(hi, r)):
            return r
        if s:
            if 'overflow' in self.track:
                self.oblige('signed-overflow', c_and(c_ge(sub(r, lo)), c_ge(sub(hi, r))), f'{op} stays in range')
            return r
        q = num.div(r, 1 << w, self.bnd)
        ql, qh = num.interval(q, self.bnd)
        if isinstance(q, int):
            return sub(r, q << w)
        if ql is not None and qh is not None and qh - ql <= 2:
            for v in sorted(range(ql, qh + 1), key=abs):
                if v == sorted(range(ql, qh + 1), key=abs)[-1]:
                    self.assume(c_eq(sub(q, v)))
                    return sub(r, v << w)
                inr = c_and(c_ge(sub(r, v << w)), c_ge(sub((v << w) + (1 << w) - 1, r)))
                if self.truth(inr):
                    return sub(r, v << w)
        return sub(r, mulc(q, 1 << w))

    def residue(self, r, w):
        """r modulo 2^w as one symbol: residues inside the sum are replaced by their own sums"""
        m = 1 << w
        acc = {}
        c = r.c
        for s, k in r.t:
            if s.op and s.op[0] == 'wrap' and s.op[2] == w:
                c += k * s.op[1].c
                for t, j in s.op[1].t:
                    acc[t] = acc.get(t, 0) + k * j
            else:
                acc[s] = acc.get(s, 0) + k
        h = m >> 1
        x = num.mk(c % m, {s: (k + h) % m - h for s, k in acc.items()})
        if isinstance(x, int):
            return x
        lo, hi = num.interval(x, self.bnd)
        if lo is not None and hi is not None and 0 <= lo and hi < m:
            return x
        return of(sym(('wrap', x, w), 0, m - 1, not self.inexact_in(Cond('x', x)), op=('wrap', x, w)))

    def opsym(self, op, a, b, w, lo=0, hi=None):
        ex = not self.inexact_in(Cond('x', a, b))
        return of(sym((op, a, b), lo, (1 << w) - 1 if hi is None else hi, ex, op=(op, a, b, w)))

    def mul(self, a, b):
        if isinstance(a, int):
            return mulc(b, a) if not isinstance(b, int) else a * b
        if isinstance(b, int):
            return mulc(a, b)
        (l1, h1), (l2, h2) = num.interval(a, self.bnd), num.interval(b, self.bnd)
        if None in (l1, h1, l2, h2):
            return of(sym(('mul', a, b), None, None, True, op=('mul', a, b, 0)))
        c = [x * y for x in (l1, h1) for y in (l2, h2)]
        return of(sym(('mul', a, b), min(c), max(c), True, op=('mul', a, b, 0)))

    def uns(self, a, w):
        """the unsigned reading of a"""
        lo, hi = num.interval(a, self.bnd)
        if lo is not None and lo >= 0:
            return a
        return a if self.below(a, w) else num.mod(a, 1 << w, self.bnd)

    def sgn(self, a, w, s):
        return num.wrap(a, w, True, self.bnd) if s else a

    def ord(self, a):
        return (0, a, ()) if isinstance(a, int) else (1, a.c, tuple((s.id, k) for s, k in a.t))

    def ragged(self, a, b, w):
        """in modular mode a constant with many bit runs is an operand like any other"""
        b &= (1 << w) - 1
        return self.modular and not isinstance(a, int) and bin(b).count('01') + (b >> (w - 1)) > 1

    def band(self, a, b, w):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and not self.ragged(a, b, w):
            if b & ((1 << w) - 1) and isinstance(a, Lin) and len(a.t) > 1 and not self.modular:
                b &= (1 << w) - 1
                tz = (b & -b).bit_length() - 1
                tops = [k for k in range(1, w + 1) if k == w or (b >> (k - 1)) & 1 and not (b >> k) & 1]
                for k in ([tz] if tz else []) + tops[:2]:
                    if k < w and self.below(a, k):
                        b &= (1 << k) - 1
                        break
                if not b:
                    return 0
                if b & (b + 1) == 0 and self.below(a, b.bit_length()):
                    return a
            return num.and_const(a, b, w, self.bnd)
        if a == b:
            return a
        hs = [h for h in (num.interval(a, self.bnd)[1], num.interval(b, self.bnd)[1]) if h is not None]
        if self.ord(a) > self.ord(b):
            a, b = b, a
        return self.opsym('and', a, b, w, hi=min(hs) if hs else None)

    def below(self, a, k):
        """is 0 <= a < 2^k entailed, by bounds or by rows?"""
        l, h = num.interval(a, self.bnd)
        if l is not None and h is not None and l >= 0 and h < 1 << k:
            return True
        return not self.modular and isinstance(a, Lin) and len(a.t) > 1 and self.entails_ge(a) and self.entails_ge(sub((1 << k) - 1, a))

    def tz(self, a):
        if isinstance(a, int):
            return 64 if a == 0 else (a & -a).bit_length() - 1
        g = a.c
        for _, k in a.t:
            g |= k if k >= 0 else -k
        # gcd power of two
        r = 64
        for k in [a.c] + [k for _, k in a.t]:
            if k:
                r = min(r, (k & -k).bit_length() - 1)
        return r

    def disjoint(self, a, b):
        for x, y in ((a, b), (b, a)):
            h = num.interval(y, self.bnd)[1]
            l = num.interval(y, self.bnd)[0]
            if h is not None and l is not None and l >= 0 and h < (1 << self.tz(x)):
                return True
            if self.tz(x) and self.below(y, self.tz(x)):
                return True
        return False

    def bor(self, a, b, w):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if isinstance(a, int):
                return a | b
            if not self.ragged(a, b, w):
                return sub(add(a, b), num.and_const(a, b, w, self.bnd))
        if a == b:
            return a
        if self.disjoint(a, b):
            return add(a, b)
        if self.ord(a) > self.ord(b):
            a, b = b, a
        return self.opsym('or', a, b, w)

    def xparts(self, a):
        if isinstance(a, Lin) and a.c == 0 and len(a.t) == 1 and a.t[0][1] == 1 and a.t[0][0].op and a.t[0][0].op[0] == 'xor':
            return set(a.t[0][0].op[1])
        return {a}

    def bxor(self, a, b, w):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if isinstance(a, int):
                return a ^ b
            if b == 0:
                return a
            if not self.modular or b == (1 << w) - 1:
                return sub(add(a, b), mulc(num.and_const(a, b, w, self.bnd), 2))
        if self.disjoint(a, b):
            return add(a, b)
        p = self.xparts(a) ^ self.xparts(b)
        ks = [x for x in p if isinstance(x, int)]
        if ks:
            p = {x for x in p if not isinstance(x, int)}
            k = 0
            for x in ks:
                k ^= x
            if k:
                p.add(k)
        if not p:
            return 0
        if len(p) == 1:
            return next(iter(p))
        key = ('xor', frozenset(p), w)
        ex = all(not self.inexact_in(Cond('x', x)) for x in p)
        return of(sym(key, 0, (1 << w) - 1, ex, op=('xor', frozenset(p), w)))

    def select(self, seqp, idx):
        """element idx of a short constant-length sequence of values, idx symbolic"""
        if isinstance(idx, int):
            return seqp[idx]
        if len(set(seqp)) == 1:
            return seqp[0]
        los = [num.interval(x, self.bnd)[0] for x in seqp]
        his = [num.interval(x, self.bnd)[1] for x in seqp]
        return of(sym(('sel', seqp, idx), min(los), max(his), all(not self.inexact_in(Cond('x', x)) for x in seqp), op=('sel', seqp, idx)))

    def shift_amount(self, b, w):
        self.oblige('shift-range', c_and(c_ge(b), c_ge(sub(w - 1, b))), f'shift amount {b} of a {w}-bit value')
        if isinstance(b, int):
            return b
        lo, hi = num.interval(b, self.bnd)
        if lo == hi and lo is not None:
            return lo
        sd = self.single_dom(b)
        if sd is not None and len(sd[1]) <= 64:
            vals = sorted({self.evalat(b, {sd[0]: x}) for x in sd[1]})
            for v in vals[:-1]:
                if self.truth(c_eq(sub(b, v))):
                    return v
            self.assume(c_eq(sub(b, vals[-1])))
            return vals[-1]
        if hi is not None and lo is not None and hi - lo <= 64:
            for v in range(lo, hi):
                if self.truth(c_eq(sub(b, v))):
                    return v
            self.assume(c_eq(sub(b, hi)))
            return hi
        return None

    def arith(self, op, a, b, tid, where=None):
        """integer a op b with result type tid"""
        if isinstance(a, (bool, Cond)):
            a = self.toint(a)
        if isinstance(b, (bool, Cond)):
            b = self.toint(b)
        if not isnum(a) or not isnum(b):
            if a == UNINIT or b == UNINIT:
                if 'uninit' in self.track:
                    self.fail('uninitialised-read', f'operand of {op}')
            return self.mk_sym(tid, ('op', op, a, b), False)
        w, s = self.rng(tid)
        if op == '+':
            return self.fit(add(a, b), tid, '+')
        if op == '-':
            return self.fit(sub(a, b), tid, '-')
        if op == '*':
            return self.fit(self.mul(a, b), tid, '*')
        if op in ('/', '%'):
            self.oblige('division-by-zero', c_not(c_eq(b)), 'divisor')
            if isinstance(b, int) and b > 0:
                lo, hi = num.interval(a, self.bnd)
                if isinstance(a, int):
                    q = abs(a) // b * (1 if a >= 0 else -1)
                    return q if op == '/' else a - q * b
                if (lo is not None and lo >= 0) or self.truth(c_ge(a)):
                    q = num.div(a, b, self.bnd)
                else:  # truncation towards zero
                    q = mulc(num.div(mulc(a, -1), b, self.bnd), -1)
                return q if op == '/' else sub(a, mulc(q, b))
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1)
                return q if op == '/' else a - q * b
            r = self.mk_sym(tid, ('op', op, a, b))
            if op == '%' and not s:
                self.assume(c_ge(sub(sub(b, 1), r)))
            return r
        if op == '<<':
            k = self.shift_amount(b, w)
            if k is None:
                return self.mk_sym(tid, ('op', op, a, b), False)
            return num.wrap(mulc(a, 1 << k), w, s, self.bnd)
        if op == '>>':
            k = self.shift_amount(b, w)
            if k is None:
                r = self.mk_sym(tid, ('op', op, a, b), False)
                if not s:
                    self.assume(c_ge(sub(a, r)))
                return r
            return num.div(a, 1 << k, self.bnd)
        ua, ub = self.uns(a, w), self.uns(b, w)
        r = {'&': self.band, '|': self.bor, '^': self.bxor}[op](ua, ub, w)
        lo, hi = num.interval(r, self.bnd)
        if s and not (hi is not None and hi < (1 << (w - 1))):
            r = self.sgn(r, w, s)
        return r

    def toint(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Cond):
            return 1 if self.truth(v) else 0
        return v

    # ---- bytes of values --------------------------------------------------------------------------------------------
    def bytes_of(self, v, tid, n=None):
        """little-endian bytes of a scalar value"""
        size = n or self.P.size(tid)
        if isinstance(v, (bool, Cond)):
            return [self.toint(v)]
        if isinstance(v, Flt):
            if isinstance(v.key, tuple) and v.key[0] == 'bytes':
                return list(v.key[1])
            return [of(sym(('fbyte', v, i), 0, 255, True)) for i in range(size)]
        if isnum(v):
            return [v if i == 0 and self.below(v, 8) else num.mod(num.div(v, 1 << (8 * i), self.bnd), 256, self.bnd) for i in range(size)]
        if isinstance(v, Ptr) or isinstance(v, (Opq, Fn, SP)):
            if v == UNINIT and 'uninit' in self.track:
                self.fail('uninitialised-read', 'bytes of an uninitialised object')
            return [of(sym(('obyte', v, i), 0, 255, False)) for i in range(size)]
        return [of(sym(('obyte', v, i), 0, 255, False)) for i in range(size)]

    def obj_bytes(self, v, tid, off, n):
        """bytes [off, off+n) of an object value of type tid (constant off, n)"""
        P = self.P
        t = P.ty(P.strip(tid))
        if isinstance(v, Seq) and (t['k'] == 'arr' or (t['k'] == 'rec' and P.recs[t['r']]['name'] == 'std::array') or v.kind == 'union'):
            es = self.es_of(v.ety)
            out = []
            i = off
            while i < off + n:
                e, o = divmod(i, es)
                b = self.obj_bytes(self.seq_get(v, e), v.ety, o, min(es - o, off + n - i)) if v.ety is not None and es > 1 else [self.seq_get(v, e)]
                out += b
                i += len(b)
            return out
        if t['k'] == 'rec' and isinstance(v, Rec) and P.recs[t['r']].get('repo'):
            out = []
            i = off
            fs = P.fields(t['r'])
            while i < off + n:
                hit = None
                for k, ft, fo, f in fs:
                    sz = P.size(P.strip(ft)) or 1
                    if fo <= i < fo + sz:
                        hit = (k, ft, fo, sz)
                        break
                if not hit:
                    out.append(of(sym(('padding', v.rn, i), 0, 255, False)))
                    i += 1
                    continue
                k, ft, fo, sz = hit
                m = min(fo + sz, off + n) - i
                out += self.obj_bytes(v.f.get(k, UNINIT), ft, i - fo, m)
                i += m
            return out
        if t['k'] in ('int', 'enum', 'bool', 'flt'):
            return self.bytes_of(v, P.strip(tid))[off:off + n]
        return [of(sym(('obyte', v, off + i), 0, 255, False)) for i in range(n)]

    def compose(self, bs, tid):
        """scalar of type tid from little-endian bytes"""
        t = self.P.ty(self.P.strip(tid))
        if t['k'] == 'flt':
            b0 = bs[0]
            if isinstance(b0, Lin) and len(b0.t) == 1 and isinstance(b0.t[0][0].key, tuple) and b0.t[0][0].key[0] == 'fbyte':
                fv = b0.t[0][0].key[1]
                if all(b == of(sym(('fbyte', fv, i), 0, 255, True)) for i, b in enumerate(bs)):
                    return fv
            return Flt(('bytes', tuple(bs)))
        r = 0
        for i, b in enumerate(bs):
            r = add(r, mulc(b, 1 << (8 * i)))
        if t['k'] == 'bool':
            return c_not(c_eq(r))
        w, s = self.rng(self.P.strip(tid))
        if s:
            r = num.wrap(r, w, True, self.bnd)
        return r

    # ---- memory access -------------------------------------------------------------------------------------------------
    def check_live(self, p, what):
        if p.loc is None:
            self.oblige('null-deref', False, what)
            raise PathDead()
        if p.loc.root in self.st.dead:
            self.fail('dangling', f'{what}: {p.loc.root.name} has been destroyed')
        if p.loc.root.kind == 'opaque':
            pass

    def is_elem_record(self, ety):
        if ety is None:
            return False
        t = self.P.ty(ety)
        return not (t['k'] in ('int', 'enum', 'bool', 'flt', 'ptr'))

    def norm(self, p, tid=None):
        """turn a content pointer at an element of class type into the element's own location"""
        if isinstance(p, FRef):
            return p
        if p.content:
            s = self.get(p.loc)
            if isinstance(s, Seq) and self.is_elem_record(s.ety):
                es = self.es_of(s.ety)
                idx = num.div(p.off, es, self.bnd) if not isinstance(p.off, int) else p.off // es
                return Ptr(Loc(p.loc.root, p.loc.path + (('e', idx),)))
        return p

    def in_bounds(self, p, s, n, what, extra=0):
        """n bytes at content pointer p lie inside sequence s"""
        es = self.es_of(s.ety)
        total = mulc(s.len(), es)
        self.oblige('out-of-bounds', c_and(c_ge(p.off), c_ge(sub(add(total, extra), add(p.off, n)))), f'{what}: bytes [{p.off}, {add(p.off, n)}) of {total}')

    def load(self, p, tid):
        P = self.P
        tid = P.strip(tid)
        self.check_live(p, 'read')
        v = self.get(p.loc)
        t = P.ty(tid)
        size = t.get('size') or 1
        if p.content:
            if not isinstance(v, Seq):
                if isinstance(v, Opq):
                    return self.mk_sym(tid, ('*', v.key, p.off))
                self.taint('content of ' + type(v).__name__)
                return self.mk_sym(tid, ('*', str(v), p.off), False)
            es = self.es_of(v.ety)
            if v.kind == 'string' and size == es:
                # s[s.size()] is the terminator
                L = mulc(v.len(), es)
                if self.decide(c_ge(sub(L, add(p.off, size)))) is not True and self.decide(c_eq(sub(L, p.off))) is not False:
                    if self.truth(c_eq(sub(L, p.off))):
                        return 0
            self.in_bounds(p, v, size, 'read')
            if es == size and (t['k'] != 'rec' or es > 1 or self.is_elem_record(v.ety)):
                idx = self.elem_index(p.off, es)
                if idx is not None:
                    x = self.seq_get(v, idx)
                    if v.ety is not None and t['k'] in ('int', 'enum', 'bool', 'flt'):
                        return self.reint(x, v.ety, tid)
                    return x
            if es == 1 or isinstance(p.off, int):
                if t['k'] == 'rec' and P.recs[t['r']].get('repo'):
                    return Rec(P.recs[t['r']]['name'], {k: self.load(Ptr(p.loc, add(p.off, o), True), ft) for k, ft, o, f in P.fields(t['r'])})
                if t['k'] == 'rec' and P.recs[t['r']]['name'] == 'std::array':
                    n = int(P.recs[t['r']]['ta'][1]['i'])
                    et = P.recs[t['r']]['ta'][0]['t']
                    return Seq([('el', self.load(Ptr(p.loc, add(p.off, i * self.es_of(et)), True), et)) for i in range(n)], et, 'array')
                if t['k'] in ('int', 'enum', 'bool', 'flt'):
                    bs = [self.content_byte(v, add(p.off, i), es) for i in range(size)]
                    if all(b is not None for b in bs):
                        return self.compose(bs, tid)
            self.taint('typed read')
            return self.mk_sym(tid, ('rd', v, p.off, tid), False)
        if p.off != 0 or self.byteview(p, tid):
            ot = self.loc_tid(p.loc)
            osz = P.size(ot) if ot is not None else None
            if isinstance(p.off, int) and osz is not None:
                self.oblige('out-of-bounds', 0 <= p.off and p.off + size <= osz, f'read of bytes [{p.off}, {p.off + size}) of a {osz}-byte object')
                bs = self.obj_bytes(v, ot, p.off, size)
                if t['k'] in ('int', 'enum', 'bool', 'flt'):
                    return self.compose(bs, tid)
            self.taint('object byte read')
            return self.mk_sym(tid, ('rdo', str(v), p.off), False)
        if v == UNINIT and t['k'] in ('int', 'enum', 'bool', 'flt', 'ptr'):
            if 'uninit' in self.track:
                self.fail('uninitialised-read', f'{p} is read before it is written')
            return self.mk_sym(tid, ('uninit', p.loc), False)
        return v

    def elem_index(self, off, es):
        if isinstance(off, int):
            return off // es if off % es == 0 else None
        if es == 1:
            return off
        q = num.div(off, es, self.bnd)
        if sub(off, mulc(q, es)) == 0:
            return q
        return None

    def content_byte(self, v, off, es):
        if es == 1:
            x = self.seq_get(v, off)
            if isinstance(x, (bool, Cond)):
                x = self.toint(x)
            if isnum(x):
                lo, hi = num.interval(x, self.bnd)
                if lo is None or lo < 0 or hi is None or hi > 255:
                    x = self.uns(x, 8)
                return x
            if x == UNINIT:
                return of(sym(('uninit', v, off), 0, 255, False))
            return None
        if isinstance(off, int):
            x = self.seq_get(v, off // es)
            return self.obj_bytes(x, v.ety, off % es, 1)[0]
        return None

    def byteview(self, p, tid):
        """is a scalar read/write of type tid at offset 0 of the object a reinterpretation of it?"""
        ot = self.loc_tid(p.loc)
        if ot is None:
            return False
        a, b = self.P.ty(ot), self.P.ty(tid)
        if a['k'] in ('int', 'enum', 'bool', 'flt') and b['k'] in ('int', 'enum', 'bool', 'flt'):
            return a.get('size') != b.get('size') or (a['k'] == 'flt') != (b['k'] == 'flt')
        return a['k'] in ('rec', 'arr') and b['k'] in ('int', 'enum', 'bool', 'flt')

    def reint(self, x, frm, to):
        """read a stored element under another scalar type of the same size"""
        if isinstance(x, (bool, Cond)):
            if self.P.ty(to)['k'] == 'bool':
                return x
            x = self.toint(x)
        if isinstance(x, Flt):
            if self.P.ty(to)['k'] == 'flt':
                return x
            return self.compose(self.bytes_of(x, frm), to)
        if not isnum(x):
            return x
        if self.P.ty(to)['k'] == 'bool':
            return c_not(c_eq(x))
        if self.P.ty(to)['k'] == 'flt':
            return self.compose(self.bytes_of(x, frm), to)
        w, s = self.rng(to)
        lo, hi = num.interval(x, self.bnd)
        a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if lo is not None and hi is not None and lo >= a and hi <= b:
            return x
        if not s and self.below(x, w):
            return x
        return num.wrap(x, w, s, self.bnd)

    def write(self, p, tid, v):
        P = self.P
        tid = P.strip(tid)
        self.check_live(p, 'write')
        t = P.ty(tid)
        if p.loc.root.kind == 'lit':
            self.fail('write-to-constant', str(p))
            return
        if p.content:
            s = self.get(p.loc)
            size = t.get('size') or 1
            if not isinstance(s, Seq):
                self.taint('write into content of ' + type(s).__name__)
                return
            self.in_bounds(p, s, size, 'write')
            es = self.es_of(s.ety)
            if es == size:
                idx = self.elem_index(p.off, es)
                if idx is not None:
                    if es == 1 and isinstance(v, int) and not isinstance(v, bool):
                        v &= 255
                    elif es == 1 and isinstance(v, Lin):
                        lo, hi = num.interval(v, self.bnd)
                        if lo is None or lo < 0:
                            v = self.uns(v, 8)
                    self.put(p.loc, self.seq_set(s, idx, v))
                    return
            if es == 1 and t['k'] in ('int', 'enum', 'bool', 'flt'):
                for i, b in enumerate(self.bytes_of(v, tid)):
                    s = self.seq_set(s, add(p.off, i), b)
                self.put(p.loc, s)
                return
            self.taint('typed write')
            return
        if p.off != 0 or (t['k'] in ('int', 'enum', 'bool', 'flt') and self.byteview(p, tid)):
            ot = self.loc_tid(p.loc)
            osz = P.size(ot) if ot is not None else None
            sz = t.get('size') or 1
            if isinstance(p.off, int) and osz is not None and P.ty(ot)['k'] in ('int', 'enum', 'flt', 'bool'):
                self.oblige('out-of-bounds', 0 <= p.off and p.off + sz <= osz, f'write of bytes [{p.off}, {p.off + sz}) of a {osz}-byte object')
                cur = self.get(p.loc)
                bs = [of(sym(('uninit', p.loc, i), 0, 255, False)) for i in range(osz)] if cur == UNINIT else self.bytes_of(cur, ot)
                bs[p.off:p.off + sz] = self.bytes_of(v, tid)
                self.put(p.loc, self.compose(bs, ot))
                return
            self.taint('object byte write')
            return
        self.put(p.loc, v)

    # ---- functions ----------------------------------------------------------------------------------------------------
    def call(self, f, this, args, clo=None):
        """args: list of Ptr (already bound parameter locations)"""
        self.functions.add(f['id'])
        if len(self.frames) > 60:
            raise Budget('call depth')
        self.steps += 1
        fr = Frame(f, this, clo)
        for p, a in zip(f['p'], args):
            fr.env[p['d']] = a
        if clo is not None:
            for d, kind, v in clo.caps:
                if kind == 'ref':
                    fr.env[d] = v
                else:
                    q = self.new('local', 'capture:' + self.P.vars[d]['n'], self.P.vars[d]['t'] if self.P.ty(self.P.vars[d]['t'])['k'] != 'ref' else self.P.strip(self.P.vars[d]['t']), v)
                    fr.env[d] = q
                    fr.locals.append(q)
            if clo.this is not None:
                fr.this = clo.this
        cur = self.cur
        self.frames.append(fr)
        try:
            self.exec(f['body'])
            r = None
        except ReturnX as e:
            r = e.v
        except Throw as t:
            if f.get('ne') or f.get('kind') == 'dtor':        # leaving a noexcept function ends the process
                raise Throw('std::terminate', t.v, t.where, t.rid)
            raise
        finally:
            self.frames.pop()
            self.cur = cur
        if fr.locals:
            self.frames.append(fr)
            try:
                self.leave(fr, 0)
            finally:
                self.frames.pop()
                self.cur = cur
        return r

    def bind_args(self, f, exprs, ptids=None):
        out = []
        ptids = ptids if ptids is not None else [p['t'] for p in f['p']]
        for e, t in zip(exprs, ptids):
            out.append(self.bind_arg(e, t))
        return out

    def bind_arg(self, e, ptid):
        P = self.P
        if P.ty(ptid)['k'] == 'ref':
            v = self.ev(e)
            if e.get('lv'):
                return self.norm(v)
            return self.temp(v, e['t'])
        q = self.new('param', 'arg', ptid)
        self.init_at(e, q, ptid)
        return q

    def temp(self, v, tid, name='temp'):
        q = self.new('temp', name, tid, v)
        self.temps[-1].append(q)
        return q

    def invoke(self, target, args, what='call'):
        """call a closure / function value with args: list of (value or Ptr, isref)"""
        if isinstance(target, Fn):
            target = target.t
        if target is None:
            raise Throw('std::bad_function_call', None, self.where())
        if isinstance(target, Clo):
            ops = [self.P.funcs[i] for i in self.P.recs[target.rid]['ops']]
            ops = [o for o in ops if 'body' in o and len(o['p']) == len(args)]
            f = ops[0] if len(ops) == 1 else self.pick(ops, args)
            if f is None:
                self.taint('unresolved lambda')
                return Opq('lambda-result')
            qs = []
            for p, (v, isref) in zip(f['p'], args):
                qs.append(self.pass_value(v, isref, p['t']))
            return self.call(f, target.this, qs, target)
        if isinstance(target, Functor):
            ops = [o for o in self.P.call_ops(target.rid) if len(o['p']) == len(args)]
            f = ops[0] if len(ops) == 1 else self.pick(ops, args)
            if f is None:
                self.taint('unresolved call operator')
                return Opq('functor-result')
            qs = [self.pass_value(v, isref, p['t']) for p, (v, isref) in zip(f['p'], args)]
            return self.call(f, self.temp(target.val, self.P.rectype(target.rid)), qs)
        if isinstance(target, FRef):
            if 'f' in target.f and 'body' in self.P.funcs[target.f['f']]:
                f = self.P.funcs[target.f['f']]
                qs = [self.pass_value(v, isref, p['t']) for p, (v, isref) in zip(f['p'], args)]
                return self.call(f, None, qs)
            h = self.fn_hooks.get(target.f['n'])
            if h is not None:
                return h(self, [v for v, _ in args])
            self.taint('external function pointer ' + target.f['n'])
            return Opq(('ret', target.f['n']))
        return self.models.opaque_call(self, target, args)

    def pick(self, ops, args):
        best = None
        for o in ops:
            ok = True
            for p, (v, isref) in zip(o['p'], args):
                tn = self.P.strip(p['t'])
                vt = self.loc_tid(v.loc) if isref and isinstance(v, Ptr) and not v.content and v.loc else None
                if vt is not None and self.P.ty(tn)['n'].replace('const ', '') != self.P.ty(vt)['n'].replace('const ', ''):
                    ok = False
            if ok:
                return o
        return best

    def pass_value(self, v, isref, ptid):
        P = self.P
        if P.ty(ptid)['k'] == 'ref':
            if isref:
                return self.norm(v)
            return self.temp(v, P.strip(ptid), 'argument')
        if isref:
            to = P.strip(ptid)
            if P.ty(to)['k'] == 'int' and isinstance(v, Ptr) and v.loc is not None:
                # an lvalue of another integral type is converted
                if v.content:
                    x = self.get(v.loc)
                    frm = x.ety if isinstance(x, Seq) else None
                else:
                    frm = self.loc_tid(v.loc)
                frm = P.strip(frm) if frm is not None else None
                if frm is not None and P.ty(frm)['k'] == 'int' and (P.ty(frm).get('size') or 1) == (P.ty(to).get('size') or 1) and frm != to:
                    return self.new('param', 'arg', ptid, self.convert(self.load(v, frm), frm, to))
                if frm is not None and P.ty(frm)['k'] == 'int' and frm != to and not v.content:
                    return self.new('param', 'arg', ptid, self.convert(self.load(v, frm), frm, to))
            v = self.load(v, ptid)
        return self.new('param', 'arg', ptid, v)

    # ---- construction -------------------------------------------------------------------------------------------------
    def init_at(self, e, q, tid):
        """evaluate initialiser e into the object at q"""
        k = e['k']
        if k == 'full':
            self.temps.append([])
            try:
                self.init_at(e['e'], q, tid)
            finally:
                ts = self.temps.pop()
            for t in ts:
                self.kill(t)
            return
        if k == 'ctor':
            return self.construct(e, q)
        if k == 'cast' and e['ck'] in ('ConstructorConversion', 'UserDefinedConversion', 'NoOp') and not e.get('lv') and self.P.ty(e['t'])['k'] == 'rec':
            return self.init_at(e['e'], q, tid)
        if k == 'mat':
            return self.init_at(e['e'], q, tid)
        if k == 'init' and self.P.ty(e['t'])['k'] in ('rec', 'arr'):
            return self.aggregate(e, q)
        if k == 'cond' and not e.get('lv'):
            self.cur = e['l']
            if self.truth(self.ev(e['c'])):
                return self.init_at(e['a'], q, tid)
            return self.init_at(e['b'], q, tid)
        if e.get('lv') and self.P.ty(tid)['k'] != 'ref':
            v = self.load(self.ev(e), tid)
        else:
            v = self.ev(e)
        self.put(q.loc, v)

    def construct(self, e, q, base=False):
        P = self.P
        self.cur = e['l']
        f = e['f']
        rid = f['r']
        rec = P.recs[rid]
        h = self.ctor_summaries.get(rec['name'])
        if h is not None and not base and e.get('cm') is None:
            h(self, e)
            self.put(q.loc, Rec(rec['name'], {}))
            return
        if not rec.get('repo') or rec.get('lambda'):
            v = self.models.construct(self, e, rec, q)
            if base:
                cur = self.get(q.loc)
                self.put(q.loc, (cur if isinstance(cur, Rec) else Rec(rec['name'], {})).set(('base', rec['name']), v))
            else:
                self.put(q.loc, v)
            return
        if e.get('cm') in ('copy', 'move') and e.get('dflt'):
            src = self.ev(e['a'][0])
            if not e['a'][0].get('lv'):
                v = src
            else:
                v = self.copy_from(src, e['a'][0]['t'], e['cm'] == 'move')
            self.put(q.loc, v)
            return
        fn = P.funcs[f['f']] if 'f' in f else None
        args = self.bind_args(fn, e['a']) if fn else []
        self.run_ctor(fn, q, args, base, rid, e.get('zi'))

    def copy_from(self, src, tid, move=False):
        src = self.norm(src)
        v = self.load(src, tid)
        if move:
            mv = self.models.moved_from(self, v)
            if mv is not v:
                if src.content:
                    self.write(src, tid, mv)
                else:
                    self.put(src.loc, mv)
        return v

    def run_ctor(self, fn, q, args, base=False, rid=None, zi=False):
        P = self.P
        rid = fn['r'] if fn is not None else rid
        union = P.recs[rid].get('union')
        if union:
            self.put(q.loc, Seq([('src', Src(('uninit', (rid, q.loc)), None, ('uninit',)), 0, P.recs[rid]['size'])] if not zi else [('lit', b'\0' * P.recs[rid]['size'])], None, 'union'))
        elif not base:
            self.put(q.loc, Rec(P.recs[rid]['name'], {k: (self.zero(t) if zi else self.mk_uninit(t, k)) for k, t, o, f in P.fields(rid)}))
        if fn is None:
            return
        self.functions.add(fn['id'])
        fr = Frame(fn, q)
        for p, a in zip(fn['p'], args):
            fr.env[p['d']] = a
        cur = self.cur
        self.frames.append(fr)
        try:
            if 'inits' in fn:
                for i in fn['inits']:
                    self.cur = i['e'].get('l') if i['e'] else self.cur
                    if 'm' in i:
                        key = self.find_field(rid, i['m'])
                        if union:
                            if P.ty(P.strip(P.field_type(key)))['k'] in ('int', 'enum', 'bool', 'flt'):
                                self.write(Ptr(q.loc, 0, True), P.field_type(key), self.rv(i['e']))
                            else:
                                self.taint('union member initialiser')
                            continue
                        self.init_at(i['e'], Ptr(Loc(q.loc.root, q.loc.path + (('f', key),))), P.field_type(key))
                    elif 'd' in i:
                        self.init_at(i['e'], q, None)
                    elif 'b' in i:
                        ie = i['e']
                        while ie['k'] in ('full',):
                            ie = ie['e']
                        if ie['k'] == 'ctor':
                            if ie.get('inh'):
                                bf = P.funcs[ie['f']['f']] if 'f' in ie['f'] else None
                                if bf:
                                    self.run_ctor(bf, q, args, True)
                            else:
                                self.construct(ie, q, True)
            if fn.get('body'):
                try:
                    self.exec(fn['body'])
                except ReturnX:
                    pass
        finally:
            self.frames.pop()
            self.cur = cur
        for l in fr.locals:
            self.kill(l)

    def find_field(self, rid, name):
        for f in self.P.recs[rid].get('f', []):
            if f['n'] == name:
                return (rid, name)
        for b in self.P.recs[rid].get('b', []):
            k = self.find_field(b['r'], name)
            if k:
                return k
        return None

    def aggregate(self, e, q):
        P = self.P
        t = P.ty(P.strip(e['t']))
        if t['k'] == 'arr':
            n = t.get('len', len(e['a']))
            out = []
            es = P.size(t['of']) or 1
            isb = P.ty(t['of'])['k'] in ('int', 'enum', 'bool') and es == 1
            if len(e['a']) == 1 and e['a'][0]['k'] == 'str':
                b = bytes.fromhex(e['a'][0]['hex'])
                self.put(q.loc, Seq([('lit', b + b'\0' * (n - len(b)))], t['of'], 'array'))
                return
            if 'big' in e:
                self.put(q.loc, self.mk_sym(e['t'], ('bigarray', str(q.loc))))
                return
            for a in e['a']:
                if P.ty(t['of'])['k'] in ('rec', 'arr'):
                    tmp = self.new('temp', 'el', t['of'])
                    self.init_at(a, tmp, t['of'])
                    v = self.get(tmp.loc)
                else:
                    v = self.rv(a)
                if isb and isnum(v):
                    if isinstance(v, int):
                        v &= 255
                    else:
                        v = self.uns(v, 8)
                out.append(('el', v))
            if len(out) < n:
                z = self.zero(t['of'])
                out.append(('rep', n - len(out), z))
            self.put(q.loc, Seq(out, t['of'], 'array'))
            return
        rec = P.recs[t['r']]
        if rec['name'] == 'std::array':
            ety = rec['ta'][0]['t']
            n = int(rec['ta'][1]['i'])
            if e['a']:
                inner = e['a'][0]
                tmp = self.new('temp', 'arr', inner['t'])
                self.init_at(inner, tmp, inner['t'])
                s = self.get(tmp.loc)
                self.put(q.loc, Seq(s.p, ety, 'array') if isinstance(s, Seq) else s)
            else:
                self.put(q.loc, self.zero(e['t']))
            return
        if rec.get('union'):
            v = self.zero(e['t']) if not e['a'] else self.mk_uninit(e['t'])
            self.put(q.loc, v)
            if e['a'] and 'uf' in e:
                ft = P.field_type((t['r'], e['uf']))
                if P.ty(ft)['k'] in ('int', 'enum', 'flt'):
                    self.write(Ptr(q.loc, 0, True), ft, self.rv(e['a'][0]))
            return
        if not rec.get('repo'):
            if rec['name'] in ('std::pair', 'std::tuple'):
                self.put(q.loc, Rec(rec['name'], {i: self.rv(a) for i, a in enumerate(e['a'])}))
                return
            if len(e['a']) == 0:
                self.put(q.loc, self.zero(e['t']))
                return
            self.taint('aggregate ' + rec['name'])
            self.put(q.loc, Opq(('agg', rec['name']), e['t']))
            return
        self.put(q.loc, Rec(rec['name'], {k: self.mk_uninit(ft, k) for k, ft, o, f in P.fields(t['r'])}))
        i = 0
        args = e['a']
        for b in rec.get('b', []):
            if i < len(args):
                a = args[i]
                i += 1
                if P.recs[b['r']].get('f'):
                    tmp = self.new('temp', 'base', b['t'])
                    self.init_at(a, tmp, b['t'])
                    bv = self.get(tmp.loc)
                    cur = self.get(q.loc)
                    if isinstance(bv, Rec):
                        for k, v in bv.f.items():
                            cur = cur.set(k, v)
                    self.put(q.loc, cur)
        for f in rec.get('f', []):
            if i < len(args):
                key = (t['r'], f['n'])
                self.init_at(args[i], Ptr(Loc(q.loc.root, q.loc.path + (('f', key),))), f['t'])
                i += 1

    # ---- expressions ---------------------------------------------------------------------------------------------------
    def rv(self, e):
        """value of e (loading lvalues)"""
        v = self.ev(e)
        if e.get('lv'):
            return self.load(v, e['t'])
        return v

    def ev(self, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('steps')
        if 'cv' in e and not e.get('lv'):
            v = int(e['cv'])
            return bool(v) if self.P.ty(e['t'])['k'] == 'bool' else v
        return getattr(self, 'e_' + e['k'], self.e_unknown)(e)

    def e_unknown(self, e):
        self.taint('expression ' + e['k'] + ' ' + str(e.get('cls', '')))
        return self.mk_sym(e['t'], ('unk', e['k'], tuple(e['l'])), False) if self.P.ty(e['t'])['k'] != 'void' else None

    def ftoi(self, v, to, tt):
        lo, hi = (-(1 << (tt['w'] - 1)), (1 << (tt['w'] - 1)) - 1) if tt['s'] else (0, (1 << tt['w']) - 1)
        ok, bad = flt.to_int(self, v, lo, hi)
        where = self.where()
        if self.quiet == 0:
            self.obl.setdefault(('float-conversion', where), [0, 0])[0 if ok else 1] += 1
            if ok is not True:
                self.findings.setdefault(('float-conversion', where), Finding('float-conversion', where, f'{bad} is converted to an integer type that cannot hold it', list(self.st.trail), dict(self.st.taint), set() if ok is False else {'not bounded'}, self.stack()))
        x = flt.fval(v)
        if x is not None and ok:
            return int(x)
        if x is not None:
            raise PathDead()
        return self.mk_sym(to, ('ftoi', v, tt['w'], tt['s']))

    def e_int(self, e):
        v = int(e['v'])
        return bool(v) if self.P.ty(e['t'])['k'] == 'bool' else v

    def e_flt(self, e):
        return Flt(('const', e['v']))

    def e_null(self, e):
        return NULL

    def e_str(self, e):
        b = bytes.fromhex(e['hex'])
        o = Obj('lit', 'literal ' + repr(b[:24]), b, e['t'])
        if o not in self.st.store:
            self.st.store[o] = Seq([('lit', b + b'\0')], self.P.ty(e['t'])['of'], 'array')
        return Ptr(Loc(o, ()))

    def e_this(self, e):
        return self.frames[-1].this

    def e_full(self, e):
        self.temps.append([])
        try:
            return self.ev(e['e'])
        finally:
            for t in self.temps.pop():
                self.kill(t)

    def e_mat(self, e):
        ie = e['e']
        q = self.new('temp', 'temporary', ie['t'])
        if not e.get('ext'):
            self.temps[-1].append(q)
        self.init_at(ie, q, ie['t'])
        return q

    def e_ref(self, e):
        d = e['d']
        for fr in reversed(self.frames[-1:]):
            if d in fr.env:
                return fr.env[d]
        v = self.P.vars[d]
        if v['st'] in ('global', 'smember', 'slocal'):
            return self.static(d)
        # structured-binding helper / enclosing frame (e.g. constexpr local used in lambda without capture)
        for fr in reversed(self.frames):
            if d in fr.env:
                return fr.env[d]
        if v.get('apv') is not None:
            return self.static(d)
        self.taint('unbound variable ' + v['n'])
        q = self.new('local', v['n'], v['t'], self.mk_sym(v['t'], ('unbound', v['n']), False))
        self.frames[-1].env[d] = q
        return q

    def static(self, d):
        v = self.P.vars[d]
        o = Obj('static', v['q'], d, v['t'])
        if o not in self.st.store:
            self.st.store[o] = self.models.static_value(self, v, o)
        q = Ptr(Loc(o, ()))
        if self.P.ty(v['t'])['k'] == 'ref':
            x = self.st.store[o]
            return x if isinstance(x, Ptr) else q
        return q

    def e_fref(self, e):
        return FRef(e['f'])

    def e_bind(self, e):
        base = None
        for fr in reversed(self.frames):
            if e['d'] in fr.env:
                base = fr.env[e['d']]
                break
        if base is None:
            self.taint('binding')
            return self.new('local', e['n'], e['t'], self.mk_sym(e['t'], ('bind', e['n']), False))
        t = self.loc_tid(base.loc) if not base.content else None
        if t is not None and self.P.ty(t)['k'] == 'arr':
            return Ptr(base.loc, e['i'] * (self.P.size(self.P.ty(t)['of']) or 1), True)
        if t is not None and self.P.rid(t) is not None and self.P.recs[self.P.rid(t)]['name'] == 'std::array':
            return Ptr(base.loc, e['i'] * self.es_of(self.elem_tid(t)), True)
        if 'f' in e and t is not None and self.P.rid(t) is not None:
            key = self.find_field(self.P.rid(t), e['f'])
            if key and self.P.recs[self.P.rid(t)]['name'] != 'std::pair':
                q = Ptr(Loc(base.loc.root, base.loc.path + (('f', key),)))
                return q
        q = Ptr(Loc(base.loc.root, base.loc.path + (('f', e['i']),)))
        v = self.get(q.loc)
        if isinstance(v, Ptr) and (e.get('lv') and self.P.ty(e['t'])['k'] != 'ptr' or base.loc.root.name == 'map-entry' and e['i'] == 1):
            return v
        return q

    def e_mem(self, e):
        b = self.ev(e['o'])
        if not e.get('ar') and not e['o'].get('lv'):
            b = self.temp(b, e['o']['t'])
        if not isinstance(b, Ptr):
            self.taint('member of non-pointer')
            return self.new('temp', e['f'], e['t'], self.mk_sym(e['t'], ('mem', str(b), e['f']), False))
        return self.member(b, e['r'], e['f'])

    def member(self, b, rid, fname):
        P = self.P
        if b.loc is None:
            self.oblige('null-deref', False, 'member ' + fname)
            raise PathDead()
        rec = P.recs[rid]
        key = (rid, fname)
        if rec.get('union'):
            return Ptr(b.loc, b.off, True)
        if b.content:
            b2 = self.norm(b)
            if not b2.content:
                b = b2
            else:
                off = next((f['off'] for f in rec['f'] if f['n'] == fname), 0)
                return Ptr(b.loc, add(b.off, off), True)
        if rec['name'] == 'std::pair' and fname in ('first', 'second'):
            key = 0 if fname == 'first' else 1
            p = Ptr(Loc(b.loc.root, b.loc.path + (('f', key),)))
            if b.loc.root.name == 'map-entry':
                v = self.get(p.loc)
                if isinstance(v, Ptr) and key == 1:
                    return v
            return p
        p = Ptr(Loc(b.loc.root, b.loc.path + (('f', key),)))
        ft = P.field_type(key)
        if ft is not None and P.ty(ft)['k'] == 'ref':
            v = self.get(p.loc)
            if isinstance(v, Ptr):
                return v
            o = Obj('opaque', ('ref', p.loc), 0, P.strip(ft))
            return Ptr(Loc(o, ()))
        return p

    def e_sub(self, e):
        a, b = self.ev(e['a']), self.ev(e['b'])
        if isinstance(b, Ptr) and not isinstance(a, Ptr):
            a, b = b, a
        return self.padd(a, b, e['t'])

    def padd(self, p, n, ety, sign=1):
        es = self.P.size(self.P.strip(ety)) or 1
        if isinstance(n, (bool, Cond)):
            n = self.toint(n)
        if not isinstance(p, Ptr) or not isnum(n):
            self.taint('pointer arithmetic')
            return p
        if not p.content and p.loc is not None:
            # a pointer that came from &container[i] was already normalised to an element location
            if p.loc.path and p.loc.path[-1][0] == 'e' and p.off == 0:
                idx = p.loc.path[-1][1]
                return Ptr(Loc(p.loc.root, p.loc.path[:-1]), mulc(add(idx, n, sign), es), True)
        return Ptr(p.loc, add(p.off, mulc(n, es), sign), p.content)

    def e_un(self, e):
        op = e['op']
        if op == '&':
            v = self.ev(e['e'])
            if e['e']['k'] == 'fref':
                return v
            return v
        if op == '*':
            v = self.ev(e['e'])
            if isinstance(v, FRef):
                return v
            if not isinstance(v, Ptr):
                self.taint('deref of ' + type(v).__name__)
                return self.new('temp', 'deref', e['t'], self.mk_sym(e['t'], ('deref', str(v)), False))
            return self.norm(v)
        if op in ('++', '--'):
            p = self.ev(e['e'])
            t = e['e']['t']
            old = self.load(p, t)
            if isinstance(old, Ptr):
                new = self.padd(old, 1, self.P.ty(self.P.strip(t))['to'], 1 if op == '++' else -1)
            elif isinstance(old, (bool, Cond)):
                new = True
            else:
                tt = self.P.strip(t)
                w, s = self.rng(tt)
                if isnum(old) and w < 32:
                    # promoted to int, then converted back
                    r = add(old, 1, 1 if op == '++' else -1)
                    new = self.reint(r, tt, tt)
                else:
                    new = self.arith('+' if op == '++' else '-', old, 1, tt)
            self.write(p, t, new)
            return old if e.get('post') else p
        v = self.rv(e['e'])
        if op == '!':
            if isinstance(v, (bool, Cond)):
                return c_not(v)
            return c_not(self.tobool(v))
        v = self.toint(v)
        if op == '-':
            if isnum(v):
                return self.fit(mulc(v, -1) if not isinstance(v, int) else -v, e['t'], 'negation')
            if isinstance(v, Flt):
                return Flt(('neg', v))
        if op == '+':
            return v
        if op == '~' and isnum(v):
            w, s = self.rng(e['t'])
            return sub(-1, v) if s else sub((1 << w) - 1, v)
        return self.e_unknown(e)

    def tobool(self, v):
        if isinstance(v, (bool, Cond)):
            return v
        if isnum(v):
            return c_not(c_eq(v))
        if isinstance(v, Ptr):
            if v.loc is None:
                return False
            if v.loc.root.kind == 'opaque' and not v.loc.path:
                return c_not(atom(('null', v.loc)))
            return True
        if isinstance(v, Opt):
            return v.has
        if isinstance(v, Fn):
            if v.t is None:
                return False
            if isinstance(v.t, (Clo, FRef)):
                return True
            return atom(('callable', v.t))
        if isinstance(v, SP):
            return v.ptr is not None
        if isinstance(v, Flt):
            return self.compare('!=', v, Flt(('const', 0.0)))
        return atom(('truth', v))

    CMP = {'<', '<=', '>', '>=', '==', '!='}

    def compare(self, op, a, b):
        if isinstance(a, Flt) or isinstance(b, Flt):
            x, y = flt.fval(a), flt.fval(b)
            if x is not None and y is not None:
                return flt.cmp(op, x, y)
            if op == '!=':
                return c_not(atom(('cmp', '==', a, b)))
            return atom(('cmp', op, a, b))
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)) and op in ('==', '!='):
            if isinstance(a, bool) or isinstance(b, bool):
                x, y = (a, b) if isinstance(a, bool) else (b, a)
                r = y if x else c_not(y)
                return r if op == '==' else c_not(r)
        if isinstance(a, (bool, Cond)):
            a = self.toint(a)
        if isinstance(b, (bool, Cond)):
            b = self.toint(b)
        if isnum(a) and isnum(b):
            d = sub(a, b)
            return {'<': lambda: c_ge(sub(-1, d)), '<=': lambda: c_ge(sub(0, d)), '>': lambda: c_ge(sub(d, 1)), '>=': lambda: c_ge(d),
                    '==': lambda: c_eq(d), '!=': lambda: c_not(c_eq(d))}[op]()
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op in ('==', '!='):
                r = self.ptr_eq(a, b)
                return r if op == '==' else c_not(r)
            if a.loc == b.loc:
                return self.compare(op, a.off, b.off)
        if op in ('==', '!='):
            r = self.val_eq(a, b)
            return r if op == '==' else c_not(r)
        return atom(('cmp', op, a, b))

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.tobool(self.rv(e['a']))
            self.cur = e['l']
            if not self.truth(a):
                return False
            return self.tobool(self.rv(e['b']))
        if op == '||':
            a = self.tobool(self.rv(e['a']))
            self.cur = e['l']
            if self.truth(a):
                return True
            return self.tobool(self.rv(e['b']))
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a, b = self.rv(e['a']), self.rv(e['b'])
        self.cur = e['l']
        if op in self.CMP:
            return self.compare(op, a, b)
        if op == '<=>':
            return Opq(('spaceship', a, b))
        ta = self.P.ty(e['a']['t'])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-':
            es = self.P.size(self.P.ty(self.P.strip(e['a']['t']))['to']) or 1
            if a.loc == b.loc and a.content == b.content:
                d = sub(a.off, b.off)
                return num.div(d, es, self.bnd)
            self.taint('pointer difference')
            return self.mk_sym(e['t'], ('pdiff', a, b), False)
        if isinstance(a, Ptr) and op in '+-':
            return self.padd(a, b, self.P.ty(self.P.strip(e['a']['t']))['to'], 1 if op == '+' else -1)
        if isinstance(b, Ptr) and op == '+':
            return self.padd(b, a, self.P.ty(self.P.strip(e['b']['t']))['to'])
        if self.P.ty(e['t'])['k'] == 'flt':
            return Flt((op, a, b))
        return self.arith(op, a, b, e['t'])

    def e_asg(self, e):
        op = e['op']
        if op == '=':
            t = self.P.ty(self.P.strip(e['a']['t']))
            v = self.rv(e['b'])
            p = self.ev(e['a'])
            self.cur = e['l']
            self.write(p, e['a']['t'], v)
            return p
        b = self.rv(e['b'])
        p = self.ev(e['a'])
        self.cur = e['l']
        a = self.load(p, e['a']['t'])
        o = op[:-1]
        if isinstance(a, Ptr):
            v = self.padd(a, b, self.P.ty(self.P.strip(e['a']['t']))['to'], 1 if o == '+' else -1)
        elif self.P.ty(self.P.strip(e['ct']))['k'] == 'flt' or isinstance(a, Flt):
            v = Flt((o, a, b))
        else:
            a2 = self.convert(a, e['a']['t'], e['ct'])
            v = self.convert(self.arith(o, a2, b, e['ct']), e['ct'], self.P.strip(e['a']['t']))
            if self.P.ty(self.P.strip(e['a']['t']))['k'] == 'bool':
                v = self.tobool(v)
        self.write(p, e['a']['t'], v)
        return p

    def convert(self, v, frm, to):
        """integral conversion"""
        P = self.P
        tt = P.ty(P.strip(to))
        if tt['k'] == 'bool':
            return self.tobool(v)
        if tt['k'] == 'flt':
            if isinstance(v, (bool, Cond)):
                v = self.toint(v)
            return v if isinstance(v, Flt) else Flt(('itof', v))
        if tt['k'] not in ('int', 'enum'):
            return v
        if isinstance(v, (bool, Cond)):
            return self.toint(v)
        if isinstance(v, Flt):
            return self.ftoi(v, to, tt)
        if not isnum(v):
            return v
        w, s = tt['w'], bool(tt['s'])
        lo, hi = num.interval(v, self.bnd)
        a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if lo is not None and hi is not None and lo >= a and hi <= b:
            return v
        if self.entails_ge(sub(v, a)) and self.entails_ge(sub(b, v)):
            return v
        if 'narrow' in self.track and not isinstance(v, int) and w < 64:
            self.track['narrow'](self, v, frm, to)
        if not s and self.below(v, w):
            return v
        return num.wrap(v, w, s, self.bnd)

    def e_cast(self, e):
        ck = e['ck']
        ie = e['e']
        P = self.P
        if ck == 'LValueToRValue':
            p = self.ev(ie)
            self.cur = e['l']
            if not isinstance(p, Ptr):
                return p
            return self.load(p, e['t'])
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'AtomicToNonAtomic'):
            v = self.ev(ie)
            if isinstance(v, FRef):
                return v
            if bool(ie.get('lv')) and not e.get('lv'):
                return self.load(v, e['t'])
            if e.get('lv') and not ie.get('lv'):
                return self.temp(v, ie['t'])
            return v
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            v = self.ev(ie)
            if isinstance(v, Ptr):
                return v
            return v
        if ck in ('BitCast', 'LValueBitCast', 'AddressSpaceConversion'):
            return self.ev(ie)
        if ck == 'ArrayToPointerDecay':
            p = self.ev(ie)
            if isinstance(p, Ptr) and not ie.get('lv'):
                return p
            if isinstance(p, Ptr):
                if p.content:
                    return p
                return Ptr(p.loc, p.off, True)
            q = self.temp(p, ie['t'])
            return Ptr(q.loc, 0, True)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean', 'FloatingToBoolean'):
            v = self.rv(ie)
            self.cur = e['l']
            return self.convert(v, ie['t'], e['t'])
        if ck == 'FloatingCast':
            v = self.rv(ie)
            if P.ty(ie['t'])['w'] <= P.ty(e['t'])['w']:
                return v
            return Flt(('narrow', v, P.ty(e['t'])['w']))
        if ck == 'PointerToBoolean':
            return self.tobool(self.rv(ie))
        if ck == 'NullToPointer':
            self.ev(ie)
            return NULL
        if ck == 'ToVoid':
            self.ev(ie)
            return None
        if ck in ('PointerToIntegral',):
            v = self.rv(ie)
            return self.mk_sym(e['t'], ('addr', v))
        v = self.ev(ie)
        self.taint('cast ' + ck)
        return self.mk_sym(e['t'], ('cast', ck, tuple(e['l'])), False) if P.ty(e['t'])['k'] != 'void' else None

    def e_cond(self, e):
        c = self.tobool(self.rv(e['c']))
        self.cur = e['l']
        return self.ev(e['a'] if self.truth(c) else e['b'])

    def e_zero(self, e):
        return self.zero(e['t'])

    def e_init(self, e):
        t = self.P.ty(e['t'])
        if t['k'] in ('rec', 'arr'):
            q = self.new('temp', 'aggregate', e['t'])
            self.aggregate(e, q)
            return self.get(q.loc)
        if not e['a']:
            return self.zero(e['t'])
        return self.rv(e['a'][0]) if not e.get('lv') else self.ev(e['a'][0])

    def e_ctor(self, e):
        q = self.new('temp', 'object', e['t'])
        self.construct(e, q)
        return self.get(q.loc)

    def e_ilist(self, e):
        q = self.new('temp', 'initializer_list', e['e']['t'])
        self.temps[-1].append(q)
        ie = e['e']
        while ie['k'] in ('mat', 'full') or (ie['k'] == 'cast' and ie['ck'] == 'NoOp'):
            ie = ie['e']
        self.init_at(ie, q, ie['t'])
        s = self.get(q.loc)
        return View(Ptr(q.loc, 0, True), s.len() if isinstance(s, Seq) else 0)

    def e_arrcopy(self, e):
        v = self.ev(e['e'])
        return self.load(v, e['t']) if isinstance(v, Ptr) else v

    def e_srcloc(self, e):
        return Opq('srcloc')

    def e_new(self, e):
        q = self.new('heap', 'new', e['nt'])
        if 'e' in e and e['e']:
            self.init_at(e['e'], q, e['nt'])
        else:
            self.put(q.loc, self.mk_uninit(e['nt']))
        return q

    def e_delete(self, e):
        v = self.rv(e['e'])
        if isinstance(v, Ptr) and v.loc:
            self.kill(v)
        return None

    def e_lambda(self, e):
        caps = []
        this = None
        fr = self.frames[-1]
        for c in e['caps']:
            if c.get('this'):
                this = fr.this
                if c.get('star'):
                    v = self.get(fr.this.loc)
                    this = self.new('heap', 'captured *this', fr.this.loc.root.tid, v)
                continue
            if 'd' not in c:
                continue
            d = c['d']
            if c['ref'] and not c.get('ic'):
                src = fr.env.get(d)
                if src is None:
                    src = self.ev(c['e']) if c.get('e') and c['e'].get('lv') else self.e_ref({'d': d})
                caps.append((d, 'ref', src))
            elif c['ref']:
                caps.append((d, 'ref', self.ev(c['e'])))
            else:
                if c.get('e'):
                    q = self.new('temp', 'capture', c['e']['t'])
                    self.init_at(c['e'], q, c['e']['t'])
                    caps.append((d, 'val', self.get(q.loc)))
                else:
                    caps.append((d, 'val', self.load(fr.env[d], self.P.vars[d]['t'])))
        return Clo(e['r'], tuple(caps), this)

    def e_throw(self, e):
        if 'e' not in e:
            cur = self.track.get('caught')
            raise Throw(cur.tname if cur else 'rethrow', cur.v if cur else None, self.P.loc(e['l']), cur.rid if cur else None)
        ie = e['e']
        tname = self.P.recname(ie['t']) or self.P.ty(ie['t'])['n']
        q = self.new('heap', 'exception', ie['t'])
        self.init_at(ie, q, ie['t'])
        self.cur = e['l']
        raise Throw(tname, q, self.P.loc(e['l']), self.P.rid(ie['t']))

    def e_call(self, e):
        P = self.P
        f = e.get('f')
        self.cur = e['l']
        if f is None:
            t = self.rv(e['fn'])
            args = []
            for a in e['a']:
                v = self.ev(a)
                args.append((v, bool(a.get('lv'))))
            self.cur = e['l']
            r = self.invoke(t, args)
            return r
        name = f['n']
        h = self.summaries.get(name)
        if h is not None:
            r = h(self, e)
            if r is not NotImplemented:
                return r
        if 'f' in f and 'body' in P.funcs[f['f']]:
            fn = P.funcs[f['f']]
            this = None
            clo = None
            if 'o' in e:
                o = self.ev(e['o'])
                if not e.get('ar') and not e['o'].get('lv'):
                    o = self.temp(o, e['o']['t'])
                if isinstance(o, Ptr):
                    o = self.norm(o)
                if fn.get('lambda'):
                    c = self.get(o.loc) if isinstance(o, Ptr) else o
                    if isinstance(c, Clo):
                        clo = c
                    else:
                        self.taint('call of unknown closure')
                        return self.mk_sym(e['t'], ('ret', name, tuple(e['l'])), False)
                else:
                    this = o
                    if this.loc is None:
                        self.oblige('null-deref', False, 'call of ' + name)
                        raise PathDead()
            args = self.bind_args(fn, e['a'])
            self.cur = e['l']
            if this is not None and this.loc is not None and this.loc.root in self.st.dead:
                self.fail('dangling', f'member call {name} on destroyed {this.loc.root.name}')
            if clo is not None and not fn.get('lambda'):
                clo = None
            if fn['n'] == 'operator=' and fn.get('def') and this is not None and P.recs[fn['r']].get('union'):
                self.functions.add(fn['id'])
                v = self.get(args[0].loc)
                if this.content:
                    self.put(this.loc, v) if this.off == 0 else self.taint('union assignment inside an object')
                else:
                    self.put(this.loc, v)
                return this
            r = self.call(fn, this, args, clo)
            return r
        r = self.models.call(self, e, name)
        return r

    # ---- statements ----------------------------------------------------------------------------------------------------
    def exec(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('steps')
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time')
        getattr(self, 's_' + s['k'], self.s_unknown)(s)

    def s_unknown(self, s):
        self.taint('statement ' + s['k'])

    def s_null(self, s):
        pass

    def s_expr(self, s):
        self.temps.append([])
        try:
            self.ev(s['e'])
            for t in reversed(self.temps[-1]):
                self.destroy(t)
        finally:
            for t in self.temps.pop():
                self.kill(t)

    def s_block(self, s):
        fr = self.frames[-1]
        n = len(fr.locals)
        depth = len(self.frames)
        try:
            for x in s['b']:
                self.exec(x)
        except ReturnX as e:
            self.leave(fr, n, s.get('ret') if False else getattr(e, 'keep', None))
            raise
        except (BreakX, ContinueX):
            self.leave(fr, n)
            raise
        except Throw:
            del self.frames[depth:]
            self.leave(fr, n)
            raise
        self.leave(fr, n)

    def leave(self, fr, n, keep=None):
        """end of the lifetime of the locals declared after the first n, in reverse order"""
        gone = fr.locals[n:]
        del fr.locals[n:]
        for q in reversed(gone):
            if q is not keep:
                self.destroy(q)
            self.kill(q)

    def destroy(self, q):
        """run the library's own destructors of the object at q"""
        if q.loc is None or q.loc.path or q.loc.root.tid is None:
            return
        if q.loc.root in self.st.dead or not self.needs_dtor(q.loc.root.tid):
            return
        cur = self.cur
        self.destroy_at(q.loc, q.loc.root.tid)
        self.cur = cur

    def needs_dtor(self, tid, seen=()):
        """does destroying an object of this type run a destructor of the library?"""
        cache = self.P.__dict__.setdefault('_needs_dtor', {})
        if tid in cache:
            return cache[tid]
        rid = self.P.rid(tid) if self.P.ty(tid)['k'] == 'rec' else None
        if rid is None or rid in seen:
            return False
        rec = self.P.recs[rid]
        r = self.dtor_of(tid) is not None
        if not r and rec.get('repo'):
            r = any(self.needs_dtor(ft, seen + (rid,)) for k, ft, o, f in self.P.fields(rid))
        elif not r and rec['name'] in ('std::optional', 'std::unique_ptr'):
            ta = self.P.targs(rid)
            r = bool(ta) and 't' in ta[0] and self.needs_dtor(ta[0]['t'], seen + (rid,))
        if not seen:
            cache[tid] = r
        return r

    def destroy_at(self, loc, tid):
        """the destructor of the object at loc, then those of its members"""
        if not self.needs_dtor(tid):
            return
        rid = self.P.rid(tid)
        rec = self.P.recs[rid]
        d = self.dtor_of(tid)
        if d is not None:
            self.call(self.P.funcs[d], Ptr(loc), [])
        if rec.get('repo'):
            for k, ft, o, f in reversed(self.P.fields(rid)):
                self.destroy_at(Loc(loc.root, loc.path + (('f', k),)), ft)
        elif rec['name'] == 'std::optional':
            v = self.get(loc)
            if isinstance(v, Opt) and self.truth(v.has):
                self.destroy_at(Loc(loc.root, loc.path + (('o', None),)), self.P.targs(rid)[0]['t'])
        elif rec['name'] == 'std::unique_ptr':
            v = self.get(loc)
            if isinstance(v, SP) and v.ptr is not None and v.ptr.loc is not None and not v.ptr.content:
                self.destroy_at(v.ptr.loc, self.P.targs(rid)[0]['t'])
                self.kill(v.ptr)

    def dtor_of(self, tid):
        P = self.P
        t = P.ty(tid)
        if t['k'] != 'rec':
            return None
        rid = P.rid(tid)
        if rid is None:
            return None
        d = P.recs[rid].get('dtor')
        if isinstance(d, int) and P.funcs[d].get('repo') and 'body' in P.funcs[d]:
            return d
        return None

    def s_label(self, s):
        self.exec(s['b'])

    def s_decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d, register=True):
        v = self.P.vars[d['d']]
        fr = self.frames[-1]
        if d.get('static'):
            self.event('static-local', var=d['d'])
            q = self.static(d['d'])
            fr.env[d['d']] = q
            return q
        t = self.P.ty(v['t'])
        if t['k'] == 'ref':
            p = self.ev(d['init'])
            if isinstance(p, Ptr):
                p = self.norm(p)
            else:
                p = self.new('local', v['n'], self.P.strip(v['t']), p)
            fr.env[d['d']] = p
            return p
        q = self.new('local', v['n'] or 'binding', v['t'])
        if 'init' in d and d['init']:
            self.init_at(d['init'], q, v['t'])
        else:
            self.put(q.loc, self.mk_uninit(v['t'], v['n']))
        fr.env[d['d']] = q
        fr.locals.append(q)
        return q

    def cond_of(self, s):
        if s.get('v'):
            self.declare(s['v'])
        self.temps.append([])
        try:
            c = self.tobool(self.rv(s['c']))
        finally:
            for t in self.temps.pop():
                self.kill(t)
        self.cur = s['c'].get('l', s['l'])
        return c

    def s_if(self, s):
        if s.get('i'):
            self.exec(s['i'])
        c = self.cond_of(s)
        if self.truth(c):
            self.exec(s['a'])
        elif s.get('b'):
            self.exec(s['b'])

    def s_switch(self, s):
        if s.get('i'):
            self.exec(s['i'])
        if s.get('v'):
            self.declare(s['v'])
        v = self.rv(s['c'])
        v = self.toint(v)
        lst, labels, default = [], [], None
        def flat(x):
            nonlocal default
            while x and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    labels.append((int(x['v']), int(x.get('v2', x['v'])), len(lst)))
                else:
                    default = len(lst)
                x = x['b']
            lst.append(x)
        body = s['b']
        for x in (body['b'] if body['k'] == 'block' else [body]):
            flat(x)
        target = None
        self.cur = s['l']
        if isnum(v):
            for a, b, i in labels:
                c = c_eq(sub(v, a)) if a == b else c_and(c_ge(sub(v, a)), c_ge(sub(b, v)))
                if self.truth(c):
                    target = i
                    break
        else:
            k = self.choose(len(labels) + 1)
            target = labels[k][2] if k < len(labels) else None
            if v != UNINIT:
                pass
        if target is None:
            target = default
        if target is None:
            return
        try:
            for x in lst[target:]:
                self.exec(x)
        except BreakX:
            pass

    def s_case(self, s):
        self.exec(s['b'])

    s_default = s_case

    def s_break(self, s):
        raise BreakX()

    def s_continue(self, s):
        raise ContinueX()

    def s_return(self, s):
        if 'e' not in s or s['e'] is None:
            raise ReturnX(None)
        e = s['e']
        f = self.frames[-1].func
        rt = self.P.ty(f['rt'])
        self.cur = s['l']
        if rt['k'] == 'ref':
            v = self.ev(e)
            if isinstance(v, Ptr):
                v = self.norm(v)
            raise ReturnX(v)
        if rt['k'] == 'void':
            self.temps.append([])
            self.ev(e)
            for t in self.temps.pop():
                self.kill(t)
            raise ReturnX(None)
        self.temps.append([])
        keep = None
        try:
            if rt['k'] in ('rec', 'arr'):
                q = self.new('local', 'result', f['rt'])
                self.init_at(e, q, f['rt'])
                v = self.get(q.loc)
                x = e
                while x['k'] in ('full', 'ctor', 'mat', 'bind', 'cast') and (x.get('e') or len(x.get('a') or ()) == 1):
                    x = x.get('e') or x['a'][0]
                if x['k'] == 'ref':
                    keep = self.frames[-1].env.get(x.get('d'))      # the returned local itself is not destroyed
            else:
                v = self.rv(e)
        finally:
            for t in self.temps.pop():
                self.kill(t)
        x = ReturnX(v)
        x.keep = keep
        raise x

    def derives(self, tname, rid, catch_tid):
        P = self.P
        cn = P.recname(catch_tid)
        if cn is None:
            return P.ty(P.strip(catch_tid))['n'] == tname
        names = set()
        if rid is not None:
            st = [rid]
            while st:
                r = st.pop()
                names.add(P.recs[r]['name'])
                for b in P.recs[r].get('b', []):
                    st.append(b['r'])
        names.add(tname)
        for n in list(names):
            while n in STD_BASES:
                n = STD_BASES[n]
                names.add(n)
        return cn in names

    def s_try(self, s):
        depth = len(self.frames)
        try:
            nl = len(self.frames[-1].locals)
            tl = len(self.temps)
            self.exec(s['b'])
        except Throw as t:
            del self.frames[depth:]
            del self.temps[tl:]
            self.leave(self.frames[-1], nl)
            for h in s['h'] if t.tname != 'std::terminate' else ():
                if 't' not in h or self.derives(t.tname, t.rid, h['t']):
                    self.event('caught', tname=t.tname, thrown=t.where, handler=self.P.loc(h['l']))
                    if 'd' in h:
                        v = t.v if isinstance(t.v, Ptr) else self.new('caught', 'exception', self.P.strip(h['t']), self.models.exc_value(self, t))
                        self.frames[-1].env[h['d']] = v
                    old = self.track.get('caught')
                    self.track['caught'] = t
                    try:
                        self.exec(h['b'])
                    finally:
                        self.track['caught'] = old
                    return
            raise

    # ---- loops -----------------------------------------------------------------------------------------------------------
    def s_while(self, s):
        self.loop(s, lambda: self.cond_of(s), lambda: self.exec(s['b']), lambda: None)

    def s_for(self, s):
        fr = self.frames[-1]
        n = len(fr.locals)
        if s.get('i'):
            self.exec(s['i'])
        self.loop(s, (lambda: self.cond_of(s)) if s.get('c') else (lambda: True), lambda: self.exec(s['b']), lambda: self.ev(s['n']) if s.get('n') else None)
        self.leave(fr, n)

    def s_do(self, s):
        first = [True]
        # body; while(c) body  -- unrolled once, then an ordinary while
        try:
            self.exec(s['b'])
        except ContinueX:
            pass
        except BreakX:
            return
        self.loop(s, lambda: self.cond_of(s), lambda: self.exec(s['b']), lambda: None)

    def s_rfor(self, s):
        if s.get('i'):
            self.exec(s['i'])
        fr = self.frames[-1]
        nl = len(fr.locals)
        self.temps.append([])      # the range temporary lives until the end of the loop
        try:
            re = s['r']
            while re['k'] == 'full':
                re = re['e']
            r = self.ev(re)
            t = re['t']
            if not re.get('lv'):
                r = self.temp(r, t, 'range')
            v = self.get(r.loc) if isinstance(r, Ptr) and not r.content else None
            d = s['v']
            var = self.P.vars[d['d']]
            items = self.models.map_items(v)
            if items is not None:
                for k, p in items:
                    fr.env[d['d']] = self.new('local', 'map-entry', None, Rec('std::pair', {0: k, 1: p}))
                    try:
                        self.exec(s['b'])
                    except ContinueX:
                        pass
                    except BreakX:
                        break
                self.leave(fr, nl)
                return
            base, n, ety = self.models.range_of(self, r, v, t)
            isref = self.P.ty(var['t'])['k'] == 'ref'
            idx = self.new('local', 'range-index', self.models.size_t(self), 0)
            es = self.es_of(ety)
            def cond():
                return c_not(c_eq(sub(self.get(idx.loc), n)))
            def body():
                i = self.get(idx.loc)
                if base is None:
                    q = self.temp(self.mk_sym(ety if ety is not None else var['t'], ('rangeelem', str(t), i), False), ety if ety is not None else self.P.strip(var['t']))
                else:
                    q = self.norm(Ptr(base.loc, add(base.off, mulc(i, es)), True))
                if isref:
                    fr.env[d['d']] = q
                else:
                    loc = self.new('local', var['n'], var['t'])
                    # by value: convert through the declared initialiser's type
                    val = self.load(q, self.P.strip(var['t']) if ety is None else ety)
                    val = self.convert(val, ety, var['t']) if ety is not None and self.P.ty(var['t'])['k'] in ('int', 'enum', 'bool', 'flt') else val
                    val = self.models.range_convert(self, val, q, ety, var['t'])
                    self.put(loc.loc, val)
                    fr.env[d['d']] = loc
                self.exec(s['b'])
            def inc():
                self.put(idx.loc, add(self.get(idx.loc), 1))
            if isinstance(n, Lin):
                self.assume(c_ge(n))
            self.loop(s, cond, body, inc, rng=(idx, n))
        finally:
            for tq in self.temps.pop():
                self.kill(tq)
        self.leave(fr, nl)

    def loop(self, node, cond, body, inc, rng=None):
        fr = self.frames[-1]
        it = 0
        limit = self.looplimit
        forked = 0
        while True:
            saved, senv, slocs, spos, spre = self.st.copy(), dict(fr.env), list(fr.locals), self.pos, list(self.prefix)
            definite = True
            budget_ok = forked < self.unroll
            self.nofork += 0 if budget_ok else 1
            p0 = self.pos
            try:
                c = self.truth(cond())
            except Indefinite:
                definite = False
            finally:
                self.nofork -= 0 if budget_ok else 1
            if definite:
                if self.pos != p0:
                    forked += 1
                if not c:
                    return
                it += 1
                if it > limit:
                    raise Budget('loop iterations')
                try:
                    body()
                except BreakX:
                    return
                except ContinueX:
                    pass
                inc()
                continue
            self.st, fr.env, fr.locals, self.pos, self.prefix = saved, senv, slocs, spos, spre
            break
        if self.nofork:
            raise Indefinite()
        # generalise
        plan = self.loop_plan(node, cond, body, inc, rng)
        self.event('loop', node=node['l'], plan=plan)
        if self.choose(2) == 0:
            self.assume_c(cond(), False)
            return
        self.apply_plan(plan)
        self.assume_c(cond(), True)
        try:
            body()
        except BreakX:
            return
        except ContinueX:
            pass
        inc()
        self.assume_c(cond(), False)

    def assume_c(self, c, val):
        if isinstance(c, bool):
            if c != val:
                raise PathDead()
            return
        d = self.decide(c)
        if d is not None:
            if d != val:
                raise PathDead()
            return
        self.st.trail.append((self.where(), c, val))
        self.assume(c, val)

    def leaves(self, a, b, loc, out):
        if a is b or a == b:
            return
        if isinstance(a, Rec) and isinstance(b, Rec) and a.rn == b.rn:
            for k in set(a.f) | set(b.f):
                self.leaves(a.f.get(k, UNINIT), b.f.get(k, UNINIT), Loc(loc.root, loc.path + (('f', k),)), out)
            return
        out.append((loc, a, b))

    def loop_plan(self, node, cond, body, inc, rng):
        key = (node['l'][0], node['l'][1], node['l'][2], tuple(self.prefix), len(self.frames), self.frames[-1].func['id'])
        if key in self.plans:
            return self.plans[key]
        base = self.st.copy()
        uid = (node['l'][1], node['l'][2], len(self.plans))
        k = sym(('k',) + uid, 0, MAXLEN)
        plan = {'k': k, 'leaves': {}, 'uid': uid, 'rng': rng}
        self.quiet += 1
        try:
            for rnd in range(8):
                def run():
                    self.apply_plan(plan)
                    start = Start(self.st.store)
                    start.mark = len(self.st.trail)
                    self.assume_c(cond(), True)
                    mid = None
                    try:
                        body()
                    except ContinueX:
                        pass
                    inc()
                    return start
                outs = self.explore(run, base)
                ends = [o for o in outs if o.kind == 'ok']
                newp = self.refine_plan(plan, base, ends)
                plan['outs'] = outs
                plan['atomsfixed'] = True
                if newp is None:
                    break
                plan['leaves'] = newp
            else:
                plan['leaves'] = {l: ('havoc',) for l in plan['leaves']}
        finally:
            self.quiet -= 1
        # monotonicity / relational candidates for havocked integers
        self.houdini(plan, base, cond, body, inc)
        self.cond_invariants(plan, base, cond, body, inc)
        self.plans[key] = plan
        return plan

    def refine_plan(self, plan, base, ends):
        """one round of classification; None when the plan is stable"""
        leaves = dict(plan['leaves'])
        changed = False
        deltas = {}
        for o in ends:
            start = o.v
            mods = []
            for root, v in o.st.store.items():
                if root in start and root in base.store or root.kind in ('static',) and root in start:
                    self.leaves(start[root], v, Loc(root, ()), mods)
            seen = set()
            for loc, a, b in mods:
                # a leaf below an already classified one belongs to it
                anc = next((l for l in leaves if l.root == loc.root and loc.path[:len(l.path)] == l.path), None)
                if anc is not None and anc != loc:
                    a2, b2 = self.at(start, anc), self.at(o.st.store, anc)
                    loc, a, b = anc, a2, b2
                if loc in seen:
                    continue
                seen.add(loc)
                deltas.setdefault(loc, []).append((a, b, o.st))
            for l in leaves:
                if l not in seen:
                    v = self.at(start, l)
                    deltas.setdefault(l, []).append((v, v, o.st))
        nends = len(ends)
        for loc, ab in deltas.items():
            while len(ab) < nends:
                ab.append((ab[0][0], ab[0][0], None))
            if loc not in leaves:
                # drop children of this leaf
                for l in [l for l in leaves if l.root == loc.root and l.path[:len(loc.path)] == loc.path]:
                    del leaves[l]
                leaves[loc] = ('probe',)
                changed = True
                continue
            kind = leaves[loc]
            if kind[0] == 'havoc':
                continue
            new = self.classify(kind, loc, ab, plan, base)
            if new != kind:
                leaves[loc] = new
                changed = True
        return leaves if changed else None

    def at(self, store, loc):
        v = store[loc.root]
        for kk, x in loc.path:
            if kk == 'f':
                v = v.f.get(x, UNINIT) if isinstance(v, Rec) else UNINIT
            elif kk == 'e':
                v = self.seq_get(v, x)
            elif kk == 'o':
                v = v.val
        return v

    def classify(self, kind, loc, ab, plan, base):
        v0 = self.at(base.store, loc)
        tid = self.loc_tid(loc)
        if isnum(v0) and all(isnum(a) and isnum(b) for a, b, _ in ab):
            w = None
            if tid is not None and self.P.ty(tid)['k'] in ('int', 'enum'):
                w, s = self.rng(tid)
            ds = set()
            for a, b, st in ab:
                d = sub(b, a)
                if w and isinstance(d, Lin):
                    # modulo 2^w
                    r = mk(d.c, {s_: k_ for s_, k_ in d.t if k_ % (1 << w)})
                    if isinstance(r, int):
                        r %= 1 << w
                        d = r if r < (1 << (w - 1)) else r - (1 << w)
                        d = ('mod', d)
                if isinstance(d, Lin) and (any(self.volatile(x, plan) for x in d.syms())):
                    d = None
                ds.add(d)
            if len(ds) == 1:
                d = ds.pop()
                if isinstance(d, tuple):
                    if w is not None and w < 32:
                        return ('affw', d[1], w)
                    if kind[0] == 'aff' and kind[1] == d[1]:
                        return ('havoc',)   # the affine guess did not hold: a path wraps
                    return ('aff', d[1])
                if isinstance(d, int):
                    return ('aff', d) if kind[0] != 'affw' else kind
                if isinstance(d, Lin):
                    return ('affl', d)
            if kind[0] in ('aff', 'affl', 'affw'):
                return ('havoc',)
            return ('havoc',) if kind[0] == 'havoc' else ('mono', self.mono(ab)) if kind[0] == 'probe' else ('havoc',) if kind != ('mono', self.mono(ab)) else kind
        if isinstance(v0, Ptr) and v0.loc is not None and all(isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc == b.loc == v0.loc for a, b, _ in ab):
            ds = {sub(b.off, a.off) for a, b, _ in ab}
            if len(ds) == 1 and isinstance(next(iter(ds)), int):
                return ('paff', next(iter(ds)))
            return ('pmono',) if kind[0] != 'pmono' else ('pmono',)
        if isinstance(v0, Seq) and all(isinstance(a, Seq) and isinstance(b, Seq) for a, b, _ in ab):
            apps = []
            if all(x.len() == y.len() for x, y, _ in ab) and any(x.p != y.p for x, y, _ in ab):
                return ('samelen',)
            for a, b, st in ab:
                if b.p[:len(a.p)] == a.p:
                    apps.append(b.p[len(a.p):])
                elif a.p and b.p and len(b.p) >= len(a.p) and b.p[:len(a.p) - 1] == a.p[:-1] and a.p[-1][0] == 'src' and b.p[len(a.p) - 1][0] == 'src' and b.p[len(a.p) - 1][1] == a.p[-1][1] and b.p[len(a.p) - 1][2] == a.p[-1][2]:
                    apps.append((('src', a.p[-1][1], add(a.p[-1][2], a.p[-1][3]), sub(b.p[len(a.p) - 1][3], a.p[-1][3])),) + b.p[len(a.p):])
                else:
                    # same length?
                    if all(x.len() == y.len() for x, y, _ in ab):
                        return ('samelen',)
                    return ('havoc',)
            sig = tuple(sorted(set(apps), key=repr))
            if kind[0] == 'app' and kind[1] != sig:
                # template still changing (it mentions generalised symbols): accept when only the contents vary
                if len(kind) > 2 and kind[2] > 3:
                    return ('havoc',)
                return ('app', sig, (kind[2] if len(kind) > 2 else 0) + 1)
            if kind[0] == 'app':
                return kind
            return ('app', sig, 0)
        return ('havoc',)

    def volatile(self, s, plan):
        """does the symbol stand for something that changes between iterations?"""
        def mentions(x):
            if isinstance(x, Sym):
                return x is plan['k'] or mentions(x.key) or (x.div is not None and mentions(x.div[0]))
            if isinstance(x, Lin):
                return any(mentions(y) for y in x.syms())
            if isinstance(x, tuple):
                return (len(x) > 1 and x[0] == 'gen' and x[1] == plan['uid']) or any(mentions(y) for y in x)
            if isinstance(x, frozenset):
                return any(mentions(y) for y in x)
            if isinstance(x, Src):
                return mentions(x.key)
            return False
        return mentions(s)

    def mono(self, ab):
        up = down = True
        for a, b, st in ab:
            if st is None:
                continue
            saved, self.st = self.st, st
            try:
                d = sub(b, a)
                if not self.entails_ge(d):
                    up = False
                if not self.entails_ge(mulc(d, -1) if isinstance(d, Lin) else -d):
                    down = False
            finally:
                self.st = saved
        return (up, down)

    def apply_plan(self, plan):
        kk = of(plan['k'])
        for loc, kind in plan['leaves'].items():
            v0 = self.get(loc)
            tid = self.loc_tid(loc)
            g = ('gen', plan['uid'], loc)
            if kind[0] in ('aff', 'affl', 'affw') and not isnum(v0):
                self.taint('loop over a value of an unknown kind')
                self.put(loc, self.mk_sym(tid, g, False) if tid is not None else Opq(g))
            elif kind[0] == 'aff':
                v = add(v0, mulc(kk, kind[1]))
                if tid is not None and self.P.ty(tid)['k'] in ('int', 'enum'):
                    w, s = self.rng(tid)
                    self.assume_range(v, w, s)
                self.put(loc, v)
            elif kind[0] == 'affl':
                m = self.mul(kk, kind[1])
                self.put(loc, add(v0, m))
            elif kind[0] == 'affw':
                self.put(loc, num.mod(add(v0, mulc(kk, kind[1])), 1 << kind[2], self.bnd))
            elif kind[0] == 'paff':
                self.put(loc, Ptr(v0.loc, add(v0.off, mulc(kk, kind[1])), v0.content))
            elif kind[0] == 'pmono' or kind[0] == 'probe' and isinstance(v0, Ptr) and v0.loc is not None:
                self.put(loc, Ptr(v0.loc, of(sym(g, None, None, False)), v0.content))
            elif kind[0] == 'app':
                self.put(loc, self.app_value(v0, kind, plan, g))
            elif kind[0] == 'samelen':
                self.put(loc, v0.with_p([('src', Src(g, v0.ety, ('inexact',)), 0, v0.len())]))
            else:
                if isinstance(v0, Seq):
                    nv = v0.with_p([('src', Src(g, v0.ety, ('inexact',)), 0, of(sym(('len', g), 0, MAXLEN, False)))])
                elif isnum(v0):
                    if tid is not None and self.P.ty(tid)['k'] in ('int', 'enum'):
                        nv = self.mk_sym(tid, g, False)
                    else:
                        nv = of(sym(g, None, None, False))
                    if kind[0] == 'mono':
                        if kind[1][0]:
                            self.assume(c_ge(sub(nv, v0)))
                        elif kind[1][1]:
                            self.assume(c_ge(sub(v0, nv)))
                elif isinstance(v0, (bool, Cond)):
                    nv = atom(g)
                elif tid is not None and self.P.ty(tid)['k'] in ('int', 'enum', 'bool', 'flt'):
                    nv = self.mk_sym(tid, g, False)
                elif isinstance(v0, View) or (tid is not None and self.P.recname(tid) in ('std::basic_string_view', 'std::span')):
                    nv = View(v0.ptr.plus(of(sym(g + ('off',), None, None, False))) if isinstance(v0, View) and v0.ptr.loc else NULL, of(sym(g + ('n',), 0, MAXLEN, False)))
                elif tid is not None:
                    nv = self.mk_sym(tid, g, False)
                else:
                    nv = Opq(g)
                self.put(loc, nv)
        for c in plan.get('inv', ()):
            self.assume(self.inv_cond(c, plan))
        for sg in plan.get('condinv', ()):
            L = self.cond_eq(plan['cond'])
            if L is not None:
                self.assume(c_ge(mulc(L, sg)))

    def cond_eq(self, cond):
        """L when the loop runs while L != 0 and its condition has no effect"""
        s0 = self.st.copy()
        self.nofork += 1
        self.quiet += 1
        try:
            c = cond()
        except (Indefinite, PathDead, Throw):
            return None
        finally:
            self.nofork -= 1
            self.quiet -= 1
            same = self.st.store == s0.store
            self.st = s0
        if not same or not isinstance(c, Cond):
            return None
        if c.k == 'not' and isinstance(c.a[0], Cond) and c.a[0].k == 'eq':
            return c.a[0].a[0]
        return None

    def cond_invariants(self, plan, base, cond, body, inc):
        """a loop that runs while a != b: does a <= b (or a >= b) hold at its head?"""
        plan['cond'] = cond
        saved = self.st
        good = []
        self.quiet += 1
        try:
            for sg in (1, -1):
                self.st = base.copy()
                L = self.cond_eq(cond)
                if L is None:
                    return
                if self.decide(c_ge(mulc(L, sg))) is not True:
                    continue
                plan['condinv'] = good + [sg]
                bad = []
                def run():
                    self.apply_plan(plan)
                    self.assume_c(cond(), True)
                    try:
                        body()
                    except ContinueX:
                        pass
                    inc()
                    L = self.cond_eq(cond)
                    if L is None or self.decide(c_ge(mulc(L, sg))) is not True:
                        bad.append(1)
                self.explore(run, base)
                if not bad:
                    good.append(sg)
        finally:
            self.quiet -= 1
            self.st = saved
            plan['condinv'] = good

    def assume_range(self, v, w, s):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if isinstance(v, Lin):
            self.assume(c_ge(sub(v, lo)))
            self.assume(c_ge(sub(hi, v)))

    def app_value(self, v0, kind, plan, g):
        kk = of(plan['k'])
        temps = kind[1]
        if len(temps) == 1 and len(temps[0]) == 1 and temps[0][0][0] in ('el', 'lit') and (temps[0][0][0] == 'el' or len(temps[0][0][1]) == 1):
            x = temps[0][0]
            val = x[1] if x[0] == 'el' else x[1][0]
            # the element appended in iteration j is val with k replaced by the element's own index
            return v0.with_p(v0.p + (('map', plan['k'], kk, val),))
        lens = set()
        for t in temps:
            n = 0
            for x in t:
                n = add(n, plen(x))
            lens.add(n)
        if len(lens) == 1 and isinstance(next(iter(lens)), int):
            n = mulc(kk, next(iter(lens)))
        else:
            n = of(sym(('len', g, temps if False else 0), 0, MAXLEN, False))
        return v0.with_p(v0.p + (('src', Src(('appended', plan['uid'], v0.kind), v0.ety, ('inexact', ('template', temps))), 0, n),))

    # Houdini over simple relations between generalised integers, lengths and loop-invariant bounds
    def int_terms(self, plan):
        out = []
        for loc, kind in plan['leaves'].items():
            v = self.get(loc)
            if isnum(v):
                out.append((loc, 'v'))
            elif isinstance(v, Seq):
                out.append((loc, 'len'))
            elif isinstance(v, Ptr) and v.loc is not None:
                out.append((loc, 'off'))
        return out

    def term(self, t):
        if t[0] == 'const':
            return t[1]
        v = self.get(t[0])
        return v if t[1] == 'v' else v.len() if t[1] == 'len' else v.off

    def inv_cond(self, c, plan):
        a, b, rel = c[:3]
        try:
            if rel == 'ge':
                return c_ge(sub(self.term(a), self.term(b)))
            if rel == 'eq':
                return c_eq(sub(self.term(a), self.term(b)))
            if rel == 'iff':
                bv = self.get(c[3])
                e = c_eq(sub(self.term(a), self.term(b)))
                return c_or(c_and(bv, e), c_and(c_not(bv), c_not(e)))
        except (AttributeError, TypeError):
            return True
        return True

    def houdini(self, plan, base, cond, body, inc):
        saved = self.st
        self.st = base.copy()
        try:
            probe = self.st
            self.apply_plan(plan)
            gens = self.int_terms(plan)
            inexact = [g for g in gens if plan['leaves'][g[0]][0] in ('mono', 'havoc', 'pmono') or (plan['leaves'][g[0]][0] == 'app' and g[1] == 'len')]
            bools = [l for l, kd in plan['leaves'].items() if isinstance(self.get(l), Cond)]
            if not inexact and not bools:
                plan['inv'] = []
                return
            # loop-invariant bounds: integer members/variables and lengths not modified
            others = []
            for root, v in list(base.store.items()):
                if root in base.dead or root.kind in ('lit', 'static', 'temp'):
                    continue
                self.collect_terms(Loc(root, ()), v, others, plan, 0)
            others = others[:24]
            cands = []
            allt = gens + others
            for g in inexact:
                for o in allt:
                    if o == g:
                        continue
                    cands += [(g, o, 'ge'), (o, g, 'ge')]
            for b in bools:
                for i, x in enumerate(gens):
                    for y in allt:
                        if x != y and (x, y) < (y, x) if False else x != y:
                            cands.append((x, y, 'iff', b))
            cands = cands[:400]
            # hold initially
            self.st = base.copy()
            def tv(c):
                try:
                    d = self.decide(self.inv_cond(c, plan))
                except (Indefinite, PathDead):
                    d = None
                return d is True
            cands = [c for c in cands if tv(c)]
        finally:
            self.st = saved
        if not cands:
            plan['inv'] = []
            return
        self.quiet += 1
        try:
            for rnd in range(12):
                plan['inv'] = cands
                bad = set()
                def run():
                    self.apply_plan(plan)
                    self.assume_c(cond(), True)
                    try:
                        body()
                    except ContinueX:
                        pass
                    inc()
                    for i, c in enumerate(cands):
                        if i not in bad and self.decide(self.inv_cond(c, plan)) is not True:
                            bad.add(i)
                self.explore(run, base)
                if not bad:
                    break
                cands = [c for i, c in enumerate(cands) if i not in bad]
            plan['inv'] = cands if not bad else []
        finally:
            self.quiet -= 1

    def collect_terms(self, loc, v, out, plan, depth):
        if depth > 4 or any(l.root == loc.root and loc.path[:len(l.path)] == l.path for l in plan['leaves']):
            return
        if isnum(v):
            out.append((loc, 'v'))
        elif isinstance(v, Seq):
            out.append((loc, 'len'))
        elif isinstance(v, Rec):
            for k, x in v.f.items():
                self.collect_terms(Loc(loc.root, loc.path + (('f', k),)), x, out, plan, depth + 1)
