"""Canonical forms of fixed-width word expressions: sums modulo 2^w and floor quotients are linear forms already; bitwise functions
(and, or, xor, not in any combination) over the same operands are put into one symbol carrying their truth table."""
import sys
from . import num
from .num import Lin, of, sym, add, sub, mulc

MAXLEAF = 6


class Canon:
    def __init__(self, I, w=32):
        self.I, self.w, self.mask = I, w, (1 << w) - 1
        self.memo, self.smemo = {}, {}

    def bitnode(self, L):
        """the bitwise operator symbol L consists of, if any"""
        if isinstance(L, Lin) and L.c == 0 and len(L.t) == 1 and L.t[0][1] == 1:
            s = L.t[0][0]
            if s.op and s.op[0] in ('and', 'or', 'xor') and s.op[-1] == self.w:
                return s
        return None

    def leafset(self, L, acc):
        """collect the leaves (canonical expressions up to complement) of a bitwise tree"""
        s = self.bitnode(L)
        if s is None:
            n = sub(self.mask, L)
            s = self.bitnode(n)
            if s is None:
                c = self.lin(L)
                n = sub(self.mask, c)
                pos = isinstance(c, int) or self.I.ord(c) <= self.I.ord(n)
                x = c if pos else n
                if x not in acc:
                    acc.append(x)
                return ('leaf', x, not pos)
            return ('not', self.leafset(n, acc))
        ops = list(s.op[1]) if s.op[0] == 'xor' else [s.op[1], s.op[2]]
        return (s.op[0], [self.leafset(o, acc) for o in ops])

    def table(self, t, env):
        if t[0] == 'leaf':
            return env[t[1]] ^ t[2]
        if t[0] == 'not':
            return 1 - self.table(t[1], env)
        v = [self.table(x, env) for x in t[1]]
        if t[0] == 'and':
            return min(v)
        if t[0] == 'or':
            return max(v)
        return sum(v) & 1

    def symbol(self, s):
        r = self.smemo.get(s)
        if r is not None:
            return r
        if s.div:
            x, m = s.div
            r = num.div(self.lin(x), m, self.I.bnd)
        elif s.op and s.op[0] in ('and', 'or', 'xor') and s.op[-1] == self.w:
            acc = []
            t = self.leafset(of(s), acc)
            acc.sort(key=self.I.ord)
            if len(acc) > MAXLEAF:
                r = of(s)
            else:
                tab = tuple(self.table(t, {a: i >> j & 1 for j, a in enumerate(acc)}) for i in range(1 << len(acc)))
                # drop the leaves the function does not depend on
                keep = [j for j in range(len(acc)) if any(tab[i] != tab[i ^ (1 << j)] for i in range(len(tab)))]
                if len(keep) != len(acc):
                    tab = tuple(tab[sum(1 << keep[j] for j in range(len(keep)) if i >> j & 1)] for i in range(1 << len(keep)))
                    acc = [acc[j] for j in keep]
                if not acc:
                    r = self.mask if tab[0] else 0
                elif len(acc) == 1:
                    r = acc[0] if tab[1] else sub(self.mask, acc[0])
                else:
                    r = of(sym(('tt', tuple(acc), tab, self.w), 0, self.mask, op=('tt', tuple(acc), tab, self.w)))
        elif s.op and s.op[0] == 'wrap':
            x = self.lin(s.op[1])
            r = x if isinstance(x, int) else self.I.residue(x, s.op[2])
        else:
            r = of(s)
        self.smemo[s] = r
        return r

    def lin(self, L):
        if isinstance(L, int):
            return L
        r = self.memo.get(L)
        if r is None:
            r = L.c
            for s, k in L.t:
                r = add(r, mulc(self.symbol(s), k))
            self.memo[L] = r
        return r


def value(L, asg, memo):
    """the value of an expression under an assignment of its base symbols (shared subexpressions evaluated once)"""
    if isinstance(L, int):
        return L
    if L in memo:
        return memo[L]
    r = L.c
    for s, k in L.t:
        v = memo.get(s)
        if v is None:
            if s in asg:
                v = asg[s]
            elif s.div:
                v = value(s.div[0], asg, memo) // s.div[1]
            elif s.op and s.op[0] == 'and':
                v = value(s.op[1], asg, memo) & value(s.op[2], asg, memo)
            elif s.op and s.op[0] == 'or':
                v = value(s.op[1], asg, memo) | value(s.op[2], asg, memo)
            elif s.op and s.op[0] == 'xor':
                v = 0
                for p in s.op[1]:
                    v ^= value(p, asg, memo)
            elif s.op and s.op[0] == 'wrap':
                v = value(s.op[1], asg, memo) % (1 << s.op[2])
            elif s.op and s.op[0] == 'mul':
                v = value(s.op[1], asg, memo) * value(s.op[2], asg, memo)
            else:
                raise KeyError(s)
            memo[s] = v
        r += k * v
    memo[L] = r
    return r
