"""Format-string lint over the typed program.  Every call of the logging front ends (the debug object, info, warn, error) and of
std::vformat reachable in the repository is an obligation: the format argument is a compile-time literal, parses under the
std::format grammar, refers only to arguments that are passed, and each replacement field's presentation type is valid for the
type of its argument.  A failing obligation means the call throws std::format_error out of the server the first time the
corresponding log level is enabled."""
import re

MINIMUM = 15
ASSUMPTIONS = ['the printing functions forward their arguments unchanged to std::vformat (their own bodies are checked by C18)']
FRONT = {'webfront::log::info', 'webfront::log::warn', 'webfront::log::error', 'webfront::log::debug::(ctor)'}
SPEC = re.compile(r'^(?:(.)?([<>^]))?([+\- ])?(#)?(0)?(\d+|\{\d*\})?(?:\.(\d+|\{\d*\}))?(L)?([a-zA-Z?])?$', re.S)
INT = set('bBdoxXc')


def literal(P, e):
    """the bytes of a literal format expression, or None"""
    strs, other = [], []
    for n in P.walk(e):
        if n['k'] == 'str':
            strs.append(bytes.fromhex(n['hex']).decode('utf-8', 'replace'))
        elif n['k'] == 'ref':
            v = P.vars[n['d']]
            if v.get('init') is not None and (v.get('cx') or P.ty(v['t']).get('c')):
                s = literal(P, v['init'])
                if s is not None:
                    strs.append(s)
                    continue
            other.append(('param ' if v.get('st') == 'param' else '') + v['n'])
        elif n['k'] == 'call':
            other.append(n['f']['n'] if n.get('f') else 'call')
    if len(strs) == 1 and not other:
        return strs[0], []
    return None, other


def parse(fmt):
    """[(index or None, spec)] or raise ValueError"""
    out, i = [], 0
    while i < len(fmt):
        c = fmt[i]
        if c == '{':
            if fmt[i + 1:i + 2] == '{':
                i += 2
                continue
            d, j = 1, i + 1
            while j < len(fmt) and d:
                d += {'{': 1, '}': -1}.get(fmt[j], 0)
                j += 1
            if d:
                raise ValueError('unterminated replacement field')
            b = fmt[i + 1:j - 1]
            idx, _, spec = b.partition(':')
            if idx and not idx.isdigit():
                raise ValueError(f'bad argument id {idx!r}')
            out.append((int(idx) if idx else None, spec))
            i = j
        elif c == '}':
            if fmt[i + 1:i + 2] != '}':
                raise ValueError('unmatched }')
            i += 2
        else:
            i += 1
    return out


def klass(P, tid):
    t = P.ty(P.strip(tid))
    k = t['k']
    if k == 'bool':
        return 'bool'
    if k == 'int':
        return 'char' if t.get('ch') and t['n'].split()[-1] == 'char' and 'signed' not in t['n'] else 'int'
    if k == 'flt':
        return 'float'
    if k == 'ptr':
        u = P.ty(t['to'])
        return 'string' if klass(P, t['to']) == 'char' else 'ptr'
    if k in ('arr', 'array'):
        return 'string'
    if k == 'rec':
        n = P.recs[t['r']]['name']
        return 'string' if n in ('std::basic_string', 'std::basic_string_view') else 'user'
    return k


def valid(spec, kl):
    if kl == 'user':
        return True
    m = SPEC.match(spec)
    if not m:
        return False
    fill, align, sign, alt, zero, width, prec, loc, ty = m.groups()
    num = kl in ('int', 'float') or (kl in ('bool', 'char') and ty in INT - {'c'})
    if prec and kl not in ('float', 'string'):
        return False
    if (sign or alt) and not num:
        return False
    if zero and not (num or kl == 'ptr'):
        return False
    ok = {'int': INT, 'bool': INT - {'c'} | {'s'}, 'char': INT | {'?'}, 'float': set('aAeEfFgG'), 'string': set('s?'), 'ptr': set('pP')}.get(kl)
    return ok is None or ty is None or ty in ok


def run(ctx):
    P = ctx.P
    for f in P.funcs:
        if 'body' not in f or not f.get('repo') or f['q'].startswith(('wfa::',)):
            continue
        for c in P.calls(f):
            g = c.get('f')
            if not g or g['n'] not in FRONT or not c['a']:
                continue
            if g['n'].endswith('(ctor)') and (P.recname(c['t']) != 'webfront::log::debug' or c.get('cm')):
                continue
            ctx.count('logging calls')
            ctx.cover([f])
            loc = P.loc(c['l'])
            fmt, other = literal(P, c['a'][0])
            if fmt is None:
                ctx.ob('constant-format', None if not other or all(o.startswith('param ') or o.startswith('std::') for o in other) else False, loc,
                       f'{f["q"]} formats a string that is not a literal ({", ".join(other[:3])}): braces in it are replacement fields', key='fmt|' + loc.split(':')[0] + '|' + f['q'])
                continue
            args = [a for a in c['a'][1:] if not a.get('dfa')]
            try:
                fields = parse(fmt)
                why = None
            except ValueError as e:
                fields, why = [], str(e)
            if why is None:
                man = [i is not None for i, _ in fields]
                if any(man) and not all(man):
                    why = 'automatic and manual indexing are mixed'
            nxt = 0
            for i, s in fields:
                if why:
                    break
                if i is None:
                    i, nxt = nxt, nxt + 1
                for w in re.findall(r'\{(\d*)\}', s):
                    j = int(w) if w else nxt
                    nxt += 0 if w else 1
                    if j >= len(args) or klass(P, args[j]['t']) != 'int':
                        why = f'the width or precision argument {j} is not an integer'
                if i >= len(args):
                    why = f'replacement field {i} has no argument ({len(args)} passed)'
                elif not valid(s, klass(P, args[i]['t'])):
                    why = f'presentation {s!r} is not valid for argument {i} of type {P.ty(P.strip(args[i]["t"]))["k"]}'
            ctx.count('replacement fields', len(fields))
            ctx.ob('format', why is None, loc, f'{f["q"]}: "{fmt}"' + (f': {why}' if why else f' matches its {len(args)} arguments'), key=f'fmt|{f["q"]}|{fmt}')
