"""Abstract interpretation of the frame decoder over frames of concrete shape: the announced length, the form of the length field, the
mask flag, the cut into chunks and the number of bytes after the frame are enumerated, every other byte (first byte, masking key,
payload, trailing bytes) is a symbol over all its values.  On every path the frame must be reported complete by exactly the chunk that
holds its last byte; the payload is then, element by element, the expression `received xor key[position mod 4]`, the opcode is the low
half of the first byte and the excess is the number of trailing bytes.  Every access is checked against the extent of the chunk or
buffer it goes to.  Announced lengths far beyond the received bytes (up to 2^64-1) must not complete and must not read further."""
import random
from engine.run import *
from engine.bounded import evl, definite, exact_cond, elems
from engine import loops

MINIMUM = 300
ASSUMPTIONS = ['chunks are analysed for the enumerated lengths and cuts only (payloads of 0..12 bytes with every cut into two chunks and one '
               'by one, longer ones around the limits of the length forms and around every constant of the decoder); the content of all '
               'bytes is arbitrary']


def machine(P):
    I = make(P)
    I.looplimit = 1 << 20
    I.track['uninit'] = True
    I.track['alloc'] = (1 << 47) - 1        # no address space holds more: such an allocation throws
    return I


def chunk(I, f, i, els):
    ety = I.P.targs(I.P.rid(I.P.strip(f['p'][i]['t'])))[0]['t']
    o = Obj('opaque', ('chunk', i), len(els), None)
    I.st.store[o] = Seq([('el', x) for x in els], ety, 'array')
    return param(I, f, i, View(Ptr(Loc(o, ()), 0, True), len(els)))


class Frame:
    """header form and bytes of one frame"""
    def __init__(self, n, masked, form, key, lit=False):
        self.n, self.masked, self.form = n, masked, form
        self.b0 = sym((key, 'first'), 0, 255)
        self.syms = [self.b0]
        m = 128 if masked else 0
        head = [of(self.b0)] + ([m + n] if form == 0 else [m + (126 if form == 2 else 127)] + list(n.to_bytes(form, 'big')))
        self.mask = []
        if masked:
            ms = [sym((key, 'mask', i), 0, 255) for i in range(4)]
            self.syms += ms
            self.mask = [of(s) for s in ms]
        self.pay = []
        for i in range(min(n, 1 << 20)):
            if lit and not (i < 9 or i >= n - 9):
                self.pay.append((i * 37 + 11) & 255)
            else:
                s = sym((key, 'pay', i), 0, 255)
                self.syms.append(s)
                self.pay.append(of(s))
        self.head = head + self.mask
        self.bytes = self.head + self.pay

    def __str__(self):
        f = {0: '7 bit', 2: '16 bit', 8: '64 bit'}[self.form]
        return f'{"masked" if self.masked else "unmasked"} frame of {self.n} bytes ({f} length)'


def field(v, n):
    return next((x for k, x in v.f.items() if isinstance(k, tuple) and k[1] == n), None) if isinstance(v, Rec) else None


def sample(I, o, syms, rnd, tries=40):
    """assignments of the symbols the path admits"""
    cons, neqs = list(o.st.cons), list(o.st.neqs)
    doms = []
    for s in syms:
        d = o.st.dom.get(s)
        if d is None:
            l, h = o.st.b.get(s, (None, None))
            d = range(max(0, l or 0), min(255, 255 if h is None else h) + 1)
        doms.append(sorted(d))
    if not all(doms):
        return
    for k in range(tries):
        a = {s: (d[0] if k == 0 else d[-1] if k == 1 else d[rnd.randrange(len(d))]) for s, d in zip(syms, doms)}
        try:
            if all(evl(c, a) >= 0 for c in cons) and all(evl(c, a) != 0 for c in neqs):
                yield a
        except KeyError:
            return


def judge(ctx, I, outs, fr, at, excess, where, label, key, others=()):
    """at: the chunk that completes the frame (0: none)"""
    ctx.interp(I)
    for x in definite(I):
        ctx.ob('memory', False, x.where, f'{label}: {x.kind}: {x.detail}', key=f'mem|{x.kind}|{x.where}')
    rnd = random.Random(7)
    syms = fr.syms + list(others)
    for i, o in enumerate(outs):
        k = f'{key}|{i}'
        ex = exact_cond(o, syms)

        def no(rule, text, a=None):
            if a is None:
                a = next(sample(I, o, syms, rnd), None)
            ctx.ob(rule, False if ex and a is not None else None, where, f'{label}: {text}', key=f'{rule}|{k}')
        if o.kind == 'throw':
            no('complete', f'throws {o.v.tname}')
            continue
        got = field(o.v, 'at')
        if not isinstance(got, int):
            ctx.ob('complete', None, where, f'{label}: completion not resolved: {got}', key=f'complete|{k}')
            continue
        if got != at:
            no('complete', (f'reported complete by chunk {got}' if got else 'not reported complete') + (f', its last byte is in chunk {at}' if at else ', its last byte has not arrived'))
            continue
        ctx.ob('complete', True, where, f'{label}: completed by chunk {at}' if at else f'{label}: not complete', key=f'complete|{k}')
        if not at:
            continue
        x = field(o.v, 'excess')
        if x == excess:
            ctx.ob('excess', True, where, f'{label}: {excess} bytes left for the next frame', key=f'excess|{k}')
        elif isinstance(x, int):
            no('excess', f'{x} bytes are left over, {excess} expected')
        else:
            ctx.ob('excess', None, where, f'{label}: excess not resolved: {x}', key=f'excess|{k}')
        want = [fr.pay[j] if not fr.masked else I.bxor(fr.pay[j], fr.mask[j % 4], 8) for j in range(fr.n)]
        es = elems(I, o, field(o.v, 'payload'))
        ty = field(o.v, 'type')
        if es is None or not isnum(ty):
            ctx.ob('payload', None, where, f'{label}: payload or type not resolved', key=f'payload|{k}')
            continue
        if len(es) != fr.n:
            no('payload', f'payload of {len(es)} bytes')
            continue
        bad = [j for j in range(fr.n) if es[j] != want[j]]
        seen = {}
        wt = num.mod(of(fr.b0), 16, I.bnd)
        todo = [('payload', j, es[j], want[j]) for j in bad] + ([('type', 0, ty, wt)] if ty != wt else [])
        verdicts = {'payload': True, 'type': True}
        for rule, j, g, w in todo[:200]:
            r = None
            try:
                vals = 0
                for a in sample(I, o, syms, rnd):
                    vals += 1
                    if evl(g, a) & 255 != evl(w, a) & 255:
                        r = (a, evl(g, a) & 255, evl(w, a) & 255)
                        break
                else:
                    # different forms, same value on every sample: compare over all values of at most two bytes
                    r = 'same' if vals and equal_all(g, w) else None
            except KeyError:
                pass
            if r == 'same':
                continue
            if r is None:
                verdicts[rule] = None
                seen[rule] = f'element {j} is {g}, not brought to the form {w}'
                continue
            verdicts[rule] = False if ex else None
            seen[rule] = (f'byte {j} of the payload' if rule == 'payload' else 'the type') + f' is {r[1]:#x}, {r[2]:#x} expected'
            break
        for rule, v in verdicts.items():
            ctx.ob(rule, v, where, f'{label}: ' + seen.get(rule, f'{fr.n} payload bytes are those received, unmasked' if rule == 'payload' else 'opcode of the first byte'), key=f'{rule}|{k}')


def equal_all(g, w):
    from engine.bounded import bases
    bs = sorted(bases((g, w), set()) if not (isinstance(g, int) and isinstance(w, int)) else (), key=lambda s: s.id)
    if len(bs) > 2:
        return False
    from itertools import product
    try:
        return all(evl(g, dict(zip(bs, t))) & 255 == evl(w, dict(zip(bs, t))) & 255 for t in product(range(256), repeat=len(bs)))
    except KeyError:
        return False


def cut(n, cuts):
    at = [0] + list(cuts) + [n]
    return [(at[i], at[i + 1]) for i in range(len(at) - 1)]


def case(ctx, f, where, fr, cuts, trail, label, key):
    I = machine(ctx.P)
    ts = [sym(('trail', i), 0, 255) for i in range(trail)]
    tr = [of(s) for s in ts]
    all_ = fr.bytes + tr
    parts = [all_[a:b] for a, b in cut(len(all_), cuts)]
    end = len(fr.bytes)
    at, pos = 0, 0
    for i, p in enumerate(parts):
        pos += len(p)
        if pos >= end:
            at = i + 1
            break
    exc = pos - end if at else 0
    outs = explore(I, f, args=[chunk(I, f, i, p) for i, p in enumerate(parts)])
    judge(ctx, I, outs, fr, at, exc, where, label, key, ts)


def forms(n):
    return [x for x, hi in ((0, 125), (2, 65535), (8, None)) if hi is None or n <= hi]


def run(ctx):
    P = ctx.P
    deep = ctx.tier != 'quick'
    fs = func(P, 'wfa::entry_decode')
    where = next((P.loc(g['l']) for g in P.funcs if g.get('repo') and g['q'].endswith('FrameDecoder::parse') and 'body' in g), '?')
    for f in fs:
        ks = [c for c in loops.constants(P, f, 12, 70000)]
        for masked in (True, False):
            for n in range(0, 13 if deep else 8):
                for form in forms(n):
                    fr = Frame(n, masked, form, 'f')
                    L = len(fr.bytes)
                    every = n < 6 or deep
                    for c in range(1, L + 1) if every and (form == 0 or deep or n in (0, 1, 5)) else sorted({1, 2, L - 1, L, len(fr.head)}):
                        case(ctx, f, where, fr, (c, L), 0, f'{fr}, cut after {c} bytes', f'{n}|{masked}|{form}|{c}')
                    for t in (1, 3) if not deep else (1, 2, 3, 7):
                        case(ctx, f, where, fr, (L + t, L + t), t, f'{fr} followed by {t} bytes', f'{n}|{masked}|{form}|+{t}')
                        if L > 3:
                            for c in sorted({1, len(fr.head) - 1, len(fr.head), L - 1} if not deep else range(1, L)):
                                case(ctx, f, where, fr, (c, L + t), t, f'{fr} cut after {c} bytes, followed by {t} bytes', f'{n}|{masked}|{form}|{c}+{t}')
        # three chunks
        for masked, n, form in ((True, 5, 0), (True, 3, 2), (False, 4, 0)) + (((True, 9, 8), (False, 6, 2)) if deep else ()):
            fr = Frame(n, masked, form, 'f')
            L = len(fr.bytes)
            for c in range(1, L - 1):
                for d in range(c + 1, L):
                    case(ctx, f, where, fr, (c, d), 0, f'{fr}, cut after {c} and {d} bytes', f'{n}|{masked}|{form}|{c},{d}')
        # incomplete frames, also of enormous announced length
        big = (1 << 63, (1 << 63) - 1, (1 << 64) - 1, 1 << 32, (1 << 64) - 6, (1 << 64) - 14)
        for n in (1, 2, 5, 8, 125, 126, 127, 200, 65535, 65536) + big:
            for form in forms(n)[:2]:
                for masked in (True, False):
                    fr = Frame(n if n < 1000 else 0, masked, form if n < 1000 else 0, 'f')
                    if n >= 1000:
                        full = Frame.__new__(Frame)
                        fr.n, fr.form = n, form
                        m = 128 if masked else 0
                        fr.head = [of(fr.b0), m + (126 if form == 2 else 127)] + list(n.to_bytes(form, 'big')) + fr.mask
                        fr.pay = [of(sym(('f', 'pay', i), 0, 255)) for i in range(6)]
                        fr.syms += [sym(('f', 'pay', i), 0, 255) for i in range(6)]
                        fr.bytes = fr.head + fr.pay
                        lens = (len(fr.head) - 1, len(fr.head), len(fr.head) + 1, len(fr.head) + 6)
                    else:
                        lens = (1, len(fr.head) - 1, len(fr.head), len(fr.bytes) - 1)
                    for L in lens:
                        for c in sorted({L, 1, min(4, L)}):
                            I = machine(P)
                            part = fr.bytes[:L]
                            outs = explore(I, f, args=[chunk(I, f, i, part[a:b]) for i, (a, b) in enumerate(cut(L, (c, max(c, L - 1))))])
                            judge(ctx, I, outs, fr, 0, 0, where, f'{fr}, of which {L} bytes arrive', f'part|{n}|{masked}|{form}|{L}|{c}')
        # around the limits of the length forms and the decoder's own constants
        sizes = {125, 126, 127, 128, 130, 255, 256, 257, 300} | {k + d for k in ks for d in (-1, 0, 1) if k <= (1 << 13)}
        if deep:
            sizes |= {65535, 65536, 65537} | {k + d for k in ks for d in (-1, 0, 1)}
        for n in sorted(sizes):
            for form in forms(n)[:1 if n > 400 else 2]:
                fr = Frame(n, True, form, 'f', lit=n > 400)
                L = len(fr.bytes)
                for cuts, t in (((L, L), 0), ((3, L - 7), 2), ((len(fr.head) + n // 2, L), 0)) + ((((L + 2, L + 2), 2), ((L // 3, 2 * L // 3), 0)) if n < 400 else ()):
                    case(ctx, f, where, fr, cuts, t, f'{fr} cut after {cuts[0]} and {cuts[1]} bytes, followed by {t}', f'{n}|True|{form}|{cuts}|{t}')
    for f in func(P, 'wfa::entry_decode_bytes'):
        for n, masked, form in ((0, True, 0), (1, True, 0), (5, True, 0), (6, False, 0), (4, True, 2), (7, True, 8), (130, True, 2), (0, False, 8)):
            fr = Frame(n, masked, form, 'f')
            I = machine(P)
            outs = explore(I, f, args=[chunk(I, f, 0, fr.bytes)])
            judge(ctx, I, outs, fr, len(fr.bytes), 0, where, f'{fr}, byte by byte', f'bytes|{n}|{masked}|{form}')
    for f in func(P, 'wfa::entry_decode_next'):
        for n1 in (0, 1, 3, 130) if not deep else (0, 1, 2, 3, 4, 5, 6, 7, 125, 126, 130):
            for n2 in (0, 2, 5):
                for m1, m2 in ((True, True), (False, True), (True, False)):
                    a, b = Frame(n1, m1, forms(n1)[0], 'f'), Frame(n2, m2, 0, 'g')
                    L = len(b.bytes)
                    for c in range(0, L + 1) if n2 < 3 or deep else (0, 1, 5, L):
                        I = machine(P)
                        outs = explore(I, f, args=[chunk(I, f, 0, a.bytes + b.bytes[:c]), chunk(I, f, 1, b.bytes[c:])])
                        judge(ctx, I, outs, b, 1 if c == L else 2, 0, where, f'{b} after a {a}, {c} bytes in the same chunk', f'next|{n1}{m1}|{n2}{m2}|{c}', a.syms)
