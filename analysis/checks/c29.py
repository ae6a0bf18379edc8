"""Word-level comparison with FIPS 180.  SHA-1 is interpreted on messages of a given length whose every byte is arbitrary; the
result is five expressions over the message bytes (sums modulo 2^32, bit fields, bitwise functions).  The same expressions are built
from the text of the standard, and both are brought to the same canonical form (linear forms modulo 2^32, truth tables for bitwise
functions), so equality covers every message of that length.  All 64 positions of the end of the message in its last block are
covered, and longer messages with 1 to 4 blocks before it; the bits of the length field are covered up to the longest length."""
import hashlib
import os
import random
import sys
from engine.run import *
from engine.bounded import *
from engine import words

MINIMUM = 60


def reference(I, msg):
    M = 32
    F = (1 << M) - 1

    def m32(x):
        return x % (1 << M) if isinstance(x, int) else I.residue(x, M)

    def rot(x, n):
        return add(num.mod(mulc(x, 1 << n), 1 << M, I.bnd), num.div(x, 1 << (M - n), I.bnd))

    def inv(x):
        return sub(F, x)
    n = len(msg)
    data = list(msg) + [0x80]
    while len(data) % 64 != 56:
        data.append(0)
    data += list((8 * n).to_bytes(8, 'big'))
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    for o in range(0, len(data), 64):
        w = []
        for i in range(16):
            v = 0
            for j in range(4):
                v = add(mulc(v, 256), data[o + 4 * i + j])
            w.append(v)
        for i in range(16, 80):
            x = w[i - 3]
            for k in (8, 14, 16):
                x = I.bxor(x, w[i - k], M)
            w.append(rot(x, 1))
        a, b, c, d, e = h
        for t in range(80):
            if t < 20:
                f, k = I.bor(I.band(b, c, M), I.band(inv(b), d, M), M), 0x5A827999
            elif t < 40:
                f, k = I.bxor(I.bxor(b, c, M), d, M), 0x6ED9EBA1
            elif t < 60:
                f, k = I.bor(I.bor(I.band(b, c, M), I.band(b, d, M), M), I.band(c, d, M), M), 0x8F1BBCDC
            else:
                f, k = I.bxor(I.bxor(b, c, M), d, M), 0xCA62C1D6
            x = m32(add(add(add(add(rot(a, 5), f), e), k), w[t]))
            a, b, c, d, e = x, a, rot(b, 30), c, d
        h = [m32(add(x, y)) for x, y in zip(h, (a, b, c, d, e))]
    return h


def one(args):
    """interpret one message shape; list of (ok, text) and statistics"""
    P, f, prefix, n, suffix = args
    I = make(P)
    I.modular = True
    I.looplimit = 20000
    v, ss = text_input(I, n, 'm', prefix=prefix, suffix=suffix)
    outs = explore(I, f, args=[param(I, f, 0, v)])
    res = []
    total = len(prefix) + n + len(suffix)
    name = f'message of {total} bytes' + ('' if n == total else f', {n} of them arbitrary')
    for x in definite(I):
        res.append((False, f'{name}: {x.kind}: {x.detail}', x.where))
    msg = list(prefix) + [of(s) for s in ss] + list(suffix)
    for o in outs:
        if o.kind != 'ok':
            res.append((None if o.st.taint or o.st.cons else False, f'{name}: throws {o.v.tname}', None))
            continue
        es = elems(I, o, o.v)
        if es is None or len(es) != 5:
            res.append((None, f'{name}: result not resolved', None))
            continue
        sav, I.st = I.st, o.st
        try:
            ref = reference(I, msg)
            C = words.Canon(I)
            if all(C.lin(x) == C.lin(y) for x, y in zip(es, ref)):
                res.append((True, f'{name}: the five digest words are those of SHA-1 for all 2^{8 * n} contents', None))
                continue
            rnd = random.Random(n)
            bad = None
            try:
                for _ in range(8):
                    asg = {s: rnd.randrange(256) for s in ss}
                    memo = {}
                    got = [words.value(x, asg, memo) for x in es]
                    text = bytes(prefix) + bytes(asg[s] for s in ss) + bytes(suffix)
                    dg = hashlib.sha1(text).digest()
                    if got != [int.from_bytes(dg[4 * i:4 * i + 4], 'big') for i in range(5)] and not o.st.cons and not o.st.neqs and not o.st.dom:
                        bad = text
                        break
            except KeyError:
                pass
            if bad is not None and not o.st.taint and not o.st.atoms:
                res.append((False, f'{name}: for the message {bad[:20]!r}{"..." if len(bad) > 20 else ""} the digest is {" ".join("%08x" % x for x in got)}, {hashlib.sha1(bad).hexdigest()} expected', None))
            else:
                res.append((None, f'{name}: not brought to the same form', None))
        finally:
            I.st = sav
    return res, I


def shapes(tier):
    out = [(b'', n, b'') for n in range(0, 66)]
    long = [119, 120, 127, 128, 129, 183, 191, 247, 256] if tier == 'quick' else list(range(66, 193)) + [247, 255, 256, 257, 319, 320]
    for n in long:
        out.append((b'a' * (n - 2), 2, b''))
        out.append((b'', n, b'') if tier != 'quick' and n < 192 else (b'', 2, b'b' * (n - 2)))
    out.append((bytes(i * 7 & 255 for i in range(520)), 1, b''))
    out.insert(0, (bytes(i * 7 & 255 for i in range(8199)), 1, b''))     # the longest first: it runs while the others do
    return out


def job(i):
    sys.setrecursionlimit(100000)
    try:
        res, I = one((G['P'], G['f']) + G['shapes'][i])
    except Exception as x:
        return [(None, f'{type(x).__name__}: {x}', None)], None
    fs = getattr(I, 'covered', None)
    return res, (I.steps, I.paths if hasattr(I, 'paths') else 1)


G = {}


def run(ctx):
    P = ctx.P
    import multiprocessing as mp
    import threading
    for f in func(P, 'webfront::crypto::sha1'):
        where = P.loc(f['l'])
        G.update(P=P, f=f, shapes=shapes(ctx.tier))
        # the first shape here, for the coverage record; the others in parallel
        res, I = one((P, f) + G['shapes'][2])
        ctx.interp(I)
        with mp.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool:
            out = pool.map(job, range(len(G['shapes'])), chunksize=1)
        for (pre, n, suf), (res, stat) in zip(G['shapes'], out):
            for j, (ok, text, w) in enumerate(res):
                ctx.ob('sha1', ok, w or where, text, key=f'sha1|{len(pre)}|{n}|{len(suf)}|{j}')
