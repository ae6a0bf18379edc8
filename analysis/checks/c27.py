"""Transducer comparison.  Percent-encoding and decoding are interpreted on texts of 0..4 arbitrary bytes: the interpreter
partitions the bytes by the branches of the code, and on each part the result expressions are compared with the reference over
all value sets of the part.  The loop rule extends this to every length: the code's loops carry nothing from one step to the
next but the position and the text produced so far, so a step depends only on the bytes it looks at."""
from engine.run import *
from engine.bounded import *
from engine import loops

MINIMUM = 10
HEX = b'0123456789ABCDEF'
KEEP = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~')
XD = set(b'0123456789abcdefABCDEF')


def enc(t):
    out = []
    for b in t:
        out += [b] if b in KEEP else [ord('%'), HEX[b >> 4], HEX[b & 15]]
    return out


def dec(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == ord('%') and i + 3 <= len(t) and t[i + 1] in XD and t[i + 2] in XD:
            out.append(int(bytes(t[i + 1:i + 3]), 16))
            i += 3
        else:
            out.append(32 if t[i] == ord('+') else t[i])
            i += 1
    return out


REPS = set(b'%+09AFafGg\0 /') | {0x80, 0xff}


def run(ctx):
    P = ctx.P
    for name, ref, lens in (('encode', enc, (0, 1, 2)), ('decode', dec, (0, 1, 2, 3, 4) if ctx.tier == 'quick' else (0, 1, 2, 3, 4, 5))):
        for f in func(P, 'webfront::uri::' + name):
            where = P.loc(f['l'])
            for n in lens:
                I = make(P)
                v, ss = text_input(I, n)
                outs = explore(I, f, args=[param(I, f, 0, v)])
                reps = REPS if n < 4 else set(b'%+0Fg\xff')
                compare(ctx, I, outs, ss, ref, reps, name, where, f'{name} of {n} bytes')
            for T in loops.memoryless(ctx, f, name):
                for L in {max(T - 1, 0), T, T + 1}:
                    if 3 < L <= 1200:
                        I = make(P)
                        v, ss = text_input(I, 1, prefix=b'a' * (L - 1), suffix=b'41%2b+')
                        outs = explore(I, f, args=[param(I, f, 0, v)])
                        compare(ctx, I, outs, ss, lambda t: ref(b'a' * (L - 1) + bytes(t) + b'41%2b+'), REPS, name, where, f'{name} of a byte after {L - 1} others')
