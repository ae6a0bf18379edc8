"""Transducer comparison.  Base64 encoding is interpreted on inputs of 0..7 arbitrary bytes; each output character is an
expression over the input bytes (bit fields of them looked up in the code's own alphabet) which is compared with the standard
alphabet letter of the right six bits over all value sets.  The loop rule (steps carry only positions and output) extends the
result to every length; the array form is checked for the byte order of its elements."""
import base64 as ref64
from engine.run import *
from engine.bounded import *
from engine import loops

MINIMUM = 8
REPS = {0, 1, 3, 4, 15, 16, 63, 64, 0x5a, 0x80, 0xc0, 0xf0, 0xff}


def ref(t):
    return list(ref64.b64encode(bytes(t)))


def run(ctx):
    P = ctx.P
    for f in func(P, 'wfa::entry_b64_string'):
        callee = [P.funcs[n['f']['f']] for n in P.calls(f) if isinstance(n.get('f'), dict) and 'f' in n['f'] and P.funcs[n['f']['f']].get('repo')]
        where = P.loc((callee or [f])[0]['l'])
        for n in range(0, 6 if ctx.tier == 'quick' else 10):
            I = make(P)
            ss = byte_syms(n)
            s = Seq([('el', of(x)) for x in ss], I.models.char_t(), 'string')
            outs = explore(I, f, args=[param(I, f, 0, s)])
            compare(ctx, I, outs, ss, ref, REPS if n < 4 else {0, 3, 0xfc, 0xff} if n < 6 else {0, 0xff}, 'base64', where, f'encoding of {n} bytes', local=True)
        for L in loops.lengths(loops.memoryless(ctx, f, 'base64'), 5, 700 if ctx.tier == 'quick' else 2000):
            I = make(P)
            ss = byte_syms(1)
            pre = (b'abc' * L)[:L - 1]
            s = Seq([('lit', pre), ('el', of(ss[0]))], I.models.char_t(), 'string')
            outs = explore(I, f, args=[param(I, f, 0, s)])
            compare(ctx, I, outs, ss, lambda t: ref(pre + bytes(t)), REPS, 'base64', where, f'encoding of {L} bytes', local=True)
    for f in func(P, 'wfa::entry_b64_net'):
        callee = [P.funcs[n['f']['f']] for n in P.calls(f) if isinstance(n.get('f'), dict) and 'f' in n['f'] and P.funcs[n['f']['f']].get('repo')]
        where = P.loc((callee or [f])[0]['l'])
        I = make(P)
        ss = byte_syms(20)
        t = P.strip(f['p'][0]['t'])
        ety = P.targs(P.rid(t))[0]['t']
        words = []
        for w in range(5):
            v = 0
            for j in range(4):
                v = add(mulc(v, 256), of(ss[4 * w + j]))
            words.append(('el', v))
        outs = explore(I, f, args=[param(I, f, 0, Seq(words, ety, 'array'))])
        compare(ctx, I, outs, ss, ref, {0, 0xff}, 'network-order', where, 'encoding of five 32-bit words', local=True)
