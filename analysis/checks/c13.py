"""Decoder: for each parameter type the decoder is interpreted on a message of arbitrary length and content.  Every path is split by
the reference format (type byte, sizes, what is left), and on each part the outcome must be the reference one: refused, or the value
that those very bytes denote with the rest of the message left over.  Nested tuples, and numbers around the limits of the integer
types, are run on messages of concrete shape with arbitrary text.  Encoder: for arbitrary values the bytes handed to the socket after
the call header must be the reference encoding of the values in order.  Client: in the script embedded in the server, every numeric
constant that names a command, type or opcode must have the value the C++ enumeration gives to it, and every recursive call that
encodes an element must place it relative to where its tuple starts."""
import json
import math
import re
import struct
import subprocess
from engine.run import *
from engine import codec, flt, outgoing, wire, witness
from engine.bounded import definite
from engine.codec import eq, le
from engine.interp import PathDead

MINIMUM = 150
ASSUMPTIONS = ['a message is shorter than 2^48 bytes', 'the server is little endian, like every platform it is built for here']
INT, BYTE, SIZE = ('int', 32, True), ('int', 8, False), ('int', 64, False)
DECODERS = {'bool': 'bool', 'int': INT, 'byte': BYTE, 'size': SIZE, 'double': 'double', 'float': 'float', 'string': 'string',
            'pair': ('tuple', ['double', 'string']), 'inner': ('tuple', [('tuple', ['string']), 'bool'])}
NESTED = ('tuple', ['bool', ('tuple', ['string', 'bool']), 'string'])


def fld(v, n):
    return next((x for k, x in v.f.items() if isinstance(k, tuple) and k[1] == n), None) if isinstance(v, Rec) else None


def judge_decode(ctx, I, outs, T, s, n, where, label):
    ctx.interp(I)
    for x in definite(I):
        if x.kind == 'float-conversion':          # memory is decided by C12
            ctx.ob('conversion', False, x.where, f'{label}: {x.kind}: {x.detail}', key=f'{x.kind}|{x.where}')
    for i, o in enumerate(outs):
        sav, I.st = I.st, o.st
        try:
            refs = list(codec.cases(I, T, s, n, 0))
            for j, (st, r) in enumerate(refs):
                key = f'decode|{label}|{i}|{j}'
                I.st = st
                feas = lambda: False if not o.st.taint and witness.feasible(I) is True else None
                if r[0] == 'integer' or (r[0] == 'value' and has_integer(r[1])) or r[0] == 'truth' or (r[0] == 'value' and has_truth(r[1])):
                    if o.kind == 'throw':
                        # refusing is right when the number cannot be represented
                        ok = all_or(I, r)
                        ctx.ob('decode', ok if ok is not False else feas(), where, f'{label}: refuses a number the type can hold' if ok is not True else f'{label}: refuses a number out of range', key=key)
                        continue
                if r[0] == 'refuse':
                    if o.kind == 'throw':
                        ctx.ob('decode', True, where, f'{label}: refused', key=key)
                    else:
                        v = feas()
                        ctx.ob('decode', v, where, f'{label}: {describe(I, s, n)} is decoded to {fld(o.v, "value")}, a refusal expected', key=key)
                    continue
                if o.kind == 'throw':
                    ctx.ob('decode', feas(), where, f'{label}: {describe(I, s, n)} is refused ({o.v.tname} at {o.v.where if hasattr(o.v, "where") else ""})', key=key)
                    continue
                val, left = fld(o.v, 'value'), fld(o.v, 'left')
                ok, why = codec.agrees(I, T, val, r if r[0] in ('integer', 'truth') else r[1])
                ctx.ob('decode', wire.verdict(I, o, ok), where, f'{label}: value {why}' if ok is not True else f'{label}: decoded as the format says', key=key)
                d = wire.holds(I, eq(left, sub(n, r[-1]))) if isnum(left) else None
                ctx.ob('consumed', wire.verdict(I, o, d), where, f'{label}: {left} bytes are left, {sub(n, r[-1])} expected', key=key)
        finally:
            I.st = sav


def has_integer(v):
    return isinstance(v, list) and any((isinstance(x, tuple) and (x[0] == 'integer' or (x[0] == 'is' and has_integer(x[1])))) for x in v)


def has_truth(v):
    return isinstance(v, list) and any((isinstance(x, tuple) and (x[0] == 'truth' or (x[0] == 'is' and has_truth(x[1])))) for x in v)


def all_or(I, r):
    """is the refusal of number r justified on this path?"""
    if r[0] == 'truth':
        return True
    if r[0] == 'value':
        xs = [all_or(I, x) for x in r[1] if isinstance(x, tuple) and x[0] in ('integer', 'truth')] + [all_or(I, ('value', x[1], 0)) for x in r[1] if isinstance(x, tuple) and x[0] == 'is' and isinstance(x[1], list)]
        return True if True in xs else False if all(x is False for x in xs) else None
    _, x, w, sg, _ = r
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    top = float(hi)
    while top > hi:
        top = math.nextafter(top, 0)
    f = flt.fval(x)
    if f is not None:
        return not (lo <= f <= top)
    d = flt.dom(I, x)
    d.meet('>=', float(lo), True)
    d.meet('<=', top, True)
    return True if not d.numbers() else False if flt.arbitrary(x) else None


def describe(I, s, n):
    try:
        return f'a message of {n} bytes starting with type {codec.at(I, s, 0)}'
    except PathDead:
        return f'a message of {n} bytes'


# ---- encoder ------------------------------------------------------------------------------------------------------
def check_encoder(ctx, pr, where):
    I, name = pr.I, pr.name
    ctx.interp(I)
    for i, o in enumerate(pr.outs):
        key = f'encode|{name}|{i}'
        sav, I.st = I.st, o.st
        try:
            refs = codec.encoded(I, o.st, pr.args, pr.Ts)
            ws = [e for e in o.st.events if e.kind == 'net.write']
            tot = wire.concat(ws[-1].a.get('wire')) if len(ws) == 1 else None
            for j, (st, ps) in enumerate(refs):
                I.st = st
                if o.kind == 'throw' or ps is None:
                    if o.kind == 'throw' and ps is not None and o.v.tname == 'std::length_error':
                        ctx.ob('encode', False if not o.st.taint and witness.feasible(I) is True else None, where, f'encoding {name} is refused although every parameter fits', key=f'{key}|{j}')
                    continue          # refusals are decided by C15
                want = Seq(ps, None, 'string')
                if tot is None:
                    ctx.ob('encode', None, where, f'encoding {name}: what is written is not resolved', key=key)
                    continue
                # the parameters follow a frame header of 2, 4 or 10 bytes and the 8 bytes of the message header
                d = sub(tot.len(), want.len())
                rs = [wire.holds(I, eq(d, k)) for k in (10, 12, 18)]
                if True not in rs:
                    ctx.ob('encode', wire.verdict(I, o, False if all(r is False for r in rs) else None), where, f'encoding {name}: {tot.len()} bytes are sent for parameters of {want.len()} bytes', key=f'{key}|{j}')
                    continue
                body = codec.content(tot, (10, 12, 18)[rs.index(True)])
                r, why = wire.same(I, body, want) if body is not None else (None, 'the headers are not resolved')
                ctx.ob('encode', wire.verdict(I, o, r), where, f'encoding {name}: ' + (why if r is not True else 'the bytes are those of the format'), key=f'{key}|{j}')
        finally:
            I.st = sav


# ---- client -------------------------------------------------------------------------------------------------------
def client_script(ctx):
    """the WebFront.js a client is served, taken from the constants in the program"""
    from checks import c19
    for name, text in c19.decoded_assets(ctx.P):
        if name == 'WebFront.js':
            return text.decode('utf-8', 'replace')
    return None


ALIAS = {'TxtCmdOpcode': 'TxtOpcode', 'ParamType': 'CodedType', 'Command': 'Command'}
RECURSION = r"""
const ts=require('/opt/veriftools/node/node_modules/typescript');
const sf=ts.createSourceFile('c.js',require('fs').readFileSync(0,'utf8'),ts.ScriptTarget.ES2020,true,ts.ScriptKind.JS);
const res=[];
function fname(n){ const p=n.parent; if(p&&ts.isBinaryExpression(p)&&ts.isPropertyAccessExpression(p.left)) return p.left.name.text; return n.name?n.name.text:null;}
function walk(n,f){ f(n); ts.forEachChild(n,c=>walk(c,f)); }
walk(sf,n=>{
  if(!ts.isFunctionExpression(n)) return;
  const name=fname(n); if(name!=='encodeParameter'&&name!=='decodeParameters') return;
  const pos=n.parameters.findIndex(p=>p.name.text==='offset'); if(pos<0) return;
  // variables whose initial value or an assignment mentions the offset (transitively)
  const dep=new Set(['offset']); let grew=true;
  const mentions=e=>{let r=false; walk(e,x=>{if(ts.isIdentifier(x)&&dep.has(x.text)) r=true;}); return r;};
  while(grew){ grew=false; walk(n,x=>{
    if(ts.isVariableDeclaration(x)&&x.initializer&&ts.isIdentifier(x.name)&&!dep.has(x.name.text)&&mentions(x.initializer)){dep.add(x.name.text);grew=true;}
    if(ts.isBinaryExpression(x)&&x.operatorToken.kind===ts.SyntaxKind.EqualsToken&&ts.isIdentifier(x.left)&&!dep.has(x.left.text)&&mentions(x.right)){dep.add(x.left.text);grew=true;}
  });}
  walk(n,x=>{ if(ts.isCallExpression(x)&&ts.isPropertyAccessExpression(x.expression)&&x.expression.name.text===name){
    const a=x.arguments[pos]; res.push({fn:name, line:sf.getLineAndCharacterOfPosition(x.pos).line+1, text:a?a.getText():'', ok: !!a&&mentions(a)});
  }});
});
console.log(JSON.stringify(res));
"""


def check_client(ctx):
    text = client_script(ctx)
    P = ctx.P
    where = next((r['name'] for r in P.recs if r['name'].endswith('WebFrontJs')), 'WebFront.js')
    if text is None:
        ctx.ob('client', None, where, 'the client script was not found', key='client')
        return
    enums = {e['name'].split('::')[-1]: e['v'] for e in P.enums if 'webfront' in e['name']}
    seen = set()
    for m in re.finditer(r'(\d+) /\* (\w+)\.(\w+) \*/', text):
        val, en, mem = int(m[1]), m[2], m[3]
        if (en, mem) in seen:
            continue
        seen.add((en, mem))
        e = enums.get(ALIAS.get(en, en))
        if e is None or mem not in e:
            continue
        ctx.ob('client', int(e[mem]) == val, where, f'client: {en}.{mem} is {val} in the script, {e[mem]} in the C++ code', key=f'client|{en}.{mem}')
    r = subprocess.run(['node', '-e', RECURSION], input=text.encode(), capture_output=True, timeout=120)
    if r.returncode:
        ctx.ob('client', None, where, 'the script could not be parsed', key='client|parse')
        return
    for c in json.loads(r.stdout):
        ctx.ob('client', c['ok'], where, f'client: {c["fn"]} (line {c["line"]} of the script) ' + ('places the elements of a tuple relative to its start' if c['ok'] else f'places the elements of a tuple at {c["text"]}, which does not depend on where the tuple starts: a tuple inside a tuple is garbled'),
               key=f'client|{c["fn"]}|offset')


def run(ctx):
    P = ctx.P
    home = lambda q: next((P.loc(g['l']) for g in P.funcs if g.get('repo') and g['q'].endswith(q) and 'body' in g), '?')
    dw, ew = home('FunctionCall::decodeParameter'), home('FunctionCall::encodeParameter')
    for name, T in DECODERS.items():
        for f in func(P, 'wfa::entry_got_' + name):
            I = make(P)
            I.track['uninit'] = True
            a = arg(I, f['p'][0]['t'], 'msg')
            v = I.get(a.loc)
            n = v.n
            s = I.models.view_seq(I, v)
            outs = explore(I, f, args=[a])
            judge_decode(ctx, I, outs, T, s, n, dw, name)
    # concrete shapes
    def shape(name, T, parts, label):
        for f in func(P, 'wfa::entry_got_' + name):
            I = make(P)
            I.track['uninit'] = True
            els = []
            for i, p in enumerate(parts):
                els += [('el', of(sym(('t', i, j), 0, 255))) for j in range(p)] if isinstance(p, int) else [('lit', p)]
            s = Seq(els, I.models.byte_t() or I.models.char_t(), 'array')
            o = Obj('opaque', ('msg', label), 0, None)
            I.st.store[o] = s
            n = s.len()
            outs = explore(I, f, args=[param(I, f, 0, View(Ptr(Loc(o, ()), 0, True), n))])
            judge_decode(ctx, I, outs, T, s, n, dw, label)
    for name, (_, w, sg) in (('int', INT), ('byte', BYTE), ('size', SIZE)):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        for x in (0.0, 1.0, -1.0, 3.75, -0.0, 41.0, float(lo), lo - 1.0, lo - 0.5, hi + 1.0, float(hi), hi - 0.5, hi + 0.5, math.nan, math.inf, -math.inf, 1e300, -1e300, 5e-324,
                  math.nextafter(float(hi + 1), 0), math.nextafter(float(lo), -math.inf)):
            shape(name, ('int', w, sg), [b'\x03' + struct.pack('<d', x)], f'{name} from the number {x!r}')
    for x in (b'\x01', b'\x02'):
        shape('nested', NESTED, [b'\x12\x03' + x + b'\x12\x02\x04\x03', 3, b'\x02\x05\x05\x00', 5], f'nested tuple {x[0]}')
        shape('nested', NESTED, [b'\x12\x03' + x + b'\x12\x02\x04\x00' + x + b'\x04\x02', 2, b'\x03'], f'nested tuple with a byte after it {x[0]}')
        shape('nested', NESTED, [b'\x12\x03' + x + b'\x12\x02\x04\x03', 3, b'\x02\x05\x05\x00', 4], f'nested tuple cut short {x[0]}')
        shape('nested', NESTED, [b'\x12\x03' + x + b'\x12\x01\x04\x03', 3, b'\x02\x05\x05\x00', 4], f'inner tuple too small {x[0]}')
        shape('nested', NESTED, [b'\x12\x03' + x + b'\x12\x02\x04\x03', 3], f'nested tuple ending within {x[0]}')
        shape('nested', NESTED, [b'\x12\x03' + x + b'\x04\x03', 3, b'\x04\x01a'], f'text for the inner tuple {x[0]}')
    for L in (255, 256, 300, 511, 512):
        shape('string', 'string', [b'\x05' + L.to_bytes(2, 'little'), L, b'\x01'], f'text of {L} bytes')
        shape('string', 'string', [b'\x05' + L.to_bytes(2, 'little'), L - 1], f'text of {L} bytes cut short')
    shape('string', 'string', [b'\x04\xff', 255, 2], 'short text of 255 bytes')
    for pr in outgoing.sent(P):
        check_encoder(ctx, pr, ew)
    check_client(ctx)
