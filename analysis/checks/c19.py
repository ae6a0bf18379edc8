"""Interpretation of the asset providers plus evaluation of their constants.  Each provider is interpreted for every documented
asset name, for names that differ from one in a character, the case, a directory or the extension, and for an arbitrary path: it
must serve exactly the documented names.  For each served file the declared size must be covered by the stored words, the bytes
(taken from the constants in the program, in the order File delivers them) must decode completely with the declared encoding,
without a byte left over, and the decoded document must be a complete one of the served name's type (script that parses, page,
style sheet with balanced blocks, PNG with valid chunks, icon whose images lie inside it) that identifies itself as that
asset.  A combined provider is interpreted over three arbitrary parts: it must ask them in order, with the path it was given, stop
at the first that has the file and return that file."""
import json
import subprocess
import zlib
from engine.run import *

MINIMUM = 60
ASSUMPTIONS = ['stored words are delivered most significant byte first, as C20 establishes for File::read']
# name -> texts its decoded document contains
ASSETS = {
    'IndexFS': {'index.html': [b'WebFront.js'], 'favicon.ico': [], 'WebFront.js': [b'WebFront']},
    'ReactFS': {'react@18/umd/react.production.min.js': [b' react.production.min.js'],
                'react-dom@18/umd/react-dom.production.min.js': [b' react-dom.production.min.js']},
    'BabelFS': {'babel-standalone@7.22.5/babel.min.js': [b'Babel', b'7.22.5']},
    'JasmineFS': {'jasmine/4.6.0/jasmine_favicon.png': [], 'jasmine/4.6.0/jasmine.css': [b'.jasmine_html-reporter'],
                  'jasmine/4.6.0/jasmine.js': [b'getJasmineRequireObj =', b'4.6.0'], 'jasmine/4.6.0/jasmine-html.js': [b'jasmineRequire.HtmlReporter ='],
                  'jasmine/4.6.0/boot0.js': [b'jasmineRequire.core('], 'jasmine/4.6.0/boot1.js': [b'HtmlReporter', b'onload']},
}


def near(n):
    d, b = n.rsplit('/', 1) if '/' in n else ('', n)
    out = [n + 'x', 'x' + n, 'x/' + n, n + '/', n.upper(), n.lower() if n.lower() != n else n.swapcase(), n[:-1], n[1:], n.rsplit('.', 1)[0], n + '.br', n + '.gz']
    if d:
        out += [b, d, d + '/', d + '/x' + b]
    return [x for x in out if x != n]


def node(script, data=b''):
    r = subprocess.run(['node', '-e', script], input=data, capture_output=True, timeout=120)
    return r


def unpack(enc, b):
    """(decoded, problem); problem None when complete and exact"""
    if enc == b'':
        return b, None
    if enc in (b'gzip', b'deflate'):
        d = zlib.decompressobj(31 if enc == b'gzip' else 15)
        try:
            out = d.decompress(b) + d.flush()
        except zlib.error as e:
            return None, f'the data does not decompress: {e}'
        if not d.eof:
            return None, 'the compressed data is cut short'
        if d.unused_data:
            return None, f'{len(d.unused_data)} bytes follow the compressed data'
        return out, None
    if enc == b'br':
        r = node("const z=require('zlib'),b=require('fs').readFileSync(0);try{const r=z.brotliDecompressSync(b,{info:true});"
                 "process.stderr.write(String(r.engine.bytesWritten));process.stdout.write(r.buffer)}catch(e){process.stderr.write('E '+e.message)}", b)
        if r.stderr.startswith(b'E '):
            return None, 'the data does not decompress: ' + r.stderr[2:].decode()
        if not r.stderr.isdigit():
            raise RuntimeError('no brotli decoder: ' + r.stderr.decode()[:100])
        if int(r.stderr) != len(b):
            return None, f'{len(b) - int(r.stderr)} bytes follow the compressed data'
        return r.stdout, None
    return None, f'unknown content encoding {enc.decode("latin1")!r}'


def document(name, d):
    """a problem with the decoded document, or None"""
    ext = name.rsplit('.', 1)[-1]
    if ext in ('js', 'html', 'css'):
        try:
            t = d.decode('utf-8')
        except UnicodeDecodeError as e:
            return f'not UTF-8 text: {e}'
        if ext == 'js':
            r = node("try{new (require('vm').Script)(require('fs').readFileSync(0,'utf8'));process.stdout.write('ok')}catch(e){process.stdout.write('E '+e.message)}", d)
            if r.stdout != b'ok':
                if not r.stdout.startswith(b'E '):
                    raise RuntimeError('no script parser')
                return 'the script does not parse: ' + r.stdout[2:].decode()
        if ext == 'html' and ('<html' not in t.lower() or not t.rstrip().lower().endswith('</html>')):
            return 'not a complete page'
        if ext == 'css':
            depth, i, q = 0, 0, None
            while i < len(t):
                if q:
                    if t[i] == '\\':
                        i += 1
                    elif t[i] == q:
                        q = None
                elif t[i] in '"\'':
                    q = t[i]
                elif t.startswith('/*', i):
                    i = t.find('*/', i)
                    if i < 0:
                        return 'unterminated comment'
                    i += 1
                elif t[i] == '{':
                    depth += 1
                elif t[i] == '}':
                    depth -= 1
                    if depth < 0:
                        return 'unbalanced blocks'
                i += 1
            if depth or q:
                return 'the style sheet is cut short'
    elif ext == 'png':
        if d[:8] != b'\x89PNG\r\n\x1a\n':
            return 'not a PNG image'
        i, last = 8, b''
        while i + 12 <= len(d):
            n = int.from_bytes(d[i:i + 4], 'big')
            last = d[i + 4:i + 8]
            if zlib.crc32(d[i + 4:i + 8 + n]) != int.from_bytes(d[i + 8 + n:i + 12 + n], 'big'):
                return f'chunk {last!r} is damaged'
            i += 12 + n
        if last != b'IEND' or i != len(d):
            return 'the image is cut short'
    elif ext == 'ico':
        if d[:4] != b'\0\0\1\0':
            return 'not an icon'
        k = int.from_bytes(d[4:6], 'little')
        ends = [int.from_bytes(d[6 + 16 * j + 8:6 + 16 * j + 12], 'little') + int.from_bytes(d[6 + 16 * j + 12:6 + 16 * j + 16], 'little') for j in range(k)]
        if not k or max(ends) != len(d):
            return 'the icon does not hold its images'
    return None


def served(P, q, name):
    """outcomes of opening a path (None: any)"""
    f = func(P, f'webfront::fs::{q}::open')
    if not f:
        return None, None, None
    f = f[0]
    I = make(P)
    args = None
    if name is not None:
        args = [param(I, f, 0, PathV(('str', string(I, name))))]
    return I, f, explore(I, f, args=args)


def has(o):
    return o.v.has if o.kind == 'ok' and isinstance(o.v, Opt) else None


def words(I, v):
    """(stored words, declared size, encoding) of a File value, by the types of its parts"""
    xs = list(v.f.values())
    views = [x for x in xs if isinstance(x, View)]
    P = I.P
    sizes = [(k, x) for k, x in v.f.items() if isinstance(x, int) and not isinstance(x, bool) and isinstance(k, tuple)
             and P.ty(P.strip(P.field_type(k)))['k'] == 'int' and x > 0]
    enc = [x for x in xs if isinstance(x, Seq)] + [x for x in views if I.P.ty(I.models.view_seq(I, x).ety).get('size') == 1]
    data = [x for x in views if x not in enc]
    if len(data) != 1 or len(sizes) != 1 or len(enc) != 1:
        return None
    e = text_of(I, enc[0])
    s = I.models.view_seq(I, data[0])
    w = []
    for x in s.p:
        if x[0] != 'el' or not isinstance(x[1], int):
            return None
        w.append(x[1] & (1 << 64) - 1)
    return (w, sizes[0][1], e) if e is not None else None


def asset(ctx, P, q, name, marks):
    I, f, outs = served(P, q, name)
    if f is None:
        ctx.ob('served', False, '?', f'{q} is gone: {name} is served by nothing', key=name)
        return
    ctx.interp(I)
    where = P.loc(f['l'])
    hit = [has(o) for o in outs]
    if any(o.st.taint for o in outs) or any(h not in (True, False) for h in hit):
        ctx.ob('served', None, where, f'{q}: whether {name!r} is served is not resolved', key=name)
        return
    if any(hit) and not all(hit):
        ctx.ob('served', None, where, f'{q}: whether {name!r} is served is not resolved', key=name)
        return
    if not all(hit):
        ctx.ob('served', False, where, f'{q} does not serve {name!r}', key=name)
        return
    ctx.ob('served', True, where, f'{q} serves {name!r}', key=name)
    for o in outs:
        I.st = o.st
        r = words(I, o.v.val)
        if r is None:
            ctx.ob('complete', None, where, f'{name}: the stored data is not a constant', key=name)
            continue
        w, n, enc = r
        ok = len(w) * 8 >= n and n > 0
        ctx.ob('size', ok, where, f'{name}: {n} bytes declared, {len(w)} words stored', key=name)
        if not ok:
            continue
        b = b''.join(x.to_bytes(8, 'big') for x in w)[:n]
        try:
            d, bad = unpack(enc, b)
            if bad is None:
                ctx.ob('decodes', True, where, f'{name}: {n} bytes, {enc.decode() or "identity"}, decode to {len(d)}', key=name)
                bad = document(name, d)
                for t in marks:
                    if bad is None and t not in d:
                        bad = f'the document is not {name}: it does not contain {t.decode()!r}'
                ctx.ob('document', bad is None, where, f'{name}: {bad or "a complete document of its type"}', key=name)
            else:
                ctx.ob('decodes', False, where, f'{name} ({enc.decode("latin1")}, {n} bytes): {bad}', key=name)
        except (RuntimeError, OSError, subprocess.TimeoutExpired) as e:
            ctx.ob('decodes', None, where, f'{name}: {e}', key=name)


def decoded_assets(P):
    """(name, decoded content) of every asset whose stored form is resolved"""
    for q, names in ASSETS.items():
        for n in names:
            I, f, outs = served(P, q, n)
            for o in outs or []:
                if has(o) is True:
                    I.st = o.st
                    r = words(I, o.v.val)
                    if r is not None:
                        d, bad = unpack(r[2], b''.join(x.to_bytes(8, 'big') for x in r[0])[:r[1]])
                        if bad is None:
                            yield n, d


def eq_name(c):
    """the literal an equality condition compares a text with"""
    if not isinstance(c, Cond) or c.k != 'atom' or c.a[0][0] not in ('seqeq', 'txteq', 'patheq'):
        return None
    out = []
    for p in c.a[0][1:]:
        if isinstance(p, PathV) and p.t[0] == 'str':
            p = p.t[1].p
        if isinstance(p, tuple) and len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == 'lit':
            out.append(p[0][1])
    return out[0] if len(out) == 1 else None


def others(ctx, P, q, names):
    mine = set(names)
    cand = [''] + [x for n in names for x in near(n)] + [n for o in ASSETS for n in ASSETS[o] if o != q]
    for x in dict.fromkeys(cand):
        if x in mine:
            continue
        I, f, outs = served(P, q, x)
        if f is None:
            return
        where = P.loc(f['l'])
        hs = [has(o) for o in outs]
        if outs and all(h is True and not o.st.taint for h, o in zip(hs, outs)):
            ctx.ob('only', False, where, f'{q} serves an asset under {x!r}', key=x)
        elif all(h is False for h in hs):
            ctx.ob('only', True, where, f'{q} does not serve {x!r}', key=x)
        else:
            ctx.ob('only', None, where, f'{q}: {x!r} is not resolved', key=x)
    I, f, outs = served(P, q, None)
    ctx.interp(I)
    where = P.loc(f['l'])
    for n, o in enumerate(outs):
        h = has(o)
        if h is False:
            ctx.ob('any-path', True, where, f'{q}: a path that equals none of the names is not served', key=f'{q}|{n}')
            continue
        names = [eq_name(c) for _, c, v in o.st.trail if v is True]
        names = [x for x in names if x is not None]
        ok = len(names) == 1 and names[0].decode('latin1') in mine and not o.st.taint
        ctx.ob('any-path', True if ok else None, where, f'{q}: an arbitrary path is served only when it equals {names}', key=f'{q}|{n}')


def multi(ctx, P):
    parts = ['wfa::Part1', 'wfa::Part2', 'wfa::Part3']
    for f in func(P, 'wfa::entry_multi'):
        I = make(P)

        def opener(name):
            def h(I, e):
                v = I.models.path_of(I, e['a'][0])
                I.event('part-open', part=name, path=v)
                return Opt(atom(('part-has', name, str(v))), Opq(('part-file', name)))
            return h
        for p in parts:
            I.summaries[p + '::open'] = opener(p)
        root = I.new('param', 'root', P.strip(f['p'][0]['t']), PathV(('sym', 'root')))
        path = I.new('param', 'path', P.strip(f['p'][1]['t']), PathV(('sym', 'request')))
        outs = explore(I, f, args=[root, path])
        ctx.interp(I)
        fs = func(P, 'webfront::fs::Multi::open')
        where = P.loc(fs[0]['l']) if fs else P.loc(f['l'])
        for n, o in enumerate(outs):
            I.st = o.st
            evs = [e.a for e in o.st.events if e.kind == 'part-open']
            if o.kind != 'ok' or not isinstance(o.v, Opt) or not evs:
                ctx.ob('first', None, where, f'combined provider: {o.kind} {str(o.v)[:80]}', key=str(n))
                continue
            asked = [e['part'] for e in evs]
            bad = None
            if asked != parts[:len(asked)]:
                bad = f'the parts are asked in the order {asked}'
            for e in evs:
                if e['path'].t != ('sym', 'request'):
                    bad = f'{e["part"]} is asked for {e["path"]}'
            found = [I.decide(atom(('part-has', e['part'], str(e['path'])))) for e in evs]
            got = I.decide(o.v.has)
            if bad is None:
                if any(x is True for x in found[:-1]):
                    bad = 'a further part is asked although an earlier one has the file'
                elif found[-1] is True or (found[-1] is None and len(asked) == 3):
                    if got is False or not (isinstance(o.v.val, Opq) and o.v.val.key == ('part-file', asked[-1])):
                        bad = f'{asked[-1]} has the file but {o.v.val} is returned'
                    elif got is None and o.v.has != atom(('part-has', asked[-1], str(evs[-1]['path']))):
                        bad = f'the file found by {asked[-1]} is returned only when {o.v.has}'
                elif found[-1] is False and (len(asked) < 3 or got is not False):
                    bad = f'only {asked} are asked although none has the file' if len(asked) < 3 else f'{o.v} is returned although no part has the file'
            ctx.ob('first', bad is None, where, 'combined provider: ' + (bad or f'asks {", ".join(a[5:] for a in asked)}: {found}'), key=str(n) + (bad or ''))


def run(ctx):
    P = ctx.P
    for q, names in ASSETS.items():
        for n, marks in names.items():
            asset(ctx, P, q, n, marks)
        others(ctx, P, q, names)
    multi(ctx, P)
