"""Loads the exported program and answers questions about its types, records and functions."""
import json


class Program:
    def __init__(self, path):
        x = json.load(open(path))
        self.files, self.types, self.recs, self.vars, self.enums, self.funcs = (x[k] for k in ('files', 'types', 'recs', 'vars', 'enums', 'funcs'))
        self.byq = {}
        for i, f in enumerate(self.funcs):
            f['id'] = i
            self.byq.setdefault(f['q'], []).append(f)
        self._fields = {}
        self.recbyname = {}
        for i, r in enumerate(self.recs):
            r['id'] = i
            self.recbyname.setdefault(r['name'], []).append(r)
        for i, v in enumerate(self.vars):
            v['id'] = i

    def loc(self, l):
        if not l or l[0] < 0:
            return '?'
        f = self.files[l[0]]
        for p in ('/repo/',):
            i = f.find(p)
            if i >= 0:
                f = f[i + len(p):]
        return f'{f}:{l[1]}'

    def ty(self, tid):
        return self.types[tid]

    def strip(self, tid):
        t = self.types[tid]
        return t['to'] if t['k'] == 'ref' else tid

    def recname(self, tid):
        t = self.types[self.strip(tid)]
        return self.recs[t['r']]['name'] if t['k'] == 'rec' else None

    def rid(self, tid):
        t = self.types[self.strip(tid)]
        return t['r'] if t['k'] == 'rec' else None

    def size(self, tid):
        return self.types[tid].get('size')

    def call_ops(self, rid):
        """call operators with a body of a class"""
        if rid is None:
            return []
        return [f for f in self.byq.get(self.recs[rid]['name'] + '::operator()', []) if f.get('r') == rid and 'body' in f]

    def targs(self, rid):
        return self.recs[rid].get('ta', [])

    def fields(self, rid):
        """all fields, base classes first: [(key, tid, byte offset, field dict)]"""
        r = self._fields.get(rid)
        if r is None:
            r = []
            rec = self.recs[rid]
            for b in rec.get('b', []):
                for k, t, o, f in self.fields(b['r']):
                    r.append((k, t, o + max(b['off'], 0), f))
            for f in rec.get('f', []):
                r.append(((rid, f['n']), f['t'], f['off'], f))
            self._fields[rid] = r
        return r

    def bases(self, rid):
        out = [rid]
        for b in self.recs[rid].get('b', []):
            out += self.bases(b['r'])
        return out

    def field_type(self, key):
        for f in self.recs[key[0]].get('f', []):
            if f['n'] == key[1]:
                return f['t']
        return None

    def find_type(self, pred):
        for i, t in enumerate(self.types):
            if pred(t):
                return i
        return None

    def rectype(self, rid, const=False):
        """type id of a record"""
        for i, t in enumerate(self.types):
            if t['k'] == 'rec' and t['r'] == rid and bool(t.get('c')) == const:
                return i
        return None

    def walk(self, n):
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if 'k' in x:
                    yield x
                st.extend(reversed(list(x.values())))
            elif isinstance(x, list):
                st.extend(reversed(x))

    def calls(self, f):
        for part in (f.get('inits'), f.get('body')):
            if part is not None:
                for n in self.walk(part):
                    if n['k'] in ('call', 'ctor'):
                        yield n
