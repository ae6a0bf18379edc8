#!/usr/bin/env python3
"""check.py ID [quick|thorough]: build the exporter if needed, export /repo's current source, decide one property."""
import fcntl
import importlib
import json
import os
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LIMIT = int(os.environ.get("WFA_LIMIT", "600"))     # seconds of analysis; what is not decided by then stays undecided
REPO = os.environ.get('WFA_REPO', '/repo')
sys.path.insert(0, HERE)


def build_exporter():
    out = os.path.join(VERIF, 'build', 'wfexport')
    src = os.path.join(HERE, 'exporter', 'exporter.cpp')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(os.path.join(VERIF, 'build', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            return out
        cmd = ['g++', '-O0', '-std=c++17', '-fno-exceptions', '-fno-rtti', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
               '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-I/usr/lib/llvm-18/include', src, '-o', out + '.tmp',
               '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
        subprocess.run(cmd, check=True)
        os.replace(out + '.tmp', out)
    return out


def export(repo=REPO, out=None):
    """the program as clang sees it: every header of the repository plus the driver"""
    exe = build_exporter()
    out = out or os.path.join(VERIF, 'build', f'program.{os.getpid()}.json')
    tu = os.path.join(HERE, 'tu', 'driver.cpp')
    off = []
    while True:
        cmd = [exe, out, tu, '--prefix', repo + '/include', '--prefix', os.path.join(HERE, 'tu'), '--', '-std=c++23',
               '-isystem', os.path.join(HERE, 'stub'), '-I' + repo + '/include', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w'] + off
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            return out, off
        # an optional section of the driver may use an interface the tree no longer has
        sec = section_of_errors(r.stderr, tu, off)
        if sec is None:
            sys.stderr.write(r.stderr[-4000:])
            sys.stderr.write('the repository does not parse\n')
            raise SystemExit(2)
        off = off + ['-DNO_' + sec]


def section_of_errors(text, tu, off):
    import re
    secs = {}
    cur = None
    for i, l in enumerate(open(tu), 1):
        mm = re.match(r'#ifndef NO_(\w+)', l)
        if mm:
            cur = mm.group(1)
        elif l.startswith('#endif'):
            cur = None
        secs[i] = cur
    for mm in re.finditer(re.escape(os.path.basename(tu)) + r':(\d+):', text):
        s = secs.get(int(mm.group(1)))
        if s and '-DNO_' + s not in off:
            return s
    return None


class Enough(BaseException):
    """many violations found: no need to look further"""


class Ctx:
    def __init__(self, pid, tier):
        from engine.ir import Program
        self.pid, self.tier = pid, tier
        path, self.off = export()
        try:
            self.P = Program(path)
        finally:
            os.unlink(path)
        self.obs = []
        self.bad, self.known = 0, known(pid)
        self.seen = set()
        self.counts = {}
        self.functions = set()
        self.notes = []
        self.t0 = time.time()

    def ob(self, rule, ok, where, detail='', key=None):
        """one obligation.  ok: True proved, False refuted, None undecided"""
        k = (rule, ok, where, key or detail)
        if k in self.seen:
            return ok
        self.seen.add(k)
        if ok is False and (key or f'{rule}|{where}').replace(' ', '') not in self.known:
            self.bad += 1
            if self.bad > 150:
                raise Enough()
        self.obs.append({'rule': rule, 'status': 'proved' if ok is True else 'refuted' if ok is False else 'undecided',
                         'where': where, 'detail': detail, 'key': key or f'{rule}|{where}'})
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def cover(self, fids):
        for i in fids:
            f = self.P.funcs[i] if isinstance(i, int) else i
            if f.get('repo'):
                self.functions.add(f'{f["q"]} ({self.P.loc(f.get("l"))})')

    def interp(self, I):
        self.cover(I.functions)
        self.count('abstract paths', I.npaths)
        self.count('abstract steps', I.steps)


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l[6:].split('::')[0].split() if '=' in x)
                if d.get('property') == pid:
                    out[d['key']] = l.split('::', 1)[1].strip() if '::' in l else ''
    return out


def main():
    if sys.argv[1] == '--setup':
        print(build_exporter())
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.setrecursionlimit(40000)
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = Ctx(pid, tier)
    t0 = time.time()
    res = []

    def body():
        try:
            mod.run(ctx)
        except Enough:
            pass
        except Exception:
            res.append(traceback.format_exc())
    threading.stack_size(512 << 20)
    th = threading.Thread(target=body)
    th.start()
    th.join(LIMIT)
    if th.is_alive():
        res.append(f'out of time after {LIMIT} s')
    if res:
        # the analysis met a construct it does not handle: nothing is claimed about it
        sys.stderr.write(res[0])
        ctx.ob('analysis', None, '?', 'internal: ' + res[0].strip().splitlines()[-1])
    kn = known(pid)
    proved = [o for o in ctx.obs if o['status'] == 'proved']
    refuted = [o for o in ctx.obs if o['status'] == 'refuted']
    und = [o for o in ctx.obs if o['status'] == 'undecided']
    kf = [o for o in refuted if o['key'].replace(' ', '') in kn]
    new = [o for o in refuted if o['key'].replace(' ', '') not in kn]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', pid + '.replay.txt')
    doc = getattr(mod, 'RULE', (mod.__doc__ or '').strip())
    if new:
        with open(replay, 'w') as fh:
            fh.write(f'property {pid}\nre-run: python3 {os.path.join(HERE, "check.py")} {pid} {tier}\n\n')
            for o in new:
                fh.write(f'{o["where"]}: [{o["rule"]}] {o["detail"]}\n   key={o["key"].replace(" ", "")}\n')
    elif os.path.exists(replay):
        os.unlink(replay)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'wall_s': round(time.time() - t0, 2),
          'coverage': {'explanation': doc, 'obligations': len(ctx.obs), 'proved': len(proved), 'refuted': len(refuted),
                       'undecided': len(und), 'counts': ctx.counts, 'functions_analysed': sorted(ctx.functions),
                       'obligation_list': [f'{o["status"]}: [{o["rule"]}] {o["where"]} {o["detail"]}'[:300] for o in ctx.obs[:400]],
                       'driver_sections_disabled': ctx.off},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'violations': [f'{o["where"]}: [{o["rule"]}] {o["detail"]}' for o in new]}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    cs = ', '.join(f'{v} {k}' for k, v in ctx.counts.items())
    print(f'{pid}: {len(ctx.obs)} obligations ({len(proved)} proved, {len(refuted)} refuted, {len(und)} undecided) over '
          f'{len(ctx.functions)} functions; {cs}; {time.time() - t0:.1f}s')
    for o in und[:20]:
        print(f'  undecided {o["where"]}: [{o["rule"]}] {o["detail"]}'[:300])
    for o in kf:
        print(f'KNOWN-FINDING: property={pid} {o["where"]}: {kn[o["key"].replace(" ", "")] or o["detail"]}')
    for o in new:
        print(f'  {o["where"]}: [{o["rule"]}] {o["detail"]}'[:600])
    if new:
        print(f'VIOLATION property={pid} replay={replay}')
        sys.stdout.flush()
        os._exit(1)
    minimum = getattr(mod, 'MINIMUM', 1)
    sys.stdout.flush()
    if len(ctx.obs) < minimum and not und:
        sys.stderr.write(f'{pid}: only {len(ctx.obs)} obligations were found; the code this check is about has vanished\n')
        os._exit(2)
    os._exit(0)


if __name__ == '__main__':
    main()
