"""Effect analysis by denylist over the closed call graph.  Every function of the library (the whole program the driver
instantiates, including the code only reachable through templates, lambdas and destructors) is scanned; each call and each
construction that leaves the analysed program is classified by the standard or system function it resolves to.  Rule: none of
them creates, changes or deletes files, starts, signals or ends processes, changes the environment, loads code or opens a
connection of its own; a file stream is only ever opened for reading."""
from engine import graph

MINIMUM = 60
SYS = {
    'file': '''fopen freopen tmpfile tmpnam mkstemp mkdtemp open open64 creat openat remove unlink unlinkat rename renameat mkdir mkdirat rmdir link symlink
        truncate ftruncate chmod fchmod chown utime utimes mknod mkfifo fwrite fputs fputc fprintf vfprintf pwrite sendfile splice mmap shm_open write writev''',
    'process': '''system popen fork vfork clone execl execlp execle execv execvp execvpe execve posix_spawn posix_spawnp kill killpg raise abort exit _exit _Exit
        quick_exit signal sigaction sigprocmask pthread_kill tgkill ptrace waitpid setuid setgid seteuid setsid chroot setrlimit nice alarm dlopen syscall''',
    'environment': 'setenv putenv unsetenv clearenv chdir fchdir umask setlocale tzset',
    'connection': 'socket connect bind sendto sendmsg getaddrinfo gethostbyname socketpair',
}
BAD = {n: k for k, t in SYS.items() for n in t.split()}
FS = '''create_directory create_directories remove remove_all rename copy copy_file copy_symlink create_symlink create_hard_link create_directory_symlink
    resize_file permissions last_write_time'''.split()
BAD.update({'std::filesystem::' + n: 'file' for n in FS})
BAD.update({'std::' + n: k for n, k in list(BAD.items()) if '::' not in n})
WRITERS = {'std::basic_ofstream', 'std::basic_osyncstream_file'}
STREAMS = {'std::basic_ifstream', 'std::basic_fstream', 'std::basic_ofstream', 'std::basic_filebuf'}
OUT = {'out', 'app', 'trunc', '_S_out', '_S_app', '_S_trunc', 'noreplace'}
NET_CONNECT = {'connect', 'async_connect', 'async_send_to', 'send_to'}


def mode_bits(P, e):
    """names of the open mode constants an expression mentions, or None when it is not made of constants"""
    names = set()
    for n in P.walk(e):
        if n['k'] == 'ref':
            v = P.vars[n['d']]
            if v.get('st') in ('param', 'local') and not v.get('cx'):
                if v.get('init'):
                    sub = mode_bits(P, v['init'])
                    if sub is None:
                        return None
                    names |= sub
                    continue
                return None
            names.add(v['n'].split('::')[-1] if 'n' in v else v['q'].split('::')[-1])
        elif n['k'] == 'enumc' or n['k'] == 'ecref':
            names.add(str(n.get('n')).split('::')[-1])
    return names


def opened(P, n, cls):
    """verdict for opening a stream: None ok, else the reason"""
    args = n.get('a', [])
    path = [a for a in args if a.get('k') != 'defarg']
    if not path:
        return None
    if cls == 'std::basic_ofstream':
        return 'opens a file for writing'
    mode = args[1] if len(args) > 1 and args[1].get('k') != 'defarg' else None
    if mode is None:
        return None if cls == 'std::basic_ifstream' else 'opens a file for writing'
    names = mode_bits(P, mode)
    if names is None:
        return None
    if names & OUT:
        return 'opens a file with mode ' + '|'.join(sorted(names & OUT))
    return None


def run(ctx):
    P = ctx.P
    roots = [f['id'] for f in P.funcs if f.get('repo') and 'body' in f and not f['q'].startswith('wfa::')]
    via = graph.reachable(P, roots)
    fs = [P.funcs[i] for i in via if 'body' in P.funcs[i] and P.funcs[i].get('repo') and not P.funcs[i]['q'].startswith('wfa::')]
    ctx.cover(fs)
    ctx.count('functions in the call graph', len(fs))
    ext = {}
    for f in fs:
        for part in (f.get('inits'), f.get('body')):
            if part is None:
                continue
            for n in P.walk(part):
                k = n['k']
                if k == 'asm':
                    ctx.ob('no-host-effect', False, P.loc(n['l']), f'{f["q"]} contains inline assembly', key='asm|' + f['q'])
                    continue
                if k in ('ref', 'fref'):
                    g = n.get('f') if isinstance(n.get('f'), dict) else None
                    nm = g.get('n') if g else None
                elif k in ('call', 'ctor'):
                    g = n.get('f')
                    if not isinstance(g, dict):
                        continue
                    nm = g.get('n')
                    if 'f' in g and 'body' in P.funcs[g['f']] and P.funcs[g['f']].get('repo'):
                        continue
                else:
                    continue
                if nm is None:
                    continue
                ctx.count('outgoing calls classified')
                cls, _, meth = nm.rpartition('::')
                why = None
                if nm in BAD:
                    why = f'calls {nm} ({BAD[nm]})'
                elif nm == 'std::filesystem::current_path' and n.get('a') and [a for a in n['a'] if a.get('k') != 'defarg' and P.recname(a['t']) == 'std::filesystem::path']:
                    why = 'changes the working directory'
                elif cls in STREAMS and (meth == 'open' or (k == 'ctor' and [a for a in n.get('a', []) if P.recname(a['t']) not in STREAMS])):
                    why = opened(P, n, cls)
                    why = why and f'{why} ({nm})'
                elif meth in NET_CONNECT and cls and not cls.startswith('webfront') and ('net' in cls or 'socket' in cls):
                    why = f'opens a connection of its own ({nm})'
                e = ext.setdefault(nm, [])
                if why:
                    e.append((why, f, n))
                elif not e:
                    pass
    for nm, bad in sorted(ext.items()):
        if bad:
            why, f, n = bad[0]
            ctx.ob('no-host-effect', False, P.loc(n['l']), f'{f["q"]} {why}; reached through {graph.chain(P, via, f["id"])}', key=f'effect|{nm}|{f["q"]}')
        else:
            ctx.ob('no-host-effect', True, nm, 'no effect on the host', key='effect|' + nm)
