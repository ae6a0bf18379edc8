"""The sinks that links register for the log are found by interpreting a link on a message of arbitrary content, and each is interpreted
on a line of arbitrary length and content (longer than a message can hold included), through the encoding and the start of the write.
No path may log: a line logged while a line is being forwarded is forwarded again, by the same sink, and so on without end, which
stops the process of every server that logs at that level as soon as one client is linked.  Every logging front end and every direct
use of the sinks counts, on every path, enabled or not.  The completion of the write that forwarded a line is interpreted too: a write
that succeeded logs nothing, and after one failed and was reported the failure of the next, which forwarding that report started, is
not reported again.  (Otherwise every report starts a write whose failure is the next report.)"""
from engine.run import *
from engine import outgoing, witness
from engine.num import of, sym

MINIMUM = 3
ASSUMPTIONS = ['an asynchronous write completes later, on the event loop, never inside the call that starts it']


def run(ctx):
    P = ctx.P
    L = outgoing.LinkMessages(P)
    I = L.I
    ctx.interp(I)
    if not L.sinks:
        ctx.ob('forward', None, L.where, 'no sink forwards lines to the client', key='none')
    for n, (x, line, base, outs) in enumerate(L.sinks):
        for i, o in enumerate(outs):
            logged(ctx, I, o, base, L.where, 'forwarding a log line', f'{n}|{i}')
            if o.kind == 'throw':
                continue
            for j, r in enumerate(completed(I, o.st, base, 0)):
                logged(ctx, I, r, len(o.st.events), L.where, 'a forwarded line that was written', f'{n}|{i}|ok{j}')
            for j, r in enumerate(completed(I, o.st, base, 1)):
                if r.kind == 'throw':
                    continue
                b2 = len(r.st.events)
                for k, o2 in enumerate(I.explore(lambda: I.invoke(L.forward[n][0], [(L.forward[n][1], False)]), r.st)):
                    if o2.kind == 'throw':
                        continue
                    for m, r2 in enumerate(completed(I, o2.st, b2, 1)):
                        logged(ctx, I, r2, len(o2.st.events), L.where, 'a forwarded line whose write failed after another had failed', f'{n}|{i}|fail{j}|{k}|{m}')
        if not outs:
            ctx.ob('forward', None, L.where, 'no path of the sink is resolved', key=f'{n}')


def completed(I, st, base, failed):
    """outcomes of the completion of the last write started since base"""
    ws = [e for e in st.events[base:] if e.kind == 'net.write']
    if not ws:
        return []
    ec = Rec('std::error_code', {'v': of(sym(('failure', len(st.events)), 1, 200)) if failed else 0})
    n = of(sym(('written', len(st.events)), 0, 1 << 20))
    return I.explore(lambda: I.invoke(ws[-1].a['handler'], [(ec, False), (n, False)]), st)


def logged(ctx, I, o, base, where, what, key):
    logs = [e for e in o.st.events[base:] if e.kind == 'log']
    sav, I.st = I.st, o.st
    try:
        ok = True if not logs else False if not o.st.taint and witness.feasible(I) is True else None
    finally:
        I.st = sav
    ctx.ob('forward', ok, (logs[0].where if logs else None) or where, what + (': nothing is logged' if not logs else f': a line is logged at level {logs[0].a.get("level")}, which is forwarded to the same client again'), key=key)
