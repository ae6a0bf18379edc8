"""The HTTP server is interpreted from its constructor, driven by an abstract event loop: connections are accepted (alone and next to
another one), requests of every kind (answered with a file, with each error, malformed at several places, two in one read, an upgrade,
an upgrade followed by a frame) arrive in one read or cut in pieces, reads and writes fail with every kind of error at every point,
until no new state appears.  In every state: one read is pending while the request is incomplete, one write of one whole answer once it
is complete or malformed, nothing afterwards; the connection is among the live ones until it ended and not afterwards (unless the
operation was aborted by the server itself); the upgrade handler is called exactly once, with the socket open, when an answer 101 was
written without error, and never otherwise."""
from engine import conn

MINIMUM = 400
ASSUMPTIONS = ['the request grammar itself is C03; requests are representatives of each kind of answer', 'at most two connections at a time; they share no state (C02)']


def run(ctx):
    def obs(rule, ok, text, key, n):
        if ok is False and n is not None and n.st.taint:
            ok = None
        if rule == 'throws':
            ok = True if ok else None      # C16 reports these
        ctx.ob(rule, ok, m.where if m else '?', text, key=key)
        return bool(ok)
    m = None
    m = conn.Machine(ctx, obs)
    m.run()
