"""C04: lock order, re-locking, user code under a lock, waits that close a cycle."""
import re

import locks
from effects import norm
from c01 import slot_ok
from model import Model, tail

EXPLANATION = ('Lock-guard liveness on the MIR of every function (which guards may be live at each call and drop) combined with '
               'interprocedural summaries of what a call may do: acquire a lock, run user-supplied code, wait on a channel. '
               'Obligations: every ordered pair of locks held together, every call made with a lock held, every wait of '
               'control-side code against what the thread on the other end of the channel does.')
TECHNIQUE = 'lock-order and wait-for analysis over guard liveness and call-graph summaries'
ASSUMPTIONS = ['A lock is identified by the type and field that own it; two instances of one type are treated as one lock, '
               'except through a user-supplied iterator.',
               'Channels are identified by their element type.',
               'Application code in AudioProcessor callbacks and iterators does not call back into the context.']
NOTE = ('Covers std locks, channels and callbacks of the crate for all interleavings; does not model locks inside external '
        'crates or deadlocks between application locks and the library.')

RECV = {'recv', 'try_recv', 'recv_timeout', 'recv_deadline', 'iter', 'try_iter', 'into_iter'}
SEND = {'send', 'try_send', 'send_timeout', 'send_deadline'}


def elem(ty):
    return re.sub(r"(?:[A-Za-z_0-9]+::)+", '', ty.s)


def pat(s):
    """type string with bare type parameters as wildcards"""
    return re.compile(re.sub(r'\b[A-Z]\b', '.+', re.escape(s)) + '$')


def chan_calls(p):
    """element type -> {'recv': bodies, 'send': bodies}"""
    out = {}
    for b in p.bodies.values():
        for t in b.calls():
            c = t.callee
            if c is None or c.krate not in ('crossbeam_channel', 'std'):
                continue
            n = norm(c.path)
            st = c.self_ty.strip() if c.self_ty is not None else None
            if st is None or st.k != 'adt' or not st.args:
                # inherent method: generic argument 0 of the path
                if not c.args or not re.search(r'(Receiver|Sender)', n):
                    continue
                e, holder = elem(c.args[0]), n
            else:
                e, holder = elem(st.args[0]), st.adt
            if 'Receiver' in holder and c.name in RECV:
                out.setdefault(e, {}).setdefault('recv', set()).add(b.uid)
            elif 'Sender' in holder and c.name in SEND:
                out.setdefault(e, {}).setdefault('send', set()).add(b.uid)
    return out


def run(ctx):
    p, g, guards = ctx.p, ctx.g, ctx.guards
    m = Model(p)
    S = locks.Summaries(ctx.cur)
    ctx.rule('lock-order', 'The relation "lock B may be acquired while lock A is held" has no cycle and no lock is acquired again '
                           'by a thread holding it.')
    ctx.rule('callback-under-lock', 'No user-supplied callback or iterator is run, and no user-supplied callback destroyed, while '
                                    'a lock guard is live.')
    ctx.rule('wait-under-lock', 'No thread waits with a lock held for a thread that acquires this lock, awaits a future with a '
                                'lock held, or runs user callbacks.')
    ctx.rule('wait-cycle', 'Control-side code (which user callbacks may call) never waits for a thread that runs user callbacks '
                           'or itself waits for one that does.')
    order = {}
    nlocks, nheld = set(), 0
    chans = chan_calls(p)
    roots = []
    for b in p.bodies.values():
        for e in g.edges(b):
            if e.kind in ('spawn', 'callback') and e.dst is not None:
                roots.append(e.dst)
    rreach = {r.uid: g.reach([r]) for r in roots}

    def peers(reason, el):
        side = 'recv' if 'capacity' in reason else 'send'
        rx = pat(el)
        out = set()
        for k, v in chans.items():
            if k == el or rx.match(k) or pat(k).match(el):
                out |= v.get(side, set())
        return [r for r in roots if any(u in rreach[r.uid] for u in out)]

    ctors = {}
    for b in p.bodies.values():
        for t in b.calls():
            if t.callee is not None and t.callee.krate.startswith('crossbeam') and t.callee.name in ('bounded', 'unbounded') and t.callee.args:
                ctors.setdefault(elem(t.callee.args[0]), set()).add(t.callee.name)

    def unbounded(el):
        return ctors.get(el) == {'unbounded'}

    def runs_callbacks(r):
        return {f for f in S.trans('user', r) if 'callback' in f}

    def waits_for_callbacks(r):
        for (reason, el) in S.trans('wait', r):
            if el == tail(m.event_enum) and 'capacity' in reason:
                return el
        return None

    for b in p.bodies.values():
        for t in S.sites(b):
            acq = S.direct_acquire(b, t)
            if acq:
                nlocks.add(acq)
            live = guards.live_at_call(b, t.bb)
            if not live:
                continue
            ctx.seen(b)
            nheld += 1
            for f, (chain, loc) in S.at_site('acquire', b, t).items():
                for h in live:
                    order.setdefault((h, f), (b, t, chain, loc))
            for h in live:
                us = S.at_site('user', b, t)
                if not us:
                    ctx.ob('callback-under-lock', f'{h}: {owner(ctx, b)}', True, b.loc(t.line))
                for f, (chain, loc) in us.items():
                    ctx.ob('callback-under-lock', f'{h}: {short_user(f)}', False, b.loc(t.line),
                           f'{f} while {h} is locked', list(chain) + [loc])
                for (reason, el), (chain, loc) in S.at_site('wait', b, t).items():
                    bad = None
                    if reason.startswith('awaits'):
                        bad = 'the guard is held across an await point'
                    for r in peers(reason, el):
                        if h in S.trans('acquire', r):
                            bad = f'the thread at the other end ({r.path}) may acquire {h}'
                        elif runs_callbacks(r):
                            bad = f'the thread at the other end ({r.path}) runs user callbacks, which may need {h}'
                    ctx.ob('wait-under-lock', f'{h} held while: {reason} {el}', bad is None, b.loc(t.line),
                           f'{reason} of {el} while {h} is locked: {bad}', list(chain) + [loc])
    # a guard held across an await
    # lock order
    for (a, c), (b, t, chain, loc) in sorted(order.items()):
        cyc = [c] if a == c else find_path(order, c, a)
        ctx.ob('lock-order', f'{a} -> {c}', cyc is None, b.loc(t.line),
               f'{c} is acquired while {a} is held' + (' (same lock)' if a == c else
               f', and elsewhere {" -> ".join(cyc or [])} is acquired in that order'), list(chain) + [loc])
    # waits of control-side code
    api = g.reach([b for b in p.bodies.values() if b.public and b.kind != 'Closure'])
    nw = 0
    for u in api:
        b = p.bodies[u]
        for t in S.sites(b):
            reason = S.direct_wait(b, t)
            if not reason or t.k != 'call' or 'channel' not in reason:
                continue
            el = S._wait_subject(b, t)
            nw += 1
            bad = None
            if unbounded(el) and 'capacity' in reason or any(slot_ok(ctx, m, b, e) for e in g.edges(b) if e.site is t and e.callee is not None):
                ctx.ob('wait-cycle', f'{owner(ctx, b)} {reason} {el}', True, b.loc(t.line))
                continue
            for r in peers(reason, el):
                if runs_callbacks(r):
                    bad = f'{r.path} runs user callbacks'
                elif waits_for_callbacks(r):
                    bad = f'{r.path} itself waits for the event thread'
            ctx.ob('wait-cycle', f'{owner(ctx, b)} {reason} {el}', bad is None, b.loc(t.line),
                   f'{reason} of {el} on a thread that may be running a user callback; the other end: {bad}', g.chain(api, u))
    ctx.floor('lock-order', 'locks', len(nlocks), 8)
    ctx.floor('callback-under-lock', 'calls made with a lock held', nheld, 20)
    ctx.floor('wait-cycle', 'waits in control-side code', nw, 4)


def owner(ctx, b):
    from c01 import owner_of
    return owner_of(ctx, b)


def short_user(f):
    return re.sub(r"(?:[A-Za-z_0-9]+::)+", '', f)


def find_path(order, a, b):
    """path a -> ... -> b in the held-while-acquiring relation"""
    prev = {a: None}
    st = [a]
    while st:
        x = st.pop()
        if x == b:
            out = []
            while x is not None:
                out.append(x)
                x = prev[x]
            return out[::-1]
        for (u, v) in order:
            if u == x and v not in prev:
                prev[v] = x
                st.append(v)
    return None
