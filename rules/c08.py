"""C08: closed is final."""
import inline as inl
from cond import Conds, path_without
from cprop import CProp
from ctrl import Ctrl, is_state_atomic
from flow import lines
from graphm import is_call
from model import tail
from mir import Operand
from sym import show, walk
from c01 import owner_of
from c09 import loc_of

EXPLANATION = ('Who-writes analysis of the shared context state: every atomic write in the program is an update whose closure, evaluated by '
               'constant propagation for the current value "closed", declines the update. The encoding is checked to round-trip, the '
               'renderer leaves the suspended state only where the state update succeeded, and every request the control side sends to '
               'a renderer is behind a branch that excludes the closed state.')
TECHNIQUE = 'who-may-write analysis, constant propagation through update closures, branch-fact (dominance) analysis on inlined MIR'
ASSUMPTIONS = ['Atomic fetch_update applies the value its closure returns for the value that is replaced (standard library contract).']
NOTE = 'All writers of the state in the program, all message handler paths and all senders of state requests, for every interleaving.'
WRITE = {'store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min', 'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_nand',
         'compare_exchange', 'compare_exchange_weak', 'compare_and_swap', 'fetch_update', 'try_update', 'update', 'get_mut', 'as_ptr'}
GOOD = (True, 'Ok', 'Some', 'Continue')
BAD = (False, 'Err', 'None', 'Break')


def states(C):
    return [v['n'] for v in C.p.adts[C.state]['variants']]


def flag_rules(ctx, C, rule):
    """the render thread's own pause flag follows the outcome of state updates"""
    p = ctx.p
    cd = Conds(ctx.sym)
    rt = C.m.render_thread
    bools = {fn for _, fn, ft in p.adt_fields(rt) if ft.s == 'bool'}
    setters = {b.uid for b in C.setters()}
    paths = {b.path for b in C.setters()}

    def outcome(e, v, want):
        return v in want and any(x[0] == 'call' and x[1] in paths for x in walk(e))
    n = 0
    for b in C.inlined_handler():
        for o in b.origin:
            ctx.seen(o)
        key = owner_of(ctx, b.base)
        good = cd.edges_with(b, lambda e, v: outcome(e, v, GOOD))
        bad = cd.edges_with(b, lambda e, v: outcome(e, v, BAD))
        wr = {0: set(), 1: set()}
        for s in b.stmts():
            if s.kind == '=' and s.place.fields() and s.place.fields()[-1][0] in bools and s.place.fields()[-1][1] == rt:
                e = ctx.sym.rvalue(b, s.rv)
                if e[0] == 'const' and e[1] in (0, 1, True, False):
                    wr[int(e[1])].add(s.bb)
                else:
                    # flag = !set_state(..) and the like
                    neg = e[0] == 'un' and e[1] == 'Not'
                    ok = neg and any(x[0] == 'call' and x[1] in paths for x in walk(e))
                    ctx.ob(rule, f'{key}: computed pause flag', ok, b.at(s.bb, s.line), f'the pause flag becomes {show(e)}')
                    n += 1
                    wr[1].add(s.bb)     # on failure
        rets = set(b.return_blocks())
        for x in sorted(wr[0]):
            n += 1
            arm = [v for v, bl in C.arms(b).items() if any(b.dominates(y, x) for y in bl)]
            w = path_without(b, 0, {x}, good)
            ctx.ob(rule, f'{key}: pause flag cleared in {"/".join(arm)}', w is None, b.at(x, b.blocks[x].term.line),
                   'rendering is enabled without the state update having succeeded (a closed context would render)', w and lines(b, w))
        # states set without rendering being paused
        for t in b.calls():
            if t.callee is None or t.callee.uid not in setters:
                continue
            st = C.state_arg(b, t)
            arm = [v for v, bl in C.arms(b).items() if any(b.dominates(y, t.bb) for y in bl)]
            if st in ('Suspended', 'Closed'):
                # the flag is set, or the graph is taken away, on every path through this update
                off = wr[1] | {u.bb for u in b.calls() if is_call(u, 'take', 'replace') and u.args and
                               any(y[0] == 'field' and y[3] == rt and C.gm.mentions_ty(p.field_ty(y[3], y[2]), C.m.graph)
                                   for y in walk(ctx.sym.operand(b, u.args[0])))}
                n += 1
                before = path_without(b, 0, {t.bb}, (), off)
                after = path_without(b, t.bb, rets, (), off)
                w = after if before is not None and after is not None else None
                ctx.ob(rule, f'{key}: {st} in {"/".join(arm)} pauses rendering', w is None, b.at(t.bb, t.line),
                       f'the state becomes {st} but rendering goes on', w and lines(b, w))
            elif st == 'Running' and C.startup_variant() in arm:
                n += 1
                w = None
                cut = {(x, y) for x, y in good}
                if wr[1]:
                    for x in b.succs[t.bb]:
                        w = w or path_without(b, x, rets, cut, wr[1])
                else:
                    w = [t.bb]
                ctx.ob(rule, f'{key}: start-up of a closed context', w is None, b.at(t.bb, t.line),
                       'a context closed before start-up would render', w and lines(b, w))
    ctx.floor(rule, 'writes of the pause flag and state updates in the handler', n, 4)


def run(ctx):
    p, g = ctx.p, ctx.g
    C = Ctrl(ctx)
    cd = Conds(ctx.sym)
    ctx.rule('final-update', 'Every write of the shared state is an update that declines when the current state is closed.')
    ctx.rule('initial-state', 'The shared state starts as suspended.')
    ctx.rule('encoding', 'Every state value read back is the state that was stored.')
    ctx.rule('pause-flag', 'The renderer starts rendering only when its state update succeeded, and pauses whenever it reports suspended '
                           'or closed.')
    ctx.rule('request-guarded', 'State requests are sent to the renderer only on paths on which the context was seen not closed.')
    ctx.rule('message-guarded', 'Ordinary control messages are sent only on paths on which the context was seen not closed.')
    ctx.rule('reported', 'The state reported to the user is the shared state.')
    vs = states(C)
    closed = vs.index('Closed')
    n = 0
    for b in p.bodies.values():
        for t in b.calls():
            if not is_state_atomic(t, WRITE):
                continue
            n += 1
            ctx.seen(b)
            c = t.callee
            ok, msg = False, f'{c.name} can overwrite the closed state'
            if c.name in ('fetch_update', 'try_update'):
                e = ctx.sym.operand(b, t.args[-1])
                cl = p.bodies.get(e[1]) if e[0] == 'closure' else p.bodies.get(e[2]) if e[0] == 'fn' else None
                if cl is not None:
                    ctx.seen(cl)
                    ib = inl.Inliner(p, g, lambda x: True, 4).run(cl)
                    cp = CProp(ib, 0, {(cl.argc,): closed})
                    rets = [r for r in ib.return_blocks() if r in cp.reach]
                    ok = bool(rets)
                    for r in rets:
                        st = cp.flow(r, dict(cp.ent[r]))
                        if st.get((0, '#')) != 'None':
                            ok, msg = False, 'the update is applied when the current state is closed'
                    # and it is not always declined
                    if ok:
                        ok2 = False
                        for v in range(len(vs)):
                            if v == closed:
                                continue
                            cq = CProp(ib, 0, {(cl.argc,): v})
                            for r in ib.return_blocks():
                                if r in cq.reach and cq.flow(r, dict(cq.ent[r])).get((0, '#')) != 'None':
                                    ok2 = True
                        if not ok2:
                            ok, msg = False, 'the update is never applied'
            elif c.name in ('compare_exchange', 'compare_exchange_weak') and len(t.args) > 1:
                e = strip(ctx.sym.operand(b, t.args[1]))
                ok = e[0] == 'const' and e[1] != closed or \
                    any(v is False and x[0] == 'bin' and x[1] == 'Eq' and strip(x[2]) == e and strip(x[3])[0] == 'const' and
                        strip(x[3])[1] == closed for x, v in cd.at(b, t.bb))
            ctx.ob('final-update', f'{owner_of(ctx, b)}: {c.name}', ok, b.loc(t.line), msg)
    ctx.floor('final-update', 'writers of the state', n, 2)
    # initial
    n = 0
    for b in p.bodies.values():
        for t in b.calls():
            if is_state_atomic(t, {'new'}):
                n += 1
                ctx.seen(b)
                v = value(ctx, C, b, t)
                ctx.ob('initial-state', owner_of(ctx, b), v == vs.index('Suspended'), b.loc(t.line), f'the state starts as {v}')
    ctx.floor('initial-state', 'creations of the state', n, 1)
    # encoding
    n = 0
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.lty(0).strip().adt != C.state or b.argc != 1 or b.lty(1).s != 'u8':
            continue
        n += 1
        ctx.seen(b)
        ib = inl.Inliner(p, g, lambda x: True, 3).run(b)
        for i, v in enumerate(vs):
            cp = CProp(ib, 0, {(1,): i})
            got = {cp.flow(r, dict(cp.ent[r])).get((0, '#')) for r in ib.return_blocks() if r in cp.reach}
            ctx.ob('encoding', f'{tail(C.state)} from {i}', got == {v}, b.loc(), f'value {i} is read back as {got}, not {v}')
    ctx.floor('encoding', 'decoders of the state', n, 1)
    # reported: the value returned by the public getter is a load of the state
    n = 0
    for b in p.bodies.values():
        if b.name == 'state' and b.kind != 'Closure' and b.lty(0).adt == C.state and b.argc == 1 and not b.in_trait:
            if any(t.callee is not None and t.callee.name == 'state' for t in b.calls()):
                continue
            n += 1
            ctx.seen(b)
            ib = inl.Inliner(p, g, lambda x: x.lty(0).adt != C.state, 3).run(b)
            e = ctx.sym.local(ib, 0)
            ok = e[0] == 'call' and any(x[0] == 'call' and x[3] == 'load' for x in walk(e)) and \
                sum(1 for x in walk(e) if x[0] == 'agg' and x[1] == C.state) == 0
            ctx.ob('reported', owner_of(ctx, b), ok, b.loc(), f'the reported state is {show(e)}')
    ctx.floor('reported', 'state getters', n, 1)
    flag_rules(ctx, C, 'pause-flag')
    # requests
    req = set(C.notify_variants()) | {C.recycle_variant()}
    sfn = {b.path for b in p.bodies.values() if b.lty(0).adt == C.state and b.kind != 'Closure'}

    def not_closed(e, v):
        """fact that excludes Closed"""
        if e[0] == 'call' and e[3] == 'eq' and len(e[2]) == 2:
            k = [x for x in e[2] if x[0] == 'agg' and x[1] == C.state]
            o = [x for x in e[2] if not (x[0] == 'agg' and x[1] == C.state)]
            if k and o:
                return (k[0][2] == 'Closed') != bool(v)
        if v in vs or v == ('not', 'Closed'):
            return v != 'Closed' and any(x[0] == 'call' and x[1] in sfn for x in walk(e))
        return False
    n = 0
    for b, s, v in C.built(req):
        n += 1
        ctx.seen(b)
        ib = keep_inline(ctx, C, b)
        sites = {x.bb for x in ib.stmts() if x.kind == '=' and x.rv.k == 'agg' and x.rv.agg.get('adt') == C.enum and x.rv.agg.get('var') == v}
        w = path_without(ib, 0, sites, cd.edges_with(ib, not_closed))
        ctx.ob('request-guarded', f'{owner_of(ctx, b)} {g.root_fn(b).name}: {v}', w is None, b.loc(s.line),
               f'{v} is sent to the renderer without checking that the context is not closed', w and lines(ib, w))
    ctx.floor('request-guarded', 'requests', n, 6)
    # generic sender: function that takes a message by value and sends it, used for ordinary messages
    n = 0
    for b in p.bodies.values():
        if b.kind == 'Closure' or not any(b.lty(i).adt == C.enum for i in range(1, b.argc + 1)):
            continue
        callers = [e.src for e in g.rev[b.uid]]
        msgs = {v for x in callers for bb, s, v in built_in(C, x)}
        if not msgs or msgs & req:
            continue
        ib = keep_inline(ctx, C, b)
        sends = {t.bb for t in ib.calls() if C.is_send(ib, t)}
        if not sends:
            continue
        n += 1
        ctx.seen(b)
        w = path_without(ib, 0, sends, cd.edges_with(ib, not_closed))
        ctx.ob('message-guarded', owner_of(ctx, b), w is None, b.loc(), 'control messages are sent although the context may be closed',
               w and lines(ib, w))
    ctx.floor('message-guarded', 'senders of ordinary messages', n, 1)


def keep_inline(ctx, C, b):
    """inline local helpers but keep state getters and comparisons as calls"""
    memo = ctx.cur.__dict__.setdefault('_c08_inl', {})
    if b.uid not in memo:
        memo[b.uid] = inl.Inliner(ctx.p, ctx.g, lambda x: x.lty(0).adt != C.state and x.name not in ('eq', 'ne') and
                                  not C.takes_state(x), 3).run(b)
    return memo[b.uid]


def built_in(C, body):
    for s in body.stmts():
        if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == C.enum:
            yield body, s, s.rv.agg.get('var')


def strip(e):
    while e[0] == 'cast':
        e = e[1]
    return e


def value(ctx, C, b, t):
    e = strip(ctx.sym.operand(b, t.args[0]))
    if e[0] == 'const' and isinstance(e[1], int):
        return e[1]
    if e[0] == 'discr':
        e = e[1]
    if e[0] == 'agg' and e[1] == C.state:
        return states(C).index(e[2])
    return None
