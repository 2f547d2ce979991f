"""C07: every suspend, resume and close request is answered."""
import inline as inl
from cond import Conds, path_without
from flow import lines
from graphm import GraphModel, is_call
from model import mentions, tail
from sym import show, walk
from c01 import owner_of
from c06 import Msgs, param_of, moved_msg
from c08 import keep_inline
from c09 import rt_roots, online_roots

EXPLANATION = ('On the inlined message handler every path through the arm of a request passes exactly one acknowledgement, after the '
               'state update that belongs to the request, with no state or pause write behind it. On the API side each request is built only '
               'where the renderer was seen running, starting up or has just been woken, is handed to a function that sends (never stages) '
               'it, uses a channel with room for the answer, and is followed by the wait for that answer. Every device callback reads '
               'messages before anything else.')
TECHNIQUE = 'path (exactly-once, must-pass) and branch-fact analysis on inlined MIR; guard liveness; symbolic channel pairing'
NOTE = ('All requests, all handler paths. Two asynchronous requests that overlap are covered by the atomicity rule, whose two violations '
        'are recorded as known findings.')


def is_unit_sender(ty):
    return ty is not None and ty.adt is not None and tail(ty.adt) == 'Sender' and ty.args and ty.args[0].s == '()'


def is_ack(t):
    return is_call(t, 'send', 'try_send') and t.callee.self_ty is not None and is_unit_sender(t.callee.self_ty.strip())


def want(fn):
    """state a public request leads to, from the name of the API function"""
    for k, v in (('suspend', 'Suspended'), ('resume', 'Running'), ('close', 'Closed')):
        if fn.startswith(k):
            return v
    return None


def run(ctx):
    p, g = ctx.p, ctx.g
    C = Msgs(ctx)
    cd = Conds(ctx.sym)
    ctx.rule('answered-once', 'Each path through the handler of a request sends exactly one acknowledgement.')
    ctx.rule('after-effect', 'The acknowledgement follows the state update of the request; nothing about the state changes after it.')
    ctx.rule('sent-directly', 'A request is put into the channel on every path, never staged.')
    ctx.rule('room-for-answer', 'The channel for the answer has room for it.')
    ctx.rule('serviced', 'A request is only made when the renderer was seen running or starting up, or has just been woken up.')
    ctx.rule('no-gap', 'Between starting up and running there is no moment at which a request is refused.')
    ctx.rule('waits', 'After the request the function waits for the answer of this very request.')
    ctx.rule('atomic-request', 'Checking the state and sending the request happen with the output device lock held.')
    ctx.rule('messages-first', 'Each device callback handles pending messages whether or not the context is suspended.')
    nv = C.notify_variants()
    built = {}
    for b, s, v in C.built(set(nv)):
        built.setdefault(v, []).append((b, s))
    ctx.floor('answered-once', 'requests', len(nv), 3)

    # ---- handler
    setters = {b.uid for b in C.setters()}
    rt = C.m.render_thread
    bools = {fn for _, fn, ft in p.adt_fields(rt) if ft.s == 'bool'}
    n = 0
    for b in C.inlined_handler():
        for o in b.origin:
            ctx.seen(o)
        arms = C.arms(b)
        rets = set(b.return_blocks())
        acks = {t.bb for t in b.calls() if is_ack(t)}
        sets = {t.bb: C.state_arg(b, t) for t in b.calls() if t.callee is not None and t.callee.uid in setters}
        flags = {s.bb for s in b.stmts() if s.kind == '=' and s.place.fields() and s.place.fields()[-1][1] == rt and s.place.fields()[-1][0] in bools}
        for v in nv:
            states = {want(g.root_fn(x).name) for x, _ in built.get(v, [])} - {None}
            for a in sorted(arms.get(v, ())):
                n += 1
                reach = b.reachable(a)
                mine = {x for x in acks if x in reach and any(y[0] == 'dc' and y[2] == v for y in walk(ctx.sym.operand(b, b.blocks[x].term.args[0])))}
                w = path_without(b, a, rets, (), mine) if a not in mine else None
                ctx.ob('answered-once', f'{v}: answered', w is None and bool(mine), b.at(a, 0), f'a {v} request is not answered on this path: the caller waits forever', w and lines(b, w))
                for x in sorted(mine):
                    more = [y for y in mine if any(y in b.reachable(s) for s in b.succs[x])]
                    ctx.ob('answered-once', f'{v}: once', not more, b.at(x, 0), f'a {v} request is answered twice')
                    own = {y for y, st in sets.items() if st in states}
                    w = path_without(b, a, {x}, (), own) if a not in own else None
                    ctx.ob('after-effect', f'{v}: state first', w is None and bool(own) and len(states) == 1, b.at(x, 0),
                           f'{v} is answered before the state became {"/".join(sorted(states))}', w and lines(b, w))
                    late = [y for y in set(sets) | flags if y != x and any(y in b.reachable(s) for s in b.succs[x])]
                    ctx.ob('after-effect', f'{v}: nothing after', not late, b.at(x, 0), f'{v} is answered before its effects are complete')
        # start-up: the pending flag is lowered after the state is set
        sv = C.startup_variant()
        low = {t.bb for t in b.calls() if is_call(t, 'store', 'swap') and t.callee.self_ty is not None and 'AtomicBool' in t.callee.self_ty.s or
               is_call(t, 'store') and t.callee.self_ty is not None and t.callee.self_ty.strip().s.endswith('Atomic<bool>')}
        for a in sorted(arms.get(sv, ())):
            mine = low & b.reachable(a)
            run_ = {y for y, st in sets.items() if st == 'Running'}
            for x in sorted(mine):
                w = path_without(b, a, {x}, (), run_) if a not in run_ else None
                ctx.ob('no-gap', f'{sv}: running before the start-up flag is cleared', w is None, b.at(x, 0),
                       'the start-up flag is cleared before the state is running: a suspend request in between is ignored', w and lines(b, w))
            ctx.floor('no-gap', 'start-up flag', len(mine), 1)
    ctx.floor('answered-once', 'handled requests', n, 3)

    # ---- senders of requests
    senders = C.senders()
    uid2s = {b.uid: (b, ib, vs) for b, ib, vs in senders}
    n = 0
    for b, ib, vs in senders:
        if not vs & set(nv):
            continue
        n += 1
        ctx.seen(b)
        arg = ('arg', param_of(b, C))
        own = {t.bb for t in ib.calls() if C.is_send(ib, t) and moved_msg(ctx, ib, t)[:2] == arg}
        fail = cd.edges_with(ib, lambda e, v: v in (False, 'Err') and any(x[0] == 'call' and x[3] == 'send' for x in walk(e)))
        w = path_without(ib, 0, set(ib.return_blocks()), fail, own)
        ctx.ob('sent-directly', f'{owner_of(ctx, b)} {b.name}', w is None and bool(own), b.loc(), 'a request is not sent on this path', w and lines(ib, w))
        st = [t for t in ib.calls() if is_call(t, 'push', 'push_back', 'insert') and moved_msg(ctx, ib, t)[:2] == arg]
        ctx.ob('sent-directly', f'{owner_of(ctx, b)} {b.name}: not staged', not st, b.loc(), 'a request is put aside instead of being sent')
    ctx.floor('sent-directly', 'functions that send requests', n, 1)

    # ---- API side
    bt = C.m.backend_trait
    for v, sites in sorted(built.items()):
        for b, s in sites:
            ctx.seen(b)
            r = g.root_fn(b)
            key = f'{tail(r.self_ty.adt) if r.self_ty is not None and r.self_ty.adt else ""}.{r.name}: {v}'
            ib = keep_inline(ctx, C, b)
            site = {x.bb for x in ib.stmts() if x.kind == '=' and x.rv.k == 'agg' and x.rv.agg.get('adt') == C.enum and x.rv.agg.get('var') == v}
            st = want(r.name)
            ctx.ob('after-effect', f'{key}: request kind', st is not None, b.loc(s.line), 'the function makes a request of unknown kind')

            def seen_running(e, val):
                if e[0] == 'call' and e[3] == 'eq' and val is True:
                    return any(x[0] == 'agg' and x[1] == C.state and x[2] == 'Running' for x in e[2])
                if val == 'Running' and any(x[0] == 'call' and returns_state(p, C, x) for x in walk(e)):
                    return True
                return e[0] == 'call' and e[3] == 'load' and val is True
            edges = cd.edges_with(ib, seen_running)
            woken = {t.bb for t in ib.calls() if is_call(t, 'resume') and t.callee.trait == bt}
            refused = cd.edges_with(ib, lambda e, val: val in ('Err', False) and any(x[0] == 'call' and x[3] == 'resume' for x in walk(e)))
            w = path_without(ib, 0, site, edges, woken)
            # waking must have succeeded
            for e0 in refused:
                w = w or path_without(ib, e0[1], site, edges)
            ctx.ob('serviced', key, w is None, b.loc(s.line), 'the renderer may not be running: nobody answers this request', w and lines(ib, w))
            # pairing of answer channel and wait
            no = C.notify_ty()
            aggs = [x for x in ib.stmts() if x.kind == '=' and x.rv.k == 'agg' and x.rv.agg.get('adt') == no]
            for x in aggs:
                e = ctx.sym.operand(ib, x.rv.ops[0])
                ch = [y for y in walk(e) if y[0] == 'call' and y[3] in ('bounded', 'channel', 'unbounded', 'sync_channel')]
                if not ch:
                    ctx.ob('room-for-answer', key, False, b.loc(x.line), f'the answer goes to {show(e)}, not to a channel made for this request')
                    continue
                cap = ch[0][2][0] if ch[0][2] else None
                ok = ch[0][3] in ('channel', 'unbounded') or cap is not None and cap[0] == 'const' and isinstance(cap[1], int) and cap[1] >= 1
                ctx.ob('room-for-answer', key, ok, b.loc(x.line), f'the channel for the answer has capacity {show(cap) if cap else "?"}: the answer is lost')
                waits = {t.bb for t in ib.calls() if is_call(t, 'recv', 'into_future', 'recv_timeout', 'recv_deadline', 'poll') and t.args and
                         any(y[:4] == ch[0][:4] and y[4] == ch[0][4] for y in walk(ctx.sym.operand(ib, t.args[0])) if y[0] == 'call')}
                for q in site:
                    w = path_without(ib, q, set(ib.return_blocks()), (), waits)
                    ctx.ob('waits', key, w is None and bool(waits), b.loc(x.line), 'the function returns without waiting for the request to be carried out', w and lines(ib, w))
                sent = [t for t in ib.calls() if C.is_send(ib, t) or t.callee is not None and t.callee.uid in uid2s]
                for t in sent:
                    for q in waits:
                        if t.bb in site or any(t.bb in ib.reachable(z) for z in site):
                            w = path_without(ib, q, {t.bb})
                            ctx.ob('waits', f'{key}: after sending', w is None, b.loc(t.line), 'the function waits for the answer before it sends the request', w and lines(ib, w))
            # atomicity
            bm = lambda h: any('backend' in k.lower() or backend_lock(p, C, k) for k in h)
            sends = [t for t in ib.calls() if C.is_send(ib, t) and any(t.bb in ib.reachable(z) for z in site)]
            gets = [t for t in ib.calls() if t.callee is not None and returns_state_callee(p, C, t.callee) and any(z in ib.reachable(t.bb) for z in site)]
            held = bool(sends) and bool(gets) and all(bm(ctx.guards.live_at_call(ib, t.bb)) for t in sends + gets[-1:])
            ctx.ob('atomic-request', key, held, b.loc(s.line),
                   'the state is checked and the request sent without the device lock: another request can stop the renderer in between')
            # reading order of flag and state
            loads = [t for t in ib.calls() if is_call(t, 'load') and 'bool' in (t.callee.self_ty.s if t.callee.self_ty is not None else '').lower() and any(z in ib.reachable(t.bb) for z in site)]
            for t in loads:
                late = [u for u in gets if not ib.dominates(t.bb, u.bb)]
                ctx.ob('no-gap', f'{key}: flag read before the state', not late, b.loc(t.line), 'the state is read before the start-up flag: a request in between is refused although the context starts')
    # ---- messages first
    gm = GraphModel(ctx)
    roots, _ = rt_roots(ctx, gm)
    onl = online_roots(ctx, roots)
    n = 0
    for b in roots:
        if b.uid not in onl:
            continue
        n += 1
        ctx.seen(b)
        ib = inl.Inliner(p, g, lambda x: x.self_ty is None or x.self_ty.strip().adt == rt, 4).run(b)
        rec = {t.bb for t in ib.calls() if t.callee is not None and t.callee.name in ('try_recv', 'recv', 'try_iter') and t.callee.krate == 'crossbeam_channel' and
               t.callee.self_ty is not None and t.callee.self_ty.strip().args and C.is_msg(t.callee.self_ty.strip().args[0])}
        gone = cd.edges_with(ib, lambda e, v: (v == 'None' or e[0] == 'call' and e[3] == 'is_some' and v is False) and
                             any(x[0] == 'field' and x[3] == rt and mentions(p.field_ty(rt, x[2]), lambda t: t.adt is not None and tail(t.adt) == 'Receiver')
                                 for x in walk(e)))
        # a buffer that is filled with what is left of the previous quantum ends within this quantum
        gone |= cd.edges_with(ib, lambda e, v: v == 'Some' and any(
            x[0] == 'field' and x[3] == rt and mentions(p.field_ty(rt, x[2]), lambda t: t.adt is not None and tail(t.adt) == 'AudioRenderQuantum') for x in walk(e)))
        w = path_without(ib, 0, set(ib.return_blocks()), gone, rec)
        ctx.ob('messages-first', owner_of(ctx, b), w is None and bool(rec), b.loc(), 'a device callback can finish without looking at pending requests', w and lines(ib, w))
    ctx.floor('messages-first', 'device callbacks', n, 1)


def returns_state(p, C, x):
    return any(b.lty(0).adt == C.state for b in p.by_path.get(x[1], [])) if hasattr(p, 'by_path') and isinstance(p.by_path, dict) else x[3] == 'state'


def returns_state_callee(p, C, c):
    b = p.bodies.get(c.uid)
    return b is not None and b.lty(0).adt == C.state and b.argc == 1


def backend_lock(p, C, k):
    a, _, f = k.partition('.')
    for adt in p.adts:
        if tail(adt) == a:
            for _, fn, ft in p.adt_fields(adt):
                if fn == f and mentions(ft, lambda t: t.k == 'dyn' and C.m.backend_trait in t.d.get('traits', [])):
                    return True
    return False
