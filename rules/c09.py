"""C09: the clock advances one quantum per rendered quantum."""
import inline as inl
from cond import Conds, path_without
from flow import lines
from graphm import GraphModel, is_call, KEEP_OUT
from model import mentions, tail
from sym import show, walk
from c01 import owner_of

EXPLANATION = ('Who-writes analysis of the shared frame counter over the whole program, path analysis on the inlined MIR of every '
               'rendering entry point (counter increment and graph rendering strictly alternate; on online contexts each increment is '
               'preceded, since messages were last handled, by the not-suspended and graph-active branches), and expression agreement of '
               'frame, time and sample rate in the scope handed to processors.')
TECHNIQUE = 'who-may-write, alternation (typestate) and branch-fact analysis on inlined MIR; symbolic expression agreement'
ASSUMPTIONS = ['Floating point division of frame by rate is performed in f64, as written.']
NOTE = 'All writers of the counter in the program and all paths of each rendering entry point; no numeric execution.'
MUT = {'store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_update', 'fetch_max', 'fetch_min', 'fetch_and', 'fetch_or', 'fetch_xor',
       'compare_exchange', 'compare_exchange_weak', 'compare_and_swap', 'get_mut', 'as_ptr', 'update', 'try_update', 'fetch_nand'}


def rt_roots(ctx, gm):
    """bodies of the render thread (methods, coroutines) that render and are not called by other methods of it"""
    p, g, m = ctx.p, ctx.g, gm.m
    ents = {b.uid for b in gm.render_entries()}
    can = g.can_reach(ents)
    cand = []
    for b in p.bodies.values():
        r = g.root_fn(b)
        if r.self_ty is None or r.self_ty.strip().adt != m.render_thread or b.uid not in can or b.uid in ents:
            continue
        if b.kind == 'Closure' and not b.is_coroutine:
            continue
        if b.is_async:
            continue
        cand.append(b)
    inner = set()
    for b in cand:
        inner |= set(g.reach([b])) - {b.uid}
    return [b for b in cand if b.uid not in inner], ents


def run(ctx):
    p, g = ctx.p, ctx.g
    gm = GraphModel(ctx)
    m = gm.m
    cd = Conds(ctx.sym)
    ctx.rule('counter-writers', 'The shared frame counter is written only by adding one render quantum on the render thread.')
    ctx.rule('one-to-one', 'Counter increments and graph rendering alternate strictly on every path.')
    ctx.rule('gated', 'On online contexts an increment is reached only through the not-suspended and graph-active branches, evaluated '
                      'after control messages were last handled.')
    ctx.rule('scope-agrees', 'The scope given to processors carries the counter value before the increment, the render thread\'s sample '
                             'rate, and frame divided by that rate as time.')
    ctx.rule('clock-starts-at-zero', 'The counter is created as zero and shared between the context and its render thread.')
    ctx.rule('time-is-frame-over-rate', 'The current time reported by the context is the counter divided by the sample rate.')
    # the counter fields: u64 atomics of the render thread struct
    rt = m.render_thread
    cf = [(rt, fn) for _, fn, ft in p.adt_fields(rt) if is_u64(ft.peel())]
    ctx.floor('counter-writers', 'frame counter field', len(cf), 1)
    holders = set()       # every struct field of the same shared type
    for a in p.adts.values():
        for _, fn, ft in p.adt_fields(a['path']):
            if ft.adt and tail(ft.adt) == 'Arc' and is_u64(ft.args[0]):
                holders.add((a['path'], fn))
    ctx.floor('counter-writers', 'holders of the counter', len(holders), 2)
    # in this crate the clock is the only Arc<AtomicU64>; any atomic op on a value of that type is subject
    writers = []
    for b in p.bodies.values():
        for t in b.calls():
            c = t.callee
            if c is None or c.name not in MUT or not t.args or c.self_ty is None or not is_u64(c.self_ty.strip()):
                continue
            e = ctx.sym.operand(b, t.args[0])
            f = [x for x in walk(e) if x[0] == 'field' and (x[3], x[2]) in holders]
            ty = gm.op_ty(b, t.args[0])
            if not f and not (e[0] in ('up', 'arg') and arc_typed(ctx, b, t, e)):
                continue
            ctx.seen(b)
            ok = c.name == 'fetch_add' and g.root_fn(b).self_ty is not None and g.root_fn(b).self_ty.strip().adt == rt and \
                is_quantum(ctx.sym.operand(b, t.args[1]))
            writers.append((b, t))
            ctx.ob('counter-writers', f'{owner_of(ctx, b)}: {c.name}', ok, b.loc(t.line),
                   f'the frame counter is changed by {c.name}({show(ctx.sym.operand(b, t.args[1])) if len(t.args) > 1 else ""})')
    ctx.floor('counter-writers', 'increments', len(writers), 1)
    # alternation
    roots, ents = rt_roots(ctx, gm)
    ctx.floor('one-to-one', 'rendering entry points of the render thread', len(roots), 3)
    graphadt = m.graph

    def pred(b):
        st = b.self_ty
        return not (st is not None and st.strip().adt and (st.strip().adt == graphadt or tail(st.strip().adt) in KEEP_OUT)) \
            and b.uid not in ents
    memo = ctx.cur.__dict__.setdefault('_rt_inl', {})
    online = online_roots(ctx, roots)
    for r in roots:
        if r.uid not in memo:
            memo[r.uid] = inl.Inliner(p, g, pred, 6).run(r)
        b = memo[r.uid]
        for o in b.origin:
            ctx.seen(o)
        name = f'{owner_of(ctx, r)} {ctx.g.root_fn(r).name}'
        A = {t.bb for t in b.calls() if is_call(t, 'fetch_add') and t.callee.self_ty is not None and is_u64(t.callee.self_ty.strip())
             and any(x[0] == 'field' and (x[3], x[2]) in holders for x in walk(ctx.sym.operand(b, t.args[0])))}
        G = {t.bb for t in b.calls() if t.callee is not None and t.callee.uid in ents}
        rets = set(b.return_blocks())
        w = None
        for a in A:
            for s in b.succs[a]:
                w = w or path_without(b, s, A | rets, through=G)
        ctx.ob('one-to-one', f'{name}: increment without rendering', w is None, loc_of(b, w), 'the clock advances but the graph is not rendered', w and lines(b, w))
        w = path_without(b, 0, G, through=A)
        for x in G:
            for s in b.succs[x]:
                w = w or path_without(b, s, G, through=A)
        ctx.ob('one-to-one', f'{name}: rendering without increment', w is None, loc_of(b, w), 'a quantum is rendered without advancing the clock', w and lines(b, w))
        ctx.floor('one-to-one', f'increment and render sites in {name}', min(len(A), len(G)), 1)
        # gating
        if r.uid in online:
            bools = {fn for _, fn, ft in p.adt_fields(rt) if ft.s == 'bool'}
            gf = {fn for _, fn, ft in p.adt_fields(rt) if ft.adt and tail(ft.adt) == 'Option' and ft.args[0].adt == graphadt}
            susp = cd.edges_with(b, lambda e, v: v is False and e[0] == 'field' and e[2] in bools and e[3] == rt)
            act = cd.edges_with(b, lambda e, v: v is True and e[0] == 'call' and
                                any(x[0] == 'field' and x[2] in gf and x[3] == rt for x in walk(e)) and
                                any(x[0] == 'fn' and is_graph_bool(p, x) for x in walk(e)) or
                                v is True and e[0] == 'call' and any(y.self_ty is not None and y.self_ty.adt == graphadt for y in p.by_path.get(e[1], [])))
            recv = [t.bb for t in b.calls() if is_call(t, 'try_recv', 'recv', 'try_iter', 'recv_timeout') and
                    mentions(gm.op_ty(b, t.args[0]) or b.lty(0), lambda x: x.adt == m.ctrl_enum)]
            ctx.floor('gated', f'message reception in {name}', len(recv), 1)
            for what, cut in (('not suspended', susp), ('graph active', act)):
                w = path_without(b, 0, A, cut)
                for x in recv:
                    w = w or path_without(b, x, A, cut)
                ctx.ob('gated', f'{name}: {what}', w is None, loc_of(b, w),
                       f'the clock can advance without checking that the context is {what} after the last handled message', w and lines(b, w))
    from ctrl import Ctrl
    from c08 import flag_rules
    ctx.rule('pause-flag', 'The renderer starts rendering only when its state update succeeded, and pauses whenever it reports suspended '
                           'or closed.')
    flag_rules(ctx, Ctrl(ctx), 'pause-flag')
    # scopes
    def scopes(b):
        return [s for s in b.stmts() if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == m.scope and s.bb in b.live_blocks]
    made = {b.uid for b in p.bodies.values() if scopes(b)}
    todo, covered = [], set()
    for r in roots:
        b = memo[r.uid]
        covered |= {b.origin[s.bb].uid for s in scopes(b)}
        todo += [(b, s) for s in scopes(b)]
    todo += [(p.bodies[u], s) for u in sorted(made - covered) for s in scopes(p.bodies[u])]
    n = 0
    for b, s in todo:
        n += 1
        home = b.origin[s.bb] if b.uid not in made else b
        ctx.seen(home)
        e = ctx.sym.rvalue(b, s.rv)
        fr, ti, sr = e[3].get('current_frame'), e[3].get('current_time'), e[3].get('sample_rate')
        key = f'{owner_of(ctx, home)} {g.root_fn(home).name}'
        if hasattr(b, 'base') and g.root_fn(b.base).uid != g.root_fn(home).uid:
            key += f' in {g.root_fn(b.base).name}'
        G = {t.bb for t in b.calls() if t.callee is not None and t.callee.uid in ents}
        others = {x.bb for x in scopes(b)} - {s.bb}
        renders = any(u in ents for u in g.reach([b])) if b.uid in made else \
            any(path_without(b, x, G, through=others) for x in b.succs[s.bb])
        okf = fr is not None and fr[0] == 'call' and (fr[3] == 'fetch_add' if renders else fr[3] in ('fetch_add', 'load')) and \
            any(x[0] == 'field' and (x[3], x[2]) in holders for x in walk(fr[2][0]))
        ctx.ob('scope-agrees', f'{key}: frame', bool(okf), b.at(s.bb, s.line), f'current_frame is {show(fr) if fr else None}')
        okr = sr is not None and sr[0] == 'field' and sr[3] == rt
        ctx.ob('scope-agrees', f'{key}: sample rate', bool(okr), b.at(s.bb, s.line), f'sample_rate is {show(sr) if sr else None}')
        okt = ti is not None and ti[0] == 'bin' and ti[1] == 'Div' and strip(ti[2]) == fr and strip(ti[3]) == sr and \
            ti[2][0] == 'cast' and ti[2][2] == 'f64'
        ctx.ob('scope-agrees', f'{key}: time', bool(okt), b.at(s.bb, s.line), f'current_time is {show(ti) if ti else None}')
    ctx.floor('scope-agrees', 'scope constructions', n, 1)
    # creation
    n = 0
    for b in p.bodies.values():
        for t in b.calls():
            if is_call(t, 'new') and t.callee.self_ty is not None and is_u64(t.callee.self_ty) and flows_to_arc(ctx, b, t):
                e = ctx.sym.operand(b, t.args[0])
                n += 1
                ctx.seen(b)
                ctx.ob('clock-starts-at-zero', f'{owner_of(ctx, b)}: creation', e[0] == 'const' and e[1] == 0, b.loc(t.line),
                       f'the counter starts at {show(e)}')
                ctx.ob('clock-starts-at-zero', f'{owner_of(ctx, b)}: shared', shared(ctx, b, t) >= 2, b.loc(t.line),
                       'the counter is not handed to both the context and its render thread')
    ctx.floor('clock-starts-at-zero', 'counter creations', n, 2)
    # current_time
    n = 0
    for b in p.bodies.values():
        if b.name == 'current_time' and b.kind != 'Closure' and b.lty(0).s == 'f64' and b.self_ty is not None and \
                p.methods_of(b.self_ty.strip().adt, 'sample_rate'):
            if any(t.callee is not None and t.callee.name == 'current_time' for t in b.calls()):
                continue        # delegates to another context type
            ib = inl.Inliner(p, g, lambda x: x.name != 'sample_rate', 3).run(b)
            e = ctx.sym.local(ib, 0)
            n += 1
            ctx.seen(b)
            num, den = (e[2], e[3]) if e[0] == 'bin' else (None, None)
            ok = e[0] == 'bin' and e[1] == 'Div' and strip(num)[0] == 'call' and strip(num)[3] == 'load' and \
                any(x[0] == 'field' and (x[3], x[2]) in holders for x in walk(num)) and strip(den)[0] in ('field', 'call') and \
                'sample_rate' in show(strip(den)) and f64_only(num)
            ctx.ob('time-is-frame-over-rate', owner_of(ctx, b), bool(ok), b.loc(), f'current time is {show(e)}')
    ctx.floor('time-is-frame-over-rate', 'current_time implementations', n, 1)


def is_u64(ty):
    return ty is not None and (ty.s in ('std::sync::atomic::AtomicU64', 'core::sync::atomic::AtomicU64') or
                               ty.adt is not None and (tail(ty.adt) == 'AtomicU64' or tail(ty.adt) == 'Atomic' and ty.args and ty.args[0].s == 'u64'))


def arc_typed(ctx, b, t, e):
    """the counter reached through a captured or passed Arc"""
    if e[0] == 'arg':
        ty = b.lty(e[1])
    else:
        ct = b.lty(1).strip()
        ty = ct.args[e[2]] if e[2] < len(ct.args) else None
    return ty is not None and mentions(ty, lambda x: x.adt is not None and tail(x.adt) == 'Arc' and x.args and is_u64(x.args[0]))


def is_quantum(e):
    while e[0] == 'cast':
        e = e[1]
    return e[0] in ('const', 'def') and (e[0] == 'def' and tail(e[1]) == 'RENDER_QUANTUM_SIZE' or
                                         e[0] == 'const' and (e[2] is not None and tail(e[2]) == 'RENDER_QUANTUM_SIZE' or e[1] == 128))


def f64_only(e):
    """an integer converted to f64 without passing a narrower type"""
    return e[0] == 'cast' and e[2] == 'f64' and (e[1][0] != 'cast' or e[1][2] == 'u64')


def strip(e):
    while e[0] == 'cast':
        e = e[1]
    return e


def is_graph_bool(p, x):
    return x[2] in p.bodies and p.bodies[x[2]].lty(0).s == 'bool'


def online_roots(ctx, roots):
    """roots that a device callback or backend thread enters"""
    g, p = ctx.g, ctx.p
    out = set()
    for b in p.bodies.values():
        for e in g.edges(b):
            if e.kind in ('callback', 'spawn'):
                seen = g.reach([e.dst])
                out |= {r.uid for r in roots if r.uid in seen}
    return out


def flows_to_arc(ctx, b, t):
    return any(k == 'call' and x.callee is not None and x.callee.name == 'new' and x.callee.self_ty is not None and
               x.callee.self_ty.adt and tail(x.callee.self_ty.adt) == 'Arc' and is_u64(x.callee.self_ty.args[0]) for k, x in ctx.g._flows(b, t.dest.local))


def shared(ctx, b, t):
    """number of distinct consumers (struct literals, non-clone calls) the Arc and its clones reach"""
    n = 0
    for k, x in ctx.g._flows(b, t.dest.local):
        if k == 'agg' and tail(x.rv.agg['adt']) not in ('Option', 'Result'):
            n += 1
        elif k == 'call' and x.callee is not None and ctx.p.resolve(x.callee):
            n += 1
    return n


def loc_of(b, w):
    if not w:
        return b.base.loc() if hasattr(b, 'base') else b.loc()
    return b.at(w[-1], b.blocks[w[-1]].term.line)
