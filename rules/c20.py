"""C20: sources start once, and end once."""
import inline as inl
from cond import Conds, consistent_path, path_without
from ctrl import Ctrl
from flow import lines
from graphm import is_call
from model import mentions, tail
from msgs import Msgs
from nodes import pairs
from sym import show, walk
from c12 import strip_bb
from c16 import Setter, path, unpaired

EXPLANATION = ('For every node type with start and stop methods, all methods that post a start or stop message are inlined; on every path to the post and to the '
               'started mark the times have been tested to be finite and non-negative and the started mark has the right value. In the processor, every '
               'dispatch of the ended event is shown to be guarded by the ended mark, to set it, to happen only after start and end were reached, and every '
               'path that returns has either dispatched the event, found the mark set, or found each of the reasons to end not to apply. Nodes that are removed or dropped '
               'at the end of rendering run the same rule in their destruction hook.')
TECHNIQUE = 'typestate and must-pass analysis on inlined start/stop methods and processors'
NOTE = 'All start/stop methods, all paths of the three source processors; the numeric value of times is not evaluated.'
ASSUMPTIONS = ['An event that is dispatched reaches the event queue; the render thread drops events when the bounded queue is full, which is documented behaviour.']


def rel(e, t, isx):
    """fact as (op, other) with the recognised value on the left"""
    if e[0] != 'bin' or e[1] not in ('Lt', 'Le', 'Gt', 'Ge', 'Eq') or not isinstance(t, bool):
        return None
    op, a, b = e[1], e[2], e[3]
    if not t:
        op = {'Eq': 'Ne', 'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt'}[op]
    if isx(a):
        return op, b
    if isx(b):
        return {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(op, op), a
    return None


def now(e):
    return any(y[0] == 'field' and y[2] == 'current_time' for y in walk(e))


def valid_time(e, t, v):
    """which of the requirements on a time value the fact establishes: 'finite', 'positive'"""
    out = set()
    if e[0] == 'call' and t is True and e[2] and strip_bb(e[2][0]) == v:
        if e[3] == 'is_finite':
            out.add('finite')
        if e[3] == 'is_sign_positive':
            out.add('positive')
    r = rel(e, t, lambda x: strip_bb(x) == v)
    if r and r[0] in ('Ge', 'Gt') and r[1][0] == 'const' and str(r[1][1]).lstrip('-').rstrip('f64_').rstrip('.') in ('0', '0.0', ''):
        out.add('positive')
    return out


def scheduled(ctx, m):
    """node types with start/stop methods -> (start methods, stop methods) of the trait"""
    p = ctx.p
    tr = [b.trait for b in p.bodies.values() if b.trait and tail(b.trait) == 'AudioScheduledSourceNode']
    out = {}
    for b in p.bodies.values():
        if b.trait in set(tr) and b.kind != 'Closure' and b.self_ty is not None and b.self_ty.strip().adt:
            d = out.setdefault(b.self_ty.strip().adt, ([], []))
            if b.name.startswith('start'):
                d[0].append(b)
            elif b.name.startswith('stop'):
                d[1].append(b)
    return out


def ended_senders(ctx, m):
    """functions of the render scope that dispatch the ended event"""
    p, g = ctx.p, ctx.g
    out = set()
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.argc < 1 or b.lty(1).strip().adt is None or tail(b.lty(1).strip().adt) != 'AudioWorkletGlobalScope' or b.trait:
            continue
        for uid in {b.uid} | set(g.reach([b], ('call',))):
            for s in p.bodies[uid].stmts():
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') and s.rv.agg['adt'] in p.adts and s.rv.agg.get('var') == 'Ended':
                    out.add(b.uid)
    return out


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    M = Msgs(ctx, C)
    cd = Conds(sym)
    ctx.rule('start-once', 'A start request is sent only if the started mark was clear, and sets the mark.')
    ctx.rule('stop-after-start', 'A stop request is sent only if the started mark is set.')
    ctx.rule('times', 'Every time that is sent was tested to be finite and non-negative, before any effect.')
    ctx.rule('arguments', 'The times of the call are sent in their order and stored by the processor under their role.')
    ctx.rule('mark', 'The started and ended marks start cleared and are never cleared.')
    ctx.rule('ended-once', 'The ended event is dispatched only if the ended mark is clear, and the mark is set if and only if the event is dispatched.')
    ctx.rule('not-before', 'The ended event is dispatched only after the start time or stop time was found to be reached and there is a reason to end.')
    ctx.rule('fires', 'No path returns without having dispatched the event when a reason to end applies.')
    ctx.rule('dropped', 'Nodes that leave the graph, and all nodes at the end of offline rendering, run their destruction hook.')
    types = scheduled(ctx, m)
    types = {t: v for t, v in types.items() if t in {pr.node for pr in pairs(ctx, m)}}
    ctx.floor('start-once', 'scheduled source types', len(types), 3)
    enders = ended_senders(ctx, m)
    ctx.floor('ended-once', 'functions that dispatch the ended event', len(enders), 1)
    for node, (starts, stops) in sorted(types.items()):
        control(ctx, C, M, cd, node, starts, stops, enders)
    dropped(ctx, C)
    offline_end(ctx, C)


def control(ctx, C, M, cd, node, starts, stops, enders):
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    t = tail(node)

    def kinds(bs):
        out = {}
        for b in bs:
            ctx.seen(b)
            S = Setter(ctx, C, M, b)
            for bb, line, term, e in S.posts:
                if e[0] == 'agg':
                    out.setdefault((e[1], e[2]), []).append((S, bb, line, e))
                else:
                    out.setdefault((None, None), []).append((S, bb, line, e))
        return out
    st, sp = kinds(starts), kinds(stops)
    ctx.floor('start-once', f'{t}: start requests', sum(map(len, st.values())), 1)
    ctx.floor('stop-after-start', f'{t}: stop requests', sum(map(len, sp.values())), 1)
    ctx.ob('arguments', f'{t}: requests', not set(st) & set(sp) and (None, None) not in list(st) + list(sp), starts[0].loc(starts[0].line), 'start and stop send the same request')
    others = [b for b in p.methods_of(node) if b.kind != 'Closure' and b.uid not in {x.uid for x in starts + stops} and b.argc >= 1 and not b.trait]
    ok = kinds([b for b in others if any(k in ('refmut', 'ref') for k in [b.lty(1).k])])
    for k, v in ok.items():
        if k in st:
            st[k] += v
        elif k in sp:
            sp[k] += v
    # the started mark: a bool field of the handle that start writes
    marks = {}
    for v in st.values():
        for S, *_ in v:
            for bb, line, pa, val in S.stores:
                if val[0] == 'const' and isinstance(val[1], (bool, int)):
                    marks.setdefault(pa, []).append((S, bb, line, val))
    cand = [pa for pa in marks if field_bool(p, node, pa)]
    ctx.ob('mark', f'{t}: started mark', len(cand) == 1, starts[0].loc(starts[0].line), 'start does not mark the node as started')
    if len(cand) != 1:
        return
    mark = cand[0]

    def mark_edges(b, want):
        def pred(e, v):
            return isinstance(v, bool) and v == want and path(e) == mark and (e[0] == 'field' or e[0] == 'call' and e[3] in ('replace', 'take'))
        return pred
    done = set()
    longest = (None, ())
    for kind, v in list(st.items()) + list(sp.items()):
        start = kind in st
        rule = 'start-once' if start else 'stop-after-start'
        for S, bb, line, e in v:
            b = S.b
            if (S.b0.uid, bb) in done:
                continue
            done.add((S.b0.uid, bb))
            # a store that hands back the former value is its own test
            sets = [x for x, ln, pa, val in S.stores if pa == mark and not (b.blocks[x].term.k == 'call' and is_call(b.blocks[x].term, 'replace'))]
            points = set([bb] + sets + b.return_blocks())
            w = consistent_path(cd, b, 0, points, preds=(mark_edges(b, not start),))
            ctx.ob(rule, f'{t}.{S.b0.name}', w is None, b.at(bb, line),
                   'a second start is accepted' if start else 'a stop before start is accepted', w and lines(b, w))
            if start:
                good = {x for x, ln, pa, val in S.stores if pa == mark and val[0] == 'const' and bool(val[1])}
                w = unpaired(b, {bb}, good)
                ctx.ob('start-once', f'{t}.{S.b0.name}: marked', w is None, b.at(bb, line), 'the request is sent without marking the node as started', w and lines(b, w))
                w = unpaired(b, good, {bb})
                ctx.ob('start-once', f'{t}.{S.b0.name}: sent', w is None, b.at(bb, line), 'the node is marked as started without sending the request', w and lines(b, w))
            # times
            comps = [(f, x) for f, x in sorted(e[3].items(), key=lambda z: str(z[0]))]
            for f, x in comps:
                if x[0] == 'const':
                    continue
                v0 = strip_bb(x)
                for need in ('finite', 'positive'):
                    w = consistent_path(cd, b, 0, points, preds=(lambda a, tr: need in valid_time(a, tr, v0),))
                    ctx.ob('times', f'{t}.{S.b0.name}: {f} {need}', w is None, b.at(bb, line), f'the time {show(x)} is used without being tested', w and lines(b, w))
            args = [x[1] for f, x in comps if x[0] == 'arg']
            n = S.b0.argc - 1
            src = all(x[0] == 'arg' or x[0] == 'const' or any(y[0] == 'call' and y[3] == 'current_time' for y in walk(x)) or any(now_like(y) for y in walk(x)) for f, x in comps)
            ctx.ob('arguments', f'{t}.{S.b0.name}', args == list(range(2, 2 + n)) and src, b.at(bb, line), f'sends {show(e)}')
            if start and len(comps) > len(longest[1]):
                longest = (kind, comps, S)
    # the marks are only written by these methods
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind == '=' and s.place.fields() and s.place.fields()[-1] == (mark[-1], node) and s.bb in b.live_blocks:
                v = sym.rvalue(b, s.rv)
                ctx.ob('mark', f'{t}: {g.root_fn(b).name}', v[0] == 'const' and bool(v[1]), b.loc(s.line), 'the started mark is cleared')
    procs = sorted({pr.proc for pr in pairs(ctx, m) if pr.node == node})
    for proc in procs:
        roles = message_roles(ctx, M, proc, st, sp)
        key = f'{t}: processor'
        ok = bool(roles.get('start')) and bool(roles.get('stop')) and roles['start'] != roles['stop']
        ctx.ob('arguments', key, ok, p.adts[proc].get('span', '') if isinstance(p.adts[proc], dict) else '', f'times are stored as {roles}')
        if not ok:
            continue
        init(ctx, C, node, proc, mark)
        processor(ctx, C, cd, t, proc, roles, enders)


def now_like(y):
    return y[0] == 'call' and y[3] in ('load', 'current_time')


def field_bool(p, adt, pa):
    for i, f in enumerate(pa):
        fs = [ft for _, n, ft in p.adt_fields(adt) if n == f] if adt in p.adts else []
        if not fs:
            return False
        if i == len(pa) - 1:
            return fs[0].s == 'bool'
        adt = fs[0].strip().adt
    return False


def message_roles(ctx, M, proc, st, sp):
    """role (start, offset, duration, stop) -> field path of the processor that stores it"""
    R = M.receiver(proc)
    out = {}
    if R is None:
        return out
    b, sym = R.b, ctx.sym
    names = {0: 'start', 1: 'offset', 2: 'duration'}
    for s in b.stmts():
        if s.kind != '=' or not s.place.proj or s.bb not in b.live_blocks:
            continue
        pa = path(sym.place(b, s.place))
        if not pa:
            continue
        e = sym.rvalue(b, s.rv)
        for y in walk(e):
            if y[0] == 'field' and y[1][0] == 'dc':
                var = y[1][2]
                idx = [i for i, f in enumerate(order(ctx.p, y[3], var)) if f == y[2]]
                if any(var == k[1] for k in st) and idx:
                    out.setdefault(names.get(idx[0], idx[0]), pa)
                if any(var == k[1] for k in sp) and idx:
                    out.setdefault('stop', pa)
    return out


def order(p, adt, var):
    return [f for v, f, _ in p.adt_fields(adt) if v == var] if adt in p.adts else [str(i) for i in range(8)]


def init(ctx, C, node, proc, mark):
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    for pr in pairs(ctx, m):
        if pr.node != node or pr.proc != proc:
            continue
        b = inl.Inliner(p, g, lambda q: True, 4).run(pr.closure)
        for s in b.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == node and s.bb in b.live_blocks:
                e = sym.rvalue(b, s.rv)
                v = e[3].get(mark[0])
                for f in mark[1:]:
                    v = v[3].get(f) if v is not None and v[0] == 'agg' else None
                ctx.ob('mark', f'{tail(node)}: new', v is not None and v[0] == 'const' and not v[1], b.loc(s.line), 'a new node is marked as started')


def processor(ctx, C, cd, t, proc, roles, enders):
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    meths = m.processors().get(proc, {})
    buf = [f for _, f, ft in p.adt_fields(proc) if mentions(ft, lambda x: x.adt is not None and tail(x.adt) == 'AudioBuffer') and ft.adt and tail(ft.adt) == 'Option']
    flag = None
    total = 0
    inlined = {}
    for name in ('process', 'before_drop'):
        b0 = meths.get(name)
        ctx.ob('fires', f'{t}: {name} present', b0 is not None, '', 'the processor has no destruction hook' if name == 'before_drop' else '')
        if b0 is None:
            return
        ctx.seen(b0)
        inlined[name] = inl.Inliner(p, g, lambda q: q.uid not in enders, 4).run(b0)
    # candidates for the ended mark
    cands = {}
    for ib in inlined.values():
        for s in ib.stmts():
            if s.kind == '=' and s.place.proj and s.bb in ib.live_blocks:
                pa = path(sym.place(ib, s.place))
                if pa and field_bool(p, proc, pa):
                    cands.setdefault(pa, 0)
    best = None
    for pa in cands:
        fails = []
        obs = []
        for name, ib in inlined.items():
            obs += once(ctx, cd, ib, pa, enders, t, name)
        fails = [o for o in obs if not o[2]]
        if best is None or len(fails) < len([o for o in best[1] if not o[2]]):
            best = (pa, obs)
    ctx.ob('ended-once', f'{t}: ended mark', best is not None, inlined['process'].loc(inlined['process'].line), 'there is no mark that the event was dispatched')
    if best is None:
        return
    flag, obs = best
    for o in obs:
        ctx.ob(*o)
    # never cleared
    own = proc
    for f in flag[:-1]:
        own = [ft for _, n, ft in p.adt_fields(own) if n == f][0].strip().adt
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind == '=' and s.place.fields() and s.place.fields()[-1] == (flag[-1], own) and s.bb in b.live_blocks:
                v = sym.rvalue(b, s.rv)
                ctx.ob('mark', f'{t}: ended in {g.root_fn(b).name}', v[0] == 'const' and bool(v[1]), b.loc(s.line), 'the ended mark is cleared')
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == own and s.bb in b.live_blocks:
                v = sym.rvalue(b, s.rv)[3].get(flag[-1])
                ctx.ob('mark', f'{t}: ended of a new processor', v is not None and v[0] == 'const' and not v[1], b.loc(s.line), 'a new processor is marked as ended')

    def is_role(r):
        return lambda e: e[0] == 'field' and path(e) == roles.get(r)

    def started(e, v):
        r = rel(e, v, is_role('start'))
        return bool(r) and (r[0] in ('Lt', 'Le') and now(r[1]) or r[0] == 'Ne' and r[1][0] == 'const')

    def unstarted(e, v):
        r = rel(e, v, is_role('start'))
        return bool(r) and (r[0] in ('Gt', 'Ge') and now(r[1]) or r[0] == 'Eq' and r[1][0] == 'const')

    def never(e, v):
        r = rel(e, v, is_role('start'))
        return bool(r) and r[0] == 'Eq' and r[1][0] == 'const'

    def stopped(e, v):
        r = rel(e, v, is_role('stop'))
        return bool(r) and r[0] in ('Lt', 'Le') and now(r[1])

    def unstopped(e, v):
        r = rel(e, v, is_role('stop'))
        return bool(r) and r[0] in ('Gt', 'Ge') and now(r[1])

    def over(e, v):
        r = rel(e, v, is_role('duration'))
        return bool(r) and r[0] in ('Lt', 'Le') and not now(r[1])

    def notover(e, v):
        r = rel(e, v, is_role('duration'))
        return bool(r) and r[0] in ('Gt', 'Ge') and not now(r[1])

    def playhead(e):
        return any(y[0] == 'call' and y[3] == 'load' and y[2] and path(y[2][0]) for y in walk(e))

    def length(e):
        return any(y[0] == 'field' and y[2] in buf for y in walk(e))

    def past_end(e, v):
        r = rel(e, v, lambda x: x[0] == 'phi' and playhead(x))
        return bool(r) and (r[0] in ('Ge', 'Gt') and length(r[1]) or r[0] in ('Lt', 'Le') and r[1][0] == 'const')

    def head_cmp(kind):
        def pred(e, v):
            r = rel(e, v, lambda x: x[0] == 'phi' and playhead(x))
            if not r:
                return False
            return r[0] in ('Lt', 'Le') and length(r[1]) if kind == 'end' else r[0] in ('Gt', 'Ge') and r[1][0] == 'const'
        return pred

    def rate(kind):
        def pred(e, v):
            r = rel(e, v, lambda x: not playhead(x) and any(y[0] == 'call' and y[3] == 'exp2' or y[0] == 'field' and y[2] == 'playback_rate' for y in walk(x)))
            if not r or r[1][0] != 'const' or isinstance(r[1][1], int):
                return False
            return r[0] in ('Lt', 'Le') if kind == 'end' else r[0] in ('Gt', 'Ge')
        return pred

    def looping(want):
        def pred(e, v):
            return e[0] == 'field' and v is want and field_bool(p, proc, path(e) or ()) and 'loop' in (path(e) or ('',))[-1] and 'enter' not in (path(e) or ('',))[-1]
        return pred

    def none_of(want):
        def pred(e, v):
            if e[0] == 'call' and e[3] == 'is_some' and isinstance(v, bool):
                e, v = e[2][0], 'Some' if v else 'None'
            return e[0] == 'field' and e[2] in buf and v == want
        return pred

    def flag_is(want):
        return lambda e, v: e[0] == 'field' and v is want and path(e) == flag
    for name, b in inlined.items():
        sends = {c.bb for c in b.calls() if c.callee is not None and c.callee.uid in enders and c.bb in b.live_blocks}
        total += len(sends)
        rets = set(b.return_blocks())
        missing = none_of('None')
        ln = b.blocks[min(sends)].term.line if sends else b.line
        for n, x in enumerate(sorted(sends)):
            w = consistent_path(cd, b, 0, {x}, preds=(started, stopped))
            ctx.ob('not-before', f'{t}.{name}: started #{n}', w is None, b.at(x, b.blocks[x].term.line), 'the event is dispatched although the source may not have been started', w and lines(b, w))
            if name == 'process':
                w = consistent_path(cd, b, 0, {x}, preds=(stopped, over, missing, past_end))
                ctx.ob('not-before', f'{t}.{name}: finished #{n}', w is None, b.at(x, b.blocks[x].term.line), 'the event is dispatched although nothing ended the source', w and lines(b, w))
                if buf:
                    w = consistent_path(cd, b, 0, {x}, preds=(stopped, over, missing, looping(False)))
                    ctx.ob('not-before', f'{t}.{name}: looping #{n}', w is None, b.at(x, b.blocks[x].term.line), 'the event is dispatched at the end of the buffer although it is looping', w and lines(b, w))
        fs = flag_is(True)

        def fires(what, *preds, why):
            w = consistent_path(cd, b, 0, rets, (), sends, preds=(fs,) + preds)
            ctx.ob('fires', f'{t}.{name}: {what}', w is None, b.at(min(sends), ln) if sends else b.loc(b.line), why, w and lines(b, w))
        if name == 'process':
            fires('stop', never, unstopped, *([missing] if buf else []), why='the stop time is reached and the event is not dispatched')
            if 'duration' in roles:
                fires('duration', unstarted, missing, notover, why='the duration is over and the event is not dispatched')
            if buf:
                some = none_of('Some')
                fires('no buffer', unstarted, some, why='a source without buffer is started and the event is not dispatched')
                fires('end of buffer', unstarted, missing, looping(True), head_cmp('end'), rate('end'), why='the end of the buffer is reached and the event is not dispatched')
                fires('begin of buffer', unstarted, missing, looping(True), head_cmp('begin'), rate('begin'), why='the begin of the buffer is reached and the event is not dispatched')
        else:
            fires('dropped', unstarted, why='a started source is dropped and the event is not dispatched')
    ctx.floor('ended-once', f'{t}: dispatches of the ended event', total, 2)


def once(ctx, cd, b, flag, enders, t, name):
    """obligations (rule, key, ok, loc, detail, path) of the ended mark in one method"""
    sym = ctx.sym
    sends = {c.bb: c.line for c in b.calls() if c.callee is not None and c.callee.uid in enders and c.bb in b.live_blocks}
    sets = {}
    for s in b.stmts():
        if s.kind == '=' and s.place.proj and s.bb in b.live_blocks and path(sym.place(b, s.place)) == flag:
            sets[s.bb] = s.line
    clear = cd.edges_with(b, lambda e, v: e[0] == 'field' and v is False and path(e) == flag)
    out = []
    w = None
    for n, x in enumerate(sorted(sends)):
        w = path_without(b, 0, {x}, clear)
        out.append(('ended-once', f'{t}.{name}: guarded #{n}', w is None, b.at(x, sends[x]), 'the event is dispatched without testing the ended mark', w and lines(b, w)))
        w = None
        for y in b.succs[x]:
            w = w or path_without(b, y, set(sends), clear)
        out.append(('ended-once', f'{t}.{name}: twice #{n}', w is None, b.at(x, sends[x]), 'the event is dispatched twice on one path', w and lines(b, w)))
    w = unpaired(b, set(sends), set(sets))
    out.append(('ended-once', f'{t}.{name}: marked', w is None, b.at(w[-1], b.line) if w else b.loc(b.line), 'the event is dispatched without setting the ended mark', w and lines(b, w)))
    w = unpaired(b, set(sets), set(sends))
    out.append(('ended-once', f'{t}.{name}: dispatched', w is None, b.at(w[-1], b.line) if w else b.loc(b.line), 'the ended mark is set without dispatching the event', w and lines(b, w)))
    return out


def dropped(ctx, C):
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    gm = C.gm
    node = [ft for _, _, ft in p.adt_fields(m.graph)]
    own = {b.self_ty.strip().adt for b in p.bodies.values() if b.self_ty is not None and b.self_ty.strip().adt and b.kind != 'Closure' and
           any(c.callee is not None and c.callee.name == 'before_drop' and c.callee.trait == m.processor_trait for x in [b] + closures(p, g, b) for c in x.calls())}
    own -= {m.graph}
    ctx.floor('dropped', 'types that run the destruction hook', len(own), 1)

    def hook(c):
        q = p.bodies.get(c.callee.uid) if c.callee is not None else None
        return c.callee is not None and c.callee.name == 'before_drop' and (c.callee.trait == m.processor_trait or q is not None and
                                                                            q.self_ty is not None and q.self_ty.strip().adt in own | {m.graph})
    # the hook of a graph node calls that of its processor on all paths
    n = 0
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.name != 'before_drop' or b.self_ty is None or b.self_ty.strip().adt not in own | {m.graph}:
            continue
        n += 1
        ctx.seen(b)
        ib = inl.Inliner(p, g, lambda q: True, 4).run(b)
        hs = {c.bb for c in ib.calls() if c.callee is not None and c.callee.name == 'before_drop' and c.callee.trait == m.processor_trait}
        direct = b.self_ty.strip().adt in own
        if direct:
            w = path_without(ib, 0, set(ib.return_blocks()), (), hs)
            # the call may sit in a closure that is run by a library function
            inner = any(c.callee is not None and c.callee.name == 'before_drop' and c.callee.trait == m.processor_trait for x in closures(p, g, b) for c in x.calls())
            ctx.ob('dropped', f'{tail(b.self_ty.strip().adt)}.before_drop', bool(hs) and w is None or inner and (0 in given_closure(b) or path_without(b, 0, set(b.return_blocks()), (), given_closure(b)) is None), b.loc(b.line), 'the destruction hook of the processor is skipped', w and lines(ib, w))
        else:
            reach = g.reach([b], ('call', 'closure'))
            ctx.ob('dropped', f'{tail(b.self_ty.strip().adt)}.before_drop', any(p.bodies[u].self_ty is not None and p.bodies[u].self_ty.strip().adt in own for u in reach if p.bodies[u].name == 'before_drop'),
                   b.loc(b.line), 'the destruction hook of the nodes is not run')
    ctx.floor('dropped', 'destruction hooks', n, 2)
    # nodes taken out of the graph
    k = 0
    for b in p.bodies.values():
        if g.root_fn(b).self_ty is None or g.root_fn(b).self_ty.strip().adt != m.graph:
            continue
        cs = [c for c in b.calls() if c.bb in b.live_blocks and c.callee is not None and is_call(c, 'remove', 'take', 'swap_remove', 'try_remove') and c.dest is not None and
              b.place_ty(c.dest) is not None and mentions(b.place_ty(c.dest), lambda x: x.adt in own)]
        for c in cs:
            k += 1
            hs = {x.bb for x in b.calls() if hook(x)}
            ctx.seen(b)
            ws = [path_without(b, s, set(b.return_blocks()), (), hs) for s in b.succs[c.bb] if s in b.live_blocks]
            w = next((x for x in ws if x), None)
            ctx.ob('dropped', f'{g.root_fn(b).name}: removed', w is None, b.loc(c.line), 'a node is removed without running its destruction hook', w and lines(b, w))
    ctx.floor('dropped', 'removals of nodes while rendering', k, 1)


def closures(p, g, b):
    return [x for x in p.bodies.values() if x.kind == 'Closure' and g.root_fn(x) is b]


def given_closure(b):
    """blocks whose call is handed a closure"""
    return {c.bb for c in b.calls() if any(o.place is not None and b.place_ty(o.place) is not None and mentions(b.place_ty(o.place), lambda x: x.k == 'closure') for o in c.args) and
            c.callee is not None and c.callee.name not in ('new', 'drop')}


def offline_end(ctx, C):
    """both offline renderers run the destruction hook of the graph before they return"""
    p, g, m = ctx.p, ctx.g, C.m
    hooks = {b.uid for b in p.bodies.values() if b.kind != 'Closure' and b.name == 'before_drop' and b.self_ty is not None and b.self_ty.strip().adt == m.graph}
    n = 0
    for r in p.bodies.values():
        if r.kind == 'Closure' or r.self_ty is None or r.self_ty.strip().adt != m.render_thread or r.argc < 2 or r.lty(1).adt != m.render_thread:
            continue
        inner = [x for x in closures(p, g, r) if x.is_coroutine]
        b = inner[0] if inner else r
        hs = set()
        for c in b.calls():
            q = p.bodies.get(c.callee.uid) if c.callee is not None else None
            if q is not None and (q.uid in hooks or hooks & set(g.reach([q], ('call', 'closure')))):
                w = None if q.uid in hooks else path_without(q, 0, set(q.return_blocks()), (), {x.bb for x in q.calls() if x.callee is not None and x.callee.uid in hooks})
                if w is None:
                    hs.add(c.bb)
        n += 1
        ctx.seen(b)
        w = path_without(b, 0, set(b.return_blocks()), (), hs)
        ctx.ob('dropped', f'{r.name}: end of rendering', bool(hs) and w is None, b.loc(b.line), 'rendering ends without running the destruction hooks', w and lines(b, w))
    ctx.floor('dropped', 'offline renderers', n, 2)
