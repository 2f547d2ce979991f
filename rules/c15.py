"""C15: every message a node sends is understood by its processor."""
from cond import Conds, path_without
from ctrl import Ctrl
from flow import lines
from graphm import is_call
from model import mentions, tail
from msgs import DOWNCAST, Msgs, is_any
from c01 import owner_of

EXPLANATION = ('All places where a node handle posts a message to its processor are enumerated with the concrete type posted (through generic '
               'forwarders), and each is matched with the processor that the constructor of that node type registers. The processor must test for that '
               'type, the test must be reached when the tests for the other types fail, and every part of the message (each payload of each variant, '
               'each field) must flow into the state of the processor. The route from the message queue to the processor must hand over the content of '
               'the box, to the node named in the message.')
TECHNIQUE = 'type-level matching of post sites and downcasts, forward taint into processor state over inlined MIR'
ASSUMPTIONS = ['Messages posted through the generic message port of an audio worklet are chosen by the user and handled by user code.']
NOTE = 'All built-in nodes and parameters, every message type, variant and payload.'


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    cd = Conds(sym)
    ctx.rule('handled', 'The processor registered by a node tests for every type of message that the node posts.')
    ctx.rule('reached', 'The test for a message type is made whenever the tests for other types fail.')
    ctx.rule('acted', 'Every variant, payload and field of a message flows into the state of the processor.')
    ctx.rule('always', 'After its type was recognised a message takes effect on every path, unless it equals the current setting.')
    ctx.rule('routed', 'The render thread gives the content of a posted message to the processor of the node it was posted to.')
    M = Msgs(ctx, C)
    ctx.floor('handled', 'post functions', len(M.posters), 1)
    ctx.floor('handled', 'post sites', len(M.posts), 8)
    want = {}
    for po in M.posts:
        ctx.seen(po.body)
        if po.owner is None:
            if not any(x.owner is not None and x.ty.s == po.ty.s for x in M.posts):
                ctx.ob('handled', f'{owner_of(ctx, po.body)}: {tail(po.ty.s)}', False, po.body.loc(po.term.line), 'cannot tell which node this message is for')
            continue
        want.setdefault((po.owner, po.ty.s), []).append(po)
    direct(ctx, C, M, want)
    for (node, ts), pos in sorted(want.items()):
        procs = M.nodes[node]
        ty = pos[0].ty
        good = None
        for proc in sorted(procs):
            R = M.receiver(proc)
            if R is not None and any(t.s == ts for _, t, _, _ in R.tests):
                good = R
        key = f'{tail(node)}: {tail(ts)}'
        ctx.ob('handled', key, good is not None, pos[0].body.loc(pos[0].term.line),
               f'the processor of {tail(node)} does not test for {ts}: the message is dropped')
        if good is None:
            continue
        for x in good.b.origin:
            ctx.seen(x)
        received(ctx, C, M, cd, good, ty, key)
    routed(ctx, C, M)


def direct(ctx, C, M, want):
    """messages built without the post function: for the nodes whose processors emit the object that posts them"""
    p, g = ctx.p, ctx.g
    for b, s, ty in M.direct:
        ctx.seen(b)
        adt = b.self_ty.strip().adt if b.self_ty is not None else None
        own = M.owner(b)
        nodes = [own] if own else []
        if not nodes and adt:
            # processors whose processing function reaches the construction of this object
            mk = {x.uid for x in p.bodies.values() for st in x.stmts() if st.kind == '=' and st.rv.k == 'agg' and st.rv.agg.get('adt') == adt}
            can = g.can_reach(mk)
            for node, procs in M.nodes.items():
                for pr in procs:
                    q = C.m.processors().get(pr, {}).get('process')
                    if q is not None and q.uid in can:
                        nodes.append(node)
        ctx.ob('handled', f'{owner_of(ctx, b)}: receivers', bool(nodes), b.loc(s.line), 'cannot tell which node this message is for')

        class T:
            line = s.line
        for n in nodes:
            if n == 'AudioWorkletNode' or tail(n) == 'AudioWorkletNode':
                continue
            po = type('P', (), {})()
            po.body, po.term, po.owner, po.ty = b, T, n, ty
            want.setdefault((n, ty.s), []).append(po)


def received(ctx, C, M, cd, R, ty, key):
    b = R.b
    mine = [(bb, d) for bb, t, _, d in R.tests if t.s == ty.s]
    # tests for other types fail
    cut = set()
    for bb, t, nm, d in R.tests:
        if t.s != ty.s:
            cut |= hit_edges(ctx, b, bb, d)
    w = None if any(bb == 0 for bb, _ in mine) else path_without(b, 0, set(b.return_blocks()), cut, {bb for bb, _ in mine})
    ctx.ob('reached', key, w is None, R.b0.loc(R.b0.line), f'a message of type {ty.s} can be dropped without being looked at', w and lines(b, w))
    T0 = {d.local for _, d in mine}
    T = R.taint(T0)
    eff = R.effects(T)
    whole = [e for e in eff if e[3] is not None and same(e[3], ty)]
    adt = ctx.p.adts.get(ty.adt) if ty.adt else None
    if adt is None or ty.adt not in ctx.p.adts:
        ctx.ob('acted', key, bool(eff), R.b0.loc(R.b0.line), f'a message of type {ty.s} has no effect on the processor')
        if eff:
            always(ctx, cd, R, mine, eff, key, ty)
        return
    if adt['kind'] == 'Enum' and any(f for _, f, _ in ctx.p.adt_fields(ty.adt)):
        if whole:
            ctx.ob('acted', key, True)
            return
        parts = R.parts(None, T, ty)
        used = built_variants(ctx, ty.adt)
        for v, f, ft in ctx.p.adt_fields(ty.adt):
            if v not in used:
                continue
            st = parts.get((v, f), [])
            e = R.effects(R.taint({s.place.local for s in st})) + \
                [x for x in eff if any(s.bb == x[0] and s.place.proj and R.of_self(s.place) for s in st)]
            ctx.ob('acted', f'{key}::{v}.{f}', bool(e), R.b0.loc(R.b0.line), f'the value of {v} is not used by the processor')
            if e:
                always(ctx, cd, R, mine, e, f'{key}::{v}.{f}', ty, v)
        for v in sorted(used - {v for v, _, _ in ctx.p.adt_fields(ty.adt)}):
            # variants without payload: some effect in its arm
            sw = [(blk.i, s) for blk in b.blocks if blk.i in b.live_blocks and blk.term.k == 'switch' and blk.term.d.get('enum') == ty.adt
                  for s in arms(blk.term, v)]
            ok = any(writes_state(ctx, C, R, {x for x in b.reachable(s)} if True else None) for _, s in sw)
            ctx.ob('acted', f'{key}::{v}', ok, R.b0.loc(R.b0.line), f'{v} has no effect on the processor')
        return
    fs = [f for _, f, _ in ctx.p.adt_fields(ty.adt)]
    parts = R.parts(None, T, ty) if adt['kind'] != 'Enum' else {}
    if whole or not parts:
        ctx.ob('acted', key, bool(eff), R.b0.loc(R.b0.line), f'a message of type {ty.s} has no effect on the processor')
        if eff:
            always(ctx, cd, R, mine, eff, key, ty)
        return
    for f in fs:
        st = parts.get((None, f), [])
        e = R.effects(R.taint({s.place.local for s in st})) + \
            [x for x in eff if any(s.bb == x[0] and s.place.proj and R.of_self(s.place) for s in st)]
        ctx.ob('acted', f'{key}.{f}', bool(e), R.b0.loc(R.b0.line), f'{f} of the message is not used by the processor')
        if e:
            always(ctx, cd, R, mine, e, f'{key}.{f}', ty)


def always(ctx, cd, R, mine, eff, key, ty, var=None):
    """once the type has matched, no path leaves without the effect, unless nothing would change"""
    b = R.b
    starts = set()
    for bb, d in mine:
        starts |= {s for _, s in hit_edges(ctx, b, bb, d)}
    cut = set()
    if var is not None:
        for blk in b.blocks:
            t = blk.term
            if blk.i in b.live_blocks and t.k == 'switch' and t.d.get('enum') == ty.adt:
                keep = set(arms(t, var))
                cut |= {(blk.i, s) for s in b.succs[blk.i] if s not in keep}
    T = R.taint({d.local for _, d in mine})
    cut |= cd.edges_with(b, lambda e, v: v is True and (e[0] == 'bin' and e[1] == 'Eq' or e[0] == 'call' and e[3] == 'eq'))
    through = {x[0] for x in eff}
    through |= {e for e in loops_with(b, through)}
    for s in sorted(starts):
        if s in through:
            continue
        w = path_without(b, s, set(b.return_blocks()), cut, through)
        ctx.ob('always', key, w is None, R.b0.loc(R.b0.line), 'the message can be dropped after its type was recognised', w and lines(b, w))


def loops_with(b, through):
    from loops import natural
    return {h for h, L in natural(b).items() if L & through}


def same(t, ty):
    while True:
        if t.s == ty.s:
            return True
        if t.k in ('ref', 'refmut', 'ptr', 'ptrmut') and t.args:
            t = t.args[0]
        elif t.adt and tail(t.adt) in ('Option', 'Box') and t.args and t.s != ty.s:
            t = t.args[0]
        else:
            n = t.strip()
            if n.s == t.s:
                return False
            t = n


def arms(t, v):
    names = dict(t.d['variants'])
    hit = [b for x, b in t.d['cases'] if names.get(x) == v]
    return hit or ([t.d['else']] if t.d.get('else') is not None else [])


def writes_state(ctx, C, R, blocks):
    return any(s.kind == '=' and s.place.proj and s.bb in blocks and R.of_self(s.place) for s in R.b.stmts())


def built_variants(ctx, adt):
    out = set()
    for b in ctx.p.bodies.values():
        for s in b.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == adt:
                out.add(s.rv.agg.get('var'))
    return out


def hit_edges(ctx, b, bb, dest):
    """edges on which the test of block bb succeeded"""
    cd = Conds(ctx.sym)
    e0 = ctx.sym.local(b, dest.local)
    out = set()
    for x in b.live_blocks:
        t = b.blocks[x].term
        if t.k != 'switch' or not b.dominates(bb, x):
            continue
        for s in dict.fromkeys(b.succs[x]):
            for e, v in cd.edge(b, x, s):
                if e == e0 and v in ('Some', 'Ok', True) or e[0] == 'call' and e[3] in ('is_some', 'is_ok') and e[2][0] == e0 and v is True or \
                        e[0] == 'call' and e[3] == 'branch' and e[2][0] == e0 and v == 'Continue':
                    out.add((x, s))
    return out


def routed(ctx, C, M):
    """from the arm of the message to the processor"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    disp = [x for x in C.gm.dispatches(('onmessage',))]
    can = g.can_reach({x.uid for x, _ in disp})
    ctx.floor('routed', 'message dispatch', len(disp), 1)
    for b, t in disp:
        ctx.seen(b)
    n = 0
    for h in C.inlined_handler():
        arms_ = C.arms(h)
        for e in arms_.get(M.variant, ()):
            calls = [t for t in h.calls() if t.bb in h.live_blocks and t.callee is not None and t.callee.uid in can and (t.bb == e or e in h.doms.get(t.bb, ()))]
            n += 1
            w = None if any(t.bb == e for t in calls) else path_without(h, e, set(h.return_blocks()) | loop_heads(h, e), (), {t.bb for t in calls})
            ctx.ob('routed', 'message arm', bool(calls) and w is None, h.at(e, h.blocks[e].term.line), 'a message is discarded without being given to a node', w and lines(h, w))
            for t in calls:
                es = [sym.operand(h, a) for a in t.args]
                tys = [C.gm.op_ty(h, a) for a in t.args]
                idok = any(ty is not None and ty.strip().adt == C.m.node_id for ty in tys)
                from sym import walk
                val = all(any(x[0] == 'field' and len(x) > 3 and x[3] == C.enum or x[0] == 'dc' for x in walk(ex)) for ex, ty in zip(es[1:], tys[1:]))
                ctx.ob('routed', f'{t.callee.name}: id and message of the request', idok and val, h.at(t.bb, t.line), 'the message goes to a node other than the one named in it')
    ctx.floor('routed', 'message arms', n, 1)
    # the content, not the box, is viewed as Any
    for b in p.bodies.values():
        if b.uid not in can and b.uid not in {x.uid for x, _ in disp}:
            continue
        for s in b.stmts():
            if s.kind == '=' and s.rv.k == 'cast' and s.rv.cast.startswith('PointerCoercion') and s.rv.ty.k in ('ref', 'refmut') and s.rv.ops[0].place is not None and is_any(s.rv.ty.strip()):
                src = b.place_ty(s.rv.ops[0].place)
                bad = src is not None and mentions(src.strip(), is_any) and not is_any(src.strip())
                ctx.ob('routed', f'{owner_of(ctx, b)}: content of the box', not bad, b.loc(s.line), f'the box itself ({src}) is passed on as the message, so no type test can succeed')


def loop_heads(h, e):
    return {x for x in h.doms.get(e, ()) if x != e and any(x in h.succs[y] and (y == e or e in h.doms.get(y, ())) for y in h.live_blocks)}
