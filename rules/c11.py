"""C11: messages for a vanished node are harmless."""
import inline as inl
from cond import Conds, path_without
from ctrl import Ctrl
from flow import lines, path_avoiding
from graphm import KEEP_OUT, is_call
from model import mentions, tail
from nodes import pairs
from paths import Paths
from sym import show, walk
from c01 import owner_of
from c09 import online_roots, rt_roots

EXPLANATION = ('Every construct that can panic (unwrap/expect, checked indexing, explicit panic, integer overflow and bounds assertions) in the '
               'inlined message handler is enumerated for each message that names a node; none may depend on that node being in the graph. '
               'The presence of the graph itself is a protocol: it is sent as the first message of every channel before the channel can be '
               'used by anything else, receiving stops for good once it has been handed over, and every use of it after messages were '
               'handled is behind a branch that checks it. Connections are only stored towards nodes found in the graph, and parameter '
               'processors report to be alive for as long as their node reads them.')
TECHNIQUE = 'panic-site enumeration on inlined MIR, branch-fact and path-sensitive reachability analysis, protocol order by dominance'
ASSUMPTIONS = ['Constants and arithmetic on frame counters do not overflow (panics by integer overflow exist in debug builds only).']
NOTE = 'All message kinds at all points of the handler, all channel set-ups and all online rendering entry points.'
PANICS = ('unwrap', 'expect', 'unwrap_err', 'expect_err')


def panic_sites(b):
    """(block, line, what, operand) of constructs that panic when a value is absent or out of range"""
    for t in b.calls():
        c = t.callee
        if c is None:
            continue
        if c.name in PANICS and c.krate in ('core', 'std', 'alloc'):
            yield t.bb, t.line, c.name, t.args[0]
        elif c.name in ('index', 'index_mut') and c.trait is not None and tail(c.trait) in ('Index', 'IndexMut'):
            yield t.bb, t.line, 'indexing', t.args[0]
        elif c.path.startswith(('core::panicking', 'std::panicking', 'std::rt::', 'core::panic')) or c.name in ('begin_panic', 'panic_fmt'):
            yield t.bb, t.line, 'panic', None
        elif c.name in ('remove', 'swap_remove', 'insert', 'split_at', 'split_at_mut', 'drain', 'copy_from_slice') and c.krate in ('alloc', 'smallvec', 'core'):
            st = c.self_ty
            if st is None or not st.strip().adt or tail(st.strip().adt) not in ('HashMap', 'HashSet', 'BTreeMap'):
                yield t.bb, t.line, c.name, t.args[0]
    for i in b.live_blocks:
        t = b.blocks[i].term
        if t.k == 'assert' and 'Bounds' in str(t.d.get('m', t.d)):
            yield i, t.line, 'indexing', None


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m, gm = ctx.p, ctx.g, ctx.sym, C.m, C.gm
    nid = m.node_id
    cd = Conds(sym)
    ctx.rule('no-lookup-panic', 'Handling a message that names a node contains no construct that panics when the node is not in the graph.')
    ctx.rule('edge-target', 'A connection is stored only where a branch shows that the destination is in the graph.')
    ctx.rule('graph-first', 'The graph is the first message on a channel: it is sent before the sender is given to anything else.')
    ctx.rule('stop-after-handover', 'After the graph was handed back no further message is received from that channel.')
    ctx.rule('graph-checked', 'After messages may have been handled, the online renderer uses the graph only where a branch shows that it is there.')
    ctx.rule('params-alive', 'The processor of a parameter always asks to be kept, so it is there for as long as its node reads it.')

    named = sorted({v for v, _, ft in p.adt_fields(C.enum) if mentions(ft, lambda t: t.adt == nid)} - {m.register_variant})
    ctx.floor('no-lookup-panic', 'messages that name a node', len(named), 3)
    for h in C.handler_root():
        b = gm.inline(h)
        for o in b.origin:
            ctx.seen(o)
        arms = C.arms(b)
        caught = set()
        sites = list(panic_sites(b))
        for v in named:
            ent = arms.get(v, ())
            other = set()
            for q, e2 in arms.items():
                if q != v:
                    for e in e2:
                        other |= b.reachable(e)
            mine = set()
            for e in ent:
                mine |= b.reachable(e)
            mine -= other
            bad = None
            for bb, line, what, op in sites:
                if bb not in mine:
                    continue
                if op is not None:
                    ty = gm.op_ty(b, op)
                    if ty is not None and ty.strip().adt and tail(ty.strip().adt) == 'Option' and ty.strip().args and \
                            ty.strip().args[0].strip().adt == m.graph:
                        continue
                    # behind a branch that shows the same value to be present
                    e = sym.operand(b, op)
                    if any(x == e and val in ('Some', True, 'Ok') for x, val in cd.at(b, bb)):
                        continue
                    at = cd.at(b, bb)
                    if all(any(val in ('Some', True) and any(y[0] == 'field' and y[2] == f and y[3] == f'{C.enum}::{v}' for y in walk(x)) for x, val in at)
                           for f, ft in m.variant_fields(C.enum, v) if ft.adt == nid):
                        continue
                bad = (bb, line, what, op)
                break
            ctx.ob('no-lookup-panic', v, bad is None, b.at(bad[0], bad[1]) if bad else '',
                   f'{bad[2]} of {show(sym.operand(b, bad[3])) if bad[3] is not None else "a value"} while handling {v} panics if the node is gone' if bad else '')
        # edges
        edge = gm.edge
        inner = presence(ctx, gm, b)
        n = 0
        for s in b.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == edge and s.bb in b.live_blocks:
                n += 1
                dest = [sym.operand(b, o) for o in s.rv.ops if gm.op_ty(b, o) is not None and gm.op_ty(b, o).strip().adt == nid]
                bare = [d for d in dest]

                def present(e, v):
                    if v is True and e[0] == 'call' and e[3] == 'is_some_and' and any(x[0] == 'fn' and x[1].endswith('is_some') for x in e[2][1:]):
                        return any(d in list(walk(e)) for d in bare)
                    if e[0] == 'call' and e[3] == 'is_some' and v is True:
                        e, v = e[2][0], 'Some'
                    if v not in ('Some', 'Continue') or e not in inner:
                        return False
                    return any(d in list(walk(e)) for d in bare)
                E = cd.edges_with(b, present)
                w = Paths(b).find(0, {s.bb}, E)
                ctx.ob('edge-target', owner_of(ctx, h), w is None, b.at(s.bb, s.line), 'a connection to a node that is not in the graph can be stored', w and lines(b, w))
        ctx.floor('edge-target', 'stored connections', n, 1)

    # ---- graph first
    n = 0
    sv = C.startup_variant()
    for b, s, v in C.built([sv]):
        n += 1
        ctx.seen(b)
        key = owner_of(ctx, b)
        sends = [t for t in b.calls() if C.is_send(b, t) and any(x[0] == 'agg' and x[1] == C.enum and x[2] == sv for x in walk(sym.operand(b, t.args[1])))]
        if not sends:
            x = inl.Inliner(p, g, lambda y: True, 3).run(b)
            ctx.ob('graph-first', f'{key}: sent', False, b.loc(s.line), 'the graph message is not sent where it is built')
            continue
        sb = {t.bb for t in sends}
        se = [sym.operand(b, t.args[0]) for t in sends]
        # every other use of this sender
        for t in b.calls():
            if t.bb in sb or t.callee is None:
                continue
            for a in t.args:
                ty = gm.op_ty(b, a)
                if ty is None or not C.is_sender(ty.strip()) and not (ty.strip().adt and mentions(ty, lambda q: C.is_sender(q)) and tail(ty.strip().adt) in ('Arc', 'Option')):
                    continue
                if t.callee.name in ('deref', 'deref_mut', 'clone', 'drop') and not t.callee.name == 'clone':
                    continue
                e = sym.operand(b, a)
                if e not in se:
                    continue
                if t.callee.name == 'send' and any(x[0] == 'agg' and x[1] == C.enum and x[2] == C.recycle_variant() for y in t.args[1:] for x in walk(sym.operand(b, y))):
                    continue            # goes to the previous renderer, which handles it before the graph moves
                if t.callee.name == 'send' and _resend(b, t, sym, C):
                    continue
                w = path_without(b, 0, {t.bb}, (), sb)
                ctx.ob('graph-first', f'{key}: {t.callee.name}', w is None, b.loc(t.line), 'the channel can be used before the graph was sent on it', w and lines(b, w))
        ctx.ob('graph-first', f'{key}: sent', True, b.loc(s.line))
    ctx.floor('graph-first', 'graph messages', n, 2)

    # ---- hand over
    roots, _ = rt_roots(ctx, gm)
    onl = online_roots(ctx, roots)
    roots = [r for r in roots if r.uid in onl]

    def pred(x):
        return x.self_ty is None or x.self_ty.strip().adt != m.graph and tail(x.self_ty.strip().adt or '') not in KEEP_OUT
    ctx.floor('graph-checked', 'online rendering entry points', len(roots), 1)
    for r in roots:
        b = inl.Inliner(p, g, pred, 5).run(r)
        for o in b.origin:
            ctx.seen(o)
        key = owner_of(ctx, r)
        takes, uses, recvs = set(), set(), set()
        for t in b.calls():
            if not t.args or t.bb not in b.live_blocks or t.callee is None:
                continue
            ty = gm.op_ty(b, t.args[0])
            st = ty.strip() if ty is not None else None
            if st is not None and st.adt and tail(st.adt) == 'Option' and st.args and st.args[0].strip().adt == m.graph:
                if is_call(t, 'take', 'replace'):
                    takes.add(t.bb)
                elif t.callee.name in PANICS:
                    uses.add(t.bb)
            if t.callee.name in ('try_recv', 'recv', 'recv_timeout', 'try_iter', 'iter') and st is not None and st.adt and tail(st.adt) == 'Receiver' and st.args and st.args[0].adt == C.enum:
                recvs.add(t.bb)
        ctx.floor('graph-checked', f'receives in {key}', len(recvs), 1)
        there = cd.edges_with(b, lambda e, v: (v is True and e[0] == 'call' and e[3] in ('is_some_and', 'is_some') or v == 'Some') and
                              any(x[0] == 'field' and _is_graph_field(p, x, m) for x in walk(e)))
        gone = cd.edges_with(b, lambda e, v: v in (False, 'None', ('not', 'Some')) and any(x[0] == 'field' and _is_recv_field(p, x, C) for x in walk(e)))
        P = Paths(b)
        for tk in takes:
            for sx in b.succs[tk]:
                # `take().unwrap()` in the hand-over itself
                w = P.find(sx, (uses - b_same(b, sx, uses)) , there)
                ctx.ob('graph-checked', f'{key}: after hand-over', w is None, b.at(tk, b.blocks[tk].term.line),
                       'the graph can be used after it was handed back', w and lines(b, w))
                rd = {s.bb for s in b.stmts() if s.kind == '=' and s.place.fields() and _is_recv_field(p, ('field', None, s.place.fields()[-1][0], s.place.fields()[-1][1]), C) and
                      sym.rvalue(b, s.rv)[0] == 'agg' and sym.rvalue(b, s.rv)[2] == 'None'}
                w = P.find(sx, recvs, (), rd)
                ctx.ob('stop-after-handover', key, w is None, b.at(tk, b.blocks[tk].term.line),
                       'a message is received from the channel after the graph was handed back', w and lines(b, w))
                for d in rd:
                    for q in b.succs[d] or [d]:
                        w = P.find(q, recvs, gone | _some_edges(cd, b, p, C))
                        ctx.ob('stop-after-handover', f'{key}: closed receiver', w is None, b.at(d, b.blocks[d].term.line),
                               'the receiver is used again without checking that it is still there', w and lines(b, w))
        ctx.floor('graph-checked', f'hand-overs in {key}', len(takes), 1)
        # a message may also not have brought the graph yet
        w = P.find(0, uses - _handler_uses(b, C, uses), there)
        ctx.ob('graph-checked', f'{key}: before start-up', w is None, r.loc(r.line), 'the graph is used without checking that it has arrived', w and lines(b, w))

    # ---- parameters
    n = 0
    for pr in pairs(ctx, m):
        if tail(pr.node) != 'AudioParam':
            continue
        n += 1
        b = m.processors()[pr.proc]['process']
        ctx.seen(b)
        x = inl.Inliner(p, g, lambda y: True, 3).run(b)
        e = sym.local(x, 0)
        alts = e[2] if e[0] == 'phi' else (e,)
        ok = all(a[0] == 'const' and a[1] in (1, True) for a in alts)
        ctx.ob('params-alive', tail(pr.proc), ok, b.loc(b.line), f'the parameter processor returns {show(e)}: it can be removed while its node still reads it')
    ctx.floor('params-alive', 'parameter processors', n, 1)


def presence(ctx, gm, b):
    """expressions of type Option<node> (not Option of an Option) whose being Some shows that a node is in the graph"""
    out = set()

    def ok(ty):
        while ty is not None and ty.k in ('ref', 'ptr'):
            ty = ty.args[0]
        if ty is None or ty.adt is None or tail(ty.adt) not in ('Option', 'ControlFlow') or not gm.mentions_ty(ty, gm.m.node):
            return False
        x = ty.args[-1]
        while x.k in ('ref', 'ptr'):
            x = x.args[0]
        return not (x.adt and tail(x.adt) == 'Option')
    for s in b.stmts():
        if s.kind == '=' and s.rv.k == 'discr' and ok(b.place_ty(s.rv.place)):
            out.add(ctx.sym.place(b, s.rv.place))
    for t in b.calls():
        if is_call(t, 'is_some', 'is_none') and ok(gm.op_ty(b, t.args[0])):
            out.add(ctx.sym.operand(b, t.args[0]))
    return out


def _resend(b, t, sym, C):
    """sends back a message that was just taken out of the channel"""
    ty = b.place_ty(t.args[1].place) if t.args[1].place is not None else None
    e = sym.operand(b, t.args[1])
    return not any(x[0] == 'agg' and x[1] == C.enum for x in walk(e))


def _is_graph_field(p, x, m):
    ft = p.field_ty(x[3], x[2]) if x[3] in p.adts else None
    return ft is not None and ft.adt and tail(ft.adt) == 'Option' and ft.args and ft.args[0].adt == m.graph


def _is_recv_field(p, x, C):
    ft = p.field_ty(x[3], x[2]) if x[3] in p.adts else None
    return ft is not None and mentions(ft, lambda t: t.adt is not None and tail(t.adt) == 'Receiver' and t.args and t.args[0].adt == C.enum) and \
        tail(ft.adt) == 'Option'


def _some_edges(cd, b, p, C):
    return cd.edges_with(b, lambda e, v: v in (True, 'Some') and any(x[0] == 'field' and _is_recv_field(p, x, C) for x in walk(e)) and
                         not any(x[0] == 'call' and x[3] in ('try_recv', 'recv') for x in walk(e)))


def b_same(b, start, uses):
    """the use that directly follows in straight line"""
    out, x = set(), start
    for _ in range(4):
        if x in uses:
            out.add(x)
            return out
        if len(b.succs[x]) != 1:
            return out
        x = b.succs[x][0]
    return out


def _handler_uses(b, C, uses):
    """uses inside the message arms: covered by the start-up order"""
    out = set()
    ent = {e for v, es in C.arms(b).items() for e in es}
    for u in uses:
        if any(b.dominates(e, u) for e in ent):
            out.add(u)
    return out
