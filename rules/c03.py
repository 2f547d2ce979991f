"""C03: panics of processors are contained, the node removed and reported once."""
import boolfn
import inline as inl
from cprop import CProp
from graphm import GraphModel, is_call
from flow import lines
from model import tail
from sym import walk, show
from c01 import owner_of

EXPLANATION = ('Call-graph effect analysis: every dispatch of a processor callback through the trait object is enclosed by a closure '
               'handed to catch_unwind on every call chain. Path analysis with constant propagation on the inlined MIR of the graph '
               'render function, from the "panicked" outcome: connections are dropped before anything is mixed, the error event is '
               'sent exactly once, the node is taken out of the collection and all connections to it are purged.')
TECHNIQUE = 'effect analysis on the call graph + must-pass path analysis with constant propagation on inlined MIR'
ASSUMPTIONS = ['Panics are unwinding (panic=unwind), as the crate\'s own handling presumes.',
               'The event queue may be full; sending means one non-blocking attempt (C01).']
NOTE = ('All call chains to process/onmessage/before_drop and all paths of the per-node step after a panic, for every graph. '
        'Panics in other user hooks (has_side_effects, Drop of the processor) are outside the statement.')


def run(ctx):
    p, g = ctx.p, ctx.g
    gm = GraphModel(ctx)
    m = gm.m
    ctx.rule('contained', 'Every call chain to a processor callback (through the trait object) passes a closure run by catch_unwind.')
    ctx.rule('no-contribution', 'After a panic in processing, no output of that node is mixed into another node (its connections are '
                                'cleared first, or mixing is not reached).')
    ctx.rule('reported-once', 'After a panic in processing the error event is sent on every path, never twice, and never without a panic.')
    ctx.rule('removed', 'After a panic in processing the node is taken out of the collection on every path before the next node is '
                        'processed or the quantum ends.')
    ctx.rule('purged', 'When a node is removed, connections of all other nodes to it are purged before the next node is processed.')
    ctx.rule('error-names-node', 'The id the scope reports events for is set to the processed node before each processing.')
    bar = gm.barrier_closures()
    n = 0
    for b, t in gm.dispatches():
        n += 1
        ctx.seen(b)
        # walk callers until a barrier
        bad = None
        seen, st = {b.uid}, [(b, [b.path])]
        while st and bad is None:
            x, ch = st.pop()
            if x.uid in bar:
                continue
            ins = [e for e in g.rev[x.uid] if e.kind in ('call', 'fnitem', 'closure', 'drop', 'callback', 'spawn', 'boxed')]
            if not ins or x.public or any(e.kind in ('callback', 'spawn', 'boxed') for e in ins):
                bad = ch
                break
            for e in ins:
                if e.src.uid not in seen:
                    seen.add(e.src.uid)
                    st.append((e.src, [e.src.path] + ch))
        ctx.ob('contained', f'{owner_of(ctx, b)}: dispatch of {t.callee.name}', bad is None, b.loc(t.line),
               f'{t.callee.name} of a processor can be called without catch_unwind around it', bad)
    ctx.floor('contained', 'dispatch sites of processor callbacks', n, 3)

    ents = gm.render_entries()
    ctx.floor('removed', 'graph render entry points', len(ents), 1)
    disp = {b.uid for b, _ in gm.dispatches(('process',))}
    can = g.can_reach(disp)
    found = 0
    for e in ents:
        b = gm.inline(e)
        ctx.seen(e)
        for o in b.origin:
            ctx.seen(o)
        errs = [blk.i for blk in b.blocks if blk.term.d.get('caught') in can and blk.i in b.live_blocks]
        starts = {i for i in b.live_blocks for s in b.succs[i] if s in errs}
        rets = set(b.return_blocks())
        mix = {t.bb for t in b.calls() if is_call(t, 'add') and t.callee.self_ty is not None and
               t.callee.self_ty.strip().adt and tail(t.callee.self_ty.strip().adt) == 'AudioRenderQuantum'}
        clr = {t.bb for t in b.calls() if is_call(t, 'clear', 'truncate', 'drain', 'take') and gm.arg_is(b, t, gm.edge)}
        ev = m.event_enum
        rep = set()
        for t in b.calls():
            if is_call(t, 'send', 'try_send', 'send_timeout') and t.args:
                ty = gm.op_ty(b, t.args[0])
                if ty is not None and gm.mentions_ty(ty.strip(), ev) and \
                        any(x[0] == 'agg' and tail(x[1]) == 'ErrorEvent' for x in walk(ctx.sym.operand(b, t.args[1]))):
                    rep.add(t.bb)
        rem = set(gm.removal_blocks(b))
        ctx.floor('no-contribution', 'mixing sites', len(mix), 1)
        for eb in errs:
            found += 1
            goals = (starts | rets)
            cp = CProp(b, eb, stop=starts)
            key = f'{owner_of(ctx, e)}: panic outcome of processing'
            # 1 contribution: a mix site reachable before clearing
            w = cp.paths_avoiding(eb, mix, clr | starts)
            ctx.ob('no-contribution', key, w is None, b.at(eb, b.blocks[eb].term.line),
                   'a mixing step is reached after a panic without clearing the connections of the node', w and lines(b, w))
            # 2 report
            w = cp.paths_avoiding(eb, goals, rep)
            ctx.ob('reported-once', key + ', reported', w is None, b.at(eb, b.blocks[eb].term.line),
                   'a path after a panic reaches the next node or the end of the quantum without sending the error event', w and lines(b, w))
            twice = None
            for r in rep:
                for s in cp.succ.get(r, []):
                    w = cp.paths_avoiding(s, rep, starts)
                    if w is not None and r in cp.reach:
                        twice = [r] + w
            ctx.ob('reported-once', key + ', not twice', twice is None, b.at(eb, b.blocks[eb].term.line),
                   'two error events can be sent for one panic', twice and lines(b, twice))
            # 3 removal
            w = cp.paths_avoiding(eb, goals, rem)
            ctx.ob('removed', key, w is None, b.at(eb, b.blocks[eb].term.line),
                   'a path after a panic keeps the node in the graph', w and lines(b, w))
        # never reported without panic
        for s in starts:
            okb = [x for x in b.succs[s] if x not in errs]
            for x in okb:
                cp = CProp(b, x, stop=starts)
                w = cp.paths_avoiding(x, rep, starts)
                ctx.ob('reported-once', f'{owner_of(ctx, e)}: no report without panic', w is None, b.at(s, b.blocks[s].term.line),
                       'an error event can be sent although processing did not panic', w and lines(b, w))
        # purge
        ret = [t.bb for t in b.calls() if is_call(t, 'retain', 'retain_mut', 'drain_filter') and gm.arg_is(b, t, gm.edge)]
        for r in rem:
            loops = set()
            for x in ret:
                loops |= gm.loop_of(b, x, starts)
            w = None
            if r in b.live_blocks:
                cp = CProp(b, r, stop=starts)
                w = cp.paths_avoiding(r, starts | rets, loops)
            ctx.ob('purged', f'{owner_of(ctx, e)}: removal of a node', w is None, b.at(r, b.blocks[r].term.line),
                   'a node is removed but connections of other nodes to it stay', w and lines(b, w))
        for x in ret:
            t = b.blocks[x].term
            f = ctx.sym.operand(b, t.args[1]) if len(t.args) > 1 else ('?',)
            if f[0] != 'closure' or f[1] not in ctx.p.bodies or not is_call(t, 'retain', 'retain_mut'):
                continue
            cb = inl.Inliner(ctx.p, ctx.g, lambda q: q.name != 'eq', 5).run(ctx.p.bodies[f[1]])
            wrong = set()
            for row in boolfn.table(ctx.sym, cb) or []:
                for q, v in row.facts:
                    xs = (q[2], q[3]) if q[0] == 'bin' and q[1] == 'Eq' else q[2] if q[0] == 'call' and q[3] == 'eq' else ()
                    if len(xs) == 2 and any(y[0] == 'up' for z in xs for y in walk(z)) and any(y[0] == 'field' and y[3] == gm.edge for z in xs for y in walk(z)):
                        if row.ret is True and v is True:
                            wrong.add('connections to the removed node stay')
                        if row.ret is False and v is False:
                            wrong.add('other connections are removed')
            ctx.ob('purged', f'{owner_of(ctx, e)}: which connections', not wrong, b.at(x, t.line), '; '.join(sorted(wrong)))
        # node id
        sets = {t.bb for t in b.calls() if is_call(t, 'set', 'replace') and t.args and
                gm.mentions_ty(gm.op_ty(b, t.args[0]) or b.lty(0), m.node_id) and 'Cell' in t.callee.path}
        for s in starts:
            loop = [x for x in b.reachable(b.succs[s][0]) if s in b.succs[x] or x == s]
            w = None
            import flow
            for src in [0] + [x for x in b.succs[s]]:
                w = w or flow.path_avoiding(b, src, {s}, sets)
            ctx.ob('error-names-node', owner_of(ctx, e), w is None, b.at(s, b.blocks[s].term.line),
                   'processing is reached without first naming the node in the scope', w and lines(b, w))
    ctx.floor('removed', 'panic outcomes of processing', found, 1)
