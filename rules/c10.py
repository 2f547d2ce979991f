"""C10: node identity: handles keep their node, ids are recycled once and last."""
import inline as inl
from cond import Conds, path_without
from ctrl import Ctrl
from flow import lines
from graphm import is_call
from model import mentions, tail
from nodes import registration
from paths import Paths
from sym import show, walk
from c01 import owner_of

EXPLANATION = ('Typestate of a node id over the whole program. Handle side: every construction of the registration handle takes its id from '
               'the id provider or is one of the fixed ids, the handle type cannot be cloned or forgotten, and its destructor signals the '
               'drop on every path except where branch facts show a fixed id. Renderer side: the flag set by that signal is the only thing '
               'that allows removal of a node that did not panic, and the release of an id is found after the removal and teardown of the '
               'node, under that flag, exactly once on each path. Provider: an id is either taken from the queue of released ids or from '
               'a counter that only grows.')
TECHNIQUE = 'typestate and who-may-write analysis with path-sensitive constant propagation on inlined MIR; type-level (ownership) facts'
ASSUMPTIONS = ['llq queues deliver each element once (the element is owned and cannot be copied).']
NOTE = 'All constructions, drops, removals and releases in the program, for every create/drop/panic history.'
LEAK = ('forget', 'leak', 'into_raw', 'into_raw_parts', 'write_bytes')


def owns_adt(p, ty, adt, depth=8, seen=None):
    """does a value of this type own an `adt` (through fields, boxes, Arc, options, collections)"""
    seen = seen if seen is not None else set()
    if ty is None or depth < 0 or ty.i in seen:
        return False
    seen.add(ty.i)
    if ty.k in ('ref', 'ptr'):
        return False
    if ty.adt == adt:
        return True
    if ty.adt in p.adts and any(owns_adt(p, ft, adt, depth - 1, seen) for _, _, ft in p.adt_fields(ty.adt)):
        return True
    return any(owns_adt(p, a, adt, depth - 1, seen) for a in ty.args)


def is_const(e):
    return e[0] == 'def' or e[0] == 'const' and len(e) > 2 and e[2] is not None


def cname(e):
    return e[1] if e[0] == 'def' else e[2]


def fixed_ids(ctx, nid):
    """constants of the id type, and integer range constants used together with ids"""
    ids, ranges = set(), set()
    for b in ctx.p.bodies.values():
        ops = [o for s in b.stmts() if s.kind == '=' for o in s.rv.ops] + [o for t in b.calls() for o in t.args]
        has = any(mentions(b.lty(i), lambda t: t.adt == nid) for i in range(b.nlocals()))
        for o in ops:
            if o.kind != 'const' or o.ty is None:
                continue
            e = ctx.sym.operand(b, o)
            if not is_const(e):
                continue
            ty = o.ty.strip()
            if ty.adt == nid:
                ids.add(cname(e))
            elif has and ty.adt and tail(ty.adt) in ('Range', 'RangeInclusive') and ty.args[0].s == 'u64':
                ranges.add(cname(e))
    return ids, ranges


def dropped_variant(ctx, C, reg):
    """message variant sent by the destructor of the registration handle; (inlined destructor, construction blocks, variant)"""
    for b in ctx.p.bodies.values():
        if b.name == 'drop' and b.kind != 'Closure' and b.self_ty is not None and b.self_ty.strip().adt == reg and b.trait and tail(b.trait) == 'Drop':
            x = inl.Inliner(ctx.p, ctx.g, lambda y: y.name not in ('eq', 'ne', 'contains'), 5).run(b)
            sites = [s for s in x.stmts() if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == C.enum]
            vs = {s.rv.agg['var'] for s in sites}
            if len(vs) == 1:
                return b, x, sites, vs.pop()
            return b, x, sites, None
    return None, None, [], None


def drop_flag(ctx, C, var):
    """bool field of the render node that the handler sets for the message `var`; with the inlined handlers"""
    out, hs = set(), []
    for h in C.handler_root():
        b = C.gm.inline(h)
        arms = C.arms(b)
        other = set()
        for v, ent in arms.items():
            if v != var:
                for e in ent:
                    other |= b.reachable(e)
        mine = set()
        for e in arms.get(var, ()):
            mine |= b.reachable(e)
        mine -= other
        hs.append((b, mine))
        for s in b.stmts():
            f = s.place.fields() if s.kind == '=' else None
            if f and f[-1][1] == C.m.node and s.bb in mine and b.place_ty(s.place) is not None and b.place_ty(s.place).s == 'bool':
                e = ctx.sym.rvalue(b, s.rv)
                if e[0] == 'const' and e[1] in (1, True):
                    out.add(f[-1][0])
    return out, hs


def is_flag(e, flags, node):
    return e[0] == 'field' and e[2] in flags and e[3] == node


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m, gm = ctx.p, ctx.g, ctx.sym, C.m, C.gm
    nid, reg = m.node_id, registration(ctx.p)
    cd = Conds(sym)
    ctx.rule('handle', 'A registration handle is built only for an id from the provider (registration of a new node) or for one of the fixed ids.')
    ctx.rule('unique', 'The registration handle cannot be cloned, leaked or forgotten, so its destructor runs once per id.')
    ctx.rule('signalled', 'The destructor of the handle informs the renderer, with its own id, on every path on which the id is not one of the fixed ids.')
    ctx.rule('fixed', 'The destructor never informs the renderer for the destination, the listener or its parameters.')
    ctx.rule('only-signal', 'Nothing but the destructor sends the drop signal, and nothing but its handler sets the dropped flag of a node.')
    ctx.rule('kept', 'A node that did not panic is only removed when its dropped flag is set.')
    ctx.rule('released', 'An id is released only for a removed node, after its teardown, under the dropped flag, and once; and it is released whenever such a node is removed.')
    ctx.rule('own-id', 'The released token is the one that came with the node, built once with the id of that node.')
    ctx.rule('provider', 'New ids come from the queue of released ids or from a counter that is only incremented.')
    ctx.floor('handle', 'registration handle type', 1 if reg else 0, 1)
    if not reg:
        return
    ids, ranges = fixed_ids(ctx, nid)
    ctx.floor('fixed', 'fixed ids', len(ids) + len(ranges), 2)

    # ---- handle
    provs = {}
    n = 0
    for b in p.bodies.values():
        for s in b.stmts():
            if not (s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == reg):
                continue
            n += 1
            ctx.seen(b)
            f = dict(zip(s.rv.agg['f'], s.rv.ops))
            e = None
            for k, o in f.items():
                ty = gm.op_ty(b, o)
                if ty is not None and ty.strip().adt == nid:
                    e = sym.operand(b, o)
            key = owner_of(ctx, b)
            ok = False
            if e is not None:
                if is_const(e) and cname(e) in ids:
                    ok = True
                elif e[0] == 'call':
                    tgt = [x for x in p.bodies.values() if x.path == e[1]]
                    if tgt and tgt[0].lty(0).adt == nid:
                        provs[tgt[0].uid] = tgt[0]
                        ok = s.bb not in b.reachable(b.succs[s.bb][0]) if b.succs[s.bb] else True
                elif b.kind == 'Closure':
                    # closure mapped over one of the fixed ranges
                    root = g.root_fn(b)
                    for t in root.calls():
                        if t.args and any(is_const(x) and cname(x) in ranges for x in walk(sym.operand(root, t.args[0]))):
                            ok = all(x[0] == 'arg' for x in walk(e) if x[0] in ('arg', 'up', 'call', 'local'))
            ctx.ob('handle', key, ok, b.loc(s.line), f'a registration handle is built for the id {show(e) if e else "?"}')
    ctx.floor('handle', 'constructions of the handle', n, 1)
    ctx.floor('provider', 'id providers', len(provs), 1)

    # ---- unique
    clone = any(b.name == 'clone' and b.self_ty is not None and b.self_ty.strip().adt == reg for b in p.bodies.values())
    ctx.ob('unique', 'handle is not Clone', not clone, '', 'the registration handle can be cloned: its drop is signalled more than once')
    for b in p.bodies.values():
        for t in b.calls():
            c = t.callee
            if c is None or not t.args:
                continue
            if c.name in LEAK and c.krate in ('core', 'std', 'alloc') or (c.self_ty is not None and c.self_ty.adt and tail(c.self_ty.adt) == 'ManuallyDrop' and c.name == 'new') \
                    or c.path.endswith('ptr::read') or 'ManuallyDrop' in c.path and c.name == 'new':
                ty = gm.op_ty(b, t.args[0])
                bad = ty is not None and owns_adt(p, ty.strip() if c.path.endswith('ptr::read') else ty, reg)
                ctx.ob('unique', f'{owner_of(ctx, b)}: {c.name}', not bad, b.loc(t.line),
                       f'{c.name} of a value that owns a registration handle: its drop is never signalled')

    # ---- signalled / fixed
    drop, x, sites, var = dropped_variant(ctx, C, reg)
    ctx.floor('signalled', 'drop signals', len(sites), 1)
    if var is None:
        return
    ctx.seen(drop)
    for o in x.origin:
        ctx.seen(o)
    tgt = {s.bb for s in sites}
    for s in sites:
        e = sym.operand(x, s.rv.ops[0])
        ok = any(y[0] == 'field' and y[3] == reg for y in walk(e)) and not any(y[0] in ('call', 'bin', 'phi') for y in walk(e))
        ctx.ob('signalled', 'id of the signal', ok, x.at(s.bb, s.line), f'the drop signal names {show(e)} instead of the id of the handle')

    def about(e, c):
        if e[0] == 'call' and e[3] in ('eq', 'contains'):
            return any(is_const(y) and cname(y) == c for y in walk(e))
        if e[0] == 'bin' and e[1] == 'Eq':
            return any(is_const(y) and cname(y) == c for y in walk(e))
        return False
    yes = set()
    for c in sorted(ids | ranges):
        no = cd.edges_with(x, lambda e, v: v is False and about(e, c))
        yes |= cd.edges_with(x, lambda e, v: v is True and about(e, c))
        w = path_without(x, 0, tgt, no)
        ctx.ob('fixed', tail(c), w is None, drop.loc(drop.line), f'the drop of {tail(c)} can be signalled to the renderer', w and lines(x, w))
    allc = ids | ranges
    yes |= cd.edges_with(x, lambda e, v: v is True and e[0] == 'phi' and
                         all(a[0] == 'const' and a[1] in (1, True) or any(about(a, c) for c in allc) for a in e[2]))
    w = Paths(x).find(0, set(x.return_blocks()), yes, tgt)
    ctx.ob('signalled', 'every path', w is None, drop.loc(drop.line), 'a handle can be dropped without informing the renderer', w and lines(x, w))
    w = None
    for t in tgt:
        for y in x.succs[t]:
            w = w or path_without(x, y, tgt)
    ctx.ob('signalled', 'once', w is None, drop.loc(drop.line), 'the drop can be signalled twice', w and lines(x, w))

    # ---- only-signal
    okb = {o.uid for o in x.origin}
    for b, s, v in C.built([var]):
        ctx.ob('only-signal', f'{owner_of(ctx, b)}: sends {var}', b.uid in okb, b.loc(s.line), 'the drop of a handle is signalled outside its destructor')
        r = g.root_fn(b)
        if b.uid in okb and r.uid != drop.uid:
            for e in g.rev[r.uid]:
                ctx.ob('only-signal', f'{owner_of(ctx, e.src)}: calls {tail(r.path)}', e.src.uid in okb, e.src.loc(getattr(e, 'line', 0) or 0),
                       'the drop of a handle is signalled outside its destructor')
    flags, hs = drop_flag(ctx, C, var)
    ctx.floor('only-signal', 'dropped flags', len(flags), 1)
    mine = set()
    for b, blocks in hs:
        for o in b.origin:
            ctx.seen(o)
        for s in b.stmts():
            f = s.place.fields() if s.kind == '=' else None
            if f and f[-1][1] == m.node and f[-1][0] in flags:
                ctx.ob('only-signal', f'handler sets {f[-1][0]}', s.bb in blocks, b.at(s.bb, s.line), f'{f[-1][0]} is written for another message than {var}')
                mine |= {o.uid for o in b.origin}
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind != '=':
                continue
            f = s.place.fields()
            if f and f[-1][1] == m.node and f[-1][0] in flags:
                ctx.ob('only-signal', f'{owner_of(ctx, b)}: writes {f[-1][0]}', b.uid in mine, b.loc(s.line), f'{f[-1][0]} is written outside the message handler')
            if s.rv.k == 'agg' and s.rv.agg.get('adt') == m.node:
                for k, o in zip(s.rv.agg['f'], s.rv.ops):
                    if k in flags:
                        e = sym.operand(b, o)
                        ctx.ob('only-signal', f'{owner_of(ctx, b)}: initial {k}', e[0] == 'const' and e[1] in (0, False), b.loc(s.line), f'a node starts with {k} = {show(e)}')

    # ---- renderer
    ents = gm.render_entries()
    ctx.floor('kept', 'graph render entry points', len(ents), 1)
    disp = {b.uid for b, _ in gm.dispatches(('process',))}
    can = g.can_reach(disp)
    tokens = {fn for _, fn, ft in p.adt_fields(m.node) if mentions(ft, lambda t: t.adt == nid) and mentions(ft, lambda t: (t.adt or '').startswith('llq'))}
    orig = set()
    npush = 0
    for e in ents:
        b = gm.inline(e)
        key = owner_of(ctx, e)
        orig |= {o.uid for o in b.origin}
        for o in b.origin:
            ctx.seen(o)
        rem = set(gm.removal_blocks(b)) & b.live_blocks
        errs = {blk.i for blk in b.blocks if blk.term.d.get('caught') in can and blk.i in b.live_blocks}
        starts = {i for i in b.live_blocks for s in b.succs[i] if s in errs}
        oks = {s for i in starts for s in b.succs[i] if s not in errs}
        on = cd.edges_with(b, lambda y, v: v is True and is_flag(y, flags, m.node))
        off = cd.edges_with(b, lambda y, v: v is False and is_flag(y, flags, m.node) or
                            v in ('None', ('not', 'Some')) and any(z[0] == 'field' and z[2] in tokens and z[3] == m.node for z in walk(y)))
        ctx.floor('kept', 'removals of nodes', len(rem), 1)
        P = Paths(b)
        for o in oks:
            w = P.find(o, rem, on, stop=starts)
            ctx.ob('kept', key, w is None, b.at(o, b.blocks[o].term.line),
                   'a node whose handle is alive can be removed although it did not panic', w and lines(b, w))
        w = path_without(b, 0, rem, (), starts)
        ctx.ob('kept', key + ': only after processing', w is None, b.at(0, e.line), 'a node can be removed without having been processed', w and lines(b, w))
        pushes = {t.bb: t for t in b.calls() if is_call(t, 'push') and t.bb in b.live_blocks and t.args and
                  (gm.op_ty(b, t.args[0]) is not None) and (gm.op_ty(b, t.args[0]).strip().adt or '').startswith('llq') and
                  gm.mentions_ty(gm.op_ty(b, t.args[0]).strip(), nid)}
        npush += len(pushes)
        td = {t.bb for t in b.calls() if gm.is_dispatch(t, ('before_drop',)) and t.bb in b.live_blocks}
        cant = g.can_reach({y.uid for y, _ in gm.dispatches(('before_drop',))})
        td |= {blk.i for blk in b.blocks if blk.term.d.get('caught') in cant and blk.i in b.live_blocks and blk.i not in errs}
        ends = set(b.return_blocks()) | starts
        for bb, t in pushes.items():
            k = f'{key}: release'
            loc = b.at(bb, t.line)
            w = None
            for o in oks | errs:
                w = w or path_without(b, o, {bb}, (), rem)
            ctx.ob('released', k + ' after removal', w is None, loc, 'an id is released although its node is still in the graph', w and lines(b, w))
            w = None
            for r in rem:
                w = w or P.find(r, {bb}, on, stop=starts)
            if w is not None:
                # the flag may have been established before the removal
                w2 = None
                for o in oks | errs:
                    w2 = w2 or P.find(o, {bb}, on, stop=starts)
                w = w2
            ctx.ob('released', k + ' under flag', w is None, loc, 'the id of a node is released although its handle is still alive', w and lines(b, w))
            w = None
            for r in rem:
                w = w or path_without(b, r, {bb}, (), td)
            ctx.ob('released', k + ' after teardown', w is None, loc, 'the id is released before the teardown of the processor', w and lines(b, w))
            w = None
            for y in b.succs[bb]:
                w = w or path_without(b, y, set(pushes), (), starts)
            ctx.ob('released', k + ' once', w is None, loc, 'two ids are released for one node', w and lines(b, w))
            ex = sym.operand(b, t.args[1])
            ok = any(y[0] == 'field' and y[3] == m.node for y in walk(ex))
            ctx.ob('own-id', k, ok, loc, f'the released id is {show(ex)}, not the one kept in the node')
        for r in rem:
            w = P.find(r, ends, off, set(pushes))
            # the removal block itself may be passed with the flag known
            ctx.ob('released', f'{key}: every dropped node', w is None, b.at(r, b.blocks[r].term.line), 'a node is removed but its id is never released', w and lines(b, w))
    ctx.floor('released', 'releases of ids', npush, 1)
    for b in p.bodies.values():
        for t in b.calls():
            c = t.callee
            if c is None or not t.args or c.krate != 'llq' or c.self_ty is None:
                continue
            st = c.self_ty.strip()
            if not gm.mentions_ty(st, nid) or (st.args and st.args[0].adt != nid):
                continue
            kind = tail(st.adt)
            if kind == 'Producer' and c.name == 'push':
                ctx.ob('released', f'{owner_of(ctx, b)}: only where nodes are removed', b.uid in orig, b.loc(t.line), 'an id is released outside of rendering')
            elif kind == 'Consumer' and c.name == 'pop':
                ctx.ob('provider', f'{owner_of(ctx, b)}: takes released ids', any(b.uid == u or b.uid in g.reach([q]) for u, q in provs.items()),
                       b.loc(t.line), 'released ids are taken by something else than the provider')
            elif kind == 'Node' and c.name == 'new':
                # the token is built together with the register message, with the same id
                ex = sym.operand(b, t.args[0])
                ok = False
                for bb, s, v in C.built([m.register_variant]):
                    if bb is b:
                        vals = [sym.operand(b, o) for o in s.rv.ops]
                        if any(y == ex for y in vals) and any(y[0] == 'call' and y[1] == 'llq::Node::<T>::new' or ex in list(walk(y)) for y in vals):
                            ok = True
                ctx.ob('own-id', f'{owner_of(ctx, b)}: release token', ok, b.loc(t.line), f'the release token is built for {show(ex)}, not for the id of the registered node')

    # ---- provider
    for u, q in provs.items():
        ctx.seen(q)
        x = inl.Inliner(p, g, lambda y: True, 3).run(q)
        srcs = []
        for y in walk(sym.local(x, 0)):
            if y[0] == 'call' and y[3] in ('pop', 'fetch_add', 'load', 'fetch_sub', 'swap', 'fetch_max', 'new', 'random'):
                srcs.append(y)
        ok = bool(srcs) and all(y[3] == 'pop' or y[3] == 'fetch_add' and y[2][1][0] == 'const' and y[2][1][1] == 1 for y in srcs)
        ctx.ob('provider', f'{owner_of(ctx, q)}: sources of ids', ok, q.loc(q.line), f'an id is computed as {show(sym.local(x, 0))}')
        # counter only incremented
        for b in p.bodies.values():
            for t in b.calls():
                if t.callee is not None and t.args and t.callee.name in ('store', 'swap', 'fetch_sub', 'compare_exchange', 'fetch_update', 'fetch_min', 'fetch_add'):
                    e = sym.operand(b, t.args[0])
                    if e[0] == 'field' and q.self_ty is not None and e[3] == q.self_ty.strip().adt:
                        ok = t.callee.name == 'fetch_add' and b.uid in ({q.uid} | {o.uid for o in x.origin})
                        ctx.ob('provider', f'{owner_of(ctx, b)}: counter {t.callee.name}', ok, b.loc(t.line), 'the id counter is changed outside the provider')
