"""C28: events reach the handler that was registered for them."""
import inline as inl
from cond import Conds, consistent_path, path_without
from ctrl import Ctrl
from flow import lines
from model import mentions, tail
from sym import walk, show
from c12 import strip_bb
from c15 import arms

EXPLANATION = ('Every registration, removal, dispatch and delivery of an event is found in the type-checked program and compared symbolically: the key a setter uses against '
               'the key its clear function uses, the payload kind every dispatch of that key carries against the payload kind the stored closure unpacks, the identity the '
               'render scope stamps on an event against the node it is running, and the handler table before, during and after a callback (path-sensitive, on the inlined '
               'delivery function).')
TECHNIQUE = 'symbolic key agreement and path-sensitive typestate of the handler table on inlined MIR'
NOTE = 'All setters, dispatch sites and delivery paths. Events that are dropped because the bounded queue is full are documented behaviour.'


class Ev:
    """the types of the event system"""

    def __init__(self, ctx, C):
        p = ctx.p
        self.loop = self.map = self.key = self.handler = self.dispatch = self.payload = None
        for a, d in p.adts.items():
            for _, fn, ft in p.adt_fields(a):
                hm = [x for x in parts(ft) if x.adt and tail(x.adt) == 'HashMap' and len(x.args) >= 2]
                for x in hm:
                    k, h = x.args[0].adt, x.args[1].adt
                    if k in p.adts and h in p.adts and any(mentions(t, lambda y: y.k == 'dyn') for _, _, t in p.adt_fields(h)):
                        self.loop, self.map, self.key, self.handler = a, fn, k, h
        if self.loop is None:
            return
        for a in p.adts:
            fs = p.adt_fields(a)
            if any(t.adt == self.key for _, _, t in fs) and len(fs) == 2:
                self.dispatch = a
                self.kf = next(n for _, n, t in fs if t.adt == self.key)
                self.pf, self.payload = next((n, t.adt) for _, n, t in fs if t.adt != self.key)
        nid = C.m.node_id
        self.nid = nid
        self.keyed = sorted({v for v, _, t in p.adt_fields(self.key) if t.adt == nid})
        self.held = {v for v, _, t in p.adt_fields(self.handler)}
        self.blank = {v for v in variants(p, self.handler)} - self.held

    def is_map(self, e):
        return any(x[0] == 'field' and x[2] == self.map and x[3] == self.loop for x in walk(e))


def parts(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(x.args or [])
        if x.k in ('ref', 'refmut') and not x.args:
            todo.append(x.peel())
    return out


def variants(p, a):
    return [v['n'] for v in p.adts[a]['variants']]


def table_ops(ctx, E, b, names):
    for t in b.calls():
        if t.callee is not None and t.bb in b.live_blocks and t.callee.name in names and 'HashMap' in t.callee.path and t.args and \
                E.is_map(ctx.sym.operand(b, t.args[0])):
            yield t


def builds(b, adt, var=None):
    for s in b.stmts():
        if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == adt and (var is None or s.rv.agg.get('var') == var) and s.bb in b.live_blocks:
            yield s


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym = ctx.p, ctx.g, ctx.sym
    ctx.rule('paired', 'A setter and its clear function use the same event key of the same object; no two setters share a key.')
    ctx.rule('payload', 'The payload kind of every dispatch is the one that makes the stored closure call the user callback.')
    ctx.rule('own-node', 'A dispatch for a node carries the id of the node that is running, which is set before every callback into a processor.')
    ctx.rule('delivery', 'The handler that runs is the one stored under the key of the event, taken out of the table, with the payload of that event.')
    ctx.rule('every', 'Every received event is handled, until the context is closed.')
    ctx.rule('put-back', 'A handler is put back after it ran if and only if its placeholder is still there.')
    ctx.rule('table', 'Setting stores and clearing removes the handler under exactly the key that was given.')
    ctx.rule('sent', 'Every event kind with a setter is dispatched.')
    ctx.rule('identity', 'The key of a node event belongs to one node: no handler or event of a previous node with the same id is left when the id is given out again.')
    E = Ev(ctx, C)
    ctx.floor('delivery', 'handler table', int(E.loop is not None and E.dispatch is not None), 1)
    if E.loop is None or E.dispatch is None:
        return
    ctx.floor('own-node', 'node event kinds', len(E.keyed), 1)
    full = lambda b: inl.Inliner(p, g, lambda q: True, 5).run(b)
    sets = setters(ctx, E, full)
    pay = dispatches(ctx, E)
    payloads(ctx, E, sets, pay)
    scope_ids(ctx, C, E, full)
    delivery(ctx, C, E, full)
    sent(ctx, E, sets, full)
    recycled(ctx, C, E, full)


def setters(ctx, E, full):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    out, clears = {}, {}
    for b0 in sorted(p.bodies.values(), key=lambda x: x.path):
        if b0.kind == 'Closure' or own_ty(b0) == E.loop:
            continue
        if any(True for _ in builds(b0, E.handler)):
            b = full(b0)
            ins = list(table_ops(ctx, E, b, ('insert',)))
            if not ins:
                ctx.ob('table', f'{name(b0)}: stored', False, b0.loc(b0.line), 'the handler made here is not stored in the table')
                continue
            ctx.seen(b0)
            rets = set(b.return_blocks()) & set(b.live_blocks)
            w = path_without(b, 0, rets, through={t.bb for t in ins})
            ctx.ob('table', f'{name(b0)}: stored', w is None, b0.loc(b0.line), 'a path returns without storing the handler', w and lines(b, w))
            out[b0.path] = (b0, b, [(sym.operand(b, t.args[1]), sym.operand(b, t.args[2]), t) for t in ins])
        elif any(True for _ in builds(b0, E.key)):
            b = full(b0)
            rem = list(table_ops(ctx, E, b, ('remove', 'remove_entry')))
            if rem:
                ctx.seen(b0)
                rets = set(b.return_blocks()) & set(b.live_blocks)
                w = path_without(b, 0, rets, through={t.bb for t in rem})
                clears[b0.path] = (b0, [sym.operand(b, t.args[1]) for t in rem])
                ctx.ob('table', f'{name(b0)}: removed', w is None, b0.loc(b0.line), 'a path returns without removing the handler', w and lines(b, w))
    n = 0
    used = {}
    for path, (b0, b, ks) in sorted(out.items()):
        for k, h, t in ks:
            v = k[2] if k[0] == 'agg' and k[1] == E.key else None
            ctx.ob('table', f'{name(b0)}: key', v is not None, b0.loc(b0.line), f'the handler is stored under {show(k)}')
            if v is None:
                continue
            used.setdefault(v, []).append(b0)
            if v in E.keyed:
                idx = list(k[3].values())[0] if hasattr(k[3], 'values') else k[3][0][1]
                ctx.ob('paired', f'{name(b0)}: own id', own_id(idx), b0.loc(b0.line), f'the handler is registered for node {show(idx)}, not for the object it is called on')
        nm = tail(b0.path)
        if not nm.startswith('set_on'):
            continue
        n += 1
        cp = b0.path[:-len(nm)] + 'clear_' + nm[4:]
        c = clears.get(cp)
        ctx.ob('paired', f'{name(b0)}: clear', c is not None, b0.loc(b0.line), f'there is no {tail(cp)} that removes a handler')
        if c is None:
            continue
        a = {strip_bb(ident(k)) for k, _, _ in ks}
        z = {strip_bb(ident(k)) for k in c[1]}
        ctx.ob('paired', f'{name(b0)}: same key', a == z, c[0].loc(c[0].line), f'the setter uses {", ".join(show(k) for k, _, _ in ks)}, the clear function {", ".join(show(k) for k in c[1])}')
    for v, bs in sorted(used.items()):
        ctx.ob('paired', f'{v}: one setter', len(bs) == 1, bs[-1].loc(bs[-1].line), 'two functions register handlers under the same event key: ' + ', '.join(name(x) for x in bs))
    ctx.floor('paired', 'event handler setters', n, 4)
    # and the other way round
    for path, (b0, ks) in sorted(clears.items()):
        nm = tail(path)
        if nm.startswith('clear_on'):
            ctx.ob('paired', f'{name(b0)}: set', path[:-len(nm)] + 'set_' + nm[6:] in out, b0.loc(b0.line), 'there is no setter for this clear function')
    return out


def ident(e):
    """the same object reached through different accessors"""
    if not isinstance(e, tuple):
        return e
    if e[:1] == ('call',) and e[3] in ('registration', 'context', 'base', 'id') and e[2]:
        return ('field', ident(e[2][0]), e[3], None)
    if e[:1] == ('field',):
        return ('field', ident(e[1]), e[2], None)
    return tuple(ident(x) for x in e)


def own_id(e):
    """id of the registration of self"""
    while e[0] in ('field', 'call') and (e[0] == 'field' or e[2]):
        if e[0] == 'call' and e[3] not in ('registration', 'id', 'deref', 'as_ref', 'borrow'):
            return False
        e = e[1] if e[0] == 'field' else e[2][0]
    return e[0] == 'arg' and e[1] == 1


def own_ty(b):
    return b.self_ty.strip().adt if b.self_ty is not None else None


def name(b):
    return '::'.join(b.path.split('::')[-2:])


def dispatches(ctx, E):
    """key kind -> payload kinds it is built with"""
    out = {}
    for b in ctx.p.bodies.values():
        for s in builds(b, E.dispatch):
            f = dict(zip(s.rv.agg['f'], s.rv.ops))
            k, v = ctx.sym.operand(b, f[E.kf]), ctx.sym.operand(b, f[E.pf])
            ok = k[0] == 'agg' and k[1] == E.key and v[0] == 'agg' and v[1] == E.payload
            ctx.ob('payload', f'{name(b)}: kinds', ok, b.loc(s.line), f'an event of kind {show(k)} with payload {show(v)} is built')
            if ok:
                out.setdefault(k[2], {}).setdefault(v[2], b)
    return out


def payloads(ctx, E, sets, pay):
    p, sym = ctx.p, ctx.sym
    n = 0
    for path, (b0, b, ks) in sorted(sets.items()):
        for k, h, t in ks:
            if k[0] != 'agg':
                continue
            cl = [x[1] for x in walk(h) if x[0] == 'closure']
            if not cl:
                ctx.ob('payload', f'{name(b0)}: closure', False, b0.loc(b0.line), f'the stored handler is {show(h)}')
                continue
            cb = inl.Inliner(p, ctx.g, lambda q: True, 4).run(p.bodies[cl[0]])
            user = {t2.bb for t2 in cb.calls() if t2.callee is not None and t2.bb in cb.live_blocks and t2.callee.name in ('call', 'call_mut', 'call_once') and
                    t2.args and any(x[0] == 'up' for x in walk(sym.operand(cb, t2.args[0])))}
            ctx.ob('payload', f'{name(b0)}: calls', bool(user), b0.loc(b0.line), 'the stored handler never calls the user callback')
            rets = set(cb.return_blocks()) & set(cb.live_blocks)
            end = rets | {i for i in cb.live_blocks if not cb.succs[i]}
            for v, src in sorted(pay.get(k[2], {}).items()):
                n += 1
                cut = set()
                for i in cb.live_blocks:
                    tt = cb.blocks[i].term
                    if tt.k == 'switch' and tt.d.get('variants'):
                        names = {y for _, y in tt.d['variants']}
                        if v in names and names <= set(variants(p, E.payload)):
                            keep = set(arms(tt, v))
                            cut |= {(i, y) for y in cb.succs[i] if y not in keep}
                w = path_without(cb, 0, end, cut_edges=cut, through=user) if 0 not in user else None
                ctx.ob('payload', f'{name(b0)}: {k[2]} with {v}', w is None, b0.loc(b0.line),
                       f'{name(src)} dispatches {k[2]} with payload {v}, and the stored handler does not call the user callback for it', w and lines(cb, w))
                twice = any(path_without(cb, y, user, cut_edges=cut) for u in user for y in cb.succs[u])
                ctx.ob('payload', f'{name(b0)}: {k[2]} once', not twice, b0.loc(b0.line), 'the user callback is called more than once for one event')
    ctx.floor('payload', 'dispatch kinds compared', n, 4)


def scope_ids(ctx, C, E, full):
    p, g, sym, gm = ctx.p, ctx.g, ctx.sym, C.gm
    # the cell in the render scope
    cell = {(a, fn) for a in p.adts for _, fn, ft in p.adt_fields(a) if ft.adt and tail(ft.adt) == 'Cell' and any(x.adt == E.nid for x in ft.args)}
    ctx.floor('own-node', 'current node cell', len(cell), 1)
    is_scope = lambda ty: ty is not None and ty.strip().adt in {a for a, _ in cell}
    is_cell = lambda e: e[0] == 'field' and (e[3], e[2]) in cell
    n = 0
    direct = {b.uid for b in p.bodies.values() for s in builds(b, E.dispatch)}
    callers = [b for b in p.bodies.values() if b.uid not in direct and any(t.callee is not None and t.callee.uid in direct for t in b.calls())]
    callers += [b for b in p.bodies.values() if b.uid in direct and own_ty(b) != E.dispatch]
    for b0 in sorted(callers, key=lambda x: x.path):
        b = inl.Inliner(p, g, lambda q: q.uid in direct, 2).run(b0)
        ctx.seen(b0)
        for s in builds(b, E.key):
            if s.rv.agg['var'] in E.keyed:
                n += 1
                e = sym.operand(b, s.rv.ops[0])
                ok = e[0] == 'call' and e[3] == 'get' and is_cell(e[2][0]) or e[0] == 'field' and e[2] == 'id' and own_id(e)
                ctx.ob('own-node', f'{name(b0)}: {s.rv.agg["var"]}', ok, b0.loc(b0.line), f'the event is dispatched for node {show(e)}')
    ctx.floor('own-node', 'node events dispatched', n, 3)
    # the cell is set to the node that runs
    k = 0
    roots = {}
    for b0, t in gm.dispatches():
        roots.setdefault(b0.uid, b0)
    can = g.can_reach(set(roots))
    tops = [b for b in p.bodies.values() if b.uid in can and b.kind != 'Closure' and own_ty(b) == C.m.graph]
    for b0 in sorted(tops, key=lambda x: x.path):
        b = gm.inline(b0)
        sets = {}
        for t in b.calls():
            if t.callee is not None and t.callee.name in ('set', 'replace') and t.bb in b.live_blocks and t.args and is_cell(sym.operand(b, t.args[0])):
                sets[t.bb] = sym.operand(b, t.args[1])
        for t in b.calls():
            if t.bb not in b.live_blocks or not gm.is_dispatch(t) or not any(is_scope(gm.op_ty(b, a)) for a in t.args):
                continue
            k += 1
            r = sym.operand(b, t.args[0])
            inner = {strip_bb(x) for x in walk(r)}
            good = {bb for bb, v in sets.items() if strip_bb(v) in inner or v[0] == 'field' and v[1][0] in ('local', 'dc', 'field', 'call') and strip_bb(v[1]) in inner}
            w = path_without(b, 0, {t.bb}, through=good)
            ctx.ob('own-node', f'{name(b0)}: {t.callee.name} scope', w is None, b.at(t.bb, t.line),
                   f'{t.callee.name} runs on {show(r)} while the scope can still carry another node id', w and lines(b, w))
            w = next((w for s in set(sets) - good for y in b.succs[s] for w in [path_without(b, y, {t.bb}, through=good)] if w), None)
            ctx.ob('own-node', f'{name(b0)}: {t.callee.name} last', w is None, b.at(t.bb, t.line),
                   f'the scope is set to another node before {t.callee.name} runs', w and lines(b, w))
    ctx.floor('own-node', 'callbacks into processors', k, 2)


def delivery(ctx, C, E, full):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    cd = Conds(sym)
    hs = []
    for b0 in sorted(p.bodies.values(), key=lambda x: x.path):
        calls = [t for t in b0.calls() if t.callee is not None and t.callee.name in ('call', 'call_mut', 'call_once') and t.args and
                 any(x[0] == 'dc' and x[2] in E.held for x in walk(sym.operand(b0, t.args[0])))]
        if calls:
            hs.append(g.root_fn(b0))
    hs = sorted({b.uid: b for b in hs}.values(), key=lambda x: x.path)
    ctx.floor('delivery', 'delivery functions', len(hs), 1)
    for b0 in hs:
        b = full(b0)
        ctx.seen(b0)
        ev = [i for i in range(1, b.argc + 1) if b.lty(i).strip().adt == E.dispatch]
        ctx.ob('delivery', f'{name(b0)}: event', len(ev) == 1, b0.loc(b0.line), 'the delivery function does not take one event')
        if len(ev) != 1:
            continue
        is_key = lambda e: e[0] == 'field' and e[2] == E.kf and e[1][0] == 'arg' and e[1][1] == ev[0]
        is_pay = lambda e: e[0] == 'field' and e[2] == E.pf and e[1][0] == 'arg' and e[1][1] == ev[0]
        runs = {}
        for t in b.calls():
            if t.callee is not None and t.bb in b.live_blocks and t.callee.name in ('call', 'call_mut', 'call_once') and t.args:
                r = sym.operand(b, t.args[0])
                if any(x[0] == 'dc' and x[2] in E.held for x in walk(r)):
                    runs[t.bb] = (t, r)
        for bb, (t, r) in runs.items():
            v = next(x[2] for x in walk(r) if x[0] == 'dc' and x[2] in E.held)
            srcs = []
            sources(r, srcs)
            bad = [x for x in srcs if not taken(x, E, is_key)]
            ctx.ob('delivery', f'{name(b0)}: {v} taken', not bad and bool(srcs), b.at(bb, t.line), f'the handler that runs is {show(bad[0]) if bad else "unknown"}')
            a = sym.operand(b, t.args[1])
            ok = any(is_pay(x) for x in walk(a))
            ctx.ob('delivery', f'{name(b0)}: {v} payload', ok, b.at(bb, t.line), f'the handler is called with {show(a)}')
        ctx.ob('delivery', f'{name(b0)}: kinds', {next(x[2] for x in walk(r) if x[0] == 'dc' and x[2] in E.held) for _, r in runs.values()} == E.held, b0.loc(b0.line),
               'a kind of handler is never called')
        rets = set(b.return_blocks()) & set(b.live_blocks)
        # every event reaches its handler: cut the edges on which there is none, or it is running
        def absent(e, v):
            if not any(x[0] == 'call' and E.is_map(x) for x in walk(e)):
                return False
            return v == 'None' or v in E.blank or isinstance(v, tuple) and set(map(str, v)) & E.held
        w = consistent_path(cd, b, 0, rets, through=set(runs), preds=[absent])
        ctx.ob('delivery', f'{name(b0)}: reached', w is None, b0.loc(b0.line), 'an event can be dropped although a handler is registered for it', w and lines(b, w))
        # what happens to the table afterwards
        stores = {}
        for s in b.stmts():
            if s.kind == '=' and s.place.proj and s.bb in b.live_blocks and E.is_map(sym.place(b, s.place)):
                stores[s.bb] = (sym.place(b, s.place), sym.rvalue(b, s.rv), s.line)
        for t in table_ops(ctx, E, b, ('insert',)):
            stores[t.bb] = (sym.operand(b, t.args[1]), sym.operand(b, t.args[2]), t.line)
        for t in b.calls():
            if t.callee is not None and t.bb in b.live_blocks and t.callee.path.endswith(('mem::replace', 'mem::swap')) and E.is_map(sym.operand(b, t.args[0])):
                stores[t.bb] = (sym.operand(b, t.args[0]), sym.operand(b, t.args[1]), t.line)
        for bb, (t, r) in runs.items():
            v = next(x[2] for x in walk(r) if x[0] == 'dc' and x[2] in E.held)
            after = {s for s in stores for y in b.succs[bb] if path_without(b, y, {s})}
            for s in sorted(after):
                pl, val, ln = stores[s]
                keys = [x for x in walk(pl) if x[0] == 'call' and x[3] in ('get_mut', 'entry')]
                test = lambda e, w: (w in E.blank) and any(x[0] == 'call' and E.is_map(x) for x in walk(e))
                for y in b.succs[bb]:
                    w = path_without(b, y, {s}, cut_edges=cd.edges_with(b, test))
                    if w:
                        break
                ctx.ob('put-back', f'{name(b0)}: {v} only if unchanged', w is None, b.at(s, ln),
                       'the handler is put back although it may have been replaced or cleared while it ran', w and lines(b, w))
                ok = all(is_key(x[2][1]) for x in keys if len(x[2]) > 1) and (not any(is_key(x) for x in walk(pl)) or True)
                ctx.ob('put-back', f'{name(b0)}: {v} slot', ok and (bool(keys) or any(is_key(x) for x in walk(pl))), b.at(s, ln), f'the handler is put back under {show(pl)}')
                ctx.ob('put-back', f'{name(b0)}: {v} value', val[0] == 'agg' and any(x == r[1] if r[0] == 'field' else x == r for x in walk(val)) or any(x in walk(val) for x in [r]), b.at(s, ln),
                       f'what is put back is {show(val)}')
            once = isonce(ctx, E, v)
            if once:
                ctx.ob('put-back', f'{name(b0)}: {v} removed', not after, b.at(bb, t.line), 'a handler that runs once is stored again')
            else:
                test = lambda e, w: any(x[0] == 'call' and E.is_map(x) for x in walk(e)) and (w == 'None' or w in E.held or isinstance(w, tuple) and set(map(str, w)) & E.blank)
                w = None
                for y in b.succs[bb]:
                    w = w or path_without(b, y, rets, cut_edges=cd.edges_with(b, test), through=after)
                ctx.ob('put-back', f'{name(b0)}: {v} comes back', w is None, b.at(bb, t.line), 'a handler that may run again is not put back', w and lines(b, w))
        breaks(ctx, E, b, b0, cd)
        consumers(ctx, E, b0, cd)


def breaks(ctx, E, b, b0, cd):
    """the delivery function asks to stop only for the closed state"""
    sym = ctx.sym
    for s in b.stmts():
        if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') and tail(s.rv.agg['adt']) == 'ControlFlow' and s.rv.agg.get('var') == 'Break' and s.bb in b.live_blocks:
            w = consistent_path(cd, b, 0, {s.bb}, preds=[lambda e, v: v == 'Closed'])
            ctx.ob('every', f'{name(b0)}: stop', w is None, b.at(s.bb, s.line), 'the event loop can be stopped although the context is not closed', w and lines(b, w))


def consumers(ctx, E, h, cd):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    n = 0
    for b0 in sorted(p.bodies.values(), key=lambda x: x.path):
        calls = {t.bb for t in b0.calls() if t.callee is not None and t.callee.uid == h.uid and t.bb in b0.live_blocks}
        if not calls:
            continue
        ctx.seen(b0)
        n += 1
        b = b0
        nxt = {t.bb: t for t in b.calls() if t.callee is not None and t.bb in b.live_blocks and t.callee.name in ('next', 'try_recv', 'recv', 'recv_timeout')}
        key = name(g.root_fn(b0))
        rets = set(b.return_blocks()) & set(b.live_blocks)
        if not nxt and b0.kind == 'Closure':
            # for_each(|event| ...)
            w = path_without(b, 0, rets, through=calls) if 0 not in calls else None
            ctx.ob('every', f'{key}: handled', w is None, b0.loc(b0.line), 'a received event is not handled', w and lines(b, w))
            continue
        if not nxt:
            continue
        has = cd.edges_with(b, lambda e, v: e[0] == 'call' and e[3] in ('next', 'try_recv', 'recv', 'recv_timeout') and v in ('Some', 'Ok'))
        w = None
        for x, y in sorted(has):
            if y not in calls:
                w = w or path_without(b, y, rets | set(nxt), through=calls)
        ctx.ob('every', f'{key}: handled', w is None and bool(has), b0.loc(b0.line), 'a received event is not handled', w and lines(b, w))
        none = cd.edges_with(b, lambda e, v: e[0] == 'call' and e[3] in ('next', 'try_recv', 'recv', 'recv_timeout') and v in ('None', 'Err'))
        stop = cd.edges_with(b, lambda e, v: v == 'Break' or e[0] == 'call' and (e[3] == 'is_break' and v is True or e[3] == 'is_continue' and v is False))
        w = None
        for c in calls:
            for y in b.succs[c]:
                w = w or path_without(b, y, rets, cut_edges=none | stop)
        ctx.ob('every', f'{key}: goes on', w is None, b0.loc(b0.line), 'the event loop can end while events may still arrive', w and lines(b, w))
    ctx.floor('every', 'event loops', n, 2)


def isonce(ctx, E, v):
    for v2, _, t in ctx.p.adt_fields(E.handler):
        if v2 == v:
            return 'FnOnce' in t.s
    return False


def sources(e, out):
    """where a handler value comes from"""
    if e[0] == 'phi':
        for x in e[2]:
            sources(x, out)
    elif e[0] == 'agg' and e[2] == 'None':
        return
    elif e[0] == 'agg' and e[2] == 'Some':
        for x in (e[3].values() if hasattr(e[3], 'values') else [y for _, y in e[3]]):
            sources(x, out)
    elif e[0] in ('field', 'dc'):
        sources(e[1], out)
    elif e[0] == 'call' and e[3] in ('unwrap', 'expect', 'as_mut', 'deref_mut', 'by_ref', 'map', 'and_then', 'flatten', 'ok', 'branch') and e[2]:
        sources(e[2][0], out)
    else:
        out.append(e)


def taken(e, E, is_key):
    if e[0] != 'call' or not E.is_map(e):
        return False
    if e[3] in ('remove', 'remove_entry'):
        return is_key(e[2][1])
    if e[3] in ('replace', 'take', 'insert'):
        ks = [x for x in walk(e[2][0]) if x[0] == 'call' and x[3] in ('get_mut', 'entry', 'get')]
        return bool(ks) and all(is_key(x[2][1]) for x in ks) or e[3] == 'insert' and is_key(e[2][1])
    return False


def sent(ctx, E, sets, full):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    direct = {b.uid for b in p.bodies.values() for s in builds(b, E.dispatch)}
    found = set()
    for b0 in p.bodies.values():
        if not any(t.callee is not None and t.callee.uid in direct for t in b0.calls()) and b0.uid not in direct:
            continue
        b = inl.Inliner(p, g, lambda q: True, 4).run(b0)
        for t in b.calls():
            if t.callee is not None and t.bb in b.live_blocks and t.callee.name in ('try_send', 'send', 'send_timeout') and len(t.args) > 1:
                for x in walk(sym.operand(b, t.args[1])):
                    if x[0] == 'agg' and x[1] == E.key:
                        found.add(x[2])
    for path, (b0, b, ks) in sorted(sets.items()):
        for k, h, t in ks:
            if k[0] == 'agg':
                ctx.ob('sent', k[2], k[2] in found, b0.loc(b0.line), f'nothing sends the event {k[2]} that {name(b0)} registers for')


def setter(ctx, E, v):
    """the public name of an event kind: that of the handler setter that uses it"""
    p = ctx.p
    best = None
    for b in p.bodies.values():
        if b.kind != 'Closure' and b.name.startswith('set_on'):
            us = set(ctx.g.reach([b], ('call',)))
            kinds = {s.rv.agg.get('var') for u in us | {b.uid} for s in builds(p.bodies[u], E.key)}
            if v in kinds and (best is None or (len(kinds), b.name) < best):
                best = (len(kinds), b.name)
    return best[1][4:] if best else v


def recycled(ctx, C, E, full):
    """ids are given out again: what is left of the previous node"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    again = any(mentions(ft, lambda x: x.adt and tail(x.adt) == 'Consumer' and any(y.adt == E.nid for y in x.args)) for a in p.adts for _, _, ft in p.adt_fields(a))
    if not again:
        ctx.ob('identity', 'node ids', True)
        return
    rv = C.m.register_variant
    idf = next((fn for fn, ft in C.m.variant_fields(C.m.ctrl_enum, rv) if ft.adt == C.m.node_id), None)
    regs = [b for b in p.bodies.values() if b.kind != 'Closure' and any(s.rv.agg.get('var') == rv for s in builds(b, C.m.ctrl_enum))]
    ctx.floor('identity', 'node registration', len(regs), 1)
    for b0 in regs:
        b = full(b0)
        ctx.seen(b0)
        made = {t.bb for t in b.calls() if t.callee is not None and t.bb in b.live_blocks and t.callee.name == 'call_once' and t.args and
                sym.operand(b, t.args[0])[0] == 'arg'}
        ids = {strip_bb(sym.operand(b, dict(zip(s.rv.agg['f'], s.rv.ops))[idf])) for s in builds(b, C.m.ctrl_enum) if s.rv.agg.get('var') == rv}
        for v in E.keyed:
            rem = set()
            for t in table_ops(ctx, E, b, ('remove', 'remove_entry', 'retain')):
                for x in walk(sym.operand(b, t.args[1])):
                    if x[0] == 'agg' and x[1] == E.key and x[2] == v:
                        i = list(x[3].values())[0] if hasattr(x[3], 'values') else x[3][0][1]
                        if strip_bb(i) in ids:
                            rem.add(t.bb)
            w = path_without(b, 0, made, through=rem) if made else [0]
            ctx.ob('identity', f'{v}: old handler', w is None, b0.loc(b0.line), f'a handler for {v} of a previous node with this id is not removed before the new node is made', w and lines(b, w))
    for v in E.keyed:
        fs = [t for v2, _, t in p.adt_fields(E.key) if v2 == v]
        ctx.ob('identity', f'{setter(ctx, E, v)}: old event', len(fs) > 1, regs[0].loc(regs[0].line) if regs else None,
               f'an event {v} of a previous node that is still queued when its id is given out again is delivered to the handler of the new node')
