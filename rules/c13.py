"""C13: topology changes always take effect at the next quantum."""
import inline as inl
from cond import Conds, path_without
from ctrl import Ctrl
from flow import lines
from loops import drivers, headers
from graphm import KEEP_OUT, is_call
from model import mentions, tail
from paths import Paths
from sym import show, walk
from c01 import owner_of

EXPLANATION = ('The list that rendering walks is treated as a cache of the graph. The condition under which rendering recomputes it is read '
               'off the render entry point; every mutation of a connection list or of the node collection anywhere in the program must then '
               'establish that condition (or amend the list) on every path. The recomputation itself is checked to start from every node, to '
               'follow every connection, to append a node after everything it feeds, to reverse the result once, to restart when it cuts a '
               'cycle, and to leave out only nodes recorded as part of a cycle; the render loop is checked to process every entry once.')
TECHNIQUE = 'cache-invalidation (effect) analysis and path-sensitive reachability on inlined MIR; structural rules for the depth first search'
ASSUMPTIONS = ['Library collections behave as documented (retain, reverse, iteration order of a Vec).']
NOTE = 'All mutations of nodes and connections, and all paths of ordering and rendering, for every sequence of graph changes.'
MUT = ('push', 'insert', 'retain', 'retain_mut', 'clear', 'remove', 'swap_remove', 'drain', 'truncate', 'pop', 'extend', 'append', 'dedup', 'drain_filter', 'extract_if')
PARTIAL = ('skip', 'take', 'step_by', 'filter', 'filter_map', 'skip_while', 'take_while', 'nth', 'first', 'last', 'find', 'map_while')


class Order:
    """the ordering list of the graph and the condition under which it is recomputed"""

    def __init__(self, ctx, C):
        self.ctx, self.C, self.gm, self.m, self.p = ctx, C, C.gm, C.m, ctx.p
        self.cd = Conds(ctx.sym)
        nid, graph = self.m.node_id, self.m.graph
        # lists of ids: fields of the graph or of a structure it holds
        self.owners = {}
        held = [ft.adt for _, _, ft in self.p.adt_fields(graph) if ft.adt in self.p.adts and not mentions(ft, lambda t: t.adt == self.m.node)]
        for adt in [graph] + held:
            fs = {fn for _, fn, ft in self.p.adt_fields(adt) if ft.adt and tail(ft.adt) in ('Vec', 'VecDeque', 'SmallVec') and
                  ft.args and (ft.args[0].adt == nid or mentions(ft, lambda t: t.adt == nid) and not mentions(ft, lambda t: t.adt == self.m.node))}
            if fs:
                self.owners[adt] = fs
        self.lists = set().union(*self.owners.values()) if self.owners else set()
        self.bools = {fn for _, fn, ft in self.p.adt_fields(graph) if ft.s == 'bool'}
        self.entries = self.gm.render_entries()
        self.sorter = None
        self.field = None
        self.dirty = None        # bool field, if that is what triggers the recomputation
        self._find()

    def is_list(self, e, f=None):
        return e[0] == 'field' and e[2] in self.owners.get(e[3], ()) and (f is None or e[2] == f)

    def assigned(self, s):
        """statement that assigns the ordering, or a structure that holds it"""
        if s.kind != '=' or not s.place.fields():
            return False
        n, adt = s.place.fields()[-1]
        if n == self.field and adt in self.owners:
            return True
        ft = self.p.field_ty(adt, n) if adt == self.m.graph else None
        return ft is not None and self.field in self.owners.get(ft.adt, ())

    def key(self, x, e):
        """the list an expression of the traversal is about: a parameter, or a field of a structure handed over"""
        ks = {('field', y[2]) for y in walk(e) if self.is_list(y)} or \
            {('arg', y[1]) for y in walk(e) if y[0] == 'arg' and x.lty(y[1]).strip().adt and tail(x.lty(y[1]).strip().adt) in ('Vec', 'HashSet', 'SmallVec')}
        return ks.pop() if len(ks) == 1 else None

    def about(self, e, f=None):
        return any(self.is_list(x, f) for x in walk(e)) or any(x[0] == 'up' and self._up(x, f) for x in walk(e))

    def _up(self, x, f):
        n = x[1].split('__')[-1]
        return n in self.lists and (f is None or n == f)

    def _find(self):
        """field walked by the loop around the dispatch of process"""
        g = self.ctx.g
        disp = {b.uid for b, _ in self.gm.dispatches(('process',))}
        can = g.can_reach(disp)
        for e in self.entries:
            b = self.gm.inline(e)
            errs = {blk.i for blk in b.blocks if blk.term.d.get('caught') in can and blk.i in b.live_blocks}
            self.starts = {i for i in b.live_blocks for s in b.succs[i] if s in errs}
            self.body = b
            # the id used to look the node up derives from an element of the list
            cands = {}
            for st in self.starts:
                for _, e2, n in drivers(self.ctx.sym, b, self.gm.loop_of(b, st, set())):
                    for x in walk(e2):
                        if self.is_list(x):
                            cands[x[2]] = cands.get(x[2], 0) + 1
            if cands:
                self.field = max(cands, key=cands.get)
        if self.field is None:
            return


def order_writes(o, b):
    """blocks that write the ordering list: name -> blocks"""
    out = {}
    for t in b.calls():
        if t.callee is not None and t.args and t.bb in b.live_blocks and (t.callee.name in MUT or t.callee.name in ('take', 'replace', 'reverse', 'swap')):
            e = o.ctx.sym.operand(b, t.args[0])
            if o.about(e, o.field):
                out.setdefault(t.callee.name, set()).add(t.bb)
    for s in b.stmts():
        if o.assigned(s):
            out.setdefault('=', set()).add(s.bb)
    return out


def guard_edges(o, b, dirtyf):
    """(edges that show the list to be up to date / not recomputed, edges that show that it is due)"""
    def due(e, v, want):
        if dirtyf is not None:
            return v is want and e[0] == 'field' and e[2] == dirtyf and e[3] == o.m.graph
        if e[0] == 'call' and e[3] == 'is_empty' and v is want:
            return o.about(e, o.field)
        if e[0] == 'bin' and e[1] == 'Eq' and v is want and e[3] == ('const', 0, None):
            return o.about(e[2], o.field) and any(x[0] == 'call' and x[3] == 'len' for x in walk(e[2]))
        return False
    return o.cd.edges_with(b, lambda e, v: due(e, v, False)), o.cd.edges_with(b, lambda e, v: due(e, v, True))


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m, gm = ctx.p, ctx.g, ctx.sym, C.m, C.gm
    nid = m.node_id
    cd = Conds(sym)
    ctx.rule('recompute', 'Rendering recomputes the ordering before the first node is processed whenever it is marked as out of date.')
    ctx.rule('edges-invalidate', 'Every change of a connection made by a message marks the ordering as out of date.')
    ctx.rule('nodes-invalidate', 'Every added node is appended to the ordering or marks it as out of date.')
    ctx.rule('purged', 'Nodes removed while rendering are taken out of the ordering before rendering returns, and only those.')
    ctx.rule('all-nodes', 'The recomputation starts a traversal from every node of the graph.')
    ctx.rule('all-edges', 'The traversal follows every connection of a node, including those to parameters.')
    ctx.rule('visited', 'The traversal records visited nodes and visits each of them once, and takes nodes off the current path when it leaves them.')
    ctx.rule('feeds-first', 'A node is appended after everything it feeds and the result is reversed exactly once, so sources come first.')
    ctx.rule('restart', 'When the recomputation cuts a connection to break a cycle it starts over.')
    ctx.rule('only-cycles-skipped', 'Only nodes recorded as part of a cycle are left out of the ordering, and the render loop processes every entry.')
    o = Order(ctx, C)
    ctx.floor('recompute', 'render entry points', len(o.entries), 1)
    ctx.floor('recompute', 'ordering lists', 1 if o.field else 0, 1)
    if not o.field:
        return
    # functions that rewrite the list (the sorter): graph methods that assign the list field or push on it recursively
    wr = {}
    for b in p.bodies.values():
        r = g.root_fn(b)
        if r.self_ty is not None and r.self_ty.strip().adt == m.graph:
            for s in b.stmts():
                if o.assigned(s):
                    wr[r.uid] = r
    for e in o.entries:
        b = o.body
        key = owner_of(ctx, e)
        for x in b.origin:
            ctx.seen(x)
        # recompute: assignment of the list before processing
        asg = order_writes(o, b).get('=', set()) | {t.bb for t in b.calls() if is_call(t, 'reverse') and o.about(sym.operand(b, t.args[0]), o.field)}
        fields = [None] + sorted(o.bools)
        found = None
        for d in fields:
            ok_edges, due = guard_edges(o, b, d)
            w = path_without(b, 0, o.starts, ok_edges, asg)
            if w is None:
                found = (d, ok_edges)
                break
        ctx.ob('recompute', key, found is not None, e.loc(e.line), 'a node can be processed although the ordering is out of date')
        if found is None:
            continue
        o.dirty = found[0]
        always = path_without(b, 0, o.starts, (), asg) is None
        # every entry is processed
        for s in o.starts:
            lp = gm.loop_of(b, s, set())
            heads = [x for x in lp if any(q not in lp for q in b.preds[x] if q in b.live_blocks)]
            for h in heads:
                for y in b.succs[h]:
                    if y in lp:
                        w = Paths(b).find(y, {h}, (), o.starts | (set(b.live_blocks) - lp))
                        ctx.ob('only-cycles-skipped', f'{key}: loop', w is None, b.at(h, b.blocks[h].term.line), 'an entry of the ordering can be passed over without processing it', w and lines(b, w))
        for t in b.calls():
            if t.bb in b.live_blocks and t.callee is not None and partial(t) and t.args and o.is_list(sym.operand(b, t.args[0]), o.field):
                ctx.ob('only-cycles-skipped', f'{key}: {t.callee.name}', False, b.at(t.bb, t.line), f'the ordering is walked through {t.callee.name}()')
        # purge
        rem = set(gm.removal_blocks(b)) & b.live_blocks
        W = order_writes(o, b)
        P = Paths(b)
        pur = set()
        for n in ('remove', 'swap_remove', 'retain', 'retain_mut', 'drain', 'clear', 'drain_filter', 'extract_if'):
            for x in W.get(n, ()):
                if n in ('retain', 'retain_mut', 'clear'):
                    pur.add(x)
                    pur |= gm.loop_of(b, x, set()) if n != 'clear' else set()
                else:
                    pur |= gm.loop_of(b, x, o.starts)
        if o.dirty is not None:
            pur |= dirty_sets(o, b)
        for r in rem:
            w = P.find(r, set(b.return_blocks()), (), pur)
            ctx.ob('purged', f'{key}: removal', w is None, b.at(r, b.blocks[r].term.line), 'a removed node stays in the ordering', w and lines(b, w))
        ctx.floor('purged', 'removals of nodes', len(rem), 1)
        purge_polarity(ctx, o, b, key, W)

        # ---- invalidation by messages
        dirty = o.dirty
        for h in C.handler_root():
            x = gm.inline(h)
            for q in x.origin:
                ctx.seen(q)
            arms = C.arms(x)
            W = order_writes(o, x)
            inv = set(W.get('clear', ())) | W.get('take', set()) | W.get('truncate', set()) if dirty is None else dirty_sets(o, x)
            ends = set(x.return_blocks())
            ne = 0
            okE, dueE = guard_edges(o, x, dirty)
            for t in x.calls():
                if t.bb in x.live_blocks and t.callee is not None and t.callee.name in MUT and gm.arg_is(x, t, gm.edge):
                    ne += 1
                    w = None if always else (path_without(x, t.bb, ends, dueE, inv) and
                                             (path_without(x, 0, {t.bb}, dueE, inv) and path_without(x, t.bb, ends, dueE, inv)))
                    # a mutation inside a closure loop: leave through the loop
                    ctx.ob('edges-invalidate', f'{_arm(x, arms, t.bb)}: {t.callee.name}', w is None, x.at(t.bb, t.line),
                           'a connection changes but the ordering is not recomputed', w and lines(x, w))
            ctx.floor('edges-invalidate', 'changes of connections', ne, 2)
            app = W.get('push', set()) | W.get('insert', set()) | W.get('extend', set())
            nn = 0
            for s in x.stmts():
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == m.node and s.bb in x.live_blocks:
                    nn += 1
                    w = None if always else path_without(x, s.bb, ends, dueE, inv | app)
                    ctx.ob('nodes-invalidate', _arm(x, arms, s.bb), w is None, x.at(s.bb, s.line), 'a node is added but is not part of the ordering', w and lines(x, w))
                    # appending to an empty (out of date) list would make it look complete
                    if dirty is None:
                        for a in app:
                            w = path_without(x, 0, {a}, okE, ())
                            ctx.ob('nodes-invalidate', _arm(x, arms, s.bb) + ': not onto an outdated list', w is None, x.at(a, x.blocks[a].term.line),
                                   'a node is appended to an ordering that is due for recomputation, which hides all other nodes', w and lines(x, w))
            ctx.floor('nodes-invalidate', 'added nodes', nn, 1)
        # mutations outside handler and render
        known = {q.uid for h in C.handler_root() for q in gm.inline(h).origin} | {q.uid for q in b.origin}
        for q in p.bodies.values():
            for t in q.calls():
                if t.callee is not None and t.callee.name in MUT and gm.arg_is(q, t, gm.edge) and q.uid not in known and q.uid in reachable(ctx):
                    ctx.ob('edges-invalidate', f'{owner_of(ctx, q)}.{q.name}: {t.callee.name}', False, q.loc(t.line), 'a connection is changed outside of message handling and rendering')

        sort_rules(ctx, C, o, b, key)


def partial(t):
    c = t.callee
    return c.name in PARTIAL + ('rev',) and (c.trait is not None and tail(c.trait) == 'Iterator' or c.name in ('first', 'last'))


def reachable(ctx):
    memo = ctx.cur.__dict__
    if '_reach_pub' not in memo:
        memo['_reach_pub'] = set(ctx.g.reach([b for b in ctx.p.bodies.values() if b.public or b.kind != 'Closure' and not ctx.g.rev[b.uid]]))
    return memo['_reach_pub']


def dirty_sets(o, b):
    out = set()
    for s in b.stmts():
        if s.kind == '=' and s.place.fields() and s.place.fields()[-1] == (o.dirty, o.m.graph):
            e = o.ctx.sym.rvalue(b, s.rv)
            if e[0] == 'const' and e[1] in (1, True):
                out.add(s.bb)
    return out


def _arm(x, arms, bb):
    for v, es in arms.items():
        if any(x.dominates(e, bb) for e in es):
            return v
    return 'handler'


def purge_polarity(ctx, o, b, key, W):
    """the purge keeps exactly the entries that are still in the graph"""
    sym, m = ctx.sym, o.m
    cd = o.cd
    n = 0

    def present(e):
        """+1 if the expression is true for nodes in the graph, -1 if true for nodes not in the graph, 0 unknown"""
        e, v = cd.norm(e, True)
        s = 1 if v else -1
        if e[0] == 'call' and e[3] in ('contains', 'contains_key', 'is_some', 'is_some_and') and \
                any(x[0] == 'field' and x[2] in node_fields(ctx.p, m) and x[3] == m.graph or x[0] == 'up' and x[1].split('__')[-1] in node_fields(ctx.p, m) for x in walk(e)):
            return s
        return 0
    for nme in ('retain', 'retain_mut'):
        for bb in W.get(nme, ()):
            t = b.blocks[bb].term
            for cu in closures_of(ctx, b, t):
                e = sym.local(cu, 0)
                x = present(e)
                x2 = cycle_sign(ctx, o, cu, e)
                n += 1
                ctx.ob('purged', f'{key}: {nme} keeps', x >= 0 and x2 >= 0, b.at(bb, t.line), f'the ordering keeps the nodes for which {show(e)}')
    coll = {o.p.field_ty(m.graph, f).adt for f in node_fields(o.p, m)}
    b = inl.Inliner(ctx.p, ctx.g, lambda q: o.gm._pred(q) and not (q.self_ty is not None and q.self_ty.strip().adt in coll), 6).run(b.base)
    W = order_writes(o, b)
    for nme in ('remove', 'swap_remove'):
        for bb in W.get(nme, ()):
            n += 1
            bad = [(e, v) for e, v in cd.at(b, bb) if (present(e) > 0) == (v is True) and present(e) != 0 and v in (True, False)]
            ctx.ob('purged', f'{key}: {nme} drops', not bad, b.at(bb, b.blocks[bb].term.line), 'the ordering drops nodes that are in the graph')
    return n


def node_fields(p, m):
    return {fn for _, fn, ft in p.adt_fields(m.graph) if mentions(ft, lambda t: t.adt == m.node) or
            ft.adt in p.adts and any(mentions(f2, lambda t: t.adt == m.node) for _, _, f2 in p.adt_fields(ft.adt))}


def closures_of(ctx, b, t):
    out = []
    for a in t.callee.args:
        x = a.peel() if hasattr(a, 'peel') else a
        if x.k == 'closure' and x.closure in ctx.p.bodies:
            out.append(ctx.p.bodies[x.closure])
    return out


def cycle_sign(ctx, o, cu, e):
    """-1 if the retain closure keeps members of another id list (cycle members), 1 if it drops them, 0 otherwise"""
    e, v = o.cd.norm(e, True)
    if e[0] == 'call' and e[3] == 'contains':
        base = e[2][0]
        if any(x[0] == 'up' for x in walk(base)) and not any(q.path == e[1] for q in ctx.p.bodies.values()):
            return -1 if v else 1
    return 0


def sort_rules(ctx, C, o, b, key):
    p, g, sym, m, gm = ctx.p, ctx.g, ctx.sym, C.m, C.gm
    # the traversal: recursive graph method, or a loop with a work list
    rec = []
    for x in b.origin:
        r = g.root_fn(x)
        if r not in rec and any(r.uid in g.reach([e.dst]) for e in g.edges(r) if e.kind in ('call', 'closure')) and \
                r.self_ty is not None and r.self_ty.strip().adt == m.graph:
            rec.append(r)
    ctx.floor('all-edges', 'recursive traversals', len(rec), 1)
    for r in rec:
        ctx.seen(r)
        x = inl.Inliner(p, g, lambda q: q.uid != r.uid, 4).run(r)
        calls = {t.bb for t in x.calls() if t.callee is not None and t.callee.uid == r.uid and t.bb in x.live_blocks}
        # parameters that are lists of ids; the order list is the one the caller stores as ordering
        pos = order_param(ctx, o, b, r)
        ctx.floor('feeds-first', 'order parameter of the traversal', 1 if pos is not None else 0, 1)
        if pos is None:
            continue
        pushes, ins0 = set(), set()
        for t in x.calls():
            if t.callee is not None and t.args and t.bb in x.live_blocks and t.callee.name in ('push', 'insert', 'push_front', 'push_back'):
                e = sym.operand(x, t.args[0])
                if o.key(x, e) == pos:
                    pushes.add(t.bb)
                    ex = sym.operand(x, t.args[1])
                    ctx.ob('feeds-first', f'{tail(r.path)}: appended node', ex[0] == 'arg' and x.lty(ex[1]).strip().adt == m.node_id, x.at(t.bb, t.line),
                           f'the traversal appends {show(ex)} instead of the visited node')
        ctx.floor('feeds-first', 'appends of the traversal', len(pushes), 1)
        w = None
        for q in pushes:
            for y in x.succs[q]:
                w = w or path_without(x, y, calls)
        ctx.ob('feeds-first', f'{tail(r.path)}: after its targets', w is None, r.loc(r.line), 'a node is appended before the nodes it feeds', w and lines(x, w))
        # every edge: the recursion is driven by an unfiltered iteration over the edges of the node
        srcs = []
        for t in x.calls():
            if t.callee is not None and t.callee.uid == r.uid and t.bb in x.live_blocks:
                srcs.append(t)
        part = [t for t in x.calls() if t.callee is not None and partial(t) and t.args and t.bb in x.live_blocks and
                mentions_edge(gm, x, t)]
        ctx.ob('all-edges', f'{tail(r.path)}: iteration', not part, x.at(part[0].bb, part[0].line) if part else r.loc(r.line),
               f'the traversal passes the connections through {part[0].callee.name if part else ""}()')
        # conditions on the edge before recursion
        cd = o.cd
        for t in srcs:
            bad = [e for e, v in cd.at(x, t.bb) if any(y[0] == 'field' and y[3] == gm.edge for y in walk(e)) and e[0] in ('bin', 'call')]
            ctx.ob('all-edges', f'{tail(r.path)}: unconditional', not bad, x.at(t.bb, t.line), f'a connection is only followed if {show(bad[0]) if bad else ""}')
            a = [sym.operand(x, q) for q in t.args]
            ok = any(y[0] == 'field' and y[3] == gm.edge and p.field_ty(gm.edge, y[2]) is not None and p.field_ty(gm.edge, y[2]).adt == m.node_id for e in a for y in walk(e))
            ctx.ob('all-edges', f'{tail(r.path)}: target', ok, x.at(t.bb, t.line), 'the traversal does not continue at the target of the connection')
        # early exits before the append: only for cycles (list membership) or nodes visited already
        rets = set(x.return_blocks())

        def member(e, v):
            if e[0] == 'phi' or not isinstance(v, (bool, str, tuple)):
                return False
            pos_fact = v is True and e[0] == 'call' and e[3] in ('contains', 'is_some', 'any') or v == 'Some' and e[0] == 'call' and e[3] in ('position', 'find')
            return pos_fact and o.key(x, e) not in (None, pos)
        E = cd.edges_with(x, member)
        rcut = cd.edges_with(x, lambda e, v: v is True and e[0] == 'call' and e[1] == r.path)
        w = path_without(x, 0, rets, E | rcut, pushes)
        ctx.ob('all-nodes', f'{tail(r.path)}: appended', w is None, r.loc(r.line), 'the traversal can leave a node out that is neither visited nor in a cycle', w and lines(x, w))
        visited_rules(ctx, o, x, r, calls, pushes, pos, rets, rcut)
        # the caller: starts from every key
        for c in {g.root_fn(e.src) for e in g.rev[r.uid] if g.root_fn(e.src).uid != r.uid}:
            y = inl.Inliner(p, g, lambda q: q.uid != r.uid, 3).run(c)
            ctx.seen(c)
            cs = [t for t in y.calls() if t.callee is not None and t.callee.uid == r.uid and t.bb in y.live_blocks]
            part = [t for t in y.calls() if t.callee is not None and t.bb in y.live_blocks and partial(t) and t.args and
                    any(z[0] == 'field' and z[2] in node_fields(p, m) for z in walk(sym.operand(y, t.args[0]))) and y.origin[t.bb].uid == c.uid]
            ctx.ob('all-nodes', f'{c.name}: iteration', not part, y.at(part[0].bb, part[0].line) if part else c.loc(c.line),
                   f'the traversal is started only for a part of the nodes ({part[0].callee.name if part else ""})')
            def from_nodes(e):
                return any(z[0] == 'field' and z[2] in node_fields(p, m) or z[0] == 'call' and z[3] == 'next' for z in walk(e))
            okarg = all(from_nodes(sym.operand(y, a)) or any(from_nodes(e) for _, e, _ in drivers(sym, y, gm.loop_of(y, t.bb, set())))
                        for t in cs for a in t.args if gm.op_ty(y, a) is not None and gm.op_ty(y, a).strip().adt == m.node_id)
            ctx.ob('all-nodes', f'{c.name}: start', bool(cs) and okarg, c.loc(c.line), 'the traversal is not started from the nodes of the graph')
            # leaving the loop over the nodes early only when the order is abandoned: i.e. a break must lead to a restart
            revs = [t.bb for t in y.calls() if is_call(t, 'reverse') and t.bb in y.live_blocks]
            asg = {s.bb for s in y.stmts() if o.assigned(s) and s.bb in y.live_blocks}
            w = None
            for t in cs:
                w = w or path_without(y, t.bb, asg or set(y.return_blocks()), (), set(revs))
            ctx.ob('feeds-first', f'{c.name}: reversed', w is None, c.loc(c.line), 'the ordering is stored without being reversed', w and lines(y, w))
            w = None
            for q in revs:
                for z in y.succs[q]:
                    w = w or path_without(y, z, set(revs))
            ctx.ob('feeds-first', f'{c.name}: reversed once', w is None, c.loc(c.line), 'the ordering is reversed twice', w and lines(y, w))
            # restart after a connection was cut
            cut = [t for t in y.calls() if t.callee is not None and t.callee.name in MUT and gm.arg_is(y, t, gm.edge) and t.bb in y.live_blocks]
            ctx.floor('restart', 'cuts of cycles', len(cut), 1)
            clr = {t.bb for t in y.calls() if is_call(t, 'clear') and t.bb in y.live_blocks and o.about(sym.operand(y, t.args[0]), o.field)}
            for t in cut:
                w = path_without(y, t.bb, set(y.return_blocks()) | asg, (), clr)
                ctx.ob('restart', c.name, w is None, y.at(t.bb, t.line), 'a cycle is cut but the ordering is not computed again', w and lines(y, w))
            # traversal reported a cut: not stored
            P = Paths(y)
            T = o.cd.edges_with(y, lambda e, v: v is True and (e[0] == 'call' and e[1] == r.path or e[0] == 'phi' and any(a[0] == 'call' and a[1] == r.path for a in e[2])))
            for (a, z) in T:
                w = P.find(a, asg or set(y.return_blocks()), {(a, s) for s in y.succs[a] if s != z}, clr)
                ctx.ob('restart', f'{c.name}: abandoned order', w is None, y.at(a, y.blocks[a].term.line), 'an abandoned ordering is used', w and lines(y, w))
            # stale lists: every list given to the traversal is cleared before it
            for t in cs:
                for k, a in enumerate(t.args):
                    ty = gm.op_ty(y, a)
                    ty = ty.strip().adt if ty is not None else None
                    e = sym.operand(y, a)
                    if ty and tail(ty) == 'Vec':
                        ls = [(k, e, {e})]
                    elif ty in o.owners and ty != m.graph:
                        ls = [(n, e, {('field', e, n, ty)}) for n in sorted(o.owners[ty])]
                    else:
                        continue
                    for n, e, es in ls:
                        cl = {q.bb for q in y.calls() if is_call(q, 'clear', 'new', 'with_capacity') and q.bb in y.live_blocks and q.args and
                              (sym.operand(y, q.args[0]) in es or sym.operand(y, q.args[0])[:4] in es)}
                        w = path_without(y, 0, {t.bb}, (), cl) if e[0] != 'call' or e[3] not in ('new', 'with_capacity', 'default') else None
                        ctx.ob('all-nodes', f'{c.name}: list {n} fresh', w is None, y.at(t.bb, t.line), f'the traversal starts with entries of an earlier one ({show(e)})', w and lines(y, w))
            # retain: only cycle members are dropped
            for t in y.calls():
                if t.bb in y.live_blocks and is_call(t, 'retain', 'retain_mut') and o.about(sym.operand(y, t.args[0]), o.field):
                    for cu in closures_of(ctx, y, t):
                        e = sym.local(cu, 0)
                        ctx.ob('only-cycles-skipped', f'{c.name}: {t.callee.name}', cycle_sign(ctx, o, cu, e) > 0, y.at(t.bb, t.line), f'the ordering keeps the nodes for which {show(e)}')


def visited_rules(ctx, o, x, r, calls, pushes, pos, rets, rcut):
    """bookkeeping lists of the traversal: visited nodes are visited once, nodes are on the current path only while they are"""
    sym, cd = ctx.sym, o.cd
    name = tail(r.path)

    def listarg(e):
        k = o.key(x, e)
        return None if k == pos else k

    def ops(k, names):
        return {t.bb for t in x.calls() if t.callee is not None and t.args and t.bb in x.live_blocks and t.callee.name in names and
                listarg(sym.operand(x, t.args[0])) == k}
    tested, onpath = set(), set()
    for t in x.calls():
        if t.callee is not None and t.args and t.bb in x.live_blocks and t.callee.name in ('contains', 'position', 'any', 'find'):
            k = listarg(sym.operand(x, t.args[0]))
            if k is not None:
                tested.add(k)
        if t.callee is not None and len(t.args) > 1 and t.bb in x.live_blocks and t.callee.name in ('extend_from_slice', 'extend', 'push', 'append'):
            a, k = listarg(sym.operand(x, t.args[0])), listarg(sym.operand(x, t.args[1]))
            if k is not None and a != k:
                onpath.add(k)
    once = []
    for k in sorted(tested):
        ps = ops(k, ('push', 'insert'))
        w = path_without(x, 0, calls, (), ps)
        ctx.ob('visited', f'{name}: list {k[1]} recorded', bool(ps) and w is None, r.loc(r.line), 'the traversal continues without recording the node', w and lines(x, w))
        if k not in onpath:
            once.append(k)
            neg = cd.edges_with(x, lambda e, v: (v is False and e[0] == 'call' and e[3] in ('contains', 'any') or v == 'None') and listarg(e) == k)
            w = path_without(x, 0, pushes, neg)
            ctx.ob('visited', f'{name}: once', w is None, r.loc(r.line), 'a node can be appended although it was visited before', w and lines(x, w))
        else:
            red = ops(k, ('retain', 'pop', 'remove', 'truncate', 'swap_remove'))
            w = None
            for q in ps:
                w = w or path_without(x, q, rets, rcut, red)
            on_cycle(ctx, o, x, r, k, listarg)
            ctx.ob('visited', f'{name}: path left', w is None, r.loc(r.line), 'a node that was left still counts as part of the current path, so unrelated nodes look like a cycle', w and lines(x, w))
    ctx.floor('visited', 'lists of visited nodes', len(once), 1)


def on_cycle(ctx, o, x, r, k, listarg):
    """when a node is met again the cycle is the current path from that node on: no more (a node before it would be muted or cut off), no less"""
    sym, cd = ctx.sym, o.cd
    found = cd.edges_with(x, lambda e, v: v == 'Some' and e[0] == 'call' and e[3] in ('position', 'rposition') and listarg(e) == k)
    if not found:
        return

    def is_pos(e):
        return e[0] == 'field' and e[1][0] == 'dc' and e[1][1][0] == 'call' and e[1][1][3] in ('position', 'rposition')

    def part(e):
        for y in walk(e):
            if y[0] == 'call' and y[3] in ('skip', 'index', 'index_mut', 'get', 'split_at', 'split_off', 'drain', 'get_unchecked', 'nth') and len(y[2]) > 1:
                z = y[2][1]
                if is_pos(z) or z[0] == 'agg' and isinstance(z[3], dict) and is_pos(z[3].get('start', ('?',))):
                    return True
        return False
    for t in x.calls():
        if t.callee is None or t.bb not in x.live_blocks or t.callee.name not in ('find', 'any', 'find_map', 'rfind', 'extend_from_slice', 'extend') or \
                path_without(x, 0, {t.bb}, found) is not None:
            continue
        a = sym.operand(x, t.args[0 if t.callee.name not in ('extend_from_slice', 'extend') else 1])
        if listarg(a) != k:
            continue
        what = 'muted' if t.callee.name.startswith('extend') else 'searched for a delay'
        ctx.ob('only-cycles-skipped', f'{tail(r.path)}: {what}', part(a), x.at(t.bb, t.line), f'not exactly the nodes on the cycle are {what}: {show(a)[:160]}')


def mentions_edge(gm, b, t):
    ty = gm.op_ty(b, t.args[0])
    return ty is not None and gm.mentions_ty(ty, gm.edge)


def order_param(ctx, o, b, r):
    """key of the list of the traversal which becomes the ordering"""
    for c in {ctx.g.root_fn(e.src) for e in ctx.g.rev[r.uid] if ctx.g.root_fn(e.src).uid != r.uid}:
        for x in [c] + [ctx.p.bodies[u] for u in ctx.g.reach([c], ('closure',))]:
            for t in x.calls():
                if t.callee is not None and t.callee.uid == r.uid:
                    for k, a in enumerate(t.args):
                        if o.about(ctx.sym.operand(x, a), o.field) and any(y[0] == 'field' and y[2] == o.field or y[0] == 'up' and o._up(y, o.field) for y in walk(ctx.sym.operand(x, a))):
                            if k > 0:
                                return 'arg', k + 1
    for t in b.calls():
        if is_call(t, 'push') and t.args and o.is_list(ctx.sym.operand(b, t.args[0]), o.field):
            return 'field', o.field
    return None
