"""C17: channel constraints hold on every route."""
import inline as inl
from cond import Conds, consistent_path, path_without
from ctrl import Ctrl
from flow import lines
from graphm import is_call
from model import tail
from nodes import pairs
from sym import show, walk
from c12 import strip_bb

EXPLANATION = ('For each node type the channel settings are followed on both routes with helpers inlined: from the options of the constructor into the settings '
               'object, and from each setter (own or inherited) to the update of that object. For every constraint (an upper bound, a fixed value, a '
               'forbidden mode) it is decided whether all paths to the update have passed a test that implies it. The constraints that '
               'the Web Audio specification gives for the node type must hold on both routes, and any other constraint found on one route must hold on the other.')
TECHNIQUE = 'must-pass analysis of value tests on inlined constructors and setters, specification table as oracle'
NOTE = 'All node types with all three channel attributes, both routes; all values.'
ASSUMPTIONS = ['The constraint table is taken from the Web Audio API specification (channelCount, channelCountMode and channelInterpretation constraints).']
ATTRS = ('count', 'count_mode', 'interpretation')

TWO = {'count': [('le', 2)], 'count_mode': [('ne', 'Max')]}
SPEC = {
    'ChannelMergerNode': {'count': [('eq', 1)], 'count_mode': [('eq', 'Explicit')]},
    'ChannelSplitterNode': {'count': [('same', 'number_of_outputs')], 'count_mode': [('eq', 'Explicit')], 'interpretation': [('eq', 'Discrete')]},
    'ConvolverNode': TWO, 'DynamicsCompressorNode': TWO, 'PannerNode': TWO, 'StereoPannerNode': TWO,
    'ScriptProcessorNode': {'count': [('same', 'count')], 'count_mode': [('eq', 'Explicit')]},
}


def holds_const(c, e):
    """does a constant satisfy the constraint? None if not a constant"""
    v = e[1] if e[0] == 'const' else e[2] if e[0] == 'agg' and not e[3] else None
    if v is None or isinstance(v, str) and e[0] == 'const':
        return None
    k, x = c
    if k == 'le':
        return isinstance(v, int) and v <= x
    if k == 'ge':
        return isinstance(v, int) and v >= x
    if k == 'eq':
        return v == x
    if k == 'ne':
        return v != x
    return None


def implied(c, fact, truth, isval, peer=None):
    """does the fact imply constraint c about the value recognised by isval?"""
    k, x = c
    e = fact
    if isinstance(truth, (str, tuple)):
        if not isval(e):
            return False
        if isinstance(truth, str):
            return k == 'eq' and truth == x or k == 'ne' and truth != x
        if truth[0] == 'in':
            num = all(isinstance(y, int) for y in truth[1])
            return {'eq': set(truth[1]) == {x}, 'ne': x not in truth[1], 'le': num and max(truth[1]) <= x if num else False,
                    'ge': num and min(truth[1]) >= x if num else False}.get(k, False)
        return k == 'ne' and truth[0] == 'not' and truth[1] == x
    if e[0] == 'call' and e[3] == 'contains' and truth is True and len(e[2]) == 2 and isval(e[2][1]):
        r = e[2][0]
        if r[0] == 'call' and r[3] == 'new' and len(r[2]) == 2 and 'RangeInclusive' in r[1]:
            lo, hi = r[2]
        elif r[0] == 'agg' and tail(r[1]) == 'Range':
            lo, hi = r[3].get('start'), r[3].get('end')
            hi = ('const', hi[1] - 1, None) if hi and hi[0] == 'const' else None
        else:
            return False
        if k == 'le':
            return bool(hi) and hi[0] == 'const' and hi[1] <= x
        return k == 'ge' and bool(lo) and lo[0] == 'const' and lo[1] >= x
    if e[0] == 'call' and e[3] == 'eq' and len(e[2]) == 2:
        op, a, b = 'Eq', e[2][0], e[2][1]
    elif e[0] == 'bin' and e[1] in ('Eq', 'Lt', 'Le', 'Gt', 'Ge'):
        op, a, b = e[1], e[2], e[3]
    else:
        return False
    if truth is False:
        op = {'Eq': 'Ne', 'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt'}[op]
    if isval(b) and not isval(a):
        a, b = b, a
        op = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(op, op)
    if not isval(a):
        return False
    if k == 'same':
        return op == 'Eq' and peer is not None and peer(b)
    v = b[1] if b[0] == 'const' else b[2] if b[0] == 'agg' and not b[3] else None
    if v is None:
        return False
    if isinstance(v, int) and not isinstance(x, str):
        if k == 'le':
            return op == 'Le' and v <= x or op == 'Lt' and v <= x + 1 or op == 'Eq' and v <= x
        if k == 'ge':
            return op == 'Ge' and v >= x or op == 'Gt' and v >= x - 1 or op == 'Eq' and v >= x or op == 'Ne' and v == 0 and x == 1
        return k == 'eq' and op == 'Eq' and v == x
    if k == 'eq':
        return op == 'Eq' and v == x
    return k == 'ne' and (op == 'Ne' and v == x or op == 'Eq' and v != x)


class Route:
    """one way a channel attribute gets its value: a set of (body, block, value expression)"""

    def __init__(self, ctx, cd, points, peer_of=None):
        self.ctx, self.cd, self.points, self.peer_of = ctx, cd, points, peer_of

    def holds(self, c):
        """None if the constraint holds at all points, else (location, path)"""
        for b, bb, line, val in self.points:
            if c[0] == 'same':
                peer = self.peer_of(b, c[1])
                if peer is not None and peer(val):
                    continue
            else:
                peer = None
                k = holds_const(c, val)
                if k is True:
                    continue
                if k is False:
                    return b.at(bb, line), None
                if val[0] == 'phi' and all(holds_const(c, x) for x in val[2]):
                    continue
            v0 = strip_bb(val)
            w = consistent_path(self.cd, b, 0, {bb}, preds=(lambda e, t: implied(c, e, t, lambda x: strip_bb(x) == v0, peer),))
            if w is not None:
                return b.at(bb, line), lines(b, w)
        return None

    def candidates(self):
        """constraints mentioned by tests of the value"""
        out = set()
        for b, bb, line, val in self.points:
            v0 = strip_bb(val)
            for x in b.live_blocks:
                if b.blocks[x].term.k not in ('switch', 'assert'):
                    continue
                for s in dict.fromkeys(b.succs[x]):
                    for e, t in self.cd.edge(b, x, s):
                        if not any(strip_bb(y) == v0 for y in walk(e)):
                            continue
                        for y in walk(e):
                            if y[0] == 'const' and isinstance(y[1], int) and not isinstance(y[1], bool) and 0 < y[1] < 1000:
                                out |= {('le', y[1]), ('eq', y[1]), ('ge', y[1])}
                            if y[0] == 'agg' and not y[3] and y[2] and y[1].split('::')[-1] in ('ChannelCountMode', 'ChannelInterpretation'):
                                out |= {('eq', y[2]), ('ne', y[2])}
                        if isinstance(t, str):
                            out |= {('eq', t), ('ne', t)}
        return out


def settings(p):
    c = [a for a in p.adts if tail(a) == 'ChannelConfig']
    i = []

    def visit(ty):
        if ty.adt in p.adts:
            i.append(ty.adt)
        for x in ty.args:
            visit(x)
    for a in c:
        for _, _, ft in p.adt_fields(a):
            visit(ft)
    return (c[0] if c else None), (i[0] if i else None)


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    ctx.rule('spec', 'A constraint the specification gives for the node type holds whenever the attribute gets a value.')
    ctx.rule('both-routes', 'A constraint tested by the constructor is tested by the setter and the other way round.')
    ctx.rule('bounds', 'A channel count between 1 and 32 is ensured before the value is stored or sent, on both routes.')
    ctx.rule('routes', 'The settings of a node are changed by its own setters only.')
    ctx.rule('destination', 'The channel count of a destination stays within the maximum and cannot change in an offline context.')
    cfg, inner = settings(p)
    ctx.floor('bounds', 'channel settings types', int(bool(cfg)) + int(bool(inner)), 2)
    if not cfg or not inner:
        return
    cd = Conds(sym)
    # setters of the settings object
    sets = {}
    for b in p.methods_of(cfg):
        if b.kind != 'Closure' and b.name.startswith('set_') and b.argc >= 2:
            sets[b.uid] = b.name[4:]
    ctx.floor('spec', 'settings', len(sets), 3)
    fields = [f for _, f, _ in p.adt_fields(inner)]
    # --- bounds
    n = 0
    for b in p.bodies.values():
        if b.uid in sets and 'count' == sets[b.uid]:
            ib = inl.Inliner(p, g, lambda q: q.name != 'eq', 5).run(b)
            ctx.seen(b)
            pts = [(ib, s.bb, s.line, sym.rvalue(ib, s.rv)) for s in ib.stmts()
                   if s.kind == '=' and s.place.fields() and s.place.fields()[-1][1] == inner and s.bb in ib.live_blocks]
            pts += [(ib, t.bb, t.line, ('arg', 2, b.lname(2))) for t in ib.calls() if t.bb in ib.live_blocks and C.is_send(ib, t)]
            n += len(pts)
            for c in (('ge', 1), ('le', 32)):
                w = Route(ctx, cd, pts).holds(c)
                ctx.ob('bounds', f'set: {c[0]} {c[1]}', w is None, w[0] if w else b.loc(b.line), 'the count is stored or sent untested', w and w[1])
    ctx.floor('bounds', 'updates of a channel count', n, 2)
    # --- construction of settings from options
    conv = []
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == inner and s.bb in b.live_blocks and not (b.trait and tail(b.trait) == 'Clone'):
                conv.append((g.root_fn(b), s))
    ctx.floor('bounds', 'constructions of channel settings', len(conv), 1)
    for b in {x.uid: x for x, _ in conv}.values():
        ib = inl.Inliner(p, g, lambda q: q.name != 'eq', 5).run(b)
        ctx.seen(b)
        pts = []
        for s in ib.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == inner and s.bb in ib.live_blocks:
                pts.append((ib, s.bb, s.line, sym.rvalue(ib, s.rv)[3].get('count', ('none',))))
        pts = [x for x in pts if x[3] != ('none',)]
        for c in (('ge', 1), ('le', 32)):
            w = Route(ctx, cd, pts).holds(c)
            ctx.ob('bounds', f'{b.name}: {c[0]} {c[1]}', w is None, w[0] if w else b.loc(b.line), 'settings are created with an untested count', w and w[1])
    # --- setters per node type
    nt = m.node_trait
    names = channel_methods(p, nt, sets)
    ctx.floor('spec', 'channel setters of nodes', len(names), 3)
    ctor = constructors(ctx, C, cfg, inner)
    types = sorted({pr.node for pr in pairs(ctx, m)})
    found = 0
    for node in types:
        t = tail(node)
        if t == 'AudioParam':
            continue
        for attr, mname in sorted(names.items()):
            meth = [b for b in p.bodies.values() if b.name == mname and b.kind != 'Closure' and
                    (b.trait == nt and b.self_ty is not None and b.self_ty.strip().adt == node)] or \
                   [b for b in p.bodies.values() if b.name == mname and b.in_trait == nt and b.kind != 'Closure']
            if not meth:
                continue
            ib = inl.Inliner(p, g, lambda q: q.uid not in sets and q.name != 'eq' and not (q.trait == nt and q.argc == 1), 5).run(meth[0])
            ctx.seen(meth[0])
            sp = [(ib, c.bb, c.line, sym.operand(ib, c.args[1])) for c in ib.calls() if c.callee is not None and c.callee.uid in sets and c.bb in ib.live_blocks]
            sp = sp or [(ib, x, meth[0].line, ('arg', 2, meth[0].lname(2))) for x in ib.live_blocks if ib.blocks[x].term.k == 'return']
            S = Route(ctx, cd, sp, lambda b, f: lambda e: any(y[0] == 'field' and y[2] == f for y in walk(e)) and e[0] == 'field' or e[0] == 'call' and e[3] == f)
            R = ctor.get(node, {}).get(attr)
            if R is not None:
                found += 1
            spec = SPEC.get(t, {}).get(attr, [])
            for c in spec:
                w = S.holds(c)
                ctx.ob('spec', f'{t}.{mname}: {c[0]} {c[1]}', w is None, w[0] if w else meth[0].loc(meth[0].line), 'the setter accepts a value that the node type does not allow', w and w[1])
                if R is not None and c != ('same', 'count'):
                    w = R.holds(c)
                    ctx.ob('spec', f'{t} options {attr}: {c[0]} {c[1]}', w is None, w[0] if w else '', 'the constructor accepts a value that the node type does not allow', w and w[1])
            if R is None or any(c[0] == 'same' for c in spec):
                continue
            # any other constraint found on one of the routes
            cs = sorted((S.candidates() | R.candidates()) - set(spec) - {('ge', 1), ('le', 32)}, key=str)
            for c in cs:
                a, b = S.holds(c), R.holds(c)
                if (a is None) != (b is None):
                    weaker = [d for d in spec if stronger(d, c)]
                    if weaker or a is not None and all(holds_const(c, v) for *_, v in R.points):
                        continue
                    w = a or b
                    ctx.ob('both-routes', f'{t} {attr}: {c[0]} {c[1]}', False, w[0], f'the {"constructor" if a else "setter"} enforces it, the {"setter" if a else "constructor"} does not', w[1])
                elif a is None:
                    ctx.ob('both-routes', f'{t} {attr}: {c[0]} {c[1]}', True)
    ctx.floor('spec', 'channel attributes followed from options', found, 30)
    destination(ctx, C, names, sets, cd)
    # --- routes
    k = 0
    ok_names = set(names.values())
    for b in p.bodies.values():
        for t in b.calls():
            if t.callee is not None and t.callee.uid in sets:
                k += 1
                r = g.root_fn(b)
                ok = (r.trait == nt or r.in_trait == nt) and r.name in ok_names or all(g.root_fn(e.src).name in ok_names for e in g.rev[r.uid]) and bool(g.rev[r.uid])
                ctx.ob('routes', f'{r.path}: {t.callee.name}', ok, b.loc(t.line), 'channel settings are changed without going through the setter of the node')
    ctx.floor('routes', 'updates of channel settings', k, 3)


def stronger(a, b):
    """a implies b"""
    if a == b:
        return True
    if a[0] == 'eq' and b[0] == 'le' and isinstance(a[1], int):
        return a[1] <= b[1]
    if a[0] == 'eq' and b[0] == 'ge' and isinstance(a[1], int):
        return a[1] >= b[1]
    if a[0] == 'eq' and b[0] == 'ne':
        return a[1] != b[1]
    if a[0] == 'le' and b[0] == 'le':
        return a[1] <= b[1]
    return False


def channel_methods(p, nt, sets):
    """attribute of the settings -> name of the node trait method that sets it"""
    out = {}
    for b in p.bodies.values():
        if b.in_trait == nt and b.kind != 'Closure' and b.name.startswith('set_'):
            for t in b.calls():
                if t.callee is not None and t.callee.uid in sets:
                    out[sets[t.callee.uid]] = b.name
    return out


def options(ctx, cfg, inner):
    """(type of the options, settings field -> options field), from the conversion"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    for b in p.bodies.values():
        if b.name != 'from' or b.kind == 'Closure' or b.lty(0).adt != cfg:
            continue
        ib = inl.Inliner(p, g, lambda q: True, 5).run(b)
        for s in ib.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == inner and s.bb in ib.live_blocks:
                e = sym.rvalue(ib, s.rv)
                out = {f: v[2] for f, v in e[3].items() if v[0] == 'field' and v[1][:2] == ('arg', 1)}
                ctx.ob('both-routes', 'options are taken over', len(out) == len(e[3]) and len(set(out.values())) == len(out) and
                       all(f in o for f, o in out.items()), b.loc(b.line), f'settings are {show(e)}')
                return b.lty(1).adt, out
    return None, {}


def assigned(sym, b, bb, v):
    """value of a place expression that is overwritten before bb"""
    v0 = strip_bb(v)
    best = None
    for s in b.stmts():
        if s.kind == '=' and s.place.proj and s.bb in b.live_blocks and strip_bb(sym.place(b, s.place)) == v0:
            if b.dominates(s.bb, bb):
                best = sym.rvalue(b, s.rv)
            else:
                return v
    return v if best is None else best


def constructors(ctx, C, cfg, inner):
    """node type -> attribute -> Route from the constructor options"""
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    cd = Conds(sym)
    pts = {}
    inits = {}
    opt_ty, opts = options(ctx, cfg, inner)
    keep = {b.uid for b in p.bodies.values() if b.self_ty is not None and b.self_ty.strip().adt in (m.render_thread, m.graph)}
    done = set()
    for pr in pairs(ctx, m):
        r = g.root_fn(pr.closure)
        if (r.uid, pr.node) in done:
            continue
        done.add((r.uid, pr.node))
        ib = inl.Inliner(p, g, lambda q: q.name != 'eq' and q.uid not in keep, 6).run(r)
        for x in ib.origin:
            ctx.seen(x)
        for t in ib.calls():
            if t.bb in ib.live_blocks and is_call(t, 'into', 'from') and t.dest is not None and (ib.place_ty(t.dest) or ib.lty(0)).adt == cfg:
                e = sym.operand(ib, t.args[0])
                for f, o in opts.items():
                    v = e[3].get(o) if e[0] == 'agg' else ('field', e, o, opt_ty)
                    if v is not None:
                        pts.setdefault(pr.node, {}).setdefault(f, []).append((ib, t.bb, t.line, assigned(sym, ib, t.bb, v)))
        for s in ib.stmts():
            if s.kind != '=' or s.rv.k != 'agg' or s.bb not in ib.live_blocks:
                continue
            if s.rv.agg.get('adt') == pr.node:
                names = [x[1] for x in p.adt_fields(pr.node)]
                inits[(ib.serial, pr.node)] = {f: sym.operand(ib, o) for f, o in zip(names, s.rv.ops)}
    out = {}
    for node, fs in pts.items():
        def peer_of(b, f, node=node):
            e0 = inits.get((b.serial, node), {}).get(f)
            return None if e0 is None else lambda e: strip_bb(e) == strip_bb(e0)
        out[node] = {f: Route(ctx, cd, v, peer_of) for f, v in fs.items()}
    return out


def destination(ctx, C, names, sets, cd):
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    nt = m.node_trait
    n = 0
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.trait != nt or b.self_ty is None or tail(b.self_ty.strip().adt or '') != 'AudioDestinationNode':
            continue
        if b.name not in (names.get('count'), names.get('count_mode')):
            continue
        ctx.seen(b)
        ib = inl.Inliner(p, g, lambda q: q.uid not in sets and q.name not in ('eq', 'offline', 'max_channel_count') and not (q.trait == nt and q.argc == 1), 5).run(b)
        v0 = ('arg', 2)

        def val(e):
            return e[:2] == v0

        def cap(e):
            return any(x[0] == 'call' and x[3] == 'max_channel_count' for x in walk(e))
        offline = cd.edges_with(ib, lambda e, t: t is False and e[0] == 'call' and e[3] == 'offline')
        for c in ib.calls():
            if c.callee is None or c.callee.uid not in sets or c.bb not in ib.live_blocks:
                continue
            n += 1
            if b.name == names['count']:
                eq = cd.edges_with(ib, lambda e, t: implied(('same', ''), e, t, val, cap))
                w = path_without(ib, 0, {c.bb}, offline | eq)
                ctx.ob('destination', 'offline count', w is None, ib.at(c.bb, c.line), 'the channel count of an offline destination can be changed', w and lines(ib, w))
                le = cd.edges_with(ib, lambda e, t: at_most(e, t, val, cap))
                w = path_without(ib, 0, {c.bb}, le | eq)
                ctx.ob('destination', 'maximum', w is None, ib.at(c.bb, c.line), 'a count above the maximum is accepted', w and lines(ib, w))
            else:
                ex = cd.edges_with(ib, lambda e, t: implied(('eq', 'Explicit'), e, t, val))
                w = path_without(ib, 0, {c.bb}, offline | ex)
                ctx.ob('destination', 'offline mode', w is None, ib.at(c.bb, c.line), 'the count mode of an offline destination can be changed', w and lines(ib, w))
    ctx.floor('destination', 'setters of the destination', n, 2)


def at_most(e, t, val, cap):
    if e[0] != 'bin' or e[1] not in ('Le', 'Lt', 'Gt', 'Ge') or not isinstance(t, bool):
        return False
    op = e[1] if t else {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt'}[e[1]]
    return val(e[2]) and cap(e[3]) and op in ('Le', 'Lt') or val(e[3]) and cap(e[2]) and op in ('Ge', 'Gt')
