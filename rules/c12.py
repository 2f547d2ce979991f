"""C12: connections are validated, deduplicated and removable."""
from collections import Counter

import boolfn
import inline as inl
from cond import Conds, path_without
from ctrl import Ctrl
from flow import Guards, Types, lines
from graphm import is_call
from model import mentions, tail
from msgs import root_is
from sym import show, walk

EXPLANATION = ('All methods of the node trait (default and overriding) that reach the context\'s connect or disconnect routine are analysed with their helpers '
               'inlined: each is preceded on every path by the context comparison and by the bounds test of each port it is given, and passes its arguments in '
               'the roles source, destination, output, input. The routines are followed to the connection set, the messages, the renderer and the mixing of '
               'blocks, comparing roles field by field; the conditions under which entries are dropped from the set and edges from the graph are '
               'evaluated as decision tables.')
TECHNIQUE = 'must-pass dominance of argument tests over inlined MIR, role dataflow through message and edge fields, decision tables of removal predicates'
NOTE = 'All connect and disconnect variants of all node types; all entries and criteria.'
ASSUMPTIONS = ['Each node type reports its number of inputs and outputs truthfully (they are what it registers with).']
ROLES = ('source', 'destination', 'output', 'input')


def some(e):
    while e[0] == 'agg' and tail(e[1]) == 'Option' and len(e[3]) == 1:
        e = next(iter(e[3].values()))
    return e


def is_none(e):
    return e[0] == 'agg' and tail(e[1]) == 'Option' and not e[3]


class Conn:
    """the connection set of the context and the two routines that change it"""

    def __init__(self, ctx, C):
        self.ctx, self.C, self.p, self.g, self.sym, self.m = ctx, C, ctx.p, ctx.g, ctx.sym, C.m
        self.nid = self.m.node_id
        self.inserts, self.removals = [], []
        for b in self.p.bodies.values():
            for t in b.calls():
                if t.callee is None or not t.args:
                    continue
                ty = C.gm.op_ty(b, t.args[0])
                if ty is None or not self.is_set(ty):
                    continue
                if is_call(t, 'insert', 'push', 'replace', 'get_or_insert', 'extend'):
                    self.inserts.append((b, t))
                elif is_call(t, 'remove', 'retain', 'retain_mut', 'take', 'drain', 'clear', 'extract_if', 'pop', 'swap_remove', 'truncate'):
                    self.removals.append((b, t))
        self.connect = {self.g.root_fn(b).uid for b, _ in self.inserts}
        self.disconnect = set()
        for b, t in self.removals:
            r = self.g.root_fn(b)
            ib = inl.Inliner(self.p, self.g, lambda q: True, 5).run(r)
            for x, s in [(ib, s) for s in ib.stmts()] + [(c, s) for c in self.closures(r) for s in c.stmts()]:
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == C.enum and \
                        sum(1 for o in s.rv.ops if (C.gm.op_ty(x, o) or ib.lty(0)).adt == self.nid) >= 2:
                    self.disconnect.add(r.uid)

    def closures(self, r):
        return [b for b in self.p.bodies.values() if b.kind == 'Closure' and self.g.root_fn(b) is r]

    def is_entry(self, t):
        if t.k == 'tuple':
            return sum(1 for a in t.args if a.adt == self.nid) >= 2
        if t.adt in self.p.adts and self.p.adts[t.adt]['kind'] == 'Struct':
            return sum(1 for _, _, f in self.p.adt_fields(t.adt) if f.adt == self.nid) >= 2
        return False

    def is_set(self, ty):
        t = ty.strip()
        while t.adt and tail(t.adt) in ('MutexGuard', 'RwLockWriteGuard', 'Mutex', 'Arc', 'RwLock') and t.args:
            t = [a for a in t.args if a.k != 'region'][0].strip()
        return t.adt is not None and tail(t.adt) in ('HashSet', 'BTreeSet', 'Vec', 'IndexSet') and bool(t.args) and self.is_entry(t.args[0])

    def inline(self, b, keep=()):
        nt = self.m.node_trait
        return inl.Inliner(self.p, self.g, lambda q: q.uid not in keep and not (q.trait == nt and q.argc == 1) and q.name != 'eq', 6).run(b)


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    ctx.rule('context', 'Connecting to or disconnecting from a node happens only after its context was found to be the same.')
    ctx.rule('ports', 'A port is passed on only after it was found to be within bounds, outputs of the source and inputs of the destination.')
    ctx.rule('roles', 'Source, destination, output and input are passed on in these roles.')
    ctx.rule('effect', 'A connect or disconnect method that returns has had its effect.')
    ctx.rule('same-source', 'All connect and disconnect methods of a node type act on the same source.')
    ctx.rule('identity', 'Contexts are equal only if they are the same context.')
    ctx.rule('once', 'A connection is announced to the renderer exactly if it was not there before, under the lock of the set.')
    ctx.rule('removal', 'Disconnecting removes exactly the entries that match all given criteria, and tells the renderer of each.')
    ctx.rule('kept', 'Entries leave the set only by disconnecting, with their source handle, or when an id is given to a new node.')
    ctx.rule('renderer', 'The renderer adds, removes and mixes connections with the ports in the roles in which they were given.')
    K = Conn(ctx, C)
    ctx.floor('once', 'insertions into the connection set', len(K.inserts), 1)
    ctx.floor('removal', 'disconnect routines', len(K.disconnect), 1)
    core = K.connect | K.disconnect
    cd = Conds(sym)
    roles = methods(ctx, C, K, core, cd)
    if roles is None:
        return
    msg = connect_rule(ctx, C, K, roles)
    disconnect_rule(ctx, C, K, roles, msg)
    renderer(ctx, C, K, msg)
    # identity of contexts
    n = 0
    for b in p.bodies.values():
        if b.name == 'eq' and b.trait and tail(b.trait) == 'PartialEq' and b.self_ty is not None and b.self_ty.strip().adt in context_types(p):
            n += 1
            ctx.seen(b)
            rows = boolfn.table(sym, inl.Inliner(p, g, lambda q: True, 4).run(b)) or []
            ok = bool(rows) and all(r.ret is False or r.has(lambda e, v: v is True and e[0] == 'call' and e[3] in ('ptr_eq', 'eq', 'addr_eq') and
                                                            {x[1] for y in e[2] for x in walk(y) if x[0] == 'arg'} >= {1, 2} and (e[3] != 'eq' or 'as_ptr' in show(e)))
                                     for r in rows)
            ctx.ob('identity', tail(b.self_ty.strip().adt), ok, b.loc(b.line), 'different contexts may compare equal')
    ctx.floor('identity', 'context comparison', n, 1)


def context_types(p):
    return {a for a in p.adts if tail(a) == 'ConcreteBaseAudioContext'}


def methods(ctx, C, K, core, cd):
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    nt = m.node_trait
    api = [b for b in p.bodies.values() if b.kind != 'Closure' and (b.trait == nt or b.in_trait == nt) and
           (b.name.startswith('connect') or b.name.startswith('disconnect'))]
    names = {b.name for b in api}
    ctx.floor('effect', 'connect and disconnect methods', len(api), 5)
    seen = {}           # routine uid -> role -> Counter(position)
    sites = []
    sources = {}        # type -> {method: source expr}
    for b in sorted(api, key=lambda x: x.path):
        ctx.seen(b)
        ib = K.inline(b, core)
        for x in ib.origin:
            ctx.seen(x)
        who = tail(b.self_ty.strip().adt) if b.self_ty is not None and b.self_ty.strip().adt else tail(nt)
        key = f'{who}.{b.name}'
        calls = [t for t in ib.calls() if t.bb in ib.live_blocks and t.callee is not None and t.callee.uid in core]
        others = [t for t in ib.calls() if t.bb in ib.live_blocks and t.callee is not None and t.callee.name in names and
                  (t.callee.trait == nt or t.callee.uid in {x.uid for x in api})]
        kind = K.connect if b.name.startswith('connect') else K.disconnect
        ok = all(t.callee.uid in kind for t in calls) and all(t.callee.name.startswith('connect') == b.name.startswith('connect') for t in others)
        ctx.ob('effect', f'{key}: kind', ok, b.loc(b.line), 'connects instead of disconnecting or the other way round')
        done = {t.bb for t in calls + others}
        w = None if 0 in done else path_without(ib, 0, set(ib.return_blocks()), (), done)
        ctx.ob('effect', key, w is None, b.loc(b.line), 'returns without effect', w and lines(ib, w))
        usz = [i for i in range(2, b.argc + 1) if b.lty(i).s == 'usize']
        dst = [i for i in range(2, b.argc + 1) if b.lty(i).k.startswith('ref')]
        for t in others:
            es = [sym.operand(ib, a) for a in t.args]
            ok = all(any(root_is(e, d) for e in es[1:]) for d in dst) and root_is(es[0], 1) and all(any(e[:2] == ('arg', u) for e in es) for u in usz)
            ctx.ob('roles', f'{key}: delegation', ok, ib.at(t.bb, t.line), 'an argument is not passed on')
        for t in calls:
            es = [some(sym.operand(ib, a)) for a in t.args]
            at = ib.at(t.bb, t.line)
            for d in dst:
                eq = cd.edges_with(ib, lambda e, v, d=d: v is True and e[0] == 'call' and e[3] in ('eq', 'ptr_eq') and len(e[2]) == 2 and
                                   ctx_of(p, e[2][0], 1) and ctx_of(p, e[2][1], d) or v is True and e[0] == 'call' and e[3] in ('eq', 'ptr_eq') and len(e[2]) == 2 and
                                   ctx_of(p, e[2][1], 1) and ctx_of(p, e[2][0], d))
                w = path_without(ib, 0, {t.bb}, eq)
                ctx.ob('context', key, w is None, at, 'a node of another context is accepted', w and lines(ib, w))
            for n, u in enumerate(usz):
                fn, own = ('number_of_outputs', 1) if n == 0 else ('number_of_inputs', dst[0] if dst else 1)
                bd = cd.edges_with(ib, lambda e, v: within(e, v, u, fn, own))
                w = path_without(ib, 0, {t.bb}, bd)
                ctx.ob('ports', f'{key}: {"output" if n == 0 else "input"}', w is None, at, 'a port that is out of bounds is accepted', w and lines(ib, w))
                if not any(e[:2] == ('arg', u) for e in es):
                    ctx.ob('roles', f'{key}: {ROLES[2 + n]}', False, at, 'the given port is not passed on')
            for d in dst:
                if not any(root_is(e, d) for e in es):
                    ctx.ob('roles', f'{key}: destination', False, at, 'the given destination is not passed on')
            got = {}
            for i, e in enumerate(es):
                if i == 0:
                    continue
                r = None
                if e[:1] == ('arg',) and e[1] in usz:
                    r = ROLES[2 + usz.index(e[1])]
                elif any(root_is(e, d) for d in dst):
                    r = 'destination'
                elif root_is(e, 1):
                    r = 'source'
                    sources.setdefault(who, {})[b.name] = (e, at)
                if r:
                    got[r] = i
                    seen.setdefault(t.callee.uid, {}).setdefault(r, Counter())[i] += 1
            sites.append((key, t.callee.uid, got, at))
    if not sites:
        ctx.floor('effect', 'calls of the connect and disconnect routines', 0, 1)
        return None
    roles = {}
    for uid, rs in seen.items():
        roles[uid] = {r: c.most_common(1)[0][0] for r, c in rs.items()}
    for key, uid, got, at in sites:
        for r, i in sorted(got.items()):
            ctx.ob('roles', f'{key}: {r}', roles[uid][r] == i and len(set(roles[uid].values())) == len(roles[uid]), at, f'{r} is passed in another position than elsewhere')
    # one source per type, all variants overridden together
    base = {b.name for b in api if b.in_trait == nt and any(t.callee is not None and t.callee.uid in core for t in K.inline(b, core).calls())}
    dflt = sources.get(tail(nt), {})
    ctx.ob('same-source', tail(nt), len({strip_bb(e) for e, _ in dflt.values()}) <= 1, '', 'default methods use different sources')
    for who, ms in sorted(sources.items()):
        if who == tail(nt):
            continue
        es = {strip_bb(e) for e, _ in ms.values()}
        ctx.ob('same-source', who, len(es) == 1, next(iter(ms.values()))[1], f'methods use different sources: {sorted(show(e) for e, _ in ms.values())[:3]}')
        d = {strip_bb(e) for e, _ in dflt.values()}
        missing = sorted(base - set(ms)) if es != d else []
        ctx.ob('same-source', f'{who}: all variants', not missing, next(iter(ms.values()))[1], f'the inherited {", ".join(missing)} act on another source')
    return roles


def strip_bb(e):
    if not isinstance(e, tuple):
        return e
    if e[:1] == ('call',):
        return ('call', e[3], tuple(strip_bb(x) for x in e[2]))
    return tuple(strip_bb(x) for x in e)


def ctx_of(p, e, n):
    """the context of node n"""
    return root_is(e, n) and any(x[0] == 'call' and x[3] == 'context' or x[0] == 'field' and x[2] == 'context' for x in walk(e))


def within(e, v, u, fn, own):
    """fact: argument u is smaller than the port count of node own"""
    if e[0] != 'bin' or e[1] not in ('Lt', 'Gt', 'Le', 'Ge'):
        return False
    a, b, op = e[2], e[3], e[1]
    if v is False:
        op = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}[op]
    if op == 'Gt':
        a, b, op = b, a, 'Lt'
    return op == 'Lt' and a[:2] == ('arg', u) and b[0] == 'call' and b[3] == fn and root_is(b[2][0], own)


def parts(e):
    if e[0] == 'tuple':
        return {str(i): x for i, x in enumerate(e[1])}
    if e[0] == 'agg':
        return dict(e[3].items())
    return {}


def connect_rule(ctx, C, K, roles):
    """-> {'entry': role -> component, 'msg': role -> message field, 'variant': name}"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    guards = Guards(p, sym, Types(p))
    cd = Conds(sym)
    out = None
    for uid in K.connect:
        b = p.bodies[uid]
        ctx.seen(b)
        ib = inl.Inliner(p, g, lambda q: True, 6).run(b)
        rl = roles.get(uid, {})
        by = {i: r for r, i in rl.items()}
        entry, ins = {}, []
        for t in ib.calls():
            if t.bb in ib.live_blocks and is_call(t, 'insert', 'push') and K.is_set(C.gm.op_ty(ib, t.args[0]) or b.lty(0)):
                ins.append(t)
                for c, x in parts(sym.operand(ib, t.args[1])).items():
                    if x[0] == 'arg' and x[1] - 1 in by:
                        entry[by[x[1] - 1]] = c
        msgs = {}
        sends = []
        for s in ib.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == C.enum and s.bb in ib.live_blocks:
                e = sym.rvalue(ib, s.rv)
                sends.append((s.bb, s.line, e[2]))
                for c, x in parts(e).items():
                    if x[0] == 'arg' and x[1] - 1 in by:
                        msgs[by[x[1] - 1]] = c
        ctx.ob('roles', 'connect: entry', set(entry) == set(ROLES), b.loc(b.line), f'the recorded connection lacks {sorted(set(ROLES) - set(entry))}')
        ctx.ob('roles', 'connect: message', set(msgs) == set(ROLES), b.loc(b.line), f'the message lacks {sorted(set(ROLES) - set(msgs))}')
        new = cd.edges_with(ib, lambda e, v: e[0] == 'call' and e[3] in ('insert', 'contains') and v is (e[3] == 'insert'))
        eff = [(t.bb, t.line) for t in ib.calls() if t.bb in ib.live_blocks and (C.is_send(ib, t) or is_call(t, 'push', 'push_back') and mentions(C.gm.op_ty(ib, t.args[1]) or b.lty(0), lambda y: y.adt == C.enum))]
        ctx.floor('once', 'messages of connect', len(eff), 1)
        for bb, line in eff:
            w = path_without(ib, 0, {bb}, new)
            ctx.ob('once', 'connect: new only', w is None, ib.at(bb, line), 'a connection that exists already is announced again', w and lines(ib, w))
        ctx.ob('once', 'connect: recorded', bool(ins), b.loc(b.line), 'the connection is not recorded')
        # announced whenever new: a path from the "new" edge to a return without a message
        blk = {x[0] for x in sends}
        for q, s in sorted(new):
            w = None if s in blk else path_without(ib, s, set(ib.return_blocks()), (), blk)
            ctx.ob('once', 'connect: announced', w is None, ib.at(q, ib.blocks[q].term.line), 'a new connection is not announced to the renderer', w and lines(ib, w))
        # under the lock
        sb = inl.Inliner(p, g, lambda q: not any(C.is_send(q, t) for t in q.calls()), 6).run(b)
        snd = {x.uid for x in p.bodies.values() if any(C.is_send(x, t) for t in x.calls())}
        for t in sb.calls():
            if t.bb in sb.live_blocks and (C.is_send(sb, t) or t.callee is not None and t.callee.uid in snd):
                held = guards.live_at_call(sb, t.bb)
                ctx.ob('once', 'connect: locked', bool(held), sb.at(t.bb, t.line), 'connects and disconnects of several threads can be announced in another order than recorded')
        out = {'entry': entry, 'msg': msgs, 'variant': sends[0][2] if sends else None}
    return out


def removal_tables(ctx, C, K):
    """(root function, closure or None, inlined body, rows, captured -> expr in the root)"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    for b, t in K.removals:
        r = g.root_fn(b)
        if is_call(t, 'retain', 'retain_mut', 'extract_if') and len(t.args) > 1:
            e = sym.operand(b, t.args[1])
            if e[0] == 'closure':
                cl = p.bodies.get(e[1])
                if cl is not None:
                    ib = inl.Inliner(p, g, lambda q: q.name != 'eq', 5).run(cl)
                    yield r, b, t, ib, boolfn.table(sym, ib), list(e[2])
                    continue
        yield r, b, t, None, None, []


def disconnect_rule(ctx, C, K, roles, msg):
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    n = 0
    entry = {c: r for r, c in (msg or {}).get('entry', {}).items()}
    for r, b, t, ib, rows, caps in removal_tables(ctx, C, K):
        ctx.seen(b)
        where = b.loc(t.line)
        key = r.name
        if rows is None:
            ctx.ob('kept', key, False, where, f'entries are removed with {t.callee.name} in a way that cannot be followed')
            continue
        keep = not is_call(t, 'extract_if')

        def crit(e):
            """argument of the routine that an expression of the closure depends on"""
            out = set()
            for x in walk(e):
                if x[0] == 'up':
                    for y in walk(caps[x[2]] if isinstance(x[2], int) and x[2] < len(caps) else ('none',)):
                        if y[0] == 'arg':
                            out.add(y[1])
                        elif y[0] in ('call', 'local', 'phi'):
                            out.add('local')
            return out

        def match(e):
            """(component role, criterion) of an equality"""
            if e[0] == 'bin' and e[1] == 'Eq':
                xs = (e[2], e[3])
            elif e[0] == 'call' and e[3] == 'eq' and len(e[2]) == 2:
                xs = e[2]
            else:
                return None
            for x, y in (xs, xs[::-1]):
                x = some(x)
                if x[0] == 'field' and root_is(x, 2) and x[2] in entry and crit(y):
                    if y[0] == 'call' and y[3] == 'unwrap_or' and y[2][1] != x:
                        return None
                    return entry[x[2]], crit(y)
            return None

        if r.uid in K.disconnect:
            n += 1
            rl = {i + 1: q for q, i in roles.get(r.uid, {}).items()}
            sends = {}
            for s in ib.stmts():
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == C.enum and s.bb in ib.live_blocks:
                    sends[s.bb] = sym.rvalue(ib, s.rv)
            for bb, e in sends.items():
                for c, x in sorted(parts(e).items()):
                    want = {f: q for q, f in (msg or {}).get('msg', {}).items()}.get(c)
                    if x[0] == 'field' and root_is(x, 2):
                        role = entry.get(x[2])
                    else:
                        rs = {rl.get(a) for a in crit(x)}
                        role = rs.pop() if len(rs) == 1 else None
                        role = role if role == 'source' else None
                    ctx.ob('removal', f'{key}: message {c}', role is not None and role == want, where, f'the message carries {show(x)} as {c}')
            bad = {}
            for row in rows:
                dropped = (row.ret is False) == keep
                hits = {}
                for e, v in row.facts:
                    q = match(e)
                    if q and any(rl.get(a) == q[0] for a in q[1]):
                        hits[q[0]] = v
                    if v == 'None' and e[0] == 'up':
                        for a in crit(e):
                            hits.setdefault(rl.get(a), True)
                sent = any(x in sends for x in row.blocks)
                if dropped:
                    for q in ROLES:
                        if hits.get(q) is not True:
                            bad[f'entries with another {q} are removed'] = 1
                    if not sent:
                        bad['an entry is removed without telling the renderer'] = 1
                else:
                    if sent:
                        bad['an entry that stays is announced as disconnected'] = 1
                    if not any(v is False for v in hits.values()):
                        bad['an entry stays although it matches'] = 1
            ctx.ob('removal', f'{key}: criteria', not bad, where, '; '.join(sorted(bad)))
        else:
            fresh = is_fresh(ctx, C, K, r)
            for row in rows:
                if (row.ret is False) != keep:
                    continue
                ms = [match(e) for e, v in row.facts if v is True]
                roles_hit = {q[0] for q in ms if q}
                ok = 'source' in roles_hit or (fresh and 'destination' in roles_hit)
                ctx.ob('kept', f'{key}: dropped entries', ok, where, 'entries of other nodes are dropped, so that their connections can no longer be undone')
            if fresh:
                stay = [row for row in rows if (row.ret is True) == keep]
                ok = all({q[0] for e, v in row.facts if v is False for q in [match(e)] if q} >= {'source', 'destination'} for row in stay) and bool(stay)
                ctx.ob('kept', f'{key}: old entries', ok, where, 'entries of the previous node with this id stay')
    ctx.floor('removal', 'removal by disconnecting', n, 1)
    # a function that gives out ids clears the entries of the previous owner
    for b in p.bodies.values():
        if b.kind != 'Closure' and is_fresh(ctx, C, K, b):
            ok = any(g.root_fn(x).uid in g.reach([b], ('call', 'closure')) for x, _ in K.removals)
            ctx.ob('kept', f'{b.name}: cleared', ok, b.loc(b.line), 'a recycled id inherits the connections of the previous node')


def is_fresh(ctx, C, K, r):
    """registers a node: builds the message that carries a processor"""
    p, m = ctx.p, C.m
    for s in r.stmts():
        if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == C.enum:
            for o in s.rv.ops:
                ty = C.gm.op_ty(r, o)
                if ty is not None and mentions(ty, lambda t: m.is_dyn(t, m.processor_trait)):
                    return True
    return False


def renderer(ctx, C, K, msg):
    p, g, sym, m, gm = ctx.p, ctx.g, ctx.sym, C.m, C.gm
    if not msg:
        return
    field = {f: r for r, f in msg['msg'].items()}
    edge = gm.edge
    add, rem = {}, {}
    nadd = nrem = 0

    def role(e):
        """role of a message field"""
        rs = {field.get(x[2]) for x in walk(e) if x[0] == 'field' and x[1][0] == 'dc' and x[3] is not None and x[3].startswith(C.enum)}
        rs.discard(None)
        return rs.pop() if len(rs) == 1 else None
    for h in C.handler_root():
        ib = inl.Inliner(p, g, lambda q: q.name != 'eq', 7).run(h)
        arms = C.arms(ib)
        for s in ib.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == edge and s.bb in ib.live_blocks:
                nadd += 1
                for f, x in parts(sym.rvalue(ib, s.rv)).items():
                    add[f] = role(x)
        for t in ib.calls():
            if t.bb not in ib.live_blocks or not gm.arg_is(ib, t, edge):
                continue
            if is_call(t, 'push', 'push_back', 'insert') and any(x[0] == 'dc' and x[2] == msg['variant'] for a in t.args for x in walk(sym.operand(ib, a))):
                rs = {role(x) for x in walk(sym.operand(ib, t.args[0])) if x[0] == 'call' and x[3] in ('get_mut', 'index_mut', 'get', 'index') and len(x[2]) > 1
                      for x in [x[2][1]]}
                rs.discard(None)
                ctx.ob('renderer', 'added to the source', rs == {'source'}, ib.at(t.bb, t.line), 'the connection is added to another node than its source')
            if is_call(t, 'retain', 'retain_mut'):
                e = sym.operand(ib, t.args[1])
                if e[0] != 'closure' or e[1] not in p.bodies:
                    continue
                caps = list(e[2])
                if not any(role(c) for c in caps):
                    continue
                nrem += 1
                rs = {role(x[2][1]) for x in walk(sym.operand(ib, t.args[0])) if x[0] == 'call' and x[3] in ('get_mut', 'index_mut', 'get', 'index') and len(x[2]) > 1}
                rs.discard(None)
                ctx.ob('renderer', 'removed from the source', rs == {'source'}, ib.at(t.bb, t.line), 'the connection is removed from another node than its source')
                cb = inl.Inliner(p, g, lambda q: q.name != 'eq', 5).run(p.bodies[e[1]])
                bad = {}
                want = {r for r in ROLES if r != 'source'}
                for row in boolfn.table(sym, cb) or []:
                    hits = {}
                    for q, v in row.facts:
                        xs = (q[2], q[3]) if q[0] == 'bin' and q[1] == 'Eq' else q[2] if q[0] == 'call' and q[3] == 'eq' else ()
                        if len(xs) != 2:
                            continue
                        for x, y in (tuple(xs), tuple(xs)[::-1]):
                            if x[0] == 'field' and root_is(x, 2) and y[0] in ('up', 'field'):
                                ups = [z for z in walk(y) if z[0] == 'up']
                                if ups and ups[0][2] < len(caps):
                                    c = caps[ups[0][2]]
                                    if y is not ups[0] and y[0] == 'field':
                                        c = parts(c).get(y[2], c)
                                    hits[role(c)] = v
                                    rem.setdefault(x[2], role(c))
                    if row.ret is False and any(hits.get(r) is not True for r in want):
                        bad['other connections are removed as well'] = 1
                    if row.ret is True and not any(v is False for v in hits.values()):
                        bad['the connection stays'] = 1
                ctx.ob('renderer', 'removal', not bad, ib.at(t.bb, t.line), '; '.join(sorted(bad)))
    ctx.floor('renderer', 'additions of edges', nadd, 1)
    ctx.floor('renderer', 'removals of edges', nrem, 1)
    for f in sorted(set(add) | set(rem)):
        ctx.ob('renderer', f'edge: {f}', add.get(f) is not None and (f not in rem or rem[f] == add[f]), '', f'connecting sets it to the {add.get(f)}, disconnecting compares it with the {rem.get(f)}')
    # mixing
    n = 0
    for e in gm.render_entries():
        ib = gm.inline(e)
        for t in ib.calls():
            if t.bb not in ib.live_blocks or not is_call(t, 'index', 'index_mut', 'get', 'get_mut') or len(t.args) < 2:
                continue
            i = sym.operand(ib, t.args[1])
            if i[0] == 'field' and i[3] is not None and i[3].startswith(edge) and add.get(i[2]) in ('output', 'input'):
                n += 1
                base = sym.operand(ib, t.args[0])
                dest = any(x[0] == 'field' and add.get(x[2]) == 'destination' and x[3] is not None and x[3].startswith(edge) for x in walk(base))
                ctx.ob('renderer', f'mixing: {add[i[2]]}', (add[i[2]] == 'input') == dest, ib.at(t.bb, t.line),
                       f'the {add[i[2]]} port is used to select a block of the {"destination" if dest else "source"}')
    ctx.floor('renderer', 'port accesses when mixing', n, 2)
