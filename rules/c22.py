"""C22: offline rendering depends on nothing but the graph and the calls made."""
import inline as inl
from ctrl import Ctrl
from effects import norm
from model import mentions, tail
from nodes import pairs
from sym import show, walk
from c01 import KINDS, owner_of
from c09 import rt_roots

EXPLANATION = ('Call graph closure of the offline rendering functions and of all public operations of contexts, nodes, parameters and buffers that prepare '
               'what is rendered. Every external function called there is classified; clocks, random sources, thread and process identity, environment, '
               'scheduling-dependent queries, iteration in hash order, exposed addresses and process-wide mutable state are reported.')
TECHNIQUE = 'ambient-effect analysis on the call graph, hash-order and process-wide state rules on MIR'
NOTE = ('All code reachable from offline rendering and from the operations of offline contexts. Media element, media stream and recorder nodes bring in '
        'outside data by design and are not roots of the preparing side; user supplied worklet code is not part of the library.')
ASSUMPTIONS = ['External crates used for resampling, FFT and HRTF are deterministic functions of their inputs.']
HASH = ('HashMap', 'HashSet')
ITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'into_iter', 'drain', 'retain', 'extract_if', 'union', 'intersection',
        'difference', 'symmetric_difference'}
OUTSIDE = ('MediaElement', 'MediaStream', 'MediaRecorder', 'MediaDevice')
SHARED = ('Mutex', 'RwLock', 'RefCell', 'Cell', 'UnsafeCell', 'Atomic')


def ambient(c):
    p, n, k = norm(c.path), c.name, c.krate
    if tail(p) == 'now' and ('Instant' in p or 'SystemTime' in p or k in ('chrono', 'time', 'quanta')) or n == 'elapsed' and ('Instant' in p or 'SystemTime' in p):
        return 'reads a clock'
    if k.startswith(('rand', 'fastrand', 'getrandom', 'oorandom', 'nanorand', 'uuid')) or 'RandomState' in p or 'DefaultHasher' in p:
        return 'uses a random source'
    if 'thread' in p and k == 'std' and n in ('current', 'id', 'available_parallelism'):
        return 'depends on the identity of the thread'
    if k == 'std' and (p.startswith('std::env::') or p in ('std::process::id',)) or k == 'num_cpus':
        return 'depends on the process environment'
    if k == 'std' and 'sync' in p and n in ('try_lock', 'try_read', 'try_write') or k in ('parking_lot', 'lock_api') and n.startswith('try_'):
        return 'depends on whether another thread holds a lock'
    if n in ('recv_timeout', 'recv_deadline', 'send_timeout', 'wait_timeout', 'park_timeout', 'select_timeout', 'sleep', 'yield_now'):
        return 'depends on time or scheduling'
    if 'Arc' in p and n in ('strong_count', 'weak_count'):
        return 'depends on how many references other threads hold'
    if k == 'std' and 'thread' in p and n in ('spawn', 'scope', 'spawn_scoped') or k.startswith('rayon'):
        return 'moves work to another thread'
    if 'ptr' in p and n in ('addr', 'expose_provenance', 'expose_addr'):
        return 'depends on a memory address'
    if 'LocalKey' in p:
        return 'uses state that belongs to the thread'
    if 'MaybeUninit' in p and n in ('assume_init', 'assume_init_ref', 'assume_init_mut', 'assume_init_read') or n == 'set_len' or p.endswith('mem::uninitialized'):
        return 'may read uninitialised memory'
    return None


def hashed(ty):
    ty = ty.strip() if ty is not None else None
    return ty is not None and ty.adt is not None and tail(ty.adt) in HASH


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m, gm = ctx.p, ctx.g, ctx.sym, C.m, C.gm
    ctx.rule('no-ambient', 'No function reachable from offline rendering, or from the operations that prepare it, calls an external function that reads a clock, '
                           'a random source, thread or process identity, the environment, lock or reference contention, or uninitialised memory.')
    ctx.rule('hash-order', 'A hash map or set is iterated only to test its elements, or to send messages that merely remove things in a way that does not depend on their order.')
    ctx.rule('no-address', 'No pointer is converted to a number.')
    ctx.rule('own-receiver', 'Whether a channel holds a message is only asked of the control and event channels, and where a media node exchanges data with the outside.')
    ctx.rule('process-wide', 'Process-wide state is filled by an initialiser without captures; if it can be changed later it is a cache whose entries depend on nothing but '
                             'the key they are stored and looked up under, or can be changed by no operation.')
    roots, _ = rt_roots(ctx, gm)
    offline = [a for a in p.adts if tail(a) == 'OfflineAudioContext']
    off = [b for b in p.bodies.values() if g.root_fn(b).self_ty is not None and g.root_fn(b).self_ty.strip().adt in offline]
    reached = set(g.reach(off, KINDS))
    render = [r for r in roots if r.uid in reached]
    ctx.floor('no-ambient', 'offline rendering functions', len(render), 1)
    nodes = {q.self_ty.strip().adt for q in p.bodies.values() if q.trait == m.node_trait and q.self_ty is not None}
    nodes = {a for a in nodes if not tail(a).startswith(OUTSIDE)}
    plain = {a for a in p.adts if tail(a) in ('AudioBuffer', 'PeriodicWave', 'AudioListener')}
    prep = [b for b in p.bodies.values() if b.kind != 'Closure' and b.public and b.self_ty is not None and b.self_ty.strip().adt in nodes | plain]
    prep += [b for b in p.bodies.values() if b.in_trait and tail(b.in_trait) in ('AudioNode', 'BaseAudioContext', 'AudioScheduledSourceNode')
             and not (b.lty(0).adt and tail(b.lty(0).adt).startswith(OUTSIDE))]
    ctx.floor('no-ambient', 'preparing operations', len(prep), 80)
    prev = g.reach(render + prep + off, KINDS)
    outside = {x.proc for x in pairs(ctx, m) if x.node is not None and tail(x.node).startswith(OUTSIDE)}
    ext = 0
    statics = {}
    for u in prev:
        b = p.bodies[u]
        r = g.root_fn(b)
        if r.trait and tail(r.trait) == 'Debug':
            continue
        ctx.seen(b)
        for t in b.calls():
            c = t.callee
            if c is None or c.uid in p.bodies:
                continue
            ext += 1
            why = ambient(c)
            if why:
                ctx.ob('no-ambient', f'{owner_of(ctx, b)}: {tail(norm(c.path))}', False, b.loc(t.line), f'{why} on the way to what an offline context renders', g.chain(prev, u))
            ty = gm.op_ty(b, t.args[0]) if t.args else None
            if c.name in ITER and hashed(ty):
                hash_order(ctx, C, b, t, g.chain(prev, u))
            if c.name in ('try_recv', 'try_iter', 'is_empty', 'len') and ty is not None and ty.strip().adt and tail(ty.strip().adt) == 'Receiver':
                own_receiver(ctx, C, b, t, outside)
            for a in t.args:
                note_static(p, b, a, t.line, statics)
        for s in b.stmts():
            if s.kind != '=':
                continue
            if s.rv.k == 'cast' and 'Expose' in str(s.rv.cast):
                ctx.ob('no-address', owner_of(ctx, b), False, b.loc(s.line), 'converts a pointer to a number', g.chain(prev, u))
            for o in s.rv.ops:
                note_static(p, b, o, s.line, statics)
    ctx.ob('no-address', f'{len(prev)} functions', True)
    ctx.ob('no-ambient', f'{len(prev)} functions', True)
    ctx.floor('no-ambient', 'external calls classified', ext, 500)
    for (u, ty), (b, line) in sorted(statics.items(), key=lambda x: str(x[0])):
        static_rule(ctx, C, p.bodies[u], ty, line)


def note_static(p, b, op, line, out):
    d = getattr(op, 'd', None)
    if not isinstance(d, dict) or 'k' not in d or not isinstance(d['k'], str) or not d['k'].startswith('{alloc'):
        return
    ty = p.ty(d['t']) if 't' in d else None
    if ty is not None:
        out.setdefault((b.uid, ty), (b, line))


def shared(ty):
    return mentions(ty, lambda t: t.adt is not None and (tail(t.adt) in SHARED or tail(t.adt).startswith('Atomic')))


def once(ty):
    t = ty.strip()
    return t.adt is not None and tail(t.adt) in ('OnceLock', 'LazyLock', 'OnceCell', 'LazyCell', 'Lazy')


def static_rule(ctx, C, b, ty, line):
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    key = owner_of(ctx, b)
    t = ty.strip()
    if once(ty):
        inner = t.args[0]
        for x in b.calls():
            if x.callee is not None and x.callee.name in ('get_or_init', 'get_or_try_init') and x.args and sym.operand(b, x.args[0])[0] == 'const':
                e = sym.operand(b, x.args[1])
                caps = e[2] if e[0] == 'closure' else ()
                ctx.ob('process-wide', f'{key}: initialiser', not caps, b.loc(x.line),
                       'the process-wide value is made from data of the first caller: ' + ', '.join(show(c) for c in caps))
    else:
        inner = t
    if not (shared(inner) or deep_shared(p, inner)):
        ctx.ob('process-wide', f'{key}: immutable', ty.k == 'ref' or once(ty), b.loc(line), 'a process-wide variable can be changed')
        return
    if mentions(inner, lambda x: x.adt is not None and tail(x.adt) in ('HashMap', 'BTreeMap')):
        cache(ctx, C, b, key)
        return
    if b.trait == m.node_trait or b.in_trait == m.node_trait:
        config(ctx, C, b, key)
        return
    ctx.ob('process-wide', f'{key}: {tail(inner.adt or inner.s)}', False, b.loc(line), 'rendering depends on a process-wide variable that can be changed')


def deep_shared(p, ty, depth=4, seen=()):
    if depth == 0:
        return False
    for a in [ty] + list(ty.args):
        if a is not ty and (shared(a) or deep_shared(p, a, depth - 1, seen)):
            return True
    if ty.adt in p.adts and ty.adt not in seen:
        return any(shared(ft) or deep_shared(p, ft, depth - 1, tuple(seen) + (ty.adt,)) for _, _, ft in p.adt_fields(ty.adt))
    return False


def cache(ctx, C, b, key):
    """map from key to value in process-wide state"""
    sym, gm = ctx.sym, C.gm
    gets, puts = [], []
    for t in b.calls():
        ty = gm.op_ty(b, t.args[0]) if t.args else None
        if t.callee is None or ty is None or not (ty.strip().adt and tail(ty.strip().adt) in ('HashMap', 'BTreeMap')):
            continue
        if t.callee.name in ('get', 'contains_key', 'get_mut', 'entry', 'remove'):
            gets.append((t, sym.operand(b, t.args[1])))
        elif t.callee.name == 'insert':
            puts.append((t, sym.operand(b, t.args[1]), sym.operand(b, t.args[2])))
    ok = bool(puts)
    if not gets and not puts:
        # only the initialiser or a view here
        return
    for t, k, v in puts:
        for _, k2 in gets:
            ctx.ob('process-wide', f'{key}: key', strip(k) == strip(k2), b.loc(t.line), f'an entry is stored under {show(k)} but looked up under {show(k2)}')
        rest = [x for x in walk_without(strip(v), strip(k)) if x[0] in ('arg', 'up', 'local')]
        ctx.ob('process-wide', f'{key}: entry', not rest, b.loc(t.line), 'a process-wide entry also depends on ' + ', '.join(sorted({show(x) for x in rest})))
    ctx.ob('process-wide', f'{key}: filled', ok, b.loc(b.line), 'the process-wide map is not filled where it is used')


def strip(e):
    if isinstance(e, tuple):
        if e and e[0] == 'call':
            return ('call', e[1], tuple(strip(x) for x in e[2]), e[3])
        return tuple(strip(x) for x in e)
    return e


def walk_without(e, k):
    if e == k:
        return
    yield e
    for x in e[1:] if isinstance(e, tuple) else ():
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from walk_without(x, k)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        yield from walk_without(y, k)
        elif isinstance(x, dict):
            for y in x.values():
                yield from walk_without(y, k)


def config(ctx, C, b, key):
    """a shared configuration is handed out by a node trait method: every trait method that could change it must be overridden to reject"""
    p, g, m = ctx.p, ctx.g, C.m
    mine = {q.name: q for q in p.bodies.values() if q.trait == m.node_trait and q.self_ty is not None and b.self_ty is not None
            and q.self_ty.strip().adt == b.self_ty.strip().adt and q.kind != 'Closure'}
    setters = [q for q in p.bodies.values() if q.in_trait == m.node_trait and q.kind != 'Closure' and not q.trait and changes(ctx, q, b.name)]
    ctx.floor('process-wide', 'trait methods that change a configuration', len(setters), 3)
    for q in setters:
        o = mine.get(q.name)
        ok = o is not None and not [x for x in o.return_blocks() if x in o.live_blocks and x in o.reachable(0)]
        if not ok and o is not None:
            # may return, but never touches the shared configuration
            ib = inl.Inliner(p, g, lambda z: True, 4).run(o)
            ok = not any(t.callee is not None and t.callee.name == 'lock' for t in ib.calls() if t.bb in ib.live_blocks)
        ctx.ob('process-wide', f'{key}: {q.name}', ok, (o or b).loc((o or b).line), 'can change the configuration that all objects of this type share in the process')


def changes(ctx, q, name):
    return q.name.startswith('set_') and any(t.callee is not None and t.callee.name == name for t in q.calls())


def own_receiver(ctx, C, b, t, outside):
    """the render thread's control channel, the event loop's channel, or the exchange with the outside world of a media node"""
    r = ctx.g.root_fn(b)
    own = r.self_ty.strip().adt if r.self_ty is not None else None
    ty = C.gm.op_ty(b, t.args[0]).strip()
    item = ty.args[0].adt if ty.args else None
    ok = item == C.enum or item in event_types(ctx) or own in outside or r.trait is not None and tail(r.trait) == 'Iterator'
    ctx.ob('own-receiver', f'{owner_of(ctx, b)}: {t.callee.name}', ok, b.loc(t.line), 'rendering depends on whether another thread has sent something')


def event_types(ctx):
    """types of the messages that carry events to the control side"""
    return {a for a in ctx.p.adts if tail(a).startswith('Event')}


def hash_order(ctx, C, b, t, chain):
    """the iteration only tests elements, or sends order-independent removals"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    key = f'{owner_of(ctx, b)}: {t.callee.name}'
    why = None
    if t.callee.name != 'retain':
        why = None if unordered(b, t) else 'iterates over a hash map or set'
    else:
        e = sym.operand(b, t.args[1])
        q = p.bodies.get(e[1]) if e[0] == 'closure' else None
        if q is None:
            why = 'iterates over a hash set with an unknown predicate'
        else:
            ib = inl.Inliner(p, g, lambda z: True, 5).run(q)
            vs = {s.rv.agg.get('var') for s in ib.stmts() if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == C.enum and s.bb in ib.live_blocks}
            for s in ib.stmts():
                # writes to captured state: only constants
                if s.kind == '=' and s.place.proj and s.bb in ib.live_blocks and any(x[0] == 'up' for x in walk(sym.place(ib, s.place))):
                    if sym.rvalue(ib, s.rv)[0] != 'const':
                        why = 'accumulates state in hash order'
            for v in vs:
                if not commutes(ctx, C, v):
                    why = f'sends {v} messages in hash order'
            for x in ib.calls():
                c = x.callee
                if c is None or x.bb not in ib.live_blocks or c.uid in p.bodies or not x.args:
                    continue
                ty = C.gm.op_ty(ib, x.args[0])
                if c.name in ('push', 'push_back', 'extend') and not any(y[0] == 'agg' and y[1] == C.enum for y in walk(sym.operand(ib, x.args[1]))):
                    why = f'collects elements in hash order'
    ctx.ob('hash-order', key, why is None, b.loc(t.line), why or '', chain)


def unordered(b, t):
    """the iterator is only consumed by operations whose result does not depend on the order"""
    for _ in range(8):
        if t.dest is None or t.dest.proj:
            return False
        l = t.dest.local
        views = {l}
        for s in b.stmts():
            if s.kind == '=' and not s.place.proj and (s.rv.place is not None and s.rv.place.local in views or
                                                       any(o.place is not None and o.place.local in views for o in s.rv.ops)):
                views.add(s.place.local)
        nxt = [x for x in b.calls() if x is not t and any(a.place is not None and a.place.local in views for a in x.args)]
        if len(nxt) != 1 or nxt[0].callee is None:
            return False
        t = nxt[0]
        if t.callee.name in ('any', 'all', 'count', 'len', 'is_empty'):
            return True
        if t.callee.name not in ('map', 'filter', 'copied', 'cloned', 'into_iter', 'by_ref', 'filter_map', 'flat_map'):
            return False
    return False


def commutes(ctx, C, v):
    """handling this message only removes elements in place and clears derived state"""
    p, g = ctx.p, ctx.g
    for h in C.handler_root():
        ib = inl.Inliner(p, g, lambda z: True, 5).run(h)
        arms = C.arms(ib)
        if v not in arms:
            continue
        others = set()
        for w, bs in arms.items():
            if w != v:
                for x in bs:
                    others |= ib.reachable(x)
        mine = set()
        for x in arms[v]:
            mine |= ib.reachable(x)
        mine -= others
        for t in ib.calls():
            if t.bb in mine and t.callee is not None and t.callee.uid not in p.bodies and t.args:
                ty = C.gm.op_ty(ib, t.args[0])
                if t.callee.name in ('push', 'push_back', 'insert', 'swap_remove', 'remove', 'pop', 'sort', 'reverse', 'truncate', 'drain', 'extend', 'append', 'swap') \
                        and ty is not None and ty.k == 'refmut' and t.callee.krate in ('std', 'alloc', 'core', 'smallvec', 'arrayvec'):
                    return False
        return True
    return False
