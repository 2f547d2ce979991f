"""C21: rejected calls have no effect."""
import inline as inl
from cond import Conds, consistent_path, contains
from ctrl import Ctrl
from flow import lines
from model import tail
from c07 import mentions
from c16 import path

EXPLANATION = ('Every public control-side method of a handle is inlined with its helpers. In each, all explicit rejections (assertions and panics with a message, '
               'and expect on a state) and all effects (stores into the object or the state it shares, including through locks, cells, atomics and '
               'collections, and everything sent over a channel) are enumerated; no rejection may be reachable from an effect.')
TECHNIQUE = 'effect-before-rejection reachability on inlined MIR of all public methods'
NOTE = ('All public methods that take a handle by reference, with all helpers up to depth 6; constructors are excluded, as a rejected constructor leaves no '
        'handle behind. Failing allocations, poisoned locks and index checks are not rejections.')
PANIC = ('core::panicking', 'std::panicking', 'std::rt::', 'core::panic')
QUIET = {'lock', 'try_lock', 'iter', 'iter_mut', 'as_mut', 'as_ref', 'get', 'get_mut', 'deref', 'deref_mut', 'index', 'index_mut', 'next', 'borrow', 'borrow_mut',
         'read', 'write', 'load', 'as_mut_slice', 'as_slice', 'by_ref', 'make_mut', 'values_mut', 'unwrap', 'expect', 'map', 'zip', 'last_mut', 'first_mut', 'into_iter',
         'enumerate', 'len', 'is_empty', 'clone', 'fmt', 'poll', 'retain', 'as_deref', 'as_deref_mut', 'channels_mut', 'chunks_mut', 'chunks_exact_mut', 'split_at_mut', 'for_each', 'cmp', 'partial_cmp', 'eq'}
ATOMIC = ('store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'compare_exchange', 'compare_exchange_weak', 'fetch_update', 'fetch_max', 'fetch_min')


def rejections(ctx, C, cd, b):
    """(block, line, expression whose absence is rejected or None)"""
    for t in b.calls():
        c = t.callee
        if c is None or t.bb not in b.live_blocks:
            continue
        if c.path.startswith(PANIC) or c.name in ('begin_panic', 'panic_fmt'):
            if not any(v == 'Err' and outside(ctx, e) for e, v in cd.at(b, t.bb)):
                yield t.bb, t.line, None
        elif c.name == 'expect' and c.krate in ('core', 'std', 'alloc') and 'option' in c.path.lower():
            yield t.bb, t.line, ctx.sym.operand(b, t.args[0])


def outside(ctx, e):
    """the result of something outside the library's control: a device operation, a channel, the operating system"""
    return e[0] == 'call' and (ctx.by_path.get(e[1]) is None or not ctx.by_path[e[1]])


def test_and_set(ctx, b, t):
    """(expression, value) of the result that says the state was already what the call would make it"""
    c = t.callee
    e = ctx.sym.place(b, t.dest) if t.dest is not None else None
    if e is None or e[0] != 'call':
        return None
    if c.name == 'take':
        return e, 'None'
    if c.name in ('swap', 'replace') and len(t.args) > 1:
        v = ctx.sym.operand(b, t.args[1])
        if v[0] == 'const' and v[1] in (0, 1, True, False):
            return e, bool(v[1])
    return None


def effects(ctx, C, b):
    sym = ctx.sym
    for s in b.stmts():
        if s.kind == '=' and s.place.proj and s.bb in b.live_blocks:
            pa = path(sym.place(b, s.place))
            if pa is not None and not (len(pa) == 0 and not s.place.proj):
                yield s.bb, s.line, 'store to ' + ('.'.join(pa) or 'self'), False, None
    for t in b.calls():
        c = t.callee
        if c is None or t.bb not in b.live_blocks:
            continue
        if C.is_send(b, t) or c.name in ('send', 'try_send', 'send_timeout') and c.krate not in ('core', 'alloc') and c.uid not in ctx.p.bodies:
            yield t.bb, t.line, f'{c.name}()', True, None
            continue
        if c.uid in ctx.p.bodies or not t.args:
            continue
        e = sym.operand(b, t.args[0])
        if path(e) is None:
            continue
        ty = C.gm.op_ty(b, t.args[0])
        if 'atomic' in c.path and c.name in ATOMIC or c.name in ('set', 'replace', 'take') and 'cell' in c.path:
            yield t.bb, t.line, f'{c.name}() on {".".join(path(e))}', True, test_and_set(ctx, b, t)
        elif c.path.endswith(('mem::replace', 'mem::take', 'mem::swap')) or ty is not None and ty.k == 'refmut' and c.name not in QUIET and c.krate in ('core', 'alloc', 'std', 'hashbrown', 'smallvec', 'arrayvec'):
            yield t.bb, t.line, f'{c.name}() on {".".join(path(e))}', True, test_and_set(ctx, b, t)


def methods(ctx, C):
    p, m = ctx.p, C.m
    for b in sorted(p.bodies.values(), key=lambda x: x.path):
        if b.kind == 'Closure' or b.argc < 1 or b.lty(1).k not in ('ref', 'refmut') or b.lname(1) != 'self':
            continue
        if b.trait == m.processor_trait or b.in_trait == m.processor_trait:
            continue
        if b.trait and tail(b.trait) in ('Debug', 'Display', 'Drop', 'Clone', 'PartialEq', 'Iterator', 'Future'):
            continue
        local = b.trait in ctx.public_traits or b.in_trait in ctx.public_traits
        if b.public or local:
            yield b


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    cd = Conds(sym)
    ctx.rule('no-effect-before', 'No explicit rejection is reachable from an effect of the same call.')
    ctx.public_traits = {t for b in p.bodies.values() for t in (b.trait, b.in_trait) if t and b.trait and tail(t) in ('AudioNode', 'AudioScheduledSourceNode', 'BaseAudioContext')} | \
        {b.in_trait for b in p.bodies.values() if b.in_trait and tail(b.in_trait) in ('AudioNode', 'AudioScheduledSourceNode', 'BaseAudioContext')}
    regs = {g.root_fn(b).uid for b, s, v in C.built([m.register_variant])}
    nodes = {q.self_ty.strip().adt for q in p.bodies.values() if q.trait == m.node_trait and q.self_ty is not None}
    ctx.by_path = {}
    for q in p.bodies.values():
        ctx.by_path.setdefault(q.path, []).append(q)
    n = k = 0
    for b0 in methods(ctx, C):
        n += 1
        b = inl.Inliner(p, g, lambda q: q.uid not in regs and q.lty(0).adt not in nodes and not far(C, q), 6).run(b0)
        rej = list(rejections(ctx, C, cd, b))
        if not rej:
            continue
        k += 1
        for x in b.origin:
            ctx.seen(x)
        eff = {}
        for bb, line, what, term, own in effects(ctx, C, b):
            eff.setdefault((what, own), {}).setdefault(bb, (line, term))
        key = owner(b0)
        bad = False
        for (what, own), at in eff.items():
            goals = {bb for bb, _, e in rej if own is None or e is None or not contains(e, own[0])}
            w = consistent_path(cd, b, 0, goals, via={bb: 'term' if term else 'stmt' for bb, (_, term) in at.items()},
                                preds=[lambda e, v: (e, v) == own] if own else ())
            if w is not None:
                bad = True
                x = next(i for i in w if i in at)
                r = w[-1]
                ctx.ob('no-effect-before', f'{key}: {what}', False, b.at(x, at[x][0]), f'can be followed by the rejection at {b.at(r, b.blocks[r].term.line)}', lines(b, w))
        if not bad:
            ctx.ob('no-effect-before', key, True)
    ctx.floor('no-effect-before', 'public methods', n, 100)
    ctx.floor('no-effect-before', 'public methods with rejections', k, 30)


def far(C, q):
    """rendering, device and event dispatch code, which runs other calls than this one"""
    m = C.m
    if q.trait == m.backend_trait or q.trait == m.processor_trait or q.in_trait in (m.backend_trait, m.processor_trait):
        return True
    own = q.self_ty.strip().adt if q.self_ty is not None else None
    if own in (m.render_thread, m.graph):
        return True
    return mentions(q.lty(0), lambda t: t.k == 'dyn' and m.backend_trait in t.d.get('traits', []))


def owner(b):
    t = tail(b.self_ty.strip().adt) if b.self_ty is not None and b.self_ty.strip().adt else tail(b.in_trait or '') or b.path
    return f'{t}.{b.name}'
