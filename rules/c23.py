"""C23: thread-safety guarantees of the public types."""
import inline as inl
from ctrl import Ctrl
from flow import Init, lines
from model import mentions, tail
from nodes import pairs
from sym import show, walk
from cond import path_without

EXPLANATION = ('The compiler\'s own auto trait solver is asked, for every type of the crate and every field, whether it is Send and Sync. Public handles must be both, '
               'what is handed to a processor must stay on its thread, and every unsafe Send/Sync assertion must belong to a processor, the graph or the render thread; '
               'what such a processor holds that is not Send by itself must be empty or shared only among processors when it is sent off.')
TECHNIQUE = 'auto trait queries on the type-checked program, inventory of unsafe impls, ownership rules on inlined constructors'
NOTE = 'All types of the crate in both feature configurations; all constructors of nodes.'
# what a container holds when nothing has been put into it
EMPTY = {'new', 'with_capacity', 'default', 'clone'}
HANDLES = ('MediaRecorder', 'MediaStream', 'MediaStreamTrack', 'AudioBuffer', 'AudioParam', 'AudioListener', 'PeriodicWave', 'MessagePort')


def handles(ctx, m):
    """public nodes and contexts, what their public methods return, and the other named handles"""
    p = ctx.p
    base = m.trait('BaseAudioContext')
    out = {q.self_ty.strip().adt for q in p.bodies.values() if q.trait in (m.node_trait, base) and q.self_ty is not None}
    out |= {a for a in p.adts if tail(a) in HANDLES}
    out = {a for a in out if a in p.adts and p.adts[a]['public']}
    work = list(out)
    while work:
        a = work.pop()
        for q in p.methods_of(a):
            if not q.public or q.kind == 'Closure':
                continue
            st = [q.lty(0)]
            while st:
                t = st.pop()
                if t.adt in p.adts and p.adts[t.adt]['public'] and t.adt not in out and not error_type(p, t.adt):
                    out.add(t.adt)
                    work.append(t.adt)
                if t.k in ('ref', 'refmut', 'tuple', 'adt'):
                    st += t.args
    return out


def error_type(p, a):
    return any(i.get('trait') and tail(i['trait']) == 'Error' and p.ty(i['self']).adt == a for i in p.impls)


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    ctx.rule('handle', 'Every public context, node, parameter, buffer, stream and recorder handle is Send and Sync.')
    ctx.rule('handle-safe', 'No type a handle consists of claims Send or Sync by an unsafe impl.')
    ctx.rule('stays', 'What is handed to a processor cannot be sent to or shared with another thread.')
    ctx.rule('claims', 'Send or Sync is claimed by an unsafe impl only for processors (Send), the graph and the render thread.')
    ctx.rule('empty', 'What a processor with such a claim holds that is not Send is empty, or shared between processors, when the processor is made.')
    ctx.rule('shared-before', 'Reference-counted state shared by processors is not cloned or dropped on the control side once one of them has been sent to the renderer.')
    ctx.rule('stays-dead', 'No processor or render buffer is handed to another thread to be dropped.')
    hs = handles(ctx, m)
    ctx.floor('handle', 'public handles', len(hs), 25)
    for a in sorted(hs):
        d = p.adts[a]
        at = f"{d['file']}:{d['loc'][0]}"
        if tail(a) == 'MediaElement':
            continue
        ctx.ob('handle', tail(a), d['send'] and d['sync'], at,
               'cannot be ' + ' or '.join([x for x, ok in (('moved to another thread', d['send']), ('shared between threads', d['sync'])) if not ok]))
    claims = []
    for i in p.impls:
        if i.get('unsafe') and i.get('trait') and tail(i['trait']) in ('Send', 'Sync') and 'Negative' not in i.get('polarity', ''):
            claims.append((p.ty(i['self']), tail(i['trait']), f"{i['file']}:{i['loc'][0]}"))
    ctx.floor('claims', 'unsafe Send or Sync claims', len(claims), 3)
    procs = {i_adt for i_adt in (p.ty(i['self']).adt for i in p.impls if i.get('trait') == m.processor_trait)}
    bad = set()
    for ty, tr, at in claims:
        ok = ty.adt in procs and tr == 'Send' or ty.adt in (m.graph, m.render_thread)
        ctx.ob('claims', f'{tail(ty.adt or ty.s)}: {tr}', ok, at, f'claims to be {tr} although the compiler cannot show it, and is not confined to the render thread')
        bad.add(ty.adt)
    for a in sorted(hs):
        hit = sorted(x for x in inside(p, a) & bad if x not in (m.graph, m.render_thread))
        ctx.ob('handle-safe', tail(a), not hit, f"{p.adts[a]['file']}:{p.adts[a]['loc'][0]}", 'contains ' + ', '.join(tail(x) for x in hit) + ', which claims thread safety by an unsafe impl')
    stays(ctx, m)
    empty(ctx, C, {ty.adt for ty, tr, _ in claims if ty.adt in procs and tr == 'Send'})
    shared(ctx, C)
    buried(ctx, C, bad - {m.graph, m.render_thread})


def inside(p, a, seen=None):
    """local types a value of type a consists of or refers to"""
    seen = set() if seen is None else seen
    if a in seen:
        return seen
    seen.add(a)
    for _, _, ft in p.adt_fields(a):
        st = [ft]
        while st:
            t = st.pop()
            if t.adt in p.adts:
                inside(p, t.adt, seen)
            st += t.args
    return seen


def stays(ctx, m):
    p = ctx.p
    n = 0
    clone = {p.ty(i['self']).adt for i in p.impls if i.get('trait') and tail(i['trait']) == 'Clone'}
    for tr in [m.processor_trait] + [t for t in p.traits if tail(t) == 'AudioWorkletProcessor']:
        for f in p.fns.values():
            if f['path'] != f'{tr}::process':
                continue
            for ti in f['in'][1:]:
                top = p.ty(ti)
                st = [(top, False)]
                while st:
                    t, by_ref = st.pop()
                    if t.adt in p.adts:
                        d = p.adts[t.adt]
                        n += 1
                        at = f"{d['file']}:{d['loc'][0]}"
                        ctx.ob('stays', f'{tail(t.adt)}: shared', not d['sync'], at, 'can be shared with another thread by a processor')
                        if not by_ref or t.adt in clone:
                            ctx.ob('stays', f'{tail(t.adt)}: sent', not d['send'], at, 'can be sent to another thread by a processor')
                    st += [(x, by_ref or t.k in ('ref', 'refmut')) for x in t.args]
    # what can be taken out of them
    for a in [x for x in p.adts if tail(x) == 'AudioRenderQuantumChannel']:
        d = p.adts[a]
        ctx.ob('stays', f'{tail(a)}: sent', not d['send'] and not d['sync'], f"{d['file']}:{d['loc'][0]}", 'can be sent to another thread by a processor')
    ctx.floor('stays', 'types handed to processors', n, 4)


def empty(ctx, C, types):
    p, sym, m = ctx.p, ctx.sym, C.m
    n = 0
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind != '=' or s.rv.k != 'agg' or s.rv.agg.get('adt') not in types:
                continue
            a = s.rv.agg['adt']
            if b.self_ty is not None and b.self_ty.strip().adt == a and b.trait == m.processor_trait:
                continue
            fs = {f['n']: f for v in p.adts[a]['variants'] for f in v['f']}
            vals = dict(zip(s.rv.agg['f'], s.rv.ops))
            for fn, f in fs.items():
                if f['send'] or fn not in vals:
                    continue
                n += 1
                e = origin(ctx, b, sym.operand(b, vals[fn]))
                why = filled(ctx, e)
                ctx.ob('empty', f'{tail(a)}.{fn}', why is None, b.loc(s.line), f'is not empty when the processor is made on the control thread: {why}')
    ctx.floor('empty', 'fields that are not Send by themselves', n, 3)


def origin(ctx, b, e, depth=6):
    """resolve closure captures to what was captured"""
    if depth == 0 or not isinstance(e, tuple):
        return e
    if e[0] == 'up':
        par = ctx.p.bodies.get(b.parent) if b.parent else None
        if par is not None:
            for x in [par]:
                for s in x.stmts():
                    if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('k') == 'closure' and s.rv.agg.get('def') == b.uid and e[2] < len(s.rv.ops):
                        return origin(ctx, x, ctx.sym.operand(x, s.rv.ops[e[2]]), depth - 1)
        return e
    return tuple(origin(ctx, b, x, depth) if isinstance(x, tuple) else x for x in e)


def filled(ctx, e):
    """reason why the value may hold something, or None"""
    if e[0] == 'call':
        if e[3] in EMPTY or e[3] in ('into',):
            if e[3] == 'with_capacity':
                return None
            return next((w for w in map(lambda x: filled(ctx, x), e[2]) if w), None)
        if e[3] in ('from_elem', 'repeat', 'from', 'collect', 'resize', 'to_vec'):
            return f'{show(e)}'
        # a local constructor: look at what it returns
        qs = [q for q in ctx.p.bodies.values() if q.path == e[1]]
        if len(qs) == 1:
            return filled(ctx, ctx.sym.local(qs[0], 0))
        return f'{show(e)}'
    if e[0] == 'agg':
        vals = list(e[3].values()) if hasattr(e[3], 'values') else []
        return next((w for w in map(lambda x: filled(ctx, x), vals) if w), None)
    if e[0] in ('const', 'def', 'arg', 'fn'):
        return None
    if e[0] in ('phi',):
        return next((w for w in map(lambda x: filled(ctx, x), e[2]) if w), None)
    return None


def is_rc(t):
    return t.adt is not None and tail(t.adt) == 'Rc'


def shared(ctx, C):
    """after a processor was registered, no clone and no drop of an Rc by the function (or constructor closure) that registered it"""
    p, g, m = ctx.p, ctx.g, C.m
    regs = {g.root_fn(b).uid for b, s, v in C.built([m.register_variant])}
    holds = {q for q in p.adts if any(mentions(ft, is_rc) for _, _, ft in p.adt_fields(q)) and q in {x.proc for x in pairs(ctx, m)}}
    roots = [b for b in p.bodies.values() if b.uid not in regs and any(t.callee is not None and t.callee.uid in regs for t in b.calls())
             and any(is_rc(b.lty(l)) or b.lty(l).k == 'closure' for l in range(b.nlocals()))]
    n = 0
    for b0 in sorted(roots, key=lambda x: x.path):
        n += 1
        b = inl.Inliner(p, g, lambda q: q.uid not in regs, 3).run(b0)
        ctx.seen(b0)
        sends = [t.bb for t in b.calls() if t.bb in b.live_blocks and t.callee is not None and t.callee.uid in regs]
        ctx.floor('shared-before', f'{b0.path}: sends', len(sends), 1)
        track = {l for l in range(b.nlocals()) if is_rc(b.lty(l))}
        init = Init(b, track)
        hits = {}
        for t in b.calls():
            if t.bb in b.live_blocks and t.callee is not None and t.callee.name in ('clone', 'downgrade') and t.dest is not None and is_rc(b.lty(t.dest.local)):
                hits[t.bb] = ('cloned', t.line)
        for blk in b.blocks:
            if blk.i in b.live_blocks and blk.term.k == 'drop' and blk.term.place is not None and not blk.term.place.proj and blk.term.place.local in track:
                if blk.term.place.local in init.at_term(blk.i):
                    hits[blk.i] = ('dropped', blk.term.line)
        w = None
        for s in sends:
            for y in b.succs[s]:
                w = w or path_without(b, y, set(hits))
        r = g.root_fn(b0)
        key = (tail(r.self_ty.strip().adt) if r.self_ty is not None and r.self_ty.strip().adt else r.path) + ('' if r is b0 else ' (constructor closure)')
        ctx.ob('shared-before', key, w is None, b0.loc(b0.line) if w is None else b.at(w[-1], hits[w[-1]][1]),
               'state shared with a processor that is already on the render thread is ' + (hits[w[-1]][0] if w else '') + ' on the control thread', w and lines(b, w))
    ctx.floor('shared-before', 'functions that register processors', n, 10)
    ctx.floor('shared-before', 'processors that share state', len(holds), 1)


def buried(ctx, C, claimed):
    """coercions to type-erased garbage"""
    p, m = ctx.p, C.m
    keep = {a for a in p.adts if not p.adts[a]['send'] and not p.adts[a]['sync']}
    n = 0
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind != '=' or s.rv.k != 'cast' or not str(s.rv.cast).startswith('PointerCoercion') or s.rv.ops[0].place is None:
                continue
            t = s.rv.ty
            if t.adt is None or tail(t.adt) != 'Box' or not t.args or t.args[0].k != 'dyn' or not any(tail(x) == 'Any' for x in t.args[0].d.get('traits', [])):
                continue
            src = b.place_ty(s.rv.ops[0].place)
            n += 1
            hit = src is not None and mentions(src, lambda x: m.is_dyn(x, m.processor_trait) or x.adt in claimed or x.adt in keep)
            ctx.ob('stays-dead', f'{tail(ctx.g.root_fn(b).path)}: {n_of(src)}', not hit, b.loc(s.line), 'a processor (or what it works on) can end up on another thread than the render thread')
    ctx.floor('stays-dead', 'values erased to be sent', n, 3)


def n_of(t):
    if t is None:
        return '?'
    while t.args and t.adt is not None and tail(t.adt) == 'Box':
        t = t.args[0]
    return tail(t.adt) if t.adt else t.s
