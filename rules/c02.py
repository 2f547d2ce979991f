"""C02: message handling on the render thread destroys nothing."""
import locks
from effects import callee_key
from flow import is_guard_adt
from model import Model, mentions, tail
from c01 import owner_of

EXPLANATION = ('Ownership analysis on the MIR of every message handler of every processor and the functions it calls: drop glue, '
               'overwriting assignments and freeing library calls on values that own heap memory are obligations, decided with '
               'move/initialisation dataflow and the enum variant known at that point. A second rule follows the message box '
               'through the render thread: on every path on which a garbage collector exists it is moved into its queue.')
TECHNIQUE = 'ownership / drop analysis with move dataflow on MIR'
ASSUMPTIONS = ['Render blocks (pool-allocated quanta) are not resources in the sense of the property.',
               'Growing a pre-allocated vector while handling a message is not a replacement of a resource.']
NOTE = ('Covers every drop, overwrite and freeing call reachable from a message handler on non-unwinding paths, for every '
        'message and previous state. Removal of automation events by cancellation is outside the statement.')

FREEING = {'drop', 'clear', 'truncate', 'retain', 'retain_mut', 'drain', 'shrink_to_fit', 'shrink_to', 'clone_from', 'insert',
           'store', 'set', 'resize', 'resize_with', 'split_off', 'pop', 'remove', 'swap_remove', 'replace', 'fill', 'fill_with'}


def owns(p, ty, seen=None):
    """does dropping this type free memory or run a destructor"""
    seen = seen if seen is not None else set()
    if ty.i in seen:
        return False
    seen.add(ty.i)
    if ty.k == 'dyn':
        return True
    if ty.k == 'adt':
        n = tail(ty.adt)
        if is_guard_adt(ty.adt) or n in ('Ref', 'RefMut') or n.startswith('AudioRenderQuantum'):
            return False
        if n == 'Rc' and ty.args and ty.args[0].k == 'array':
            return False        # a pool-allocated render block
        if ty.adt not in p.adts and n in ('Box', 'Vec', 'String', 'Arc', 'Rc', 'VecDeque', 'HashMap', 'BTreeMap', 'HashSet', 'Sender', 'Receiver', 'CString'):
            return True
        if ty.adt not in p.adts and n in ('Iter', 'IterMut', 'PhantomData', 'ManuallyDrop', 'Chunks', 'TryIter', 'Weak'):
            return False
        b, _ = p.drop_targets(ty)
        if any(p.bodies[u].self_ty.adt == ty.adt for u in b):
            return True
        return any(owns(p, f, seen) for _, _, f in p.adt_fields(ty.adt)) or any(owns(p, a, seen) for a in ty.args)
    if ty.k in ('tuple', 'array', 'slice', 'closure'):
        return any(owns(p, a, seen) for a in ty.args)
    return False


def run(ctx):
    p, g = ctx.p, ctx.g
    m = Model(p)
    S = locks.Summaries(ctx.cur)
    ctx.rule('handler-destroys-nothing', 'No function reachable from a processor\'s message handler drops, overwrites or frees a '
                                         'value that owns heap memory, unless it is known to hold nothing at that point.')
    ctx.rule('message-recycled', 'On every path on which the render thread has a garbage collector, the message object is moved '
                                 'into the collector\'s queue and not dropped.')
    roots = [ms['onmessage'] for ms in m.processors().values() if 'onmessage' in ms]
    prev = g.reach(roots, ('call', 'fnitem', 'closure'))
    # automation events are consumed, not replaced: only the handler body of the parameter itself is subject
    nd = 0
    events = param_events(ctx, m)
    for u in prev:
        b = p.bodies[u]
        ctx.seen(b)
        for blk in b.blocks:
            if blk.cleanup or blk.i not in b.live_blocks:
                continue
            t = blk.term
            if t.k == 'drop':
                ty = t.drop_ty
                if not owns(p, ty):
                    continue
                nd += 1
                key = f'{owner_of(ctx, b)}: drop {short_place(ctx, b, t.place, ty)}'
                if not t.place.proj and t.place.local not in g._owned(b).at_term(blk.i):
                    ctx.ob('handler-destroys-nothing', key, True, b.loc(t.line))
                    continue
                v = S.known_variant(b, blk.i, t.place)
                if v is not None and payload_free(p, ty, v):
                    ctx.ob('handler-destroys-nothing', key, True, b.loc(t.line))
                    continue
                if ty.k == 'adt' and ty.adt in events:
                    ctx.ob('handler-destroys-nothing', key, True, b.loc(t.line))
                    continue
                ctx.ob('handler-destroys-nothing', key, False, b.loc(t.line),
                       f'a value of type {ty.s} is destroyed while handling a message', g.chain(prev, u))
            elif t.k == 'call' and t.callee is not None and t.callee.name in FREEING and not p.resolve(t.callee) and t.args:
                a = t.args[0]
                ty = b.place_ty(a.place) if a.place is not None else a.ty
                if ty is None:
                    continue
                base = ty.strip()
                n = t.callee.name
                if n in ('clone_from', 'shrink_to_fit', 'shrink_to'):
                    bad = owns(p, base)
                elif n == 'drop':
                    bad = owns(p, ty)
                elif n in ('replace', 'pop', 'remove', 'swap_remove', 'split_off', 'drain'):
                    bad = False         # the removed value is returned: its drop is seen at the caller
                elif n == 'insert' and tail(base.adt or '') != 'Option':
                    bad = False
                elif n in ('store', 'set') and 'Arc' not in t.callee.path and 'Once' not in t.callee.path:
                    bad = False
                else:
                    bad = any(owns(p, x) for x in base.args) and not mentions(base, lambda x: x.k == 'adt' and x.adt in events)
                if bad or n in ('drop', 'clear', 'insert'):
                    nd += 1
                    ctx.ob('handler-destroys-nothing', f'{owner_of(ctx, b)}: {callee_key(t.callee)} on {short_ty(base)}', not bad,
                           b.loc(t.line), f'{t.callee.path} frees values of type {base.s} while handling a message', g.chain(prev, u))
    ctx.floor('handler-destroys-nothing', 'message handlers', len(roots), 8)
    recycle(ctx, m)


def param_events(ctx, m):
    """the automation event: what methods of AudioParam build and a processor keeps a list of"""
    p, g = ctx.p, ctx.g
    made = set()
    for b in p.bodies.values():
        if b.self_ty is not None and b.self_ty.strip().adt and tail(b.self_ty.strip().adt) == 'AudioParam':
            for s in b.stmts():
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') in p.adts and p.adts[s.rv.agg['adt']]['kind'] == 'Struct':
                    made.add(s.rv.agg['adt'])

    def holds(ty, seen):
        if ty.i in seen:
            return set()
        seen.add(ty.i)
        out = set()
        if ty.k == 'adt' and tail(ty.adt) in ('Vec', 'VecDeque', 'SmallVec', 'ArrayVec', 'BinaryHeap') and ty.args:
            out.add(ty.args[0].adt)
        for x in ty.args + ([ft for _, _, ft in p.adt_fields(ty.adt)] if ty.adt in p.adts else []):
            out |= holds(x, seen)
        return out
    kept = set()
    for a in m.processors():
        for _, _, ft in p.adt_fields(a):
            kept |= holds(ft, set())
    return made & kept


def payload_free(p, ty, v):
    if ty.k != 'adt':
        return False
    if tail(ty.adt) == 'Option':
        return v == 0
    if ty.adt in p.adts:
        vs = p.adts[ty.adt]['variants']
        return v < len(vs) and not any(owns(p, p.ty(f['t'])) for f in vs[v]['f'])
    return False


def short_ty(ty):
    import re
    return re.sub(r"(?:[A-Za-z_0-9]+::)+", '', ty.s)


def short_place(ctx, b, pl, ty):
    f = pl.fields()
    return (f[-1][0] + ': ' if f else '') + short_ty(ty)


def recycle(ctx, m):
    """the box that carried a node message"""
    p, g = ctx.p, ctx.g

    def is_box(ty):
        return ty.k == 'adt' and ty.adt.startswith('llq') and tail(ty.adt) == 'Node' and \
            mentions(ty, lambda x: x.k == 'dyn' and any(tail(t) == 'Any' for t in x.d.get('traits', [])))

    def is_queue(ty):
        return ty.k == 'adt' and ty.adt.startswith('llq') and tail(ty.adt) == 'Producer' and ty.args and \
            mentions(ty, lambda x: x.k == 'dyn' and any(tail(t) == 'Any' for t in x.d.get('traits', [])))
    rt = p.methods_of(m.render_thread)
    prev = g.reach(rt, ('call', 'fnitem', 'closure'))
    n = pushes = 0
    for u in prev:
        b = p.bodies[u]
        boxes = [l for l in range(1, b.nlocals()) if is_box(b.lty(l))]
        if not boxes or b.name == 'drop':
            continue
        ctx.seen(b)
        # edges taken when no collector exists
        absent = set()
        for blk in b.blocks:
            t = blk.term
            if t.k != 'switch':
                continue
            for s in blk.stmts:
                if s.kind == '=' and s.rv.k == 'discr':
                    ty = b.place_ty(s.rv.place)
                    if ty is not None and tail(ty.adt or '') == 'Option' and ty.args and \
                            (is_queue(ty.args[0]) or is_queue(ty.args[0].strip())):
                        for v, tgt in t.d['cases']:
                            if v == 0:
                                absent.add((blk.i, tgt))
                        if all(v != 0 for v, _ in t.d['cases']):
                            absent.add((blk.i, t.d['else']))
        # flow: blocks at which a box may be owned without having been offered to the collector
        for l in boxes:
            defs = [d.bb for d in b.defs.get(l, [])] + ([0] if l <= b.argc else [])
            for d0 in defs:
                n += 1
                bad = follow(b, l, d0, absent)
                pushes += 1
                ctx.ob('message-recycled', f'{owner_of(ctx, b)}: {short_ty(b.lty(l))} {"argument" if l <= b.argc else "local"}', bad is None,
                       b.loc(bad.line if bad else b.line), 'the message object is dropped on the render thread although a garbage '
                       'collector may exist', g.chain(prev, u))
    # somebody pushes boxes to the collector at all
    np = sum(1 for u in prev for t in p.bodies[u].calls()
             if t.callee is not None and t.callee.name == 'push' and t.callee.krate == 'llq' and len(t.args) > 1 and
             t.args[1].place is not None and is_box(p.bodies[u].place_ty(t.args[1].place) or p.bodies[u].lty(t.args[1].place.local)) and
             p.bodies[u].name != 'drop')
    ctx.floor('message-recycled', 'message objects on the render thread', n, 1)
    ctx.ob('message-recycled', 'messages are pushed to the collector', np > 0, '', 'no message object is ever given to the garbage collector')


def follow(b, l, start, absent):
    """a drop of l reachable from start without a move of l and without an absent-collector edge"""
    seen = set()
    st = [start]
    first = True
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        blk = b.blocks[i]
        moved = False
        for s in blk.stmts:
            if s.kind == '=' and any(o.kind == 'move' and o.place.local == l and not o.place.proj for o in s.rv.ops):
                moved = True
        t = blk.term
        if t.k == 'call' and any(a.kind == 'move' and a.place.local == l and not a.place.proj for a in t.args):
            moved = True
        if moved:
            continue
        if t.k == 'drop' and t.place.local == l and not t.place.proj:
            return t
        for s in b.succs[i]:
            if (i, s) not in absent:
                st.append(s)
    return None
