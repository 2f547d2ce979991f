"""C24: worklet buffers never outlive the process call."""
import re
import inline as inl
from cond import Conds, consistent_path, path_without
from ctrl import Ctrl
from flow import lines
from model import mentions, tail
from sym import walk

EXPLANATION = ('Typestate of the reusable containers that hold lifetime-extended slices, on the inlined process function of the worklet adapter: which container each slice '
               'goes into, that every path to a return empties every container filled before, that a container others point into does not grow while they do, that '
               'the output buffers are not touched while slices of them are held, and that the signature of the user callback does not let references escape.')
TECHNIQUE = 'typestate (must-clear) and alias rules on inlined MIR, signature rule on the type-checked program'
NOTE = 'Every path of the adapter that returns normally; a path that unwinds removes the processor (decided under C03).'
GROW = {'push', 'extend', 'extend_from_slice', 'insert', 'reserve', 'reserve_exact', 'resize', 'append', 'shrink_to_fit', 'shrink_to', 'try_reserve', 'split_off'}
FILL = {'push', 'extend', 'extend_from_slice', 'insert', 'append', 'resize', 'replace'}
CLEAR = {'clear', 'drain', 'take', 'split_off'}
EXTEND = {'transmute', 'transmute_copy', 'from_raw_parts', 'from_raw_parts_mut', 'as_ref_unchecked'}


def refs(t):
    return mentions(t, lambda x: x.k in ('ref', 'refmut'))


def field(e, own):
    """name of the field of the processor that e is (part of)"""
    while isinstance(e, tuple):
        if e[0] == 'field' and e[3] == own and e[1][0] == 'arg' and e[1][1] == 1:
            return e[2]
        if e[0] in ('field', 'dc', 'idx', 'sub', 'discr'):
            e = e[1]
        elif e[0] == 'call' and e[2]:
            e = e[2][0]
        else:
            return None
    return None


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    cd = Conds(sym)
    ctx.rule('confined', 'References are given a longer lifetime only in functions of a processor that keeps them in its own containers.')
    ctx.rule('cleared', 'Every container filled with references during process is emptied on every path to a return.')
    ctx.rule('stable', 'A container does not grow or move while another one holds references into it.')
    ctx.rule('exclusive', 'While references to the output buffers are held, the outputs are not used in any other way.')
    ctx.rule('fresh', 'The containers are empty when the processor is made, and filled before the user callback runs.')
    ctx.rule('no-escape', 'The slices in the signature of the user callback have lifetimes that the callback cannot name outside the call.')
    user = [t for t in p.traits if tail(t) == 'AudioWorkletProcessor']
    ctx.floor('no-escape', 'user callback trait', len(user), 1)
    for f in p.fns.values():
        if user and f['path'] == f'{user[0]}::process':
            sig = f.get('sig', '')
            bound = set(re.findall(r"'\w+", re.match(r'(for<[^>]*>)?', sig).group(0)))
            used = re.findall(r"&('\w+)", sig)
            bad = sorted(set(used) - bound)
            ctx.ob('no-escape', 'process', bool(used) and not bad, None, f'the callback receives references with lifetime {", ".join(bad)}: {sig}')
    # processors that hold references
    keep = {}
    for i in p.impls:
        if i.get('trait') == m.processor_trait:
            a = p.ty(i['self']).adt
            if a in p.adts:
                fs = [fn for _, fn, ft in p.adt_fields(a) if refs(ft)]
                if fs:
                    keep[a] = fs
    n = 0
    bodies = {}
    for b in p.bodies.values():
        if b.trait == m.processor_trait and b.kind != 'Closure' and b.self_ty is not None and b.self_ty.strip().adt in keep:
            bodies[b.uid] = b
    held = set()
    for b0 in sorted(bodies.values(), key=lambda x: x.path):
        own = b0.self_ty.strip().adt
        b = inl.Inliner(p, g, lambda q: True, 5).run(b0)
        fills, clears, grows = {}, {}, {}
        for t in b.calls():
            if t.callee is None or t.bb not in b.live_blocks or not t.args or t.callee.uid in p.bodies:
                continue
            fn = field(sym.operand(b, t.args[0]), own)
            ty = C.gm.op_ty(b, t.args[0])
            if fn not in keep[own] or ty is None or ty.k != 'refmut':
                if not (fn in keep[own] and t.callee.path.endswith(('mem::take', 'mem::replace'))):
                    continue
            if t.callee.name in FILL:
                fills.setdefault(fn, {})[t.bb] = t
            if t.callee.name in GROW:
                grows.setdefault(fn, {})[t.bb] = t
            if t.callee.name in CLEAR or t.callee.name == 'truncate' and sym.operand(b, t.args[1])[:2] == ('const', 0):
                clears.setdefault(fn, set()).add(t.bb)
        for s in b.stmts():
            if s.kind == '=' and s.place.proj and s.bb in b.live_blocks:
                fn = field(sym.place(b, s.place), own)
                if fn in keep[own]:
                    e = sym.rvalue(b, s.rv)
                    if e[0] == 'agg' and e[2] == 'None' or e[0] == 'call' and e[3] in ('new', 'default') or e[0] == 'const':
                        clears.setdefault(fn, set()).add(s.bb)
                    else:
                        fills.setdefault(fn, {})[s.bb] = s
        if not fills:
            continue
        n += 1
        held.add(own)
        for x in b.origin:
            ctx.seen(x)
        key = tail(own)
        calls = {t.bb: t for t in b.calls() if t.bb in b.live_blocks and t.callee is not None and user and t.callee.trait == user[0] and t.callee.name == 'process'}
        rets = set(b.return_blocks()) & set(b.live_blocks)
        for fn in sorted(fills):
            w = None
            for bb in fills[fn]:
                for y in b.succs[bb]:
                    w = w or consistent_path(cd, b, y, rets, through=clears.get(fn, set()))
            ctx.ob('cleared', f'{key}.{fn}', w is None, b0.loc(b0.line) if w is None else b.at(w[-1], b.blocks[w[-1]].term.line),
                   f'{fn} can still hold references to the buffers of this quantum when process returns', w and lines(b, w))
            if calls:
                # refilled after it was emptied: nothing may be filled after the callback
                late = [bb for bb in fills[fn] for c in calls for y in b.succs[c] if path_without(b, y, {bb})]
                ctx.ob('fresh', f'{key}.{fn}', not late, b0.loc(b0.line), f'{fn} is filled after the callback ran')
                early = [c for c in calls for x in clears.get(fn, ()) for y in b.succs[x] if path_without(b, y, {c}, through=set(fills[fn]))
                         and any(path_without(b, z, {x}) for bb in fills[fn] for z in b.succs[bb])]
                ctx.ob('fresh', f'{key}.{fn}: kept', not early, b0.loc(b0.line), f'{fn} is emptied before the callback ran')
        # references from one container into another
        into = {}
        for fn, ts in fills.items():
            for bb, t in ts.items():
                if not hasattr(t, 'args'):
                    continue
                for a in t.args[1:]:
                    for x in walk(sym.operand(b, a)):
                        f2 = x[2] if x[0] == 'field' and x[3] == own else None
                        if f2 in keep[own] and f2 != fn:
                            into.setdefault((fn, f2), set()).add(bb)
        for (fn, f2), bbs in sorted(into.items()):
            w = None
            for bb in bbs:
                for y in b.succs[bb]:
                    w = w or path_without(b, y, set(grows.get(f2, {})), through=clears.get(fn, set()))
            ctx.ob('stable', f'{key}: {fn} into {f2}', w is None, b0.loc(b0.line) if w is None else b.at(w[-1], b.blocks[w[-1]].term.line),
                   f'{f2} can grow while {fn} holds slices of it', w and lines(b, w))
        ctx.ob('stable', f'{key}: containers', True)
        exclusive(ctx, C, b, b0, own, keep[own], fills, clears, key)
    ctx.floor('cleared', 'processors that hold references while processing', n, 1)
    extend(ctx, held, [b for b in p.bodies.values() if b.trait == m.processor_trait and b.kind != 'Closure'])
    fresh(ctx, held, keep)


def exclusive(ctx, C, b, b0, own, fs, fills, clears, key):
    """no mutable use of the outputs argument between filling a container of mutable slices and emptying it"""
    p, sym = ctx.p, ctx.sym
    outs = [i for i in range(1, b0.argc + 1) if b0.lty(i).k == 'refmut' and i > 1]
    mut = [fn for _, fn, ft in p.adt_fields(own) if fn in fills and mentions(ft, lambda x: x.k == 'refmut')]
    uses = {}
    for t in b.calls():
        if t.bb not in b.live_blocks or t.callee is None or not t.args:
            continue
        ty = C.gm.op_ty(b, t.args[0])
        e = sym.operand(b, t.args[0])
        while e[0] in ('field', 'idx', 'sub', 'dc') or e[0] == 'call' and e[2]:
            e = e[1] if e[0] != 'call' else e[2][0]
        if ty is not None and ty.k == 'refmut' and e[0] == 'arg' and e[1] in outs:
            uses[t.bb] = t
    for fn in sorted(mut):
        w = None
        for bb in fills[fn]:
            for y in b.succs[bb]:
                w = w or path_without(b, y, set(uses) - set(fills[fn]), through=clears.get(fn, set()))
        ctx.ob('exclusive', f'{key}.{fn}', w is None, b0.loc(b0.line) if w is None else b.at(w[-1], uses[w[-1]].line),
               f'the outputs are used mutably while {fn} holds slices of them', w and lines(b, w))
    ctx.floor('exclusive', 'containers of mutable slices', len(mut), 1)


def extend(ctx, held, roots):
    """where lifetimes are extended, in the code that processors run"""
    p, g = ctx.p, ctx.g
    n = 0
    live = [p.bodies[u] for u in sorted(g.reach(roots))]
    for b in live:
        for t in b.calls():
            c = t.callee
            if c is None or c.uid in p.bodies or c.name not in EXTEND or c.krate not in ('core', 'std', 'alloc'):
                continue
            ts = [x for x in c.args]
            if c.name == 'transmute' and not any(refs(x) for x in ts):
                continue
            n += 1
            r = g.root_fn(b)
            own = r.self_ty.strip().adt if r.self_ty is not None else None
            ctx.ob('confined', f'{tail(own) if own else r.path}: {c.name}', own in held, b.loc(t.line), 'a reference is given a longer lifetime here')
    for b in live:
        for s in b.stmts():
            if s.kind == '=' and s.rv.k in ('ref', 'refmut') and s.rv.place is not None and s.rv.place.proj and b.lty(s.rv.place.local).k in ('ptr', 'ptrmut') \
                    and s.rv.place.proj[0] == '*' and not b.d.get('derived'):
                if any(tail(x) == 'Box' for x in [b.lty(s.rv.place.local).s]):
                    continue
                r = g.root_fn(b)
                own = r.self_ty.strip().adt if r.self_ty is not None else None
                ctx.ob('confined', f'{tail(own) if own else r.path}: raw pointer', own in held, b.loc(s.line), 'a reference is made from a raw pointer here')
    ctx.floor('confined', 'lifetime extensions', n, 1)


def fresh(ctx, held, keep):
    p, sym = ctx.p, ctx.sym
    n = 0
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') in held:
                a = s.rv.agg['adt']
                for fn, op in zip(s.rv.agg['f'], s.rv.ops):
                    if fn in keep[a]:
                        n += 1
                        e = sym.operand(b, op)
                        ok = e[0] == 'call' and e[3] in ('new', 'with_capacity', 'default') or e[0] == 'agg' and e[2] == 'None' or e[0] == 'const'
                        ctx.ob('fresh', f'{tail(a)}.{fn}: made', ok, b.loc(s.line), f'{fn} is not empty when the processor is made')
    ctx.floor('fresh', 'containers made', n, 1)
