"""C16: attribute setters update what is read back and what is rendered alike."""
import inline as inl
from cond import Conds, path_without
from ctrl import Ctrl
from flow import Guards, Types, lines
from graphm import is_call
from mir import Operand
from model import tail
from msgs import Msgs, root_is
from nodes import pairs
from sym import show, walk
from c15 import hit_edges

EXPLANATION = ('Every setter with a getter of the same attribute is analysed with its helpers inlined: the place the getter reads must be written, with the '
               'argument (or its clamped value); a setter that also sends a message must do both on the same paths, with the same value, and under '
               'the lock if several threads may call it. Constructors tell which field of a handle and which field of its processor hold the same '
               'setting (both initialised from one expression); a method that changes the one must send a message whose handler writes the other. '
               'The channel settings of all nodes are followed from the node methods over the shared settings object to the renderer.')
TECHNIQUE = 'getter/setter place matching, mirror inference from constructors, path pairing over inlined MIR, lockset for shared setters'
NOTE = 'All attributes with setter and getter, of all nodes, parameters and channel settings.'
STORES = ('store', 'set', 'replace', 'swap', 'insert', 'fetch_update')


def path(e):
    """field names from self to the accessed place, through locks, cells and options; None if not rooted at self"""
    out = []
    while isinstance(e, tuple):
        if e[0] == 'field':
            if e[3] is None or not e[3].startswith(('std::', 'core::', 'alloc::')):
                out.append(e[2])
            e = e[1]
        elif e[0] in ('dc', 'cast', 'idx', 'elem'):
            e = e[1]
        elif e[0] == 'call' and e[2]:
            e = e[2][0]
        elif e[0] == 'phi':
            rs = {path(c) for c in e[2]}
            rs.discard(None)
            if len(rs) == 1:
                r = rs.pop()
                return r + tuple(out[::-1])
            return None
        else:
            break
    return tuple(out[::-1]) if isinstance(e, tuple) and e[:2] == ('arg', 1) else None


def core(e):
    """strip wrappers that keep the value"""
    while isinstance(e, tuple):
        if e[0] == 'agg' and tail(e[1]) in ('Option', 'Box', 'Some') and len(e[3]) == 1:
            e = next(iter(e[3].values()))
        elif e[0] == 'agg' and len(e[3]) == 1:
            e = next(iter(e[3].values()))
        elif e[0] == 'call' and e[3] in ('clone', 'into', 'from', 'new', 'to_owned', 'Some', 'to_bits') and len(e[2]) == 1:
            e = e[2][0]
        elif e[0] == 'cast':
            e = e[1]
        else:
            return e
    return e


def is_value(e, n):
    e = core(e)
    if e[:2] == ('arg', n):
        return True
    if e[0] == 'call' and e[3] in ('clamp', 'min', 'max'):
        return is_value(e[2][0], n)
    if e[0] == 'phi':
        return all(is_value(x, n) for x in e[2])
    return False


def limits(e):
    """the adjustments between the argument and this value: {(function, bounds)}, one set per alternative"""
    e = core(e)
    if e[0] == 'call' and e[3] in ('clamp', 'min', 'max'):
        return {x | {(e[3], tuple(map(bare, e[2][1:])))} for x in limits(e[2][0])}
    if e[0] == 'phi':
        return set().union(*(limits(x) for x in e[2]))
    return {frozenset()}


def bare(e):
    """without the places of calls"""
    if isinstance(e, tuple):
        if e and e[0] == 'call':
            return ('call', e[1], tuple(map(bare, e[2])), e[3])
        return tuple(map(bare, e))
    return e


def accessors(ctx):
    """(type, attribute, setter, getter)"""
    p = ctx.p
    out = []
    by = {}
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.self_ty is None:
            continue
        a = b.self_ty.strip().adt
        if a in p.adts:
            by.setdefault((a, b.trait or b.in_trait), {}).setdefault(b.name, b)
    for (a, tr), fs in by.items():
        for n, b in fs.items():
            if n.startswith('set_') and b.argc >= 2:
                g = fs.get(n[4:]) or fs.get(n[4:] + '_')
                if g is not None and g.argc == 1 and matches(b.lty(2), g.lty(0)):
                    out.append((a, n[4:], b, g))
    return out


def matches(v, r):
    t = r.strip()
    if t.s == v.s:
        return True
    if t.adt and tail(t.adt) == 'Option' and t.args:
        t = t.args[0].strip()
        return t.s == v.s or v.adt is not None and tail(v.adt) == 'Vec' and t.s == f'[{v.args[0].s}]'
    return v.adt is not None and tail(v.adt) == 'Vec' and t.s == f'[{v.args[0].s}]'


class Sides:
    """initial values of the fields of handle and processor, from the constructor"""

    def __init__(self, ctx, m):
        self.fields = {}
        p = ctx.p
        for pr in pairs(ctx, m):
            b = inl.Inliner(p, ctx.g, lambda q: True, 4).run(pr.closure)
            F = {}
            for s in b.stmts():
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') in (pr.node, pr.proc):
                    names = [x[1] for x in p.adt_fields(s.rv.agg['adt'])]
                    F.setdefault(s.rv.agg['adt'], {f: ctx.sym.operand(b, o) for f, o in zip(names, s.rv.ops)})
            self.fields.setdefault(pr.node, []).append((pr.proc, F.get(pr.node, {}), F.get(pr.proc, {}), pr))

    def mirrors(self, node):
        """[(processor, handle field, processor field)] initialised from the same non-constant expression"""
        out = []
        for proc, N, R, pr in self.fields.get(node, []):
            for f, e in flat(N):
                for g, e2 in R.items():
                    if core(e) == core(e2) and not constant(e) and not shared(e):
                        out.append((proc, f, g))
        return out


def flat(F):
    """[(field path, initial value)], entering nested structs once"""
    out = []
    for f, e in F.items():
        out.append(((f,), e))
        if e[0] == 'agg' and len(e[3]) > 1:
            out += [((f, h), x) for h, x in e[3].items()]
    return out


def constant(e):
    return not any(x[0] in ('arg', 'up', 'local') for x in walk(e))


def shared(e):
    return any(x[0] == 'call' and x[3] == 'new' and ('Arc' in x[1] or 'Rc' in x[1]) for x in walk(e))


class Setter:
    def __init__(self, ctx, C, M, b0):
        self.ctx, self.C, self.M, self.b0 = ctx, C, M, b0
        posters = set(M.posters)
        sends = {b.uid for b in ctx.p.bodies.values() for t in b.calls() if C.is_send(b, t)}
        self.sends = sends
        self.b = inl.Inliner(ctx.p, ctx.g, lambda q: q.uid not in posters and q.uid not in sends, 6).run(b0)
        b, sym = self.b, ctx.sym
        self.stores = []     # (block, line, path, value)
        self.posts = []      # (block, line, term, value expr)
        for s in b.stmts():
            if s.kind == '=' and s.place.proj and s.bb in b.live_blocks:
                e = sym.place(b, s.place)
                pa = path(e)
                if pa:
                    self.stores.append((s.bb, s.line, pa, sym.rvalue(b, s.rv)))
        for t in b.calls():
            if t.bb not in b.live_blocks or t.callee is None:
                continue
            if t.callee.uid in posters or t.callee.uid in sends:
                self.posts.append((t.bb, t.line, t, sym.operand(b, t.args[-1])))
            elif t.callee.name in STORES and len(t.args) >= 2:
                pa = path(sym.operand(b, t.args[0]))
                if pa:
                    self.stores.append((t.bb, t.line, pa, sym.operand(b, t.args[1])))
            elif t.dest is not None and t.dest.proj:
                pa = path(sym.place(b, t.dest))
                if pa:
                    self.stores.append((t.bb, t.line, pa, sym._call(b, t, 20, frozenset())))


def unpaired(b, A, B):
    """path entry -> return that passes a block of A and none of B"""
    if 0 in B:
        return None
    rets = set(b.return_blocks())
    for a in sorted(A - B):
        w1 = [0] if a == 0 else path_without(b, 0, {a}, (), B)
        w2 = path_without(b, a, rets, (), B) if w1 else None
        if w1 and w2:
            return w1 + w2[1:]
    return None


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    ctx.rule('stored', 'A setter writes the place its getter reads, with the argument.')
    ctx.rule('together', 'A setter that informs the renderer does so on exactly the paths on which it stores the value.')
    ctx.rule('same-value', 'The value sent to the renderer is the value stored.')
    ctx.rule('locked', 'A setter that can be called from several threads sends while it holds the lock of the stored value.')
    ctx.rule('mirrored', 'A method that changes a setting held by both handle and processor sends a message that changes it in the processor.')
    ctx.rule('same-attribute', 'The message of a setter changes the same setting in the processor that it changed in the handle.')
    ctx.rule('initial', 'A setting held by both handle and processor starts with the same value on both sides.')
    ctx.rule('posted', 'Every message that a processor understands is sent by its node.')
    ctx.rule('channel', 'The channel attributes of a node are those of its settings object, for reading and for writing.')
    M = Msgs(ctx, C)
    sides = Sides(ctx, m)
    scope = set(M.nodes) | {a for a in p.adts if tail(a) in ('AudioParam', 'ChannelConfig')}
    guards = Guards(p, sym, Types(p))
    acc = [x for x in accessors(ctx) if x[0] in scope]
    ctx.floor('stored', 'attributes with setter and getter', len(acc), 15)
    for a, name, st, gt in sorted(acc, key=lambda x: (x[0], x[1])):
        key = f'{tail(a)}.{name}'
        ctx.seen(st)
        ctx.seen(gt)
        gb = inl.Inliner(p, g, lambda q: True, 6).run(gt)
        ge = sym.local(gb, 0)
        gp = path(ge)
        S = Setter(ctx, C, M, st)
        if not S.b.return_blocks() or gp is None:
            continue
        for x in S.b.origin:
            ctx.seen(x)
        hit = [w for w in S.stores if w[2] == gp]
        good = [w for w in hit if is_value(w[3], 2)]
        ctx.ob('stored', key, bool(good) and len(good) == len(hit), st.loc(st.line),
               f'the getter reads {".".join(gp)}, which ' + ('is set to something other than the argument' if hit else 'is not written'))
        if not good:
            continue
        if S.posts:
            sb, pb = {w[0] for w in good}, {x[0] for x in S.posts}
            w = unpaired(S.b, sb, pb)
            ctx.ob('together', f'{key}: sent', w is None, st.loc(st.line), 'the value is stored without the renderer being informed', w and lines(S.b, w))
            w = unpaired(S.b, pb, sb)
            ctx.ob('together', f'{key}: stored', w is None, st.loc(st.line), 'the renderer is informed of a value that is not stored', w and lines(S.b, w))
            for bb, line, t, e in S.posts:
                ctx.ob('same-value', key, carries(S, bb, e, st.lty(2), gp, sb), S.b.at(bb, line), f'the message carries {show(e)[:120]} instead of the argument')
                for x in leaves(e):
                    # a parameter limits what it computes from its events, not the events
                    if is_value(x, 2) and path(x) is None and not (tail(a) == 'AudioParam' and limits(x) == {frozenset()}):
                        ctx.ob('same-value', f'{key}: limits', any(limits(x) == limits(w[3]) for w in good), S.b.at(bb, line),
                               f'the message carries {show(x)[:120]}, the stored value is {show(good[0][3])[:120]}')
            if not st.lty(1).s.startswith('&mut'):
                locked(ctx, S, guards, good, key)
    mirrored(ctx, C, M, sides, acc)
    channel(ctx, C, M, acc)


def carries(S, bb, e, ty, gp, stores):
    """the payload is the argument, or depends on it if it has another type"""
    sym, b = S.ctx.sym, S.b
    parts = leaves(e)
    if any(is_value(x, 2) for x in parts):
        return True
    if any(y[:2] == ('arg', 2) for x in parts for y in walk(x)) and not any(same_kind(S, x, ty) for x in parts):
        return True
    if any(path(x) == gp for x in parts) and (bb in stores or 0 in stores or path_without(b, 0, {bb}, (), stores) is None):
        return True          # read back after it was stored
    # chosen by branching on the argument
    if any(x[0] in ('phi', 'local') for x in parts):
        for blk in b.blocks:
            if blk.i in b.live_blocks and blk.term.k == 'switch':
                op = Operand(b.p, blk.term.d['d'])
                if op.place is not None and any(y[:2] == ('arg', 2) for y in walk(sym.operand(b, op))):
                    return True
    return False


def same_kind(S, e, ty):
    """payload part of the type of the argument: then it must be the argument itself"""
    if ty.s not in ('f64', 'f32', 'bool', 'usize'):
        return False
    return e[0] in ('bin', 'un', 'const', 'field') or e[0] == 'call' and e[3] in ('abs', 'sqrt', 'round', 'floor', 'ceil', 'mul_add')


def leaves(e):
    if e[0] == 'agg':
        out = []
        for x in e[3].values():
            out += leaves(x)
        return out
    if e[0] == 'call' and e[3] in ('new', 'from', 'into') and len(e[2]) == 1:
        return leaves(e[2][0])
    return [e]


def locked(ctx, S, guards, good, key):
    """the stored place is inside a lock: its guard is alive at the send"""
    b = S.b
    for bb, line, pa, _ in good:
        st = [s for s in b.blocks[bb].stmts if s.kind == '=' and s.place.proj and path(ctx.sym.place(b, s.place)) == pa]
        gl = [l for l in range(b.nlocals()) if guards.types.contains_guard(b.lty(l)) and b.lty(l).adt and tail(b.lty(l).adt).endswith('Guard')]
        if not gl or not st:
            continue
        # only when the place is reached through a guard
        e = ctx.sym.place(b, st[0].place)
        if not any(x[0] == 'call' and x[3] in ('lock', 'write') for x in walk(e)):
            continue
        for pbb, pline, t, _ in S.posts:
            live = guards.live_at_call(b, pbb)
            ctx.ob('locked', key, bool(live), b.at(pbb, pline), 'another thread can set and send in between, so that handle and renderer end up with different values')


def writes_of(ctx, M, proc, post_ty, variant):
    """processor field paths written by the handler for this message"""
    R = M.receiver(proc)
    if R is None:
        return None
    mine = [(bb, d) for bb, t, _, d in R.tests if t.s == post_ty.s]
    if not mine:
        return None
    out = set()
    b = R.b
    if variant is None:
        # everything written in the branch of this type
        blocks = set()
        for bb, d in mine:
            for _, s in hit_edges(ctx, b, bb, d):
                blocks |= {x for x in b.live_blocks if x == s or s in b.doms.get(x, ())}
    else:
        blocks = set()
        for blk in b.blocks:
            t = blk.term
            if blk.i in b.live_blocks and t.k == 'switch' and t.d.get('enum') == post_ty.adt:
                names = dict(t.d['variants'])
                hit = [x for v, x in t.d['cases'] if names.get(v) == variant] or [t.d['else']]
                for s in hit:
                    blocks |= {x for x in b.live_blocks if x == s or s in b.doms.get(x, ())}
    for s in b.stmts():
        if s.kind == '=' and s.place.proj and s.bb in blocks:
            pa = path(ctx.sym.place(b, s.place))
            if pa:
                out.add(pa)
    for t in b.calls():
        if t.bb in blocks and t.callee is not None:
            for a in t.args:
                ty = M.C.gm.op_ty(b, a)
                if ty is not None and ty.k == 'refmut':
                    pa = path(ctx.sym.operand(b, a))
                    if pa:
                        out.add(pa)
            if t.dest is not None and t.dest.proj:
                pa = path(ctx.sym.place(b, t.dest))
                if pa:
                    out.add(pa)
    return out


def post_kind(ctx, S, t, e):
    """(type, variant or None) of a posted message"""
    args = [a for a in t.callee.args if a.k != 'region']
    ty = args[-1] if args else None
    var = None
    if e[0] == 'agg' and ty is not None and ty.adt in ctx.p.adts and ctx.p.adts[ty.adt]['kind'] == 'Enum':
        var = e[2]
    return ty, var


def at(F, pa):
    """initial value of a field path"""
    e = F.get(pa[0])
    for f in pa[1:]:
        if e is None or e[0] != 'agg':
            return None
        e = e[3].get(f)
    return e


def field_ty(p, adt, pa):
    t = None
    for f in pa:
        fs = {x[1]: x[2] for x in p.adt_fields(adt)} if adt in p.adts else {}
        if f not in fs:
            return None
        t = fs[f]
        adt = t.adt
    return t


def prefix(a, b):
    return a[:len(b)] == b or b[:len(a)] == a


def mirrored(ctx, C, M, sides, acc):
    p, g, m = ctx.p, ctx.g, C.m
    nmir = 0
    for node in sorted(M.nodes):
        mir = sides.mirrors(node)
        nmir += len(mir)
        meths = [b for b in p.methods_of(node) if b.kind != 'Closure' and b.argc >= 1 and b.lty(1).strip().adt == node and not b.name.startswith('drop')]
        sent = {}
        sets = [(b0, Setter(ctx, C, M, b0)) for b0 in meths if b0.lty(1).k.startswith('ref')]
        changed = {f for _, S in sets for w in S.stores for _, f, _ in mir if w[2][:len(f)] == f}
        for b0, S in sets:
            kinds = []
            for bb, line, t, e in S.posts:
                if t.callee.uid in M.posters:
                    ty, var = post_kind(ctx, S, t, e)
                    kinds.append((bb, line, ty, var, e))
            for w in S.stores:
                for proc, f, fr in mir:
                    if w[2][:len(f)] != f:
                        continue
                    want = (fr,) + w[2][len(f):]
                    ok = [bb for bb, _, ty, var, e in kinds if ty is not None and any(prefix(x, want) for x in writes_of(ctx, M, proc, ty, var) or ())]
                    wp = unpaired(S.b, {w[0]}, set(ok))
                    ctx.ob('mirrored', f'{tail(node)}.{b0.name}: {".".join(w[2])}', wp is None, S.b.at(w[0], w[1]),
                           f'{".".join(w[2])} of the handle changes, but {".".join(want)} of the processor does not', wp and lines(S.b, wp))
            # values of the argument that are stored and sent
            for w in S.stores:
                if not is_value(w[3], 2) or b0.argc < 2:
                    continue
                for bb, line, ty, var, e in kinds:
                    if ty is None or not any(is_value(x, 2) for x in leaves(e)):
                        continue
                    for proc in sorted({x[0] for x in mir}):
                        for x in sorted(writes_of(ctx, M, proc, ty, var) or ()):
                            F = [f for q, f, r in mir if q == proc and r == x[0] and f in changed]
                            if not F:
                                continue
                            ok = any(w[2][:len(f)] == f and prefix(w[2][len(f):], x[1:]) for f in F)
                            ctx.ob('same-attribute', f'{tail(node)}.{b0.name}', ok, S.b.at(bb, line), f'the handle stores {".".join(w[2])}, the processor {".".join(x)}')
                    for proc, N, R, pr in sides.fields.get(node, []):
                        for x in sorted(writes_of(ctx, M, proc, ty, var) or ()):
                            e1, e2 = at(N, w[2]), at(R, x)
                            t1, t2 = field_ty(p, node, w[2]), field_ty(p, proc, x)
                            if e1 is not None and e2 is not None and t1 is not None and t2 is not None and t1.s == t2.s:
                                ctx.ob('initial', f'{tail(node)}.{b0.name}: {".".join(x)}', core(e1) == core(e2), pr.closure.loc(pr.closure.line),
                                       f'the handle starts with {show(e1)[:80]}, the processor with {show(e2)[:80]}')
            for bb, line, ty, var, e in kinds:
                if ty is not None:
                    sent.setdefault(ty.s, set()).add(var)
        # handlers nobody uses
        for proc in sorted(M.nodes[node]):
            R = M.receiver(proc)
            if R is None or tail(node) == 'AudioWorkletNode':
                continue
            direct = {ty.s for _, _, ty in M.direct} | {po.ty.s for po in M.posts if po.owner == node}
            for _, t, _, _ in R.tests:
                ctx.ob('posted', f'{tail(node)}: {tail(t.s)}', t.s in sent or t.s in direct, R.b0.loc(R.b0.line), f'the processor waits for {t.s}, which the node never sends')
                if t.adt in p.adts and p.adts[t.adt]['kind'] == 'Enum' and any(True for _ in p.adt_fields(t.adt)):
                    built = {s.rv.agg.get('var') for b in p.bodies.values() for s in b.stmts() if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == t.adt
                             and not (b.trait and tail(b.trait) in ('Clone', 'Debug'))}
                    for v in [x['n'] for x in p.adts[t.adt]['variants']]:
                        ctx.ob('posted', f'{tail(node)}: {tail(t.s)}::{v}', v in built, R.b0.loc(R.b0.line), f'{v} is never sent')
    ctx.floor('mirrored', 'settings held by handle and processor', nmir, 6)


def channel(ctx, C, M, acc):
    """node methods for channel attributes use the matching accessors of the settings object"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    cfg = {a for a in p.adts if tail(a) == 'ChannelConfig'}
    get_of, set_of = {}, {}
    for a, name, st, gt in acc:
        if a in cfg:
            get_of[gt.uid] = name
            set_of[st.uid] = name
    ctx.floor('channel', 'channel settings', len(set_of), 3)
    tr = C.m.node_trait
    gets = {}
    for b in p.bodies.values():
        if (b.trait == tr or b.in_trait == tr) and b.kind != 'Closure' and b.argc == 1:
            for t in b.calls():
                if t.callee is not None and t.callee.uid in get_of:
                    gets.setdefault(b.name, {}).setdefault(get_of[t.callee.uid], b)
    ctx.floor('channel', 'channel getters of nodes', len(gets), 3)
    for gname, used in sorted(gets.items()):
        ctx.ob('channel', f'{gname}: one attribute', len(used) == 1, '', f'{gname} reads {sorted(used)}')
    seen = set()
    for gname in gets:
        attr = next(iter(gets[gname]))
        for b in p.bodies.values():
            if not ((b.trait == tr or b.in_trait == tr) and b.kind != 'Closure' and b.name == 'set_' + gname):
                continue
            ctx.seen(b)
            ib = inl.Inliner(p, g, lambda q: q.uid not in set_of, 4).run(b)
            if not ib.return_blocks():
                continue
            who = tail(b.self_ty.strip().adt) if b.self_ty is not None and b.self_ty.strip().adt else tail(tr)
            calls = [t for t in ib.calls() if t.callee is not None and t.callee.uid in set_of and t.bb in ib.live_blocks]
            for t in calls:
                seen.add(set_of[t.callee.uid])
                ok = set_of[t.callee.uid] == attr and is_value(sym.operand(ib, t.args[1]), 2)
                ctx.ob('channel', f'{who}.{b.name}', ok, ib.at(t.bb, t.line), f'sets {set_of[t.callee.uid]} to {show(sym.operand(ib, t.args[1]))}')
                e = [sym.operand(ib, a) for a in (t.args[0], t.args[2])] if len(t.args) > 2 else []
                ctx.ob('channel', f'{who}.{b.name}: own node', all(root_is(x, 1) for x in e), ib.at(t.bb, t.line), 'the settings of another node are changed')
            eq = Conds(sym).edges_with(ib, lambda e, v: v is True and (e[0] == 'bin' and e[1] == 'Eq' or e[0] == 'call' and e[3] == 'eq') and any(y[:2] == ('arg', 2) for y in walk(e)))
            w = path_without(ib, 0, set(ib.return_blocks()), eq, {t.bb for t in calls}) if not any(t.bb == 0 for t in calls) else None
            ctx.ob('channel', f'{who}.{b.name}: takes effect', w is None, b.loc(b.line), 'the setter returns without having set the value', w and lines(ib, w))
    ctx.floor('channel', 'channel attributes set by nodes', len(seen), 3)

