"""C30: every output backend drives the renderer in the same way."""
import inline as inl
from cond import Conds, consistent_path, path_without
from ctrl import Ctrl
from flow import lines
from loops import natural
from model import mentions, tail
from sym import show, walk

EXPLANATION = ('The implementations of the backend trait are compared. Wherever one of them makes a renderer, all the parts that are installed after construction are in place before the renderer is handed over, '
               'the sample rate and channel count it got are those that are reported and configured; each device callback gives its whole buffer to the renderer once; resume, suspend and close are followed through '
               'the messages they send to the calls or flags that start, stop and end the stream, which must be those of the same stream; a loop that waits for requests ends when nobody can send any more.')
TECHNIQUE = 'sibling comparison, typestate on renderer construction, path and message-flow rules over MIR'
NOTE = 'All implementations of the backend trait that are compiled (default features and all features). What the device libraries do with the calls is not analysed.'
ASSUMPTIONS = ['The audio libraries call the data callback once for each buffer, and start, pause and drop a stream as documented.']

START, STOP = {'play', 'start'}, {'pause', 'stop'}
WAITS = {'recv_deadline', 'recv_timeout'}


def run(ctx):
    p, g = ctx.p, ctx.g
    C = Ctrl(ctx)
    tr, rt = C.m.backend_trait, C.m.render_thread
    ctx.rule('prepared', 'Everything that is installed in a renderer after its construction is installed before the renderer is handed to a stream, in every backend.')
    ctx.rule('same-rate', 'The sample rate and channel count of the renderer are those the backend reports and configures.')
    ctx.rule('whole', 'A callback renders its whole buffer, once.')
    ctx.rule('filled', 'The renderer writes all of the buffer it is given, also when it has nothing to render.')
    ctx.rule('act', 'Resume starts, suspend stops and close ends the stream that was built.')
    ctx.rule('gone', 'A thread that waits for requests ends when nobody can send requests any more.')
    B = {}
    for b in p.bodies.values():
        if b.trait == tr and b.self_ty is not None and b.self_ty.strip().adt in p.adts:
            B.setdefault(b.self_ty.strip().adt, {})[b.name] = b
    B = {a: m for a, m in B.items() if 'build_output' in m}
    cd = Conds(ctx.sym)
    mine = {}
    for a, m in B.items():
        us = set(g.reach([m['build_output']], ('call', 'closure', 'fnitem', 'thread', 'spawn', 'escape', 'dyn', 'drop')))
        grow = True
        while grow:
            grow = False
            for b in p.bodies.values():
                if b.uid not in us and b.kind == 'Closure' and g.root_fn(b).uid in us:
                    us.add(b.uid)
                    grow = True
        mine[a] = us
    makers = {b.uid for b in p.bodies.values() if b.kind != 'Closure' and b.lty(0).adt == rt and
              any(s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == rt for s in b.stmts())}
    ctx.floor('prepared', 'backends', len(B), 1)
    ctx.floor('prepared', 'renderer constructors', len(makers), 1)
    ctrl = CtxC(ctx, cd, rt, makers, B, mine)
    prepared(ctrl)
    rates(ctrl)
    whole(ctrl)
    filled(ctrl)
    act(ctrl)
    gone(ctrl)


class CtxC:
    def __init__(self, ctx, cd, rt, makers, B, mine):
        self.ctx, self.p, self.g, self.sym, self.cd, self.rt, self.makers, self.B, self.mine = ctx, ctx.p, ctx.g, ctx.sym, cd, rt, makers, B, mine
        self._flat, self.at = {}, dict(ctx.p.bodies)
        self.all = set().union(*mine.values()) if mine else set()
        # functions that make a renderer by calling others are looked at from their callers
        self.sites = []
        for b0 in self.p.bodies.values():
            if b0.uid not in self.all or b0.uid in makers or b0.lty(0).adt == rt:
                continue
            b = inl.Inliner(self.p, self.g, lambda q: q.uid not in makers and q.kind != 'Closure' and
                            (q.lty(0).adt == rt or q.self_ty is not None and q.self_ty.strip().adt == rt and self.setter(q)), 3).run(b0)
            for t in b.calls():
                if t.bb in b.live_blocks and t.callee is not None and t.callee.uid in makers:
                    self.sites.append((b0, b, t))

    def flat(self, b):
        """the function with the local functions it calls spliced in, up to the renderer"""
        memo = self._flat
        if b.uid not in memo:
            x = inl.Inliner(self.p, self.g, lambda q: not (q.self_ty is not None and q.self_ty.strip().adt == self.rt) and q.uid not in self.makers, 4).run(b)
            memo[b.uid] = x
            self.at[x.uid] = x
        return memo[b.uid]

    def setter(self, q):
        """small methods that install something; not the rendering itself"""
        return not any(mentions(q.lty(i), lambda t: t.k in ('slice',) or t.adt is not None and tail(t.adt) == 'AudioBuffer') for i in range(1, q.argc + 1)) and \
            any(s.kind == '=' and s.place.proj and self.rt_field(q, s.place) for s in q.stmts())

    def rt_field(self, b, pl):
        """field of the renderer that a place names"""
        e = self.sym.place(b, pl)
        return e[2] if e[0] == 'field' and len(e) > 3 and e[3] == self.rt else None

    def stores(self, b):
        """(block, field, stored value) for stores into a renderer"""
        for s in b.stmts():
            if s.kind == '=' and s.place.proj and s.bb in b.live_blocks:
                fs = [x for x in s.place.proj]
                base = b.lty(s.place.local)
                if base.strip().adt == self.rt and s.place.fields():
                    yield s.bb, s.place.fields()[-1][0], s
        for t in b.calls():
            if t.dest is not None and t.dest.proj and b.lty(t.dest.local).strip().adt == self.rt and t.dest.fields():
                yield t.bb, t.dest.fields()[-1][0], t


def escapes(c, b):
    """blocks in which a renderer leaves by value"""
    out = {}
    for s in b.stmts():
        if s.kind == '=' and s.rv.k == 'agg' and s.bb in b.live_blocks:
            for o in s.rv.ops:
                if o.place is not None and o.kind == 'move' and b.pty(o.place).adt == c.rt:
                    out[s.bb] = s
    for t in b.calls():
        if t.bb in b.live_blocks and not (t.callee is not None and t.callee.name in ('drop', 'forget')):
            for o in t.args:
                if o.place is not None and o.kind == 'move' and b.pty(o.place).adt == c.rt:
                    out[t.bb] = t
    return out


def installed(c, e, v, f):
    if e[0] == 'call' and e[3] in ('is_none', 'is_some') and e[2]:
        return v is (e[3] == 'is_some') and e[2][0][0] == 'field' and e[2][0][2] == f
    return e[0] == 'field' and e[2] == f and v in ('Some', ('not', 'None'))


def prepared(c):
    ctx, p = c.ctx, c.p
    late = {}
    for b0, b, t in c.sites:
        got = {f: (bb, s) for bb, f, s in c.stores(b)}
        for f in got:
            late.setdefault(f, []).append((b0, b))
    ctx.floor('prepared', 'parts installed after construction', len(late), 1)
    n = 0
    for b0, b, t in c.sites:
        ctx.seen(b0)
        esc = escapes(c, b)
        n += 1
        for f in sorted(late):
            st = {bb for bb, f2, s in c.stores(b) if f2 == f}
            bad = None
            # in the block of a store the statement comes before the call that ends the block
            goals = {x for x in esc if x not in st}
            have = c.cd.edges_with(b, lambda e, v: installed(c, e, v, f))
            if goals and t.target is not None:
                w = path_without(b, t.target, goals, cut_edges=have, through=st) if t.target not in st else None
                if w is None and t.target in goals:
                    w = [t.target]
                bad = w
            ctx.ob('prepared', f'{b0.path}: {f}', bad is None, b.at(t.bb, t.line), f'a renderer is handed over on a path that did not install `{f}`, which other constructions install')
            for bb, f2, s in c.stores(b):
                if f2 == f and isinstance(s, object) and getattr(s, 'rv', None) is not None and s.rv.ops:
                    e = c.sym.operand(b, s.rv.ops[0])
                    ft = [x for _, n2, x in p.adt_fields(c.rt) if n2 == f]
                    if ft and ('AtomicBool' in ft[0].s or 'Atomic<bool>' in ft[0].s):
                        ok = not any(y[0] == 'call' and y[3] == 'new' for y in walk(e))
                        ctx.ob('prepared', f'{b0.path}: {f} shared', ok, b.at(bb), f'`{f}` is not the flag that the context got')
    ctx.floor('prepared', 'constructions in backends', n, 1)


# ---- rates

def base(b, op, depth=8):
    """the named local or place behind copies"""
    own = b.base.nlocals() if hasattr(b, 'base') else b.nlocals()
    while depth and op.place is not None:
        depth -= 1
        ds = b.defs.get(op.place.local, [])
        d = ds[0] if len(ds) == 1 and getattr(ds[0], 'rv', None) is not None else None
        if d is not None and not op.place.proj and d.rv.k == 'use' and d.rv.ops[0].place is not None and (not b.lname(op.place.local) or op.place.local >= own):
            op = d.rv.ops[0]
        elif d is not None and len(op.place.proj) == 1 and op.place.fields() and d.rv.k == 'agg' and d.rv.agg['k'] == 'tuple' and \
                d.rv.ops[int(op.place.fields()[0][0])].place is not None:
            op = d.rv.ops[int(op.place.fields()[0][0])]     # argument of a closure
        else:
            break
    return op


def uncast(e):
    while e[0] == 'cast' or e[0] == 'call' and e[3] in ('from', 'into') and len(e[2]) == 1:
        e = e[1] if e[0] == 'cast' else e[2][0]
    return e


def resolved(c, b, op, at):
    """expression of an operand; a field that was stored once, before, is followed"""
    e = uncast(c.sym.operand(b, op))
    for _ in range(3):
        o = base(b, op)
        ds = b.defs.get(o.place.local, []) if o.place is not None and not o.place.proj else []
        if len(ds) == 1 and getattr(ds[0], 'rv', None) is not None and ds[0].rv.k == 'cast':
            op = ds[0].rv.ops[0]
            continue
        if len(ds) == 1 and not hasattr(ds[0], 'rv') and ds[0].callee is not None and ds[0].callee.name in ('from', 'into') and len(ds[0].args) == 1:
            op = ds[0].args[0]
            continue
        if o.place is not None and len(o.place.proj) == 1 and o.place.fields():
            st = [s for s in b.stmts() if s.kind == '=' and s.bb in b.live_blocks and s.place.local == o.place.local and s.place.fields() == o.place.fields()]
            if len(st) == 1 and b.dominates(st[0].bb, at) and st[0].rv.ops:
                op = st[0].rv.ops[0]
                e = uncast(c.sym.rvalue(b, st[0].rv))
                continue
        break
    return e


def named(adt, name, p):
    return next((i for i, (v, n, t) in enumerate(p.adt_fields(adt)) if n == name), None)


def rates(c):
    ctx, p = c.ctx, c.p
    n = 0
    for b0, b, t in c.sites:
        f32 = [o for o in t.args if opty(b, o) == 'f32']
        us = [o for o in t.args if opty(b, o) == 'usize']
        others = {x.bb for _, b2, x in c.sites if b2.serial == b.serial or b2 is b} if False else {x.bb for x in b.calls() if x.callee is not None and x.callee.uid in c.makers and x.bb != t.bb}
        after = b.reachable(t.bb)
        for s in b.stmts():
            if s.kind != '=' or s.rv.k != 'agg' or s.bb not in b.live_blocks or s.rv.agg.get('adt') not in p.adts or s.rv.agg['adt'] == c.rt:
                continue
            adt = s.rv.agg['adt']
            for i, (v, fn, ft) in enumerate(p.adt_fields(adt)):
                if p.adts[adt]['kind'] != 'Struct' or i >= len(s.rv.ops):
                    continue
                want = f32 if ft.s == 'f32' and fn == 'sample_rate' else us if ft.s == 'usize' and fn == 'number_of_channels' else None
                if not want or len(want) != 1 or path_without(b, t.bb, {s.bb}, through=others) is None:
                    continue
                n += 1
                ok = agree(c, b, t, want[0], s, s.rv.ops[i], others)
                ctx.ob('same-rate', f'{b0.path}: {tail(adt)}.{fn}', ok, b.at(s.bb, s.line), f'the renderer was made with another value than the one that is kept as {fn} of {tail(adt)}')
        # the configuration given to the stream along with the renderer
        for bb, x in escapes(c, b).items():
            if x.__class__.__name__ != 'Term' or bb not in after or path_without(b, t.bb, {bb}, through=others) is None:
                continue
            for o in x.args:
                ty = b.place_ty(o.place) if o.place is not None else None
                if ty is None or ty.adt is None or ty.adt in p.adts or tail(ty.adt) != 'StreamConfig':
                    continue
                n += 1
                cfg = base(b, o)
                r = base(b, f32[0]) if f32 else None
                ok = r is not None and from_config(c, b, r, cfg.place.local, t.bb)
                ctx.ob('same-rate', f'{b0.path}: configuration', ok, b.at(bb, x.line), 'the renderer was made with another sample rate than the stream is configured for')
    for a, m in sorted(c.B.items()):
        for fn in ('sample_rate', 'number_of_channels'):
            b = m.get(fn)
            if b is None:
                continue
            e = uncast(c.sym.local(b, 0))
            if e[0] == 'field':
                ok = e[2] == fn
            else:
                vals = set()
                for b0, bi, t in c.sites:
                    if b0.uid in c.mine[a]:
                        us = [o for o in t.args if opty(bi, o) == ('f32' if fn == 'sample_rate' else 'usize')]
                        vals.add(show(uncast(c.sym.operand(bi, us[0]))) if us else None)
                ok = vals == {show(e)}
            n += 1
            ctx.ob('same-rate', f'{b.path}', ok, b.loc(), f'{fn} does not report the value the renderer was made with')
        # the backend value itself, when the renderer is made elsewhere
        for uid in sorted(c.mine[a]):
            b = p.bodies[uid]
            if any(b0.uid == uid for b0, _, _ in c.sites):
                continue
            for s in b.stmts():
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == a and s.bb in b.live_blocks and c.g.root_fn(b).uid == m['build_output'].uid:
                    for i, (v, fn, ft) in enumerate(p.adt_fields(a)):
                        if fn in ('sample_rate', 'number_of_channels') and i < len(s.rv.ops):
                            e = uncast(c.sym.operand(b, s.rv.ops[i]))
                            n += 1
                            ctx.ob('same-rate', f'{b.path}: {tail(a)}.{fn} (from another thread)', e[0] == 'field' and e[2] == fn, b.at(s.bb, s.line), f'{fn} is not the one of the renderer')
    ctx.floor('same-rate', 'values compared', n, 2)


def opty(b, o):
    return b.pty(o.place).s if o.place is not None else o.ty.s if o.ty is not None else None


def agree(c, b, t, o1, s, o2, others):
    x, y = base(b, o1), base(b, o2)
    if x.place is not None and y.place is not None and x.place == y.place and not x.place.proj:
        l = x.place.local
        for d in b.defs.get(l, []):
            db = d.bb
            if db == t.bb:
                continue
            if path_without(b, t.bb, {db}, through=others) is not None and db not in others and (db == s.bb or path_without(b, db, {s.bb}, through=others) is not None) and after(b, t.bb, db):
                return False
        return True
    e1, e2 = resolved(c, b, o1, t.bb), resolved(c, b, o2, s.bb)
    return plain(e1) == plain(e2)


def after(b, x, y):
    return x != y and y in b.reachable(x)


def plain(e):
    from c12 import strip_bb
    return strip_bb(e)


def from_config(c, b, r, cfg, at, depth=6):
    """the rate is the sample rate of this configuration (the definition that reaches the renderer)"""
    if r.place is None or depth == 0:
        return False
    if r.place.local == cfg and r.place.fields() and 'sample_rate' in str(r.place.fields()[-1]):
        return True
    if r.place.proj:
        return False
    ds = [d for d in b.defs.get(r.place.local, []) if getattr(d, 'rv', None) is not None]
    blocks = {d.bb for d in b.defs.get(r.place.local, [])}
    reach = [d for d in ds if d.bb == at or path_without(b, d.bb, {at}, through=blocks - {d.bb}) is not None]
    if not reach:
        return False
    return all(d.rv.k in ('use', 'cast') and from_config(c, b, base(b, d.rv.ops[0]), cfg, d.bb, depth - 1) for d in reach)


# ---- callbacks

def whole(c):
    ctx, p, g, sym, cd = c.ctx, c.p, c.g, c.sym, c.cd
    n = 0
    for b0 in tops(c):
        b = c.flat(b0)
        ren = {}
        for t in b.calls():
            if t.bb not in b.live_blocks or t.callee is None or t.callee.uid not in p.bodies:
                continue
            if is_render(c, p.bodies[t.callee.uid]):
                ren[t.bb] = t
        if not ren:
            continue
        ctx.seen(b)
        rets = set(b.return_blocks())
        for bb, t in sorted(ren.items()):
            n += 1
            e = sym.operand(b, t.args[1])
            arg = [i for i in range(1, b.argc + 1) if mentions(b.lty(i), lambda y: y.k == 'slice')] if b.kind == 'Closure' else []
            key = cbkey(b)
            if b.kind == 'Closure' and any(b.lty(i).k in ('ref', 'refmut') for i in range(2, b.argc + 1)):
                ok = is_whole(e)
                ctx.ob('whole', f'{key}: buffer', ok, b.at(bb, t.line), f'the callback does not render all of its buffer, but {show(e)[:100]}')
                none = cd.edges_with(b, lambda x, v: x[0] == 'call' and x[3] == 'is_empty' and v is True and is_whole(x[2][0]))
                miss = path_without(b, 0, rets, cut_edges=none, through=set(ren)) if 0 not in ren else None
                again = next((1 for x in ren if path_without(b, ren[bb].target, {x}) is not None or ren[bb].target == x), None) if t.target is not None else None
                ctx.ob('whole', f'{key}: once', miss is None and again is None, b.at(bb, t.line), 'a callback does not render exactly once on every path')
                if b.lty(0).s == 'isize':
                    r = uncast(sym.local(b, 0))
                    okr = r[0] == 'call' and r[3] == 'len' and any(y[0] == 'arg' for y in walk(r)) or r[0] == 'un' and 'en' in str(r[1])
                    ctx.ob('whole', f'{key}: answer', okr, b.loc(), 'the callback does not tell the device that the whole buffer was filled')
            else:
                driven(c, b, t, e, ren, key)
    ctx.floor('whole', 'callbacks', n, 1)


LOOK = {'len', 'is_empty', 'split_at_mut', 'split_at', 'chunks', 'as_ptr', 'size_hint'}


def parts(e):
    """an iterator over pieces of a slice"""
    if e[0] != 'call':
        return False
    if e[3] in ('into_iter', 'enumerate', 'by_ref', 'rev', 'zip', 'peekable', 'fuse', 'iter_mut'):
        return any(parts(a) for a in e[2] if isinstance(a, tuple))
    return e[3] in ('chunks_mut', 'chunks_exact_mut', 'as_chunks_mut', 'rchunks_mut')


def around(b, k, blocks, use):
    """a round of the loop with header k that avoids `use`"""
    todo, seen = [k], set()
    while todo:
        x = todo.pop()
        for y in b.succs[x]:
            if y == k:
                return True
            if y in blocks and y not in use and y not in seen:
                seen.add(y)
                todo.append(y)
    return False


def filled(c):
    """the renderer determines all of the buffer it is given: each part that a loop hands out, and the rest when it does not get to the loop"""
    ctx, cd, sym = c.ctx, c.cd, c.sym
    n = 0
    for q in sorted(c.p.bodies.values(), key=lambda x: x.path):
        if q.self_ty is None or q.self_ty.strip().adt != c.rt or q.kind == 'Closure':
            continue
        bufs = [i for i in range(2, q.argc + 1) if q.lty(i).k == 'refmut' and q.lty(i).args and q.lty(i).args[0].k == 'slice' and not mentions(q.lty(i).args[0], lambda y: y.adt is not None)]
        n += len(bufs)
        for i in bufs:
            ex = {t.bb: [sym.operand(q, a) for a in t.args] for t in q.calls() if t.bb in q.live_blocks and t.callee is not None}
            mine = lambda e: any(y == ('arg', i) or y[0] == 'arg' and y[1] == i for y in walk(e))
            loops = {bb for bb, es in ex.items() if q.blocks[bb].term.callee.name == 'next' and es and mine(es[0]) and
                     parts(es[0])}
            if not loops:
                continue
            ctx.seen(q)
            for h in sorted(loops):
                some = cd.edges_with(q, lambda e, v: v == 'Some' and e[0] == 'call' and e[4] == (h,))
                use = {bb for bb, es in ex.items() if bb != h and q.blocks[bb].term.callee.name not in LOOK and
                       any(y[0] == 'call' and y[3] == 'next' and y[4] == (h,) for e in es for y in walk(e))}
                # a loop of which each round writes (over the channels, say) writes
                use |= {k for k, blocks in natural(q).items() if h not in blocks and use & blocks and not around(q, k, blocks, use)}
                w = None
                for x, y in sorted(some):
                    w = w or (path_without(q, y, {h}, through=use) if y not in use else None)
                ctx.ob('filled', f'{q.path}: parts', bool(some) and w is None, q.at(h), 'a part of the output buffer is passed over without being written', w and lines(q, w))

            def rest(e):
                """the buffer, but not only the first part of a split"""
                return mine(e) and not any(y[0] == 'field' and y[2] == '0' and any(z[0] == 'call' and z[3].startswith('split') for z in walk(y[1])) for y in walk(e))
            use = {bb for bb, es in ex.items() if q.blocks[bb].term.callee.name not in LOOK and any(rest(e) for e in es)} | loops
            none = cd.edges_with(q, lambda e, v: v is True and e[0] == 'call' and e[3] == 'is_empty' and mine(e))
            w = path_without(q, 0, set(q.return_blocks()), cut_edges=none, through=use) if 0 not in use else None
            ctx.ob('filled', f'{q.path}: whole', w is None, q.loc(), 'a call returns without having written the output buffer', w and lines(q, w))
    ctx.floor('filled', 'functions that are given a buffer to fill', n, 1)


def is_render(c, q):
    """the method of the renderer that fills a buffer"""
    return q.self_ty is not None and q.self_ty.strip().adt == c.rt and any(q.lty(i).k == 'refmut' and q.lty(i).args and q.lty(i).args[0].k == 'slice' for i in range(2, q.argc + 1))


def tops(c):
    """callbacks and threads of the backends in which rendering happens"""
    p, g = c.p, c.g
    own = {b.uid for b in p.bodies.values() if (b.uid in c.all or g.root_fn(b).uid in c.all) and not (g.root_fn(b).self_ty is not None and g.root_fn(b).self_ty.strip().adt == c.rt)}
    up = {}
    for u in own:
        for t in p.bodies[u].calls():
            if t.bb in p.bodies[u].live_blocks and t.callee is not None:
                for q in p.resolve(t.callee):
                    up.setdefault(q.uid, set()).add(u)
    todo = [q.uid for q in p.bodies.values() if is_render(c, q)]
    seen, out = set(todo), []
    while todo:
        x = todo.pop()
        ups = up.get(x, set())
        if not ups and x in own:
            out.append(p.bodies[x])
        for u in ups - seen:
            seen.add(u)
            todo.append(u)
    return sorted(out, key=lambda b: b.path)


def cbkey(b):
    a = [b.lty(i).s for i in range(2, b.argc + 1) if mentions(b.lty(i), lambda y: y.k == 'slice')]
    return b.path.split('::{')[0] + (f' ({a[0]})' if a else '')


def is_whole(e):
    if e[0] in ('arg', 'up'):
        return True
    if e[0] == 'cast':
        return is_whole(e[1])
    if e[0] == 'call' and e[3] in ('from_raw_parts_mut', 'from_raw_parts'):
        q, l = e[2][0], uncast(e[2][1])
        if l[0] == 'bin' and l[1].startswith('Mul'):
            ls = [x for x in (uncast(l[2]), uncast(l[3]))]
            return any(is_len(x) for x in ls) and sum(1 for x in ls if x[0] == 'const' and str(x[1]).isdigit()) == 0 and any(y[0] == 'arg' for y in walk(q)) and not offset(q)
        if l[0] == 'field' and l[1][0] == 'bin':
            return is_whole(('call', e[1], (q, l[1]), e[3], e[4]))
        return is_len(l) and not any(y[0] == 'call' and y[3] == 'cast' for y in walk(q))
    if e[0] == 'call' and e[3] in ('as_flattened_mut', 'as_mut_slice', 'as_mut', 'by_ref', 'flatten_mut'):
        return is_whole(e[2][0])
    if e[0] == 'call' and e[3] in ('index_mut', 'index') and len(e[2]) > 1:
        return is_whole(e[2][0]) and 'RangeFull' in repr(e[2][1])
    return False


def is_len(x):
    return x[0] == 'call' and x[3] == 'len' and x[2][0][0] in ('arg', 'up') or x[0] == 'un' and 'etadata' in str(x[1]) or x[0] == 'len'


def offset(q):
    return any(y[0] == 'call' and y[3] in ('add', 'offset', 'sub', 'wrapping_add', 'byte_add') for y in walk(q))


def driven(c, b, t, e, ren, key):
    """a loop of our own drives the renderer"""
    ctx, p, cd = c.ctx, c.p, c.cd
    waits = {x.bb for x in b.calls() if x.bb in b.live_blocks and x.callee is not None and (x.callee.name in WAITS or x.callee.name in ('recv', 'sleep', 'sleep_until', 'park_timeout', 'select_timeout', 'recv_deadline'))}
    again = next((x for x in ren if t.target is not None and (t.target == x or path_without(b, t.target, {x}, through=waits) is not None)), None)
    ctx.ob('whole', f'{key}: paced', again is None and bool(waits), b.at(t.bb, t.line), 'the loop renders twice without waiting for the next deadline')
    # all of the buffer, made for whole quanta of all channels
    ln = length(b, e)
    own = getattr(b, 'base', b)
    chans = set()
    for b0, bi, s in c.sites:
        if any((own.uid in c.mine[a] or c.g.root_fn(own).uid in c.mine[a]) and b0.uid in c.mine[a] for a in c.B):
            us = [o for o in s.args if opty(bi, o) == 'usize']
            if us:
                chans.add(value(c, uncast(c.sym.operand(bi, us[0]))))
    lv = value(c, ln) if ln is not None else None
    part = any(y[0] == 'call' and y[3] in ('index_mut', 'index', 'get_mut', 'split_at_mut', 'chunks_mut', 'first_chunk_mut') and len(y[2]) > 1 and 'RangeFull' not in repr(y[2][1]) for y in walk(e))
    ok = ln is not None and not part and (lv is None or None in chans or all(isinstance(x, int) and x and lv % x == 0 and lv // x % 128 == 0 for x in chans))
    ctx.ob('whole', f'{key}: buffer', ok, b.at(t.bb, t.line), f'the buffer that is rendered ({lv} values) does not hold whole quanta of the {sorted(map(str, chans))} channels of the renderer')
    # each round either renders or is halted by a flag
    flags = {x for x, v in flags_at(c, b, t)}
    skip = cd.edges_with(b, lambda x, v: v is False and x[0] in ('field', 'call') and key_of(x) in flags)
    for w in sorted(waits):
        outs = cd.edges_with(b, lambda x, v: v in ('Timeout', ('not', 'Disconnected'), 'Err') and any(y[0] == 'call' and y[4] == (w,) for y in walk(x)))
        if not outs:
            continue
        bad = None
        for i, y in sorted(outs):
            if y in ren:
                continue
            if path_without(b, y, {w}, cut_edges=skip, through=set(ren)) is not None and not any(path_without(b, z, {w}) is None for z in ()):
                bad = (i, y)
        # a round that went by without a request
        ctx.ob('whole', f'{key}: rounds', bad is None, b.at(w), 'a round of a running stream goes by without rendering')


def key_of(x):
    return x[2] if x[0] == 'field' else x[3]


def flags_at(c, b, t):
    return [(key_of(x), v) for x, v in c.cd.at(b, t.bb) if v is True and x[0] == 'field' and len(x) > 3]


def length(b, e):
    """number of elements of a buffer"""
    for y in walk(e):
        if y[0] == 'repeat':
            ls = {b.lty(i).d.get('len') for i in range(b.nlocals()) if b.lty(i).k == 'array' and b.lty(i).args[0].s == 'f32'}
            return ('const', ls.pop()) if len(ls) == 1 else None
        if y[0] == 'call' and y[3] in ('from_elem',) and len(y[2]) > 1:
            return uncast(y[2][1])
    return None


def value(c, e):
    e = uncast(e)
    if e[0] == 'const':
        try:
            return int(str(e[1]).split('_')[0])
        except ValueError:
            return None
    if e[0] == 'def':
        v = c.p.consts.get(e[1]) if hasattr(c.p, 'consts') else None
        return v
    if e[0] == 'bin' and len(e) > 3:
        a, d = value(c, e[2]), value(c, e[3])
        if a is None or d is None:
            return None
        return a * d if e[1].startswith('Mul') else a + d if e[1].startswith('Add') else None
    if e[0] == 'field' and e[1][0] == 'bin':
        return value(c, e[1])
    return None


# ---- resume, suspend, close

def enum_recv(c):
    """enum -> [(body, wait call)] that receive it"""
    out = {}
    for b0 in c.p.bodies.values():
        if b0.uid not in c.all or not any(t.callee is not None and t.callee.krate == 'crossbeam_channel' and t.callee.name.startswith(('recv', 'try_recv', 'iter', 'next')) for t in b0.calls()):
            continue
        b = c.flat(b0)
        for t in b.calls():
            if t.bb in b.live_blocks and t.callee is not None and t.callee.krate == 'crossbeam_channel' and t.callee.name in ('recv', 'recv_deadline', 'recv_timeout', 'try_recv', 'iter', 'next') and t.callee.self_ty is not None:
                a = t.callee.self_ty.strip().args
                if a and a[0].adt in c.p.adts and c.p.adts[a[0].adt]['kind'] == 'Enum':
                    out.setdefault(a[0].adt, []).append((b, t))
    return out


def deep(c, b, seen):
    """effects of the calls on streams in this (inlined) function, and in those it calls dynamically"""
    out = cleared(c, b)
    for t in b.calls():
        if t.bb in b.live_blocks and t.callee is not None:
            out |= eff_call(c, b, t) | below(c, t, seen)
    return out


def below(c, t, seen):
    out = set()
    for q in c.p.resolve(t.callee):
        if q.uid not in seen and (q.self_ty is None or q.self_ty.strip().adt != c.rt):
            seen.add(q.uid)
            out |= deep(c, c.flat(q), seen)
    return out


def ext(ty):
    return ty is not None and ty.adt is not None and not ty.local


def eff_call(c, b, t):
    k = t.callee
    if k.krate in ('cpal', 'cubeb', 'cubeb_core') or k.krate.startswith(('cpal', 'cubeb')):
        recv = show(c.sym.operand(b, t.args[0])) if t.args else ''
        if k.name in START:
            return {('start', b.uid, recv)}
        if k.name in STOP:
            return {('stop', b.uid, recv)}
    if k.name in ('take', 'replace') and t.args and mentions(b.place_ty(t.args[0].place) if t.args[0].place is not None else c.p.bool_ty(), lambda y: y.adt is not None and tail(y.adt) == 'Stream'):
        return {('end', b.uid, show(c.sym.operand(b, t.args[0])))}
    return set()


def cleared(c, b):
    """stores that drop an optional stream"""
    out = set()
    for s in b.stmts():
        if s.kind == '=' and s.bb in b.live_blocks and s.place.proj:
            ty = b.place_ty(s.place)
            if ty is not None and ty.adt is not None and tail(ty.adt) == 'Option' and mentions(ty, lambda y: y.adt is not None and tail(y.adt) == 'Stream'):
                e = c.sym.rvalue(b, s.rv)
                if e[0] == 'agg' and e[2] == 'None':
                    out.add(('end', b.uid, show(c.sym.place(b, s.place))))
    return out


def sent(c, bodies, enums):
    """(enum, variant) built in these bodies"""
    out = set()
    for b in bodies:
        for s in b.stmts():
            if s.kind == '=' and s.bb in b.live_blocks:
                if s.rv.k == 'agg' and s.rv.agg.get('adt') in enums:
                    out.add((s.rv.agg['adt'], s.rv.agg.get('var')))
                for o in s.rv.ops:
                    if o.callee is not None and o.callee.ctor and o.callee.path.rsplit('::', 1)[0] in enums:
                        out.add((o.callee.path.rsplit('::', 1)[0], o.callee.name))
        for t in b.calls():
            for o in t.args:
                if o.callee is not None and o.callee.ctor and o.callee.path.rsplit('::', 1)[0] in enums:
                    out.add((o.callee.path.rsplit('::', 1)[0], o.callee.name))
    return out


SYNC = ('call', 'closure', 'fnitem', 'dyn')


def arm(c, b, enum, var):
    """blocks from which the request is handled"""
    out = set()
    for i in sorted(b.live_blocks):
        t = b.blocks[i].term
        if t.k == 'switch' and t.d.get('enum') == enum:
            for y in dict.fromkeys(b.succs[i]):
                if any(v == var for e, v in c.cd.edge(b, i, y)):
                    out.add((i, y))
    return out


def effects_of(c, enum, var, recvs):
    out = set()
    for b, w in recvs.get(enum, []):
        arms = arm(c, b, enum, var)
        for i, y in arms:
            region, todo = set(), [y]
            while todo:
                x = todo.pop()
                if x in region or x == w.bb:
                    continue
                region.add(x)
                todo.extend(b.succs[x])
            if y != w.bb and consistent_path(c.cd, b, y, {w.bb}) is None:
                out.add(('end', b.uid, ''))
            # only what is done before the next request is taken, and not by rendering
            first = {x for x in region if b.dominates(y, x)}
            for x in first:
                for s in b.blocks[x].stmts:
                    if s.kind == '=' and s.place.proj and s.rv.k == 'use' and s.rv.ops[0].kind == 'const' and b.pty(s.place).s == 'bool':
                        out.add(('start' if str(s.rv.ops[0].value) in ('1', 'True', 'true') else 'stop', b.uid, 'flag ' + (s.place.fields()[-1][0] if s.place.fields() else '')))
                t = b.blocks[x].term
                if t.k == 'call' and t.callee is not None:
                    out |= eff_call(c, b, t) | below(c, t, set())
    return out


def at_once(c, b, seen):
    """effects that do not wait for a request"""
    if b.uid in seen:
        return set()
    seen.add(b.uid)
    out = set()
    recv = [t.bb for t in b.calls() if t.callee is not None and t.callee.krate == 'crossbeam_channel' and t.callee.name.startswith('recv') and t.bb in b.live_blocks and
            any(t.bb in b.reachable(y) for y in b.succs[t.bb])]
    for t in b.calls():
        if t.bb not in b.live_blocks or t.callee is None or any(x != t.bb and b.dominates(x, t.bb) for x in recv):
            continue
        out |= eff_call(c, b, t)
        for q in c.p.resolve(t.callee):
            if q.self_ty is None or q.self_ty.strip().adt != c.rt:
                out |= at_once(c, q, seen)
    for uid, s in c.p.closures_in(b):
        if uid in c.p.bodies:
            out |= at_once(c, c.p.bodies[uid], seen)
    return out


def act(c):
    ctx, p, g = c.ctx, c.p, c.g
    recvs = enum_recv(c)
    n = 0
    for a, m in sorted(c.B.items()):
        on = {}
        for op in ('resume', 'suspend', 'close'):
            b = m.get(op)
            if b is None:
                continue
            ctx.seen(b)
            bi = c.flat(b)
            eff = deep(c, bi, set())
            for e, v in sorted(sent(c, [bi], set(recvs))):
                eff |= effects_of(c, e, v, recvs)
            kinds = {k for k, _, _ in eff}
            on[op] = eff
            n += 1
            want, never = {'resume': ('start', {'stop', 'end'}), 'suspend': ('stop', {'start', 'end'}), 'close': ('end', {'start'})}[op]
            ctx.ob('act', f'{b.path}', want in kinds and not kinds & never, b.loc(), f'{op} should {want} the stream, but it does: {", ".join(sorted(kinds)) or "nothing"}')
        # all act on the same thing
        targets = {op: {x for k, _, x in e if k == w} for op, e, w in ((o, on.get(o, set()), {'resume': 'start', 'suspend': 'stop', 'close': 'end'}[o]) for o in on)}
        ts = [x for o in ('resume', 'suspend') for x in [targets.get(o, set())] if x]
        if len(ts) == 2:
            ctx.ob('act', f'{tail(a)}: same stream', ts[0] == ts[1] , m['resume'].loc(), f'resume acts on {sorted(ts[0])}, suspend on {sorted(ts[1])}')
        if any(x.startswith('flag ') for x in targets.get('resume', ())):
            fl = {x[5:] for x in targets['resume'] if x.startswith('flag ')}
            guard = set()
            for b0 in tops(c):
                if b0.uid in c.mine[a] or g.root_fn(b0).uid in c.mine[a]:
                    b = c.flat(b0)
                    for t in b.calls():
                        if t.bb in b.live_blocks and t.callee is not None and t.callee.uid in p.bodies and is_render(c, p.bodies[t.callee.uid]):
                            guard |= {k for k, v in flags_at(c, b, t)}
            ctx.ob('act', f'{tail(a)}: flag', bool(fl & guard), m['resume'].loc(), f'rendering does not depend on the flag {sorted(fl)} that resume and suspend set')
            init = []
            for uid in sorted(c.mine[a]):
                b = p.bodies[uid]
                for s in b.stmts():
                    if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') in p.adts and s.bb in b.live_blocks:
                        for i, (v, fn, ft) in enumerate(p.adt_fields(s.rv.agg['adt'])):
                            if fn in fl and ft.s == 'bool' and i < len(s.rv.ops):
                                e = c.sym.operand(b, s.rv.ops[i])
                                init.append(e[0] == 'const' and str(e[1]) in ('1', 'True', 'true'))
            ctx.ob('act', f'{tail(a)}: starts', bool(init) and all(init), m['build_output'].loc(), 'the stream does not start running when it is built')
        else:
            st = at_once(c, m['build_output'], set())
            ctx.ob('act', f'{tail(a)}: starts', any(k == 'start' for k, _, _ in st), m['build_output'].loc(), 'the stream is not started when it is built')
        # failures are not dropped
        for op in ('resume', 'suspend'):
            if op not in on:
                continue
            for k, uid, x in sorted(on[op]):
                b = c.at[uid]
                for t in b.calls():
                    if t.bb in b.live_blocks and t.callee is not None and eff_call(c, b, t) & {(k, uid, x)}:
                        l = t.dest.local
                        used = l == 0 or any(o.place is not None and o.place.local == l for s in b.stmts() if s.kind == '=' for o in s.rv.ops) or \
                            any(o.place is not None and o.place.local == l for t2 in b.calls() for o in t2.args) or any(s.kind == '=' and s.rv.place is not None and s.rv.place.local == l for s in b.stmts())
                        ctx.ob('act', f'{tail(a)}.{op}: failure', used or t.callee.name in ('take',), b.at(t.bb, t.line), f'a failure of {t.callee.name} is dropped')
    ctx.floor('act', 'operations', n, 3)


# ---- disconnected

def gone(c):
    ctx, p, cd = c.ctx, c.p, c.cd
    n = 0
    for b0 in p.bodies.values():
        if not any(t.callee is not None and t.callee.krate == 'crossbeam_channel' and t.callee.name in WAITS | {'recv'} for t in b0.calls()):
            continue
        b = c.flat(b0)
        for t in b.calls():
            if t.bb not in b.live_blocks or t.callee is None or t.callee.krate != 'crossbeam_channel' or t.callee.name not in WAITS | {'recv'} or t.callee.self_ty is None or \
                    tail(t.callee.self_ty.strip().adt or '') != 'Receiver':
                continue
            if t.bb not in {y for x in b.succs[t.bb] for y in b.reachable(x)}:
                continue
            n += 1
            ctx.seen(b)
            err = cd.edges_with(b, lambda e, v: v in ('Err', ('not', 'Ok')) and e[0] == 'call' and e[4] == (t.bb,) or v is True and e[0] == 'call' and e[3] == 'is_err' and e[2] and e[2][0][0] == 'call' and e[2][0][4] == (t.bb,))
            timed = cd.edges_with(b, lambda e, v: v in ('Timeout', ('not', 'Disconnected')) and any(y[0] == 'call' and y[4] == (t.bb,) for y in walk(e)))
            timed |= cd.edges_with(b, lambda e, v: e[0] == 'call' and (e[3] == 'is_timeout' and v is True or e[3] == 'is_disconnected' and v is False or
                                   e[3] in ('eq', 'ne') and 'Disconnected' in repr(e) and v is (e[3] == 'ne') or e[3] in ('eq', 'ne') and 'Timeout' in repr(e) and v is (e[3] == 'eq')) and
                                   any(y[0] == 'call' and y[4] == (t.bb,) for y in walk(e)))
            bad = None
            for i, y in sorted(err):
                if (i, y) in timed:
                    continue
                if y == t.bb or path_without(b, y, {t.bb}, cut_edges=timed) is not None:
                    bad = (i, y)
            if not err:
                bad = (t.bb, t.bb)
            ctx.ob('gone', f'{b.path}: {t.callee.name}', bad is None, b.at(t.bb, t.line), 'when every sender is gone the wait returns at once, and the loop waits again: it spins forever instead of ending')
    ctx.floor('gone', 'waiting loops', n, 1)
