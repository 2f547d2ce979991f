"""C29: consumers of one media stream track never get a block twice or out of order."""
import inline as inl
from cond import Conds, consistent_path, path_without
from model import tail
from sym import walk, show
from c12 import strip_bb

EXPLANATION = ('The shared part of a track (the type that guards a source of blocks by a lock) and its consumers are found by type. On the paths of the consumer\'s next function: '
               'the source is asked only with the lock held and after the newest position, read after taking the lock, was found equal to the position of the consumer; the new '
               'block is published under the next position before the lock is released; the consumer adopts the position of the block it hands out; the end of the '
               'source is recorded, and seen by every consumer first.')
TECHNIQUE = 'lock-scope and reaching-definition analysis over MIR paths'
NOTE = 'All consumers of a track, including recorders and source nodes. Blocks skipped by slow consumers are allowed.'


def reaching(b, l, blk):
    """definitions of local l that reach the end of block blk"""
    ds = b.defs.get(l, [])
    out = []
    blocks = {d.bb for d in ds}
    for d in ds:
        if d.bb == blk and hasattr(d, 'rv') or d.bb == blk and not hasattr(d, 'rv'):
            return [d]
    for d in ds:
        if path_without(b, d.bb, {blk}, through=blocks - {d.bb}) is not None:
            out.append(d)
    return out


def sources(sym, b, e, blk, d=0):
    """expressions that may be behind e at block blk, with merges resolved by reaching definitions"""
    if d > 8 or not isinstance(e, tuple) or not e:
        return []
    if e[0] == 'phi':
        out = []
        for x in reaching(b, e[1], blk):
            v = sym.rvalue(b, x.rv) if hasattr(x, 'rv') else sym._call(b, x, 20, frozenset())
            out += sources(sym, b, v, x.bb, d + 1) if v[0] != 'phi' or v[1] != e[1] else []
        return out
    out = [e] if e[0] == 'call' else []
    for x in e[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                out += sources(sym, b, x, blk, d + 1)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        out += sources(sym, b, y, blk, d + 1)
    return out


def run(ctx):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    cd = Conds(sym)
    ctx.rule('recheck', 'The source is asked for a block only after the newest position, read with the lock held, was found equal to that of the consumer.')
    ctx.rule('publish', 'A pulled block is published under the following position before the lock is released.')
    ctx.rule('adopt', 'A consumer that gets a block takes over the position of this very block.')
    ctx.rule('end', 'The end of the source is recorded, and checked by every consumer before it hands out a block.')
    ctx.rule('start', 'A new consumer starts at the position of the placeholder block, which is never handed out.')
    ctx.rule('close', 'Closing the track takes away its source.')
    tracks = {}
    for a in p.adts:
        for _, f, t in p.adt_fields(a):
            if 'Mutex<' in t.s and 'dyn std::iter::Iterator' in t.s:
                tracks[a] = f
    ctx.floor('recheck', 'tracks with a guarded source', len(tracks), 1)
    for a, prov in sorted(tracks.items()):
        used = 0
        cons = [b for b in p.bodies.values() if b.kind != 'Closure' and b.name == 'next' and b.trait and b.trait.endswith('Iterator') and b.self_ty is not None and
                any(a in t.s for _, _, t in p.adt_fields(b.self_ty.strip().adt or ''))]
        for b0 in sorted(cons, key=lambda x: x.path):
            used += 1
            consumer(ctx, cd, b0, a, prov)
        ctx.floor('recheck', 'consumers', used, 1)
        pulls(ctx, a, prov, cons)
        starts(ctx, a, cons)
        closes(ctx, a, prov)


def provider(e, a, prov):
    return any(x[0] == 'call' and x[3] in ('lock', 'try_lock', 'get_mut') and any(y[0] == 'field' and y[2] == prov and y[3] == a for y in walk(x)) for x in walk(e))


def consumer(ctx, cd, b0, a, prov):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    own = b0.self_ty.strip().adt
    b = inl.Inliner(p, g, lambda q: q.kind != 'Closure' and q.self_ty is not None and q.self_ty.strip().adt in (a, own) or q.kind == 'Closure' and q.uid.startswith(b0.uid), 3).run(b0)
    ctx.seen(b0)
    key = tail(own)
    pos = [f for _, f, t in p.adt_fields(own) if t.s in ('u64', 'usize', 'u32')]
    live = b.live_blocks
    rets = set(b.return_blocks()) & set(live)
    pulls_ = {t.bb: t for t in b.calls() if t.bb in live and t.callee is not None and t.callee.name == 'next' and t.args and provider(sym.operand(b, t.args[0]), a, prov)}
    locks = {t.bb: t for t in b.calls() if t.bb in live and t.callee is not None and t.callee.name in ('lock', 'try_lock') and t.args and
             any(x[0] == 'field' and x[2] == prov and x[3] == a for x in walk(sym.operand(b, t.args[0])))}
    ctx.floor('recheck', f'{key}: pulls', len(pulls_), 1)
    ctx.floor('recheck', f'{key}: position', len(pos), 1)

    def mine(e):
        while e[0] == 'cast':
            e = e[1]
        return e[0] == 'field' and e[3] == own and e[2] in pos

    def shared(e):
        """a read of the shared state"""
        return e[0] == 'call' and (e[3].startswith('load') or e[3] in ('lock', 'read', 'get')) and any(x[0] == 'field' and x[3] == a for x in walk(e))
    good = set()
    for i in live:
        if b.blocks[i].term.k != 'switch':
            continue
        for y in dict.fromkeys(b.succs[i]):
            for e, v in cd.edge(b, i, y):
                if e[0] == 'bin' and e[1] == 'Eq' and v is True and mine(e[2]) != mine(e[3]) or e[0] == 'bin' and e[1] in ('Le', 'Ge', 'Lt', 'Gt') and mine(e[2]) != mine(e[3]) and isinstance(v, bool):
                    if e[1] != 'Eq':
                        # newest <= position
                        left = mine(e[2])
                        ok = (e[1] in ('Ge',) and v or e[1] == 'Lt' and not v) if left else (e[1] == 'Le' and v or e[1] == 'Gt' and not v)
                        if not ok:
                            continue
                    o = e[3] if mine(e[2]) and not mine(e[3]) else e[2]
                    src = [x for x in sources(sym, b, o, i) if shared(x)]
                    if src and all(any(b.dominates(l, x[4][0]) for l in locks) for x in src):
                        good.add((i, y))
    for bb, t in pulls_.items():
        w = path_without(b, 0, {bb}, cut_edges=good)
        ctx.ob('recheck', key, w is None, b.at(bb, t.line), 'a block is pulled on a path that does not compare the newest position, read with the lock held, with that of the consumer')
        # a test must not be separated from the pull by releasing the lock
        rel = releases(b, live)
        stale = {x for x in rel if path_without(b, x, {bb}, cut_edges=good) is not None and any(b.dominates(g_[1], x) for g_ in good)}
        ctx.ob('recheck', f'{key}: held', not stale, b.at(bb, t.line), 'the lock is released between the test of the position and the pull')
        publish(ctx, cd, b, b0, bb, t, key, a, own, pos, rets, rel)
    adopt(ctx, cd, b, b0, key, own, pos, rets)
    ends(ctx, cd, b, b0, key, a, pulls_, rets)


def releases(b, live):
    out = set()
    for i in live:
        t = b.blocks[i].term
        if t.k == 'drop':
            ty = b.place_ty(t.place) if getattr(t, 'place', None) is not None else None
            if ty is not None and ty.s.startswith('std::sync::MutexGuard'):
                out.add(i)
        elif t.k == 'call' and t.callee is not None and t.callee.path.endswith('mem::drop') and t.args and t.args[0].place is not None and b.pty(t.args[0].place).s.startswith('std::sync::MutexGuard'):
            out.add(i)
    return out


def pulled(e, bb):
    return any(x[0] == 'call' and x[3] == 'next' and x[4] == (bb,) for x in walk(e))


def publish(ctx, cd, b, b0, bb, t, key, a, own, pos, rets, rel):
    sym = ctx.sym
    live = b.live_blocks
    none = cd.edges_with(b, lambda e, v: v in ('None', ('not', 'Some')) and e[0] == 'call' and e[3] == 'next' and e[4] == (bb,))
    stores = {}
    for x in b.calls():
        if x.bb in live and x.callee is not None and x.callee.name in ('store', 'swap', 'rcu', 'set', 'replace') and x.args and len(x.args) > 1:
            r = sym.operand(b, x.args[0])
            v = sym.operand(b, x.args[1])
            if any(y[0] == 'field' and y[3] == a for y in walk(r)):
                val = [v] if v[0] != 'phi' else [sym.rvalue(b, d.rv) if hasattr(d, 'rv') else sym._call(b, d, 20, frozenset()) for d in reaching(b, v[1], x.bb)]
                if val and all(pulled(z, bb) for z in val):
                    stores[x.bb] = (val, x.line)
    for s in b.stmts():
        if s.kind == '=' and s.bb in live and s.place.proj:
            r = sym.place(b, s.place)
            v = sym.rvalue(b, s.rv)
            if any(y[0] == 'field' and y[3] == a for y in walk(r)) and pulled(v, bb):
                stores[s.bb] = ([v], s.line)
    ctx.ob('publish', f'{key}: published', bool(stores), b.at(bb, t.line), 'a pulled block is not published to the other consumers')
    if not stores:
        return
    w = path_without(b, bb, rets | rel, cut_edges=none, through=set(stores))
    ctx.ob('publish', f'{key}: in time', w is None, b.at(bb, t.line), 'the lock is released, or the function left, before the pulled block is published')
    for sb, (vals, line) in stores.items():
        for v in vals:
            nums = [x for x in walk(v) if x[0] == 'bin' and x[1].startswith('Add') and ('const', 1) in (x[2][:2], x[3][:2])]
            plain = [x for y in walk(v) if y[0] in ('tuple', 'agg') for x in (y[1] if y[0] == 'tuple' else y[3].values()) if x[0] == 'field' and x[3] == own and x[2] in pos]
            ctx.ob('publish', f'{key}: position', bool(nums) and not plain, b.at(sb, line), f'the pulled block is published as {show(v)}, not under the following position')


def root(e):
    return ('phi', e[1]) if e[0] == 'phi' else strip_bb(e)


def adopt(ctx, cd, b, b0, key, own, pos, rets):
    sym = ctx.sym
    live = b.live_blocks
    st = {}
    for s in b.stmts():
        if s.kind == '=' and s.bb in live and s.place.proj:
            r = sym.place(b, s.place)
            if r[0] == 'field' and r[3] == own and r[2] in pos:
                st[s.bb] = (sym.rvalue(b, s.rv), s)
    some = {}
    for s in b.stmts():
        if s.kind == '=' and s.bb in live and s.rv.k == 'agg' and s.rv.agg.get('var') == 'Some' and s.place.local == 0:
            some[s.bb] = (sym.rvalue(b, s.rv), s)
    ctx.floor('adopt', f'{key}: blocks handed out', len(some), 1)
    ctx.ob('adopt', f'{key}: position kept', bool(st), b0.loc(b0.line), 'the position of the consumer never changes')
    for bb, (e, s) in some.items():
        w = path_without(b, 0, {bb}, through=set(st)) if bb not in st else None
        ctx.ob('adopt', f'{key}: always', w is None, b.at(bb, s.line), 'a block is handed out on a path that does not update the position of the consumer')
        bases = {root(x[1]) for x in walk(e) if x[0] == 'field'}
        for sb, (v, z) in st.items():
            if v[0] == 'field':
                ok = root(v[1]) in bases
            else:
                # the position under which this very block was published on this path
                ok = v[0] == 'bin' and v[1].startswith('Add') and path_without(b, 0, {sb}, through={i for i in live if b.blocks[i].term.k == 'call' and b.blocks[i].term.callee is not None and b.blocks[i].term.callee.name == 'store'}) is None
            ctx.ob('adopt', f'{key}: of this block', ok, b.at(sb, z.line), f'the consumer takes the position {show(v)}, which does not belong to the block it hands out')


def ends(ctx, cd, b, b0, key, a, pulls_, rets):
    p, sym = ctx.p, ctx.sym
    live = b.live_blocks
    flags = {f for _, f, t in p.adt_fields(a) if ('AtomicBool' in t.s or 'Atomic<bool>' in t.s)}
    isflag = lambda e: any(x[0] == 'field' and x[3] == a and x[2] in flags for x in walk(e))
    if not flags:
        return
    sets = {t.bb: t for t in b.calls() if t.bb in live and t.callee is not None and t.callee.name in ('store', 'swap', 'fetch_or') and isflag(sym.operand(b, t.args[0]))}
    for bb, t in sets.items():
        v = sym.operand(b, t.args[1])
        ctx.ob('end', f'{key}: final', v[0] == 'const' and v[1] in (1, True), b.at(bb, t.line), 'the end of a track is taken back')
    for bb, t in pulls_.items():
        some = cd.edges_with(b, lambda e, v: v in ('Some', ('not', 'None')) and e[0] == 'call' and e[3] == 'next' and e[4] == (bb,))
        w = path_without(b, bb, rets, cut_edges=some, through=set(sets))
        ctx.ob('end', f'{key}: recorded', w is None, b.at(bb, t.line), 'the end of the source is not recorded')
        early = [x for x in sets if path_without(b, 0, {x}, cut_edges=cd.edges_with(b, lambda e, v: v in ('None', ('not', 'Some')) and e[0] == 'call' and e[3] == 'next'))]
        ctx.ob('end', f'{key}: only then', not early, b.at(bb, t.line), 'the track is ended although its source has not ended')
    live_edge = cd.edges_with(b, lambda e, v: e[0] == 'call' and e[3] in ('load',) and isflag(e) and v is False)
    some = {s.bb: s for s in b.stmts() if s.kind == '=' and s.bb in live and s.rv.k == 'agg' and s.rv.agg.get('var') == 'Some' and s.place.local == 0}
    for bb, s in some.items():
        w = path_without(b, 0, {bb}, cut_edges=live_edge)
        ctx.ob('end', f'{key}: checked', w is None, b.at(bb, s.line), 'a block is handed out without checking that the track has not ended')


def pulls(ctx, a, prov, cons):
    """no other code asks the source"""
    p, sym = ctx.p, ctx.sym
    roots = {c.uid for c in cons}
    ok = set()
    for c in cons:
        ok |= set(ctx.g.reach([c]))
    for b in p.bodies.values():
        for t in b.calls():
            if t.bb in b.live_blocks and t.callee is not None and t.args and t.callee.name in ('next', 'nth', 'last', 'for_each', 'collect', 'by_ref') and provider(sym.operand(b, t.args[0]), a, prov):
                ctx.ob('recheck', f'{tail(b.path)}: asks the source', b.uid in ok, b.loc(t.line), 'the source of a track is asked outside of its consumers')


def starts(ctx, a, cons):
    p, sym = ctx.p, ctx.sym
    first, begin = [], []
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind != '=' or s.rv.k != 'agg' or s.bb not in b.live_blocks:
                continue
            if s.rv.agg.get('adt') == a:
                e = sym.rvalue(b, s.rv)
                for f, x in e[3].items():
                    for y in walk(x):
                        if y[0] == 'tuple' and y[1] and y[1][0][0] == 'const':
                            first.append((y[1][0][1], b, s))
            for c in cons:
                own = c.self_ty.strip().adt
                if s.rv.agg.get('adt') == own:
                    e = sym.rvalue(b, s.rv)
                    for f, x in e[3].items():
                        if [t.s for _, n, t in p.adt_fields(own) if n == f][0] in ('u64', 'usize', 'u32'):
                            begin.append((x[1] if x[0] == 'const' else None, b, s))
    for v, b, s in begin:
        if v is None:
            continue
        ctx.ob('start', f'{b.name}', bool(first) and all(v == x[0] for x in first) or not first, b.loc(s.line), f'a consumer starts at position {v}, the placeholder has {[x[0] for x in first]}')
    ctx.floor('start', 'consumers made', len(begin), 1)


def closes(ctx, a, prov):
    p, sym = ctx.p, ctx.sym
    n = 0
    flags = {f for _, f, t in p.adt_fields(a) if ('AtomicBool' in t.s or 'Atomic<bool>' in t.s)}
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.name != 'close' or b.self_ty is None or not any(a in t.s for _, _, t in p.adt_fields(b.self_ty.strip().adt or '')):
            continue
        n += 1
        ctx.seen(b)
        done = {s.bb for s in b.stmts() if s.kind == '=' and s.bb in b.live_blocks and s.place.proj and provider(sym.place(b, s.place), a, prov)} | \
               {t.bb for t in b.calls() if t.bb in b.live_blocks and t.callee is not None and t.args and (t.callee.name in ('replace', 'take', 'swap') and provider(sym.operand(b, t.args[0]), a, prov) or
                t.callee.name in ('store', 'swap') and any(x[0] == 'field' and x[3] == a and x[2] in flags for x in walk(sym.operand(b, t.args[0]))))}
        w = path_without(b, 0, set(b.return_blocks()) & set(b.live_blocks), through=done)
        ctx.ob('close', b.name, w is None and bool(done), b.loc(b.line), 'closing the track leaves its source in place on some path')
    ctx.floor('close', 'close functions', n, 1)
