"""C26: audio buffers are value-like."""
import inline as inl
import mir
from cond import Conds, path_without
from model import tail
from sym import walk, show

EXPLANATION = ('Every reference-counted handle whose pointee holds audio samples is found by type, in all functions and type declarations. Mutable access to the pointee is '
               'only obtained through make_mut, or through get_mut where being shared is handled by installing a fresh copy; no conversion turns a shared pointer or reference '
               'into a mutable one; the pointees are free of interior mutability; no buffer is changed in place inside a cell that is shared between owners; a block that '
               'replaces a shared one before it is written holds the samples of the old one.')
TECHNIQUE = 'type-structure rules and pointer-mutability analysis over the type-checked program, path rule for copy on write'
NOTE = 'All functions and all type declarations of the crate, in both feature configurations.'
CONFIGS = ('default', 'all')
HANDLES = ('Arc', 'Rc')
CELLS = ('Cell', 'RefCell', 'UnsafeCell', 'SyncUnsafeCell', 'Mutex', 'RwLock', 'OnceCell', 'OnceLock', 'AtomicCell', 'AtomicRefCell', 'ReentrantMutex')
COPIES = {'copy_from_slice', 'clone_from_slice', 'clone_from', 'extend_from_slice', 'write_copy_of_slice', 'extend', 'extend_from_within', 'copy_nonoverlapping', 'swap_with_slice'}
READS = {'iter', 'zip', 'to_vec', 'into_iter', 'index', 'chunks', 'chunks_exact', 'for_each', 'get'}


def subs(e):
    for x in e[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield x
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        yield y


def handle(t):
    return t.adt is not None and tail(t.adt) in HANDLES and bool(t.args)


def samples(p, t, d=8, seen=None):
    """plain samples are stored inside a value of this type, not behind another handle"""
    seen = set() if seen is None else seen
    if t.s in ('f32', 'f64'):
        return True
    if d == 0 or t.i in seen or handle(t):
        return False
    seen.add(t.i)
    if t.adt is not None:
        if tail(t.adt).startswith('Atomic') or tail(t.adt) == 'PhantomData':
            return False
        if t.local or t.adt in p.adts:
            return any(samples(p, x, d - 1, seen) for _, _, x in p.adt_fields(t.adt))
    return t.k not in ('closure', 'dyn', 'fn', 'fnptr', 'fndef') and any(samples(p, x, d - 1, seen) for x in t.args)


def block(p, t, d=6):
    """a pointee that is a run of samples: a vector, slice or array of them, possibly wrapped"""
    if d == 0 or handle(t):
        return False
    if t.k in ('slice', 'array') or t.adt is not None and tail(t.adt) in ('Vec', 'ArrayVec', 'SmallVec', 'VecDeque', 'Box') or t.s.startswith('['):
        return any(x.s in ('f32', 'f64') or block(p, x, d - 1) for x in t.args) or t.s.startswith(('[f32', '[f64'))
    if t.adt is not None and t.adt in p.adts:
        return any(block(p, x, d - 1) for _, _, x in p.adt_fields(t.adt))
    return any(block(p, x, d - 1) for x in t.args)


def cells(p, t, d=8, seen=None):
    """interior mutability inside a value of this type"""
    seen = set() if seen is None else seen
    if d == 0 or t.i in seen or handle(t):
        return None
    seen.add(t.i)
    if t.adt is not None:
        if tail(t.adt) in CELLS or tail(t.adt).startswith('Atomic'):
            return tail(t.adt)
        if t.adt in p.adts:
            for _, _, x in p.adt_fields(t.adt):
                r = cells(p, x, d - 1, seen)
                if r:
                    return r
    for x in t.args:
        r = cells(p, x, d - 1, seen)
        if r:
            return r
    return None


def parts(t, d=10):
    yield t
    if d:
        for x in t.args:
            yield from parts(x, d - 1)


def mutables(t, d=6):
    return sum(1 for x in parts(t, d) if x.k in ('refmut', 'ptrmut'))


def run(ctx):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    cd = Conds(sym)
    ctx.rule('frozen', 'The samples behind a shared handle are plain data: no interior mutability lies between the handle and the samples.')
    ctx.rule('no-shared-cell', 'No buffer is changed in place inside a cell or lock that several owners share.')
    ctx.rule('unique', 'Mutable access to samples behind a shared handle is obtained only through make_mut, or through get_mut where being shared leads to a fresh copy.')
    ctx.rule('no-bypass', 'No cast, transmute or unchecked access turns shared into mutable access.')
    ctx.rule('copied', 'A block installed in place of a shared one, before mutable access is handed out, holds the samples of the old one.')
    buf = {a for a in p.adts if tail(a) in ('AudioBuffer',)}
    quanta = {a for a in p.adts if tail(a) in ('AudioRenderQuantum', 'AudioRenderQuantumChannel')}
    ctx.floor('frozen', 'buffer types', len(buf) + len(quanta), 2)
    # the declarations
    found, cellf = 0, set()
    within, work = set(buf | quanta), list(buf | quanta)
    while work:
        for _, _, t in p.adt_fields(work.pop()):
            for x in parts(t):
                if x.adt in p.adts and x.adt not in within:
                    within.add(x.adt)
                    work.append(x.adt)
    for a in sorted(p.adts):
        for v, f, t in p.adt_fields(a):
            for x in parts(t):
                if a in within and handle(x) and block(p, x.args[0]):
                    found += 1
                    c = cells(p, x.args[0])
                    ctx.ob('frozen', f'{tail(a)}.{f}', c is None, '', f'the samples behind the shared handle can be changed through a {c}' if c else '')
                if handle(x) and shared_buffer(p, x.args[0], buf):
                    cellf.add((f, a))
    ctx.floor('frozen', 'handles of sample blocks', found, 1)
    for a in sorted(buf | quanta):
        sh = [f for _, f, t in p.adt_fields(a) if reach_cell(p, t, set())]
        ctx.ob('frozen', f'{tail(a)}: own fields', not sh, '', f'field {sh} gives access to samples that can be changed through a shared reference')
    # writes through a guard
    muts = {b.uid for b in p.bodies.values() if b.kind != 'Closure' and b.self_ty is not None and b.self_ty.strip().adt in buf and b.argc and b.lty(1).k == 'refmut' and b.lty(1).strip().adt in buf}
    ctx.floor('no-shared-cell', 'functions that change a buffer', len(muts), 1)
    for b in sorted(p.bodies.values(), key=lambda x: x.path):
        for t in b.calls():
            if t.callee is None or t.callee.uid not in muts or not t.args:
                continue
            e = ctx.sym.operand(b, t.args[0])
            ex = ctx.sym.place(b, t.args[0].place) if t.args[0].place is not None else e
            hit = any(x[0] == 'field' and (x[2], x[3]) in cellf for y in (e, ex) for x in walk(y)) and any(x[0] == 'call' and x[3] in ('lock', 'borrow_mut', 'write', 'try_lock', 'try_borrow_mut', 'get') for y in (e, ex) for x in walk(y))
            if not hit:
                hit = any(handle(x) and shared_buffer(p, x.args[0], buf) for y in (e, ex) for z in walk(y) if z[0] in ('local', 'arg', 'up') and isinstance(z[1], int) and z[0] != 'up' and z[1] < b.nlocals() for x in parts(b.lty(z[1]), 5))
            hit = hit and not owned(b, t.args[0].place)
            ctx.ob('no-shared-cell', f'{b.path}: {t.callee.name}', not hit, b.at(t.bb, t.line), 'a buffer that several owners share is changed in place: the change is seen by all of them')
    access(ctx, cd)
    bypass(ctx)
    copied(ctx, cd)


def owned(b, pl, d=6):
    """the place is (a reference to) a value held by a local variable of the function"""
    if pl is None or d == 0:
        return False
    if '*' not in pl.proj and b.lty(pl.local).k not in ('ref', 'refmut', 'ptr', 'ptrmut'):
        return not any(handle(x) or x.k in ('ref', 'refmut') or x.adt and tail(x.adt).endswith(('Guard', 'RefMut')) for x in parts(b.lty(pl.local), 4))
    ds = b.defs.get(pl.local, [])
    return len(ds) == 1 and getattr(ds[0], 'rv', None) is not None and owned(b, ds[0].rv.place if ds[0].rv.place is not None else ds[0].rv.ops[0].place if ds[0].rv.ops else None, d - 1)


def shared_buffer(p, t, buf, d=6, incell=False, seen=None):
    """a buffer inside a cell inside t"""
    seen = set() if seen is None else seen
    if d == 0 or (t.i, incell) in seen or handle(t) and not incell:
        return False
    seen.add((t.i, incell))
    if t.adt is not None:
        if incell and t.adt in buf:
            return True
        if tail(t.adt) in ('OnceCell', 'OnceLock'):
            return False
        incell = incell or tail(t.adt) in CELLS
        if t.adt in p.adts and any(shared_buffer(p, x, buf, d - 1, incell, seen) for _, _, x in p.adt_fields(t.adt)):
            return True
    if t.k == 'dyn':
        return False
    return any(shared_buffer(p, x, buf, d - 1, incell, seen) for x in t.args)


def reach_cell(p, t, seen, d=8, shared=False, incell=False):
    """a cell that is shared and holds samples with no further handle in between"""
    if d == 0 or (t.i, shared, incell) in seen:
        return False
    seen.add((t.i, shared, incell))
    if t.s in ('f32', 'f64'):
        return shared and incell
    if handle(t):
        return reach_cell(p, t.args[0], seen, d - 1, True, False)
    if t.adt is not None:
        if tail(t.adt) in CELLS or tail(t.adt).startswith('Atomic'):
            if tail(t.adt).startswith('Atomic') and not t.args:
                return shared and 'F' in tail(t.adt)
            incell = True
        if t.adt in p.adts and any(reach_cell(p, x, seen, d - 1, shared, incell) for _, _, x in p.adt_fields(t.adt)):
            return True
    return t.k != 'dyn' and any(reach_cell(p, x, seen, d - 1, shared, incell) for x in t.args)


def pointee(b, op):
    t = b.place_ty(op.place) if op.place is not None else None
    if t is None:
        return None
    t = t.strip()
    return t.args[0] if handle(t) else None


def access(ctx, cd):
    p, sym = ctx.p, ctx.sym
    n = 0
    for b in sorted(p.bodies.values(), key=lambda x: x.path):
        for t in b.calls():
            if t.callee is None or not t.args or t.callee.krate not in ('alloc', 'std', 'core'):
                continue
            pt = pointee(b, t.args[0])
            if pt is None or not samples(p, pt):
                continue
            nm = t.callee.name
            if nm == 'make_mut':
                n += 1
                ctx.seen(b)
                ctx.ob('unique', f'{b.path}: make_mut', True, b.at(t.bb, t.line))
            elif nm == 'get_mut':
                n += 1
                ctx.seen(b)
                w = unshared(ctx, cd, b, t)
                ctx.ob('unique', f'{b.path}: get_mut', w is None, b.at(t.bb, t.line), f'if the samples are shared, {w}: the change is lost or the caller panics')
    ctx.floor('unique', 'places that make samples unique', n, 2)


def unshared(ctx, cd, b0, t0):
    """what goes wrong if the handle is shared; None if nothing"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    own = b0.self_ty.strip().adt if b0.self_ty is not None else None
    b = inl.Inliner(p, g, lambda q: q.self_ty is not None and q.self_ty.strip().adt == own and q.name != b0.name, 2).run(b0) if own is not None and b0.kind != 'Closure' else b0
    gets = [c for c in b.calls() if c.callee is not None and c.callee.name == 'get_mut' and c.args and pointee(b, c.args[0]) is not None]
    for t in gets:
        if t.line != t0.line:
            continue
        e = sym.operand(b, t.args[0])
        if e[0] != 'field':
            continue                     # a handle the function made itself or got by value
        f = e[2:4]

        def slot(pl):
            pe = sym.place(b, pl) if pl.proj else ('none',)
            return pe[0] == 'field' and pe[2:4] == f
        installs = {s.bb for s in b.stmts() if s.rv is not None and slot(s.place)}
        for c in b.calls():
            if c.dest is not None and slot(c.dest) or c.callee is not None and c.args and c.callee.path.endswith(('mem::replace', 'mem::swap', '::make_mut')) and sym.operand(b, c.args[0])[2:4] == f:
                installs.add(c.bb)
        # edges on which the handle is known not to be shared
        own_ = cd.edges_with(b, lambda x, v: x[0] == 'bin' and any(y[0] == 'call' and y[3] == 'strong_count' for y in walk(x)) and
                             (x[1] == 'Eq' and v is True or x[1] == 'Ne' and v is False or x[1] == 'Gt' and v is False or x[1] in ('Le', 'Lt') and v is True))
        mine = set()
        for c in gets:
            if sym.operand(b, c.args[0])[2:4] != f:
                continue
            res = derived(b, c.dest.local)
            for i in b.live_blocks:
                if b.blocks[i].term.k != 'switch' or not switched(b, i) & res:
                    continue
                for y in dict.fromkeys(b.succs[i]):
                    if any(v in ('Some', ('not', 'None')) or isinstance(v, bool) and x[0] == 'call' and x[3] in ('is_some', 'is_none') and v is (x[3] == 'is_some') for x, v in cd.edge(b, i, y)):
                        own_.add((i, y))
                        if c is t:
                            mine.add((i, y))
        if path_without(b, 0, {t.bb}, cut_edges=own_, through=installs) is None and t.bb != 0:
            continue
        res = derived(b, t.dest.local)
        for c in b.calls():
            if c.callee is not None and c.callee.name in ('unwrap', 'expect') and c.args and c.args[0].place is not None and c.args[0].place.local in res:
                return 'the result is unwrapped'
        if path_without(b, t.bb, set(b.return_blocks()), cut_edges=mine, through=installs) is not None:
            return 'nothing is written'
    return None


def derived(b, l):
    """locals that are copies, references or conversions of l"""
    out, work = {l}, [l]
    while work:
        x = work.pop()
        for s in b.stmts():
            if s.rv is not None and not s.place.proj and s.place.local not in out:
                if any(o.place is not None and o.place.local == x for o in s.rv.ops) or s.rv.place is not None and s.rv.place.local == x:
                    out.add(s.place.local)
                    work.append(s.place.local)
        for c in b.calls():
            if c.dest is not None and not c.dest.proj and c.dest.local not in out and c.callee is not None and c.callee.name in ('is_some', 'is_none', 'branch', 'as_deref_mut', 'as_mut', 'map') and \
                    any(o.place is not None and o.place.local == x for o in c.args[:1]):
                out.add(c.dest.local)
                work.append(c.dest.local)
    return out


def switched(b, i):
    k = b.blocks[i].term
    o = mir.Operand(b.p, k.d['d'])
    return {o.place.local} if o.place is not None else set()


def bypass(ctx):
    p, sym = ctx.p, ctx.sym
    n = 0
    for b in sorted(p.bodies.values(), key=lambda x: x.path):
        for s in b.stmts():
            rv = s.rv
            if rv is None:
                continue
            if rv.k == 'cast' and rv.ops:
                o = rv.ops[0]
                src = b.place_ty(o.place) if o.place is not None else None
                if src is not None and src.k in ('ptr', 'ref') and rv.ty.k in ('ptrmut', 'refmut'):
                    n += 1
                    ctx.seen(b)
                    ctx.ob('no-bypass', f'{b.path}: cast', not data(p, rv.ty), b.at(s.bb, s.line), f'a shared pointer {src.s} is turned into {rv.ty.s}')
                elif src is not None and rv.cast.startswith('Transmute'):
                    n += 1
                    ctx.ob('no-bypass', f'{b.path}: transmute', mutables(rv.ty) <= mutables(src), b.at(s.bb, s.line), f'{src.s} is turned into {rv.ty.s}')
        for t in b.calls():
            if t.callee is None:
                continue
            nm = t.callee.name
            if nm == 'get_mut_unchecked' or nm in ('cast_mut',) or nm in ('transmute', 'transmute_copy', 'transmute_unchecked'):
                src = b.place_ty(t.args[0].place) if t.args and t.args[0].place is not None else None
                dst = b.place_ty(t.dest) if t.dest is not None else None
                if nm.startswith('transmute'):
                    n += 1
                    ctx.seen(b)
                    ok = src is None or dst is None or mutables(dst) <= mutables(src)
                    ctx.ob('no-bypass', f'{b.path}: transmute', ok, b.at(t.bb, t.line), f'{src and src.s} is turned into {dst and dst.s}')
                else:
                    n += 1
                    ctx.ob('no-bypass', f'{b.path}: {nm}', dst is not None and not data(p, dst), b.at(t.bb, t.line), 'samples that may be shared are written without making them unique')
            if nm == 'get' and 'UnsafeCell' in t.callee.path:
                dst = b.place_ty(t.dest)
                ctx.ob('no-bypass', f'{b.path}: UnsafeCell', not data(p, dst), b.at(t.bb, t.line), 'samples are changed through a shared reference')
    ctx.floor('no-bypass', 'conversions', n, 1)


def data(p, t):
    t = t.strip()
    return samples(p, t) or t.k == 'param' or t.s in ('u8', '()', 'std::ffi::c_void') or any(samples(p, x) for x in parts(t)) or handle(t) and samples(p, t.args[0])


def copied(ctx, cd):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    n = 0
    for b0 in sorted(p.bodies.values(), key=lambda x: x.path):
        if b0.kind == 'Closure' or b0.self_ty is None or b0.lty(0).k != 'refmut':
            continue
        own = b0.self_ty.strip().adt
        fs = {f for _, f, t in p.adt_fields(own or '') if handle(t) and block(p, t.args[0])} if own in p.adts else set()
        if not fs:
            continue
        b = inl.Inliner(p, g, lambda q: q.self_ty is not None and q.self_ty.strip().adt == own, 2).run(b0)
        n += 1
        ctx.seen(b0)

        def old(e):
            if e[0] == 'call' and e[3] in ('len', 'strong_count', 'weak_count', 'ptr_eq', 'as_ptr', 'capacity', 'is_empty'):
                return False
            if e[0] == 'field' and e[2] in fs and e[3] == own:
                return True
            return any(old(x) for x in subs(e))
        live = b.live_blocks
        fills = {t.bb for t in b.calls() if t.bb in live and t.callee is not None and t.callee.name in COPIES and len(t.args) > 1 and any(old(sym.operand(b, x)) for x in t.args[1:])}
        fills |= {t.bb for t in b.calls() if t.bb in live and t.callee is not None and t.callee.name in READS and t.args and any(old(sym.operand(b, x)) for x in t.args)}
        inst = []
        for s in b.stmts():
            if s.rv is not None and s.bb in live and s.place.proj:
                pe = sym.place(b, s.place)
                if pe[0] == 'field' and pe[2] in fs and pe[3] == own:
                    inst.append((s.bb, s.line, sym.rvalue(b, s.rv)))
        for t in b.calls():
            if t.bb not in live or t.callee is None:
                continue
            if t.dest is not None and t.dest.proj:
                pe = sym.place(b, t.dest)
                if pe[0] == 'field' and pe[2] in fs and pe[3] == own:
                    inst.append((t.bb, t.line, sym._call(b, t, 20, frozenset())))
            if t.callee.path.endswith(('mem::replace', 'mem::swap')) and len(t.args) > 1:
                pe = sym.operand(b, t.args[0])
                if old(pe):
                    inst.append((t.bb, t.line, sym.operand(b, t.args[1])))
                    # the value taken out is the old block
                    fills |= {c.bb for c in b.calls() if c.callee is not None and c.callee.name in COPIES and len(c.args) > 1 and
                              any(x[0] == 'call' and x[3] in ('replace', 'swap') for a in c.args[1:] for x in walk(sym.operand(b, a)))}
        rets = set(b.return_blocks())
        for bb, line, e in inst:
            if old(e):
                ctx.ob('copied', f'{b0.path}', True, b.at(bb, line))
                continue
            w1 = path_without(b, 0, {bb}, through=fills) if bb != 0 else [0]
            w2 = path_without(b, bb, rets, through=fills)
            ctx.ob('copied', f'{b0.path}', bb in fills or w1 is None or w2 is None, b.at(bb, line), f'the block handed out for writing ({show(e)[:60]}) does not get the samples of the one it replaces')
    ctx.floor('copied', 'functions that hand out samples for writing', n, 1)
