"""C27: malformed media is reported as an error, never a panic."""
import inline as inl
from cond import Conds, consistent_path, path_without
from loops import natural
from model import tail
from sym import walk, show
from c12 import strip_bb
from c11 import panic_sites

EXPLANATION = ('The functions that call a decoder library, or that hand on decoded blocks, are found by the calls they make and the type they return. In them: a failed call always ends '
               'in an error result, except for the kinds of failure that end or skip a packet; nothing is unwrapped; values that come from the media or are set while it plays reach functions that assert '
               'about them only on paths that checked them first; blocks are joined only where their channel counts and rates were found equal; a sample rate is '
               'checked before a decoded buffer is resampled.')
TECHNIQUE = 'error-propagation path rule and check-before-use taint rule over MIR'
NOTE = 'All functions of the crate that call a decoder library or return decoded blocks. Code inside the decoder libraries is not analysed.'
ASSUMPTIONS = ['The decoder libraries report malformed data as errors and hand out planes of equal length.',
               'Memory needed for resampling to a much higher rate is available.']
DECODERS = ('symphonia', 'creek')
SWALLOW = {'ok', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'is_ok', 'is_err', 'flatten', 'map_or', 'map_or_else', 'err', 'is_some', 'is_none', 'or', 'or_else', 'is_ok_and', 'filter_map', 'into_iter'}
SKIPPING = {'flatten', 'filter_map', 'flat_map', 'map_while', 'take_while', 'filter', 'skip_while', 'scan'}
RECOVER = {'DecodeError', 'IoError', 'ResetRequired'}


def decoder(c):
    return c is not None and c.krate.startswith(DECODERS)


def blocks_of(t):
    return 'Result<buffer::AudioBuffer' in t.s or 'Result<' in t.s and 'AudioBuffer' in t.s.split(',')[0]


def fallible(t):
    return t.adt is not None and tail(t.adt) == 'Result' or t.adt is not None and tail(t.adt) == 'Option' and t.args and t.args[0].adt is not None and tail(t.args[0].adt) == 'Result'


def carries(t):
    """the type of a function that can report an error"""
    return fallible(t)


def roots(ctx):
    p = ctx.p
    out = []
    for b in sorted(p.bodies.values(), key=lambda x: x.path):
        if any(decoder(t.callee) for t in b.calls()) or blocks_of(b.lty(0)) and fallible(b.lty(0)):
            out.append(b)
    return out


def run(ctx):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    cd = Conds(sym)
    ctx.rule('reported', 'When a decoder call fails, the function returns an error, unless the failure is one that ends the stream or skips one packet.')
    ctx.rule('no-unwrap', 'No result or optional value that comes from a decoder is unwrapped.')
    ctx.rule('checked', 'A value that comes from the media or is set while it plays is checked before it is given to a function that asserts about it.')
    ctx.rule('joined', 'Blocks are joined only where their channel counts and sample rates were found or made equal.')
    ctx.rule('rate', 'The sample rate of decoded audio is checked before it is used to resample.')
    ctx.rule('finite', 'No division by a number of frames less one that can be zero.')
    rs = roots(ctx)
    ctx.floor('reported', 'functions on the decoding path', len(rs), 3)
    names = {b.uid for b in rs}
    n = 0
    for b in rs:
        ctx.seen(b)
        n += reported(ctx, cd, b, names)
        unwraps(ctx, b)
        checked(ctx, cd, b)
        joined(ctx, cd, b)
        adapters(ctx, b)
    ctx.floor('reported', 'decoder calls that can fail', n, 3)
    rate(ctx, cd, rs)
    finite(ctx, cd, rs)


THROUGH = {'branch', 'map_err', 'map', 'as_ref', 'as_mut', 'ok_or', 'ok_or_else', 'next', 'transpose', 'and_then', 'from_residual', 'kind', 'eq', 'ne', 'inspect_err', 'as_deref'}


def from_call(e, bb, d=12):
    """the value is the result of this call, or a part of it"""
    if d == 0:
        return False
    if e[0] == 'call':
        return e[4] == (bb,) or e[3] in THROUGH and bool(e[2]) and any(from_call(x, bb, d - 1) for x in e[2][:2]) and e[3] != 'next'
    if e[0] in ('field', 'dc', 'cast', 'un'):
        return from_call(e[2] if e[0] == 'un' else e[1], bb, d - 1)
    if e[0] == 'bin':
        return from_call(e[2], bb, d - 1) or from_call(e[3], bb, d - 1)
    if e[0] == 'agg':
        return any(from_call(x, bb, d - 1) for x in e[3].values())
    return False


def errors_built(b):
    """blocks in which an error result is made"""
    out = set()
    for s in b.stmts():
        if s.rv is not None and s.rv.k == 'agg' and s.rv.agg and 'Err' in [str(x) for x in (s.rv.agg if isinstance(s.rv.agg, (list, tuple)) else s.rv.agg.values() if isinstance(s.rv.agg, dict) else [s.rv.agg])]:
            out.add(s.bb)
    for t in b.calls():
        if t.callee is not None and t.callee.name == 'from_residual':
            out.add(t.bb)
    return out


def reported(ctx, cd, b, names):
    p, sym = ctx.p, ctx.sym
    if not carries(b.lty(0)):
        return 0
    n = 0
    live = b.live_blocks
    made = errors_built(b)
    rets = set(b.return_blocks()) & set(live)
    calls = []
    for t in b.calls():
        if t.bb not in live or t.callee is None or t.dest is None:
            continue
        ty = b.place_ty(t.dest)
        if decoder(t.callee) and fallible(ty) or t.callee.name == 'next' and fallible(ty) and blocks_of(ty) or t.callee.uid in names and fallible(ty) and t.callee.name != 'next':
            calls.append(t)
    insp = {}
    for t in calls:
        errs = set()
        for i in live:
            if b.blocks[i].term.k != 'switch':
                continue
            for y in dict.fromkeys(b.succs[i]):
                fs = cd.edge(b, i, y)
                if any(v in ('Err', ('not', 'Ok'), 'Break') and from_call(e, t.bb) for e, v in fs):
                    errs.add((i, y))
        insp[t.bb] = errs
    for t in calls:
        n += 1
        key = f'{b.path}: {t.callee.name}'
        errs = insp[t.bb]
        if not errs:
            ok = passed_on(b, t) or path_without(b, t.bb, rets, through={c.bb for c in calls if insp[c.bb] and c is not t and same_receiver(sym, b, c, t)}) is None
            ctx.ob('reported', key, ok, b.at(t.bb, t.line), 'the result is not looked at: an error is dropped')
            continue
        ok_ = cd.edges_with(b, lambda e, v: from_call(e, t.bb) and (t.callee.name == 'decode' and v in RECOVER and e[0] != 'call' or isinstance(v, bool) and eof(e, v) or v == 'UnexpectedEof'))
        bad = None
        for i, y in sorted(errs):
            if y in made or (i, y) in ok_:
                continue
            w = path_without(b, y, (rets | {t.bb}), cut_edges=ok_, through=made)
            if w is not None:
                w = consistent_path(cd, b, y, (rets | {t.bb}), cut_edges=ok_, through=made)
            if w is None and y in rets | {t.bb}:
                w = [y]
            if w is not None:
                bad = (i, y)
        ctx.ob('reported', key, bad is None, b.at(t.bb, t.line), 'after a failure the function goes on or returns without an error')
    return n


def eof(e, v):
    if e[0] == 'call' and e[3] in ('eq', 'ne'):
        return v is (e[3] == 'eq') and ended(e)
    if e[0] == 'bin' and e[1] in ('Eq', 'Ne'):
        return v is (e[1] == 'Eq') and ended(e)
    return False


def ended(e):
    return any(x[0] == 'call' and x[3] == 'kind' for x in walk(e)) and 'UnexpectedEof' in repr(e)


def same_receiver(sym, b, c, t):
    if not c.args or not t.args or c.args[0].place is None or t.args[0].place is None:
        return False
    return strip_bb(sym.operand(b, c.args[0])) == strip_bb(sym.operand(b, t.args[0]))


def passed_on(b, t):
    """the whole result becomes the value of the function, or is stored or handed to something that keeps it"""
    seen, work = set(), [t.dest.local]
    if t.dest.local == 0:
        return True
    kept = False
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0:
            return True
        for s in b.stmts():
            if s.rv is None:
                continue
            src = [o.place for o in s.rv.ops if o.place is not None] + ([s.rv.place] if s.rv.place is not None and s.rv.k in ('ref', 'refmut') else [])
            if any(q.local == l for q in src):
                if s.place.proj:
                    kept = True
                work.append(s.place.local)
        for c in b.calls():
            if c is t or c.callee is None:
                continue
            if any(o.place is not None and o.place.local == l for o in c.args):
                if c.callee.name in SWALLOW or c.callee.path.endswith('mem::drop'):
                    return False
                if c.dest is not None and c.dest.local == 0:
                    return True
                if c.callee.name in ('new', 'store', 'push', 'send', 'map', 'map_err', 'insert', 'replace'):
                    kept = True
                if c.dest is not None:
                    work.append(c.dest.local)
    return kept


def unwraps(ctx, b):
    sym = ctx.sym
    n = 0
    for bb, line, what, op in panic_sites(b):
        if what not in ('unwrap', 'expect', 'unwrap_err', 'expect_err') or op is None or op.place is None:
            continue
        ty = b.place_ty(op.place)
        raw = None
        for d in b.defs.get(op.place.local, []):
            raw = d
        e = sym.operand(b, op)
        if 'PoisonError' in ty.s:
            continue
        if own_element(sym, b, e, raw):
            ctx.ob('no-unwrap', f'{b.path}: {what}', True, b.at(bb, line))
            continue
        n += 1
        ctx.ob('no-unwrap', f'{b.path}: {what} of {ty.s[:60]}', False, b.at(bb, line), f'{show(e)[:80]} is unwrapped: malformed media makes this panic')
    if not n:
        ctx.ob('no-unwrap', b.path, True, b.file)


def own_element(sym, b, e, raw):
    """the position, in a list, of an element that was taken from the same reader"""
    if raw is None or not hasattr(raw, 'callee') or raw.callee is None or raw.callee.name not in ('position', 'find', 'rposition'):
        return False
    es = [sym.operand(b, o) for o in raw.args]
    lists = {strip_bb(x[2][0]) for y in es for x in walk(y) if x[0] == 'call' and x[3] == 'tracks' and x[2]}
    elems = {strip_bb(x[2][0]) for y in es for x in walk(y) if x[0] == 'call' and x[3] in ('default_track', 'first_track', 'first_track_known_codec') and x[2]}
    return bool(lists) and elems == lists


def outside(e):
    return any(x[0] == 'call' and (x[3] == 'load' or any(x[1].startswith(d) or d + '_' in x[1] or d + '::' in x[1] for d in DECODERS)) for x in walk(e))


def asserts(p):
    """functions that assert about their only argument -> uid"""
    return {b.uid: b for b in p.bodies.values() if b.kind != 'Closure' and b.argc == 1 and b.lty(1).s in ('f32', 'f64', 'usize') and any(w == 'panic' for _, _, w, _ in panic_sites(b))}


def sinks(ctx):
    """(uid, argument index) -> kind, for functions that pass an argument on to an assertion"""
    p, sym = ctx.p, ctx.sym
    out = {}
    A = asserts(p)
    for u, b in A.items():
        out[(u, 0)] = 'number' if b.lty(1).s != 'usize' else 'count'
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.uid in A:
            continue
        for t in b.calls():
            if t.callee is None or t.callee.uid not in A:
                continue
            e = sym.operand(b, t.args[0])
            if e[0] == 'arg':
                out[(b.uid, e[1] - 1)] = 'number' if A[t.callee.uid].lty(1).s != 'usize' else 'count'
            elif e[0] == 'call' and e[3] == 'len' and e[2] and e[2][0][0] == 'arg':
                out[(b.uid, e[2][0][1] - 1)] = 'length'
    return out


def guarded(ctx, cd, b, bb, e, kind):
    """every path to the block checked this value"""
    k = strip_bb(e)

    def same(x):
        while x[0] == 'cast':
            x = x[1]
        y = k
        while y[0] == 'cast':
            y = y[1]
        return strip_bb(x) == y

    def check(x, v):
        if x[0] == 'call' and isinstance(v, bool) and v and any(same(a) for a in x[2]) and x[3] not in ('is_nan', 'is_infinite', 'is_sign_negative'):
            return {'lo', 'hi'}
        if x[0] == 'bin' and isinstance(v, bool):
            a, c = x[2], x[3]
            if same(a) and c[0] in ('const', 'def') or same(c) and a[0] in ('const', 'def'):
                op = x[1]
                if same(c):
                    op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
                if op in ('Eq',):
                    return {'lo', 'hi'} if v else {'lo'}
                if op == 'Ne':
                    return {'lo'} if v else {'lo', 'hi'}
                up = op in ('Lt', 'Le')
                return {'hi'} if up is v else {'lo'}
        return set()
    for want in ('lo', 'hi'):
        good = cd.edges_with(b, lambda x, v: want in check(x, v))
        if bb == 0 or path_without(b, 0, {bb}, cut_edges=good) is not None:
            return False
    return True


def built(ctx, adt):
    sym = ctx.sym
    for b in ctx.p.bodies.values():
        for s in b.stmts():
            if s.rv is not None and s.rv.k == 'agg':
                e = sym.rvalue(b, s.rv)
                if e[0] == 'agg' and e[1] == adt:
                    yield b, s, e


def safe(ctx, cd, b, bb, e, kind, d=3):
    """the value satisfies what is asserted: it does not come from outside, or every path checked it"""
    if e[0] in ('const', 'def'):
        return True
    if guarded(ctx, cd, b, bb, e, kind):
        return True
    if e[0] == 'field' and e[3] in ctx.p.adts and d:
        made = list(built(ctx, e[3]))
        return all(safe(ctx, cd, q, s.bb, x[3][e[2]], kind, d - 1) for q, s, x in made if e[2] in x[3])
    if e[0] == 'phi':
        return False if outside(e) else True
    return not outside(e) and not any(x[0] == 'field' and x[3] in ctx.p.adts and not safe(ctx, cd, b, bb, x, kind, d - 1) for x in walk(e)) if d else True


def checked(ctx, cd, b):
    p, sym = ctx.p, ctx.sym
    if not hasattr(ctx, '_sinks27') or ctx._sinks27[0] is not p:
        ctx._sinks27 = (p, sinks(ctx))
    S = ctx._sinks27[1]
    for t in b.calls():
        if t.callee is None or t.bb not in b.live_blocks:
            continue
        for i, a in enumerate(t.args):
            kind = S.get((t.callee.uid, i))
            if kind is None:
                continue
            e = sym.operand(b, a)
            if kind == 'length':
                ns = [x[2][1] for x in walk(e) if x[0] == 'call' and x[3] == 'from_elem' and len(x[2]) > 1 and strip_bb(x) == strip_bb(e)]
                for n_ in ns:
                    ctx.ob('checked', f'{b.path}: {t.callee.name} channels', safe(ctx, cd, b, t.bb, n_, 'count'), b.at(t.bb, t.line), f'the number of channels {show(n_)[:60]} is not checked before it is asserted')
                continue
            ctx.ob('checked', f'{b.path}: {t.callee.name}({i})', safe(ctx, cd, b, t.bb, e, kind), b.at(t.bb, t.line), f'{show(e)[:80]} is not checked before it is asserted: the function panics')


def joiners(p):
    """methods that assert that two buffers are alike"""
    return {b.uid for b in p.bodies.values() if b.kind != 'Closure' and b.argc == 2 and b.lty(1).strip().adt and b.lty(1).strip().adt == b.lty(2).strip().adt and tail(b.lty(1).strip().adt) == 'AudioBuffer' and
            b.lty(1).k == 'refmut' and any(w == 'panic' for _, _, w, _ in panic_sites(b))}


def joined(ctx, cd, b):
    p, sym = ctx.p, ctx.sym
    J = joiners(p)
    for t in b.calls():
        if t.callee is None or t.callee.uid not in J or t.bb not in b.live_blocks:
            continue
        other = sym.operand(b, t.args[1])
        for what, names in (('channel counts', ('number_of_channels',)), ('sample rates', ('sample_rate',))):
            def about(x):
                return any(y[0] in ('call', 'field') and (y[3] if y[0] == 'call' else y[2]) in names or y[0] == 'local' and names[0].endswith(str(y[2])) for y in walk(x))
            good = cd.edges_with(b, lambda x, v: isinstance(v, bool) and (x[0] == 'bin' and x[1] in ('Eq', 'Ne') and v is (x[1] == 'Eq') or x[0] == 'call' and x[3] in ('eq', 'ne') and v is (x[3] == 'eq')) and
                                 about(x) and (x[0] == 'call' or x[2][0] not in ('const', 'def') and x[3][0] not in ('const', 'def')))
            if what == 'sample rates':
                # the first block sets the rate the others are compared with
                good |= cd.edges_with(b, lambda x, v: v in ('None', ('not', 'Some')) and x[0] in ('phi', 'local') and 'f32' in b.lty(x[1]).s)
            # within one round of the loop over the blocks: what was compared for earlier blocks says nothing about this one
            rounds = [h for h, L in natural(b).items() if t.bb in L] or [0]
            ok = bool(good) and all(path_without(b, h, {t.bb}, cut_edges=good) is None for h in rounds)
            if not ok:
                # built alike, or resampled to the common rate
                ok = other[0] == 'call' and any(x[0] == 'agg' and any(about(y) or names[0] == 'sample_rate' and f == 'sample_rate' for f, y in x[3].items()) for x in walk(other))
            if not ok and what == 'sample rates':
                rs = {c.bb for c in b.calls() if c.callee is not None and c.callee.name == 'resample' and c.args and strip_bb(sym.operand(b, c.args[0])) == strip_bb(other)}
                ok = any(b.dominates(x, t.bb) for x in rs)
            ctx.ob('joined', f'{b.path}: {what}', ok, b.at(t.bb, t.line), f'blocks are joined on a path that did not compare their {what}: the function panics')


def adapters(ctx, b):
    for t in b.calls():
        if t.callee is None or t.bb not in b.live_blocks or t.callee.name not in SKIPPING or not t.args or t.args[0].place is None or not carries(b.lty(0)):
            continue
        ty = b.place_ty(t.args[0].place)
        owners = {x.self_ty.strip().adt for x in roots_cached(ctx) if x.self_ty is not None}
        hit = any(o and o in ty.s for o in owners if o) or blocks_of(ty)
        if hit:
            ctx.ob('reported', f'{b.path}: {t.callee.name}', False, b.at(t.bb, t.line), 'errors of the decoder are filtered out of the stream of blocks')


def roots_cached(ctx):
    if not hasattr(ctx, '_roots27') or ctx._roots27[0] is not ctx.p:
        ctx._roots27 = (ctx.p, roots(ctx))
    return ctx._roots27[1]


def good(x, v):
    """a branch that shows that a sample rate is not zero"""
    def rt(e):
        return any(y[0] in ('call', 'field') and ('rate' in (y[3] if y[0] == 'call' else y[2])) for y in walk(e))
    if x[0] == 'call' and v is True and x[2] and any(rt(a) for a in x[2]) and x[3] not in ('eq', 'ne', 'lt', 'le'):
        return True
    if x[0] == 'bin' and isinstance(v, bool):
        a, c, op = x[2], x[3], x[1]
        if a[0] in ('const', 'def') and rt(c):
            a, c, op = c, a, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        if c[0] == 'const' and rt(a) and str(c[1]).startswith('-'):
            return False
        if c[0] in ('const', 'def') and rt(a):
            return op in ('Gt', 'Ne') and v or op in ('Le', 'Eq') and not v or (op == 'Ge' and v or op == 'Lt' and not v) and not zero(c)
    return False


def zero(c):
    try:
        return c[0] == 'const' and float(str(c[1]).split('_')[0].rstrip('f32')or 0) == 0
    except ValueError:
        return False


def rate(ctx, cd, rs):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    mine = {b.uid for b in rs}
    own = {b.self_ty.strip().adt for b in rs if b.self_ty is not None and b.name == 'next' and any(decoder(t.callee) for t in b.calls())}
    n = 0
    for b0 in rs:
        if b0.kind == 'Closure' or not any(t.callee is not None and t.callee.name == 'resample' for t in b0.calls()) or \
                not any(t.callee is not None and t.callee.name == 'next' and p.bodies.get(t.callee.uid) is not None and t.callee.uid in mine for t in b0.calls()):
            continue
        b = b0
        snk = {t.bb for t in b.calls() if t.bb in b.live_blocks and t.callee is not None and t.callee.name == 'resample'}
        for t in b.calls():
            if t.bb not in b.live_blocks or t.callee is None or t.callee.name != 'next' or t.callee.uid not in mine:
                continue
            n += 1
            edges = cd.edges_with(b, good)
            got = cd.edges_with(b, lambda e, v: v in ('Ok', ('not', 'Err'), 'Continue') and from_call(e, t.bb))
            here = bool(got) and all((i, y) in edges or y not in snk and path_without(b, y, snk | {t.bb}, cut_edges=edges) is None for i, y in got)
            if not here:
                # or the producer of the blocks checks them
                q = inl.Inliner(p, g, lambda z: z.uid in mine and z.kind != 'Closure', 2).run(p.bodies[t.callee.uid])
                eq = cd.edges_with(q, good)
                src = [c for c in q.calls() if c.bb in q.live_blocks and c.callee is not None and decoder(c.callee) and c.callee.name in ('decode', 'read')]
                rets = set(q.return_blocks())
                here = bool(eq) and bool(src)
                for c in src:
                    fail = cd.edges_with(q, lambda e, v: v in ('Err', ('not', 'Ok')) and from_call(e, c.bb))
                    here = here and path_without(q, c.bb, rets, cut_edges=eq | fail, through=errors_built(q)) is None
            ctx.ob('rate', b0.path, here, b.at(t.bb, t.line), 'decoded audio is resampled on a path that did not check its sample rate: a rate of zero needs infinitely many frames')
    ctx.floor('rate', 'functions that decode and resample', n, 1)


def finite(ctx, cd, rs):
    p, sym = ctx.p, ctx.sym
    todo = {b.uid: b for b in rs}
    for b in rs:
        for t in b.calls():
            q = p.bodies.get(t.callee.uid) if t.callee is not None else None
            if q is not None:
                todo[q.uid] = q
    for b in sorted(todo.values(), key=lambda x: x.path):
        for s in b.stmts():
            if s.rv is None or s.rv.k != 'bin' or s.rv.op != 'Div':
                continue
            e = sym.rvalue(b, s.rv)
            d = e[3]
            while d[0] == 'cast':
                d = d[1]
            sub = d[1] if d[0] == 'field' and d[1][0] == 'bin' else d
            if sub[0] != 'bin' or not sub[1].startswith('Sub') or sub[3][0] != 'const':
                continue
            k = strip_bb(sub[2])
            good = cd.edges_with(b, lambda x, v: x[0] == 'bin' and isinstance(v, bool) and any(strip_bb(y) == k for y in (x[2], x[3])) and (x[2][0] == 'const' or x[3][0] == 'const'))
            ok = bool(good) and path_without(b, 0, {s.bb}, cut_edges=good) is None
            ctx.ob('finite', b.path, ok, b.at(s.bb, s.line), f'{show(e)[:90]}: the divisor is zero for a single frame')
