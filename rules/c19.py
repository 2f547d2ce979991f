"""C19: sample-accurate automation is never flattened to one value."""
import inline as inl
from cond import Conds, consistent_path
from ctrl import Ctrl
from model import mentions, tail
from nodes import pairs
from params import Prov, flat
from sym import walk, show
from c18 import made, descriptor, is_pid

EXPLANATION = ('In every processor, each use of a single value of a parameter (constant index, first item of an iterator over it) is found by provenance analysis; no path from entry '
               'to exit may pass such a use without either a test that this very parameter delivers a single value or a walk over all of its values, unless the parameter is '
               'created with k-rate and its rate locked. Walks without wrap-around need the opposite test. The producing side is checked by decision paths: a block is '
               'marked single valued only for k-rate or for a constant timeline without input signal, always for k-rate, and the rate of a locked parameter cannot be changed.')
TECHNIQUE = 'provenance and guarded-path analysis over MIR'
NOTE = 'All built-in processors and the parameter renderer. HRTF panning is k-rate by specification and exempt. The interpolated values themselves are not decided.'
CONSUME = {'for_each', 'fold', 'collect', 'sum', 'try_for_each', 'all', 'any', 'max_by', 'min_by', 'extend', 'extend_from_slice', 'copy_from_slice', 'clone_from_slice', 'count',
           'product', 'try_fold', 'position', 'find', 'partition', 'unzip', 'reduce'}
STEP = {'next', 'nth', 'first', 'last', 'next_back', 'get', 'get_unchecked'}
LAZY = {'iter', 'into_iter', 'cycle', 'zip', 'enumerate', 'map', 'copied', 'cloned', 'skip', 'take', 'rev', 'step_by', 'by_ref', 'peekable', 'fuse', 'inspect', 'filter', 'chain',
        'len', 'is_empty', 'deref', 'as_ref', 'index', 'borrow', 'as_slice', 'unwrap', 'expect', 'size_hint', 'scan'}


def in_loop(b):
    """blocks that lie on a cycle"""
    out = set()
    for x in b.live_blocks:
        seen, st = set(), list(b.succs[x])
        while st:
            y = st.pop()
            if y == x:
                out.add(x)
                break
            if y not in seen:
                seen.add(y)
                st += b.succs[y]
    return out


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    ctx.rule('flat', 'No path uses a single value of a parameter unless the parameter is known to deliver one value or all of its values are used too.')
    ctx.rule('wrap', 'Values of a parameter are walked without wrap-around only where the parameter is known to deliver one value per frame.')
    ctx.rule('locked', 'A parameter of which only one value is ever used is k-rate and cannot be changed to a-rate.')
    ctx.rule('single', 'A block of parameter values is marked single valued only if it is constant, and always if the parameter is k-rate.')
    ctx.rule('constant', 'The timeline is skipped for a-rate only if it is empty or starts after the block with an event that is not a ramp.')
    ctx.rule('view', 'Processors see one value exactly if the block is marked single valued.')
    ctx.rule('rate', 'The rate of a locked parameter is never changed.')
    P = Prov(ctx)
    cd = Conds(sym)
    done, uses_n = set(), 0
    for pr in sorted(pairs(ctx, m), key=lambda x: (x.node, x.proc)):
        if not any(is_pid(t) for _, _, t in p.adt_fields(pr.proc)):
            continue
        krate = locked(ctx, pr)
        if pr.proc in done:
            continue
        done.add(pr.proc)
        for body in p.bodies.values():
            if body.trait == m.processor_trait and body.name == 'process' and body.kind != 'Closure' and body.self_ty is not None and body.self_ty.strip().adt == pr.proc:
                uses_n += processor(ctx, P, cd, body, tail(pr.node), krate)
    ctx.floor('flat', 'processors with parameters', len(done), 5)
    ctx.floor('flat', 'single values used', uses_n, 8)
    producer(ctx, C, cd)
    view(ctx, P, cd)
    rate(ctx, cd)


def locked(ctx, pr):
    """processor fields whose parameter is made k-rate and locked"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    b = inl.Inliner(p, g, lambda q: q.kind != 'Closure' and q.name not in ('create_audio_param', 'register', 'set_value', 'base', 'set_automation_rate_constrained'), 2, hof=False).run(pr.closure)
    calls = {(t.bb,): t for t in b.calls() if t.callee is not None and t.callee.name == 'create_audio_param' and t.bb in b.live_blocks}
    rets = set(b.return_blocks()) & set(b.live_blocks)
    from cond import path_without
    lock = set()
    for t in b.calls():
        if t.callee is not None and t.callee.name == 'set_automation_rate_constrained' and t.bb in b.live_blocks:
            c, v = made(sym.operand(b, t.args[0])), sym.operand(b, t.args[1])
            if c and v[0] == 'const' and v[1] in (1, True) and path_without(b, 0, rets, through={t.bb}) is None:
                lock.add(c[0])
    k = set()
    for c, t in calls.items():
        x = descriptor(ctx, sym.operand(b, t.args[1]), 'automation_rate')
        if x is not None and x[0] == 'agg' and x[2] == 'K' and c in lock:
            k.add(c)
    out = set()
    for s in b.stmts():
        if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == pr.proc and s.bb in b.live_blocks:
            for f, o in zip(s.rv.agg['f'], s.rv.ops):
                c = made(sym.operand(b, o))
                if c and c[0] in k:
                    out.add(f)
    return out


def singles(P, e, env):
    """parameters of which e contains one single value"""
    out = set()
    for x in walk(e):
        if x[0] == 'idx' and x[2][0] == 'const' or x[0] == 'call' and x[3] in STEP and x[2]:
            base = x[1] if x[0] == 'idx' else x[2][0]
            r, _ = P.resolve(base, env)
            if P.is_listener(r):
                continue
            sh = P.elem(base, env)
            if x[0] == 'idx' and (sh[0] != 'L' or not sh[2] or not slice_of(P, base, env)):
                continue
            out |= flat(sh)
    return out


def slice_of(P, e, env):
    """is e the slice of values of a parameter itself?"""
    for _ in range(12):
        e, env = P.resolve(e, env)
        if P.is_get(e) or e[0] == 'idx' and P.is_listener(P.resolve(e[1], env)[0]):
            return True
        if e[0] == 'call' and e[2] and e[3] in ('deref', 'as_ref', 'borrow', 'as_slice', 'clone'):
            e = e[2][0]
        elif e[0] in ('cast', 'sub', 'dc'):
            e = e[1]
        else:
            return False
    return False


def walked(P, e, env):
    """(parameters walked with wrap-around, without) by iterating over e"""
    if e[0] == 'call' and e[2]:
        if e[3] == 'cycle':
            return flat(P.elem(e, env)), set()
        if e[3] in ('map', 'filter', 'inspect', 'for_each', 'fold') or e[3] in CONSUME:
            return walked(P, e[2][0], env)
        w, n = set(), set()
        for x in e[2]:
            a, c = walked(P, x, env)
            w, n = w | a, n | c
        if e[3] in LAZY or e[3] in ('zip', 'chain'):
            return w, n
    if slice_of(P, e, env):
        return set(), set(flat(P.shape(e, env)))
    if e[0] in ('up', 'arg'):
        r, en = P.resolve(e, env)
        if r != e:
            return walked(P, r, en)
    return set(flat(P.elem(e, env))) - singles(P, e, env), set()


def zipped(e):
    return any(x[0] == 'call' and x[3] in ('zip', 'enumerate') for x in walk(e))


def lens(P, e, env, d=0):
    """parameters whose number of values is at most the number e"""
    if e[0] == 'call' and e[3] == 'max' and d < 20:
        return frozenset().union(*[lens(P, x, env, d + 1) for x in e[2]])
    if e[0] == 'bin' and e[1] in ('Mul', 'BitOr') and d < 20:
        return lens(P, e[2], env, d + 1) | lens(P, e[3], env, d + 1)
    if e[0] == 'call' and e[3] == 'len' and e[2] or e[0] == 'len' or e[0] == 'un' and e[1] == 'PtrMetadata':
        base = e[2][0] if e[0] == 'call' else e[-1]
        return flat(P.shape(base, env)) if slice_of(P, base, env) else frozenset()
    return frozenset()


def len_fact(P, env, single):
    """fact: parameter X delivers one value (single) / does not"""
    def f(x):
        def pred(e, v):
            if e[0] == 'call' and e[3] == 'is_empty':
                return False
            if e[0] != 'bin' or not isinstance(v, bool):
                return False
            for a, c, op in ((e[2], e[3], e[1]), (e[3], e[2], {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(e[1], e[1]))):
                xs = lens(P, a, env)
                if x not in xs or len(xs) > 1 and not single:
                    continue
                if c[0] != 'const' and not (c[0] == 'def'):
                    continue
                one = c[0] == 'const' and c[1] == 1
                two = c[0] == 'const' and c[1] == 2
                full = c[0] == 'def' or c[0] == 'const' and isinstance(c[1], int) and c[1] >= 2
                if op == 'Eq' and one:
                    return v == single
                if op == 'Eq' and full:
                    return v != single
                if op == 'Gt' and one or op == 'Ge' and two:
                    return v != single
                if op == 'Le' and one or op == 'Lt' and two:
                    return v == single
            return False
        return pred
    return f


def processor(ctx, P, cd, body, key, krate):
    p, sym = ctx.p, ctx.sym
    scopes = P.scopes(body, free=True)
    b, env0 = scopes[0]
    ctx.seen(body)
    loops = in_loop(b)
    use, full, bare = {}, {}, {}
    for x, env in scopes:
        top = x is b
        xl = loops if top else in_loop(x)

        def note(d, s, bb, line):
            for l in s:
                d.setdefault(l, {}).setdefault(bb if top else env.block(), (x, line))
        for i in x.live_blocks:
            for s in x.blocks[i].stmts:
                if s.kind != '=':
                    continue
                e = sym.rvalue(x, s.rv)
                for y in walk(e):
                    if y[0] == 'idx' and y[2][0] != 'const' and slice_of(P, y[1], env):
                        sh = flat(P.shape(y[1], env))
                        note(full, sh, i, s.line)
                        if not any(z[0] == 'bin' and z[1] in ('Rem', 'BitAnd') or z[0] == 'call' and z[3] in ('min', 'rem_euclid') for z in walk(y[2])):
                            note(bare, sh, i, s.line)
                if s.place.proj or s.rv.k in ('agg', 'repeat'):
                    note(use, singles(P, e, env), i, s.line)
            t = x.blocks[i].term
            if t.k == 'switch':
                from mir import Operand
                op = Operand(x.p, t.d['d'])
                if op.place is not None:
                    note(use, singles(P, sym.operand(x, op), env), i, t.line)
            if t.k != 'call' or t.callee is None:
                continue
            args = [sym.operand(x, a) for a in t.args]
            n = t.callee.name
            if n in CONSUME or n == 'next' and i in xl or n == 'into_iter':
                for a in args:
                    if a[0] == 'closure':
                        continue
                    w, nw = walked(P, a, env)
                    if n != 'into_iter':
                        note(full, w | nw, i, t.line)
                        if n == 'for_each' or n == 'next' or zipped(a):
                            note(bare, nw, i, t.line)
            elif n in STEP and i not in xl and args:
                if n not in ('first', 'get') or slice_of(P, args[0], env):
                    note(use, flat(P.elem(args[0], env)), i, t.line)
            elif n not in LAZY and t.callee.path not in P.getters:
                for a in args:
                    if slice_of(P, a, env):
                        note(full, flat(P.shape(a, env)), i, t.line)
                    else:
                        note(use, singles(P, a, env), i, t.line)
    rets = set(b.return_blocks()) & set(b.live_blocks)
    n = 0
    hrtf = hrtf_blocks(ctx, cd, b)
    lf, nf = len_fact(P, env0, True), len_fact(P, env0, False)
    for l in sorted(use, key=str):
        nm = l[1] if l[0] == 'own' else f'listener {l[1]}'
        if l[0] == 'own' and l[1] in krate:
            n += 1
            ctx.ob('locked', f'{key}.{nm}', True, body.loc(body.line))
            continue
        fb = set(full.get(l, {}))
        via = {bb: 'stmt' for bb in use[l] if bb not in fb and bb not in hrtf and bb in b.live_blocks}
        if not via:
            continue
        n += 1
        w = consistent_path(cd, b, 0, rets, through=fb, preds=[lf(l)], via=via)
        at = next((bb for bb in w if bb in via), None) if w else None
        ctx.ob('flat', f'{key}.{nm}', w is None, b.at(at, use[l][at][1]) if w else body.loc(body.line),
               f'one value of parameter {nm} stands for a whole block on a path that does not test that it delivers a single value')
    for l in sorted(bare, key=str):
        nm = l[1] if l[0] == 'own' else f'listener {l[1]}'
        for bb, (x, line) in sorted(bare[l].items(), key=lambda z: str(z[0])):
            w = consistent_path(cd, b, 0, {bb}, preds=[nf(l)])
            ctx.ob('wrap', f'{key}.{nm}', w is None, x.loc(line), f'the values of parameter {nm} are walked frame by frame on a path that does not test that there is more than one')
    return n


def hrtf_blocks(ctx, cd, b):
    """blocks that only run with the HRTF model, which is k-rate by specification"""
    p = ctx.p
    ty = {(a, f) for a in p.adts for _, f, t in p.adt_fields(a) if 'Hrtf' in t.s}

    def about(e):
        return any(x[0] == 'field' and (x[3], x[2]) in ty for x in walk(e))
    return {bb for bb in b.live_blocks if any(v == 'Some' and about(e) for e, v in cd.at(b, bb))}


# ---- producing side
def is_k(e, v):
    return v == 'K' or v == ('not', 'A')


def is_a(e, v):
    return v == 'A' or v == ('not', 'K')


def rate_of(e):
    return any(x[0] == 'field' and 'rate' in x[2] for x in walk(e))


def producer(ctx, C, cd):
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    setters = {b.path for b in p.bodies.values() if b.name == 'set_single_valued'}
    ctx.floor('single', 'block marker', len(setters), 1)
    n = k = 0
    for body in p.bodies.values():
        if body.trait != m.processor_trait or body.name != 'process' or body.kind == 'Closure' or body.self_ty is None:
            continue
        own = body.self_ty.strip().adt
        reach = set(g.reach([body]))
        mk = [q for q in p.bodies.values() if any(t.callee is not None and t.callee.path in setters for t in q.calls())]
        if not any(q.uid in reach for q in mk):
            continue
        ctx.seen(body)
        marking = lambda q: q in mk or any(h.uid in g.reach([q]) for h in mk)
        small = lambda q: q.self_ty is not None and q.self_ty.strip().adt in p.adts and q.argc == 1 and q.kind != 'Closure' and tail(q.self_ty.strip().adt) != 'AudioRenderQuantum'
        b = inl.Inliner(p, g, lambda q: q.kind != 'Closure' and q.path not in setters and (marking(q) or small(q)), 5).run(body)
        rets = set(b.return_blocks()) & set(b.live_blocks)
        ons, offs = marks(ctx, b, setters)
        n += 1
        key = tail(own)
        kk = lambda e, v: is_k(e, v) and rate_of(e)
        aa = lambda e, v: is_a(e, v) and rate_of(e)
        one = lambda e, v: e[0] == 'bin' and v is True and (e[1] == 'Eq' and ('const', 1) == e[3][:2]) and e[2][0] == 'call' and e[2][3] == 'len' or \
            e[0] == 'bin' and e[1] in ('Gt', 'Ge') and v is False and e[2][0] == 'call' and e[2][3] == 'len'
        silent = lambda e, v: e[0] == 'call' and e[3] == 'is_silent' and v is True
        for what, cut in (('automation', one), ('input signal', silent)):
            w = consistent_path(cd, b, 0, set(ons), preds=[kk, cut])
            ctx.ob('single', f'{key}: {what}', w is None, b.at(w[-1], ons[w[-1]]) if w else body.loc(body.line), f'a block of an a-rate parameter is marked single valued although there may be {what}')
        w = consistent_path(cd, b, 0, rets, through=set(ons), preds=[aa])
        ctx.ob('single', f'{key}: k-rate', w is None and bool(ons), body.loc(body.line), 'the block of a k-rate parameter is not marked single valued on some path')
        whole = {s.bb for s in b.stmts() if s.kind == '=' and s.bb in b.live_blocks and s.place.proj and sym.place(b, s.place)[0] in ('arg', 'idx') and tail(str(b.pty(s.place).adt)) == 'AudioRenderQuantum'} | \
            {t.bb for t in b.calls() if t.dest is not None and t.dest.proj and b.place_ty(t.dest) is not None and tail(str(b.pty(t.dest).adt)) == 'AudioRenderQuantum'}
        w = consistent_path(cd, b, 0, rets, through=set(ons) | set(offs) | whole)
        ctx.ob('single', f'{key}: marked', w is None, body.loc(body.line), 'a path leaves the mark of an earlier block')
        k += constant(ctx, cd, own, reach)
    ctx.floor('single', 'parameter renderers', n, 1)
    ctx.floor('constant', 'timelines', k, 1)


def marks(ctx, b, setters):
    """blocks in which the mark is set (true, false); a computed argument counts where it becomes true"""
    sym = ctx.sym
    ons, offs = {}, {}
    for t in b.calls():
        if t.callee is None or t.callee.path not in setters or t.bb not in b.live_blocks:
            continue
        v = sym.operand(b, t.args[1])
        if v[0] == 'const':
            (ons if v[1] in (1, True) else offs)[t.bb] = t.line
            continue
        offs[t.bb] = t.line
        l = t.args[1].place.local if t.args[1].place is not None else None
        for _ in range(4):
            ds = b.defs.get(l, [])
            if len(ds) == 1 and hasattr(ds[0], 'rv') and ds[0].rv.k == 'use' and ds[0].rv.ops[0].place is not None:
                l = ds[0].rv.ops[0].place.local
        for d in b.defs.get(l, []):
            e = sym.rvalue(b, d.rv) if hasattr(d, 'rv') else ('call',)
            if e[0] == 'const' and e[1] in (0, False):
                continue
            ons[d.bb] = t.line
    return ons, offs


def constant(ctx, cd, own, reach):
    """the shortcut around the timeline"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    n = 0
    for q in p.bodies.values():
        if q.uid not in reach or q.kind == 'Closure' or q.self_ty is None or q.self_ty.strip().adt != own:
            continue
        small = lambda x: x.self_ty is not None and x.kind != 'Closure' and x.argc == 1 and x.self_ty.strip().adt != own and x.self_ty.strip().adt in p.adts
        b = inl.Inliner(p, g, small, 4).run(q)
        disp = {}
        for i in b.live_blocks:
            t = b.blocks[i].term
            if t.k == 'switch' and 'LinearRampToValueAtTime' in [x for _, x in t.d.get('variants', [])] and len(t.d['cases']) >= 4:
                disp[i] = t
        loops = in_loop(b)
        if not disp or not any(i in loops for i in disp):
            continue
        n += 1
        ctx.seen(q)
        rets = set(b.return_blocks()) & set(b.live_blocks)
        thr = loops
        none = lambda e, v: v in ('None', ('not', 'Some')) and e[0] in ('call', 'field')
        kk = lambda e, v: is_k(e, v) and rate_of(e)

        def later(e, v):
            """the first event is not before the end of the block"""
            if e[0] != 'bin' or not isinstance(v, bool):
                return False
            op = e[1]
            ev = lambda x: x[0] == 'field' and x[2] == 'time' and any(y[0] == 'call' for y in walk(x))
            end = lambda x: any(y[0] == 'arg' and b.lty(y[1]).s == 'usize' for y in walk(x)) or any(y[0] == 'field' and 'next_block' in y[2] for y in walk(x))
            if ev(e[3]) and not ev(e[2]):
                e = ('bin', op, e[3], e[2])
                op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
            return ev(e[2]) and end(e[3]) and (op in ('Ge', 'Gt') and v or op in ('Lt', 'Le') and not v)
        key = tail(own)
        w = consistent_path(cd, b, 0, rets, through=thr, preds=[kk, none, later])
        ctx.ob('constant', f'{key}: pending event', w is None, b.loc(q.line), 'the timeline is skipped for an a-rate parameter although an event may fall into the block')
        for T in ('LinearRampToValueAtTime', 'ExponentialRampToValueAtTime'):
            def other(e, v, T=T):
                if e[0] == 'call' and e[3] == 'eq' and any(x[0] == 'agg' and x[2] == T for a in e[2] for x in walk(a)):
                    return v is False
                if v == ('not', T):
                    return True
                if isinstance(v, tuple) and v[0] == 'in':
                    return T not in v[1]
                return isinstance(v, str) and v.endswith('AtTime') and v != T or v == 'SetValue'
            w = consistent_path(cd, b, 0, rets, through=thr, preds=[kk, none, other])
            ctx.ob('constant', f'{key}: {T}', w is None, b.loc(q.line), f'the timeline is skipped for an a-rate parameter in the middle of a {T}')
    return n


def view(ctx, P, cd):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    n = 0
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.name in ('single_valued', 'set_single_valued'):
            continue
        rd = [t for t in b.calls() if t.callee is not None and t.callee.name == 'single_valued' and t.bb in b.live_blocks]
        if not rd or b.self_ty is not None and tail(b.self_ty.strip().adt or '') == 'AudioRenderQuantum' or '[f32]' not in b.lty(0).s and 'Target' not in b.lty(0).s:
            continue
        n += 1
        ctx.seen(b)
        one = lambda e, v: e[0] == 'call' and e[3] == 'single_valued' and v is True
        many = lambda e, v: e[0] == 'call' and e[3] == 'single_valued' and v is False
        short, long_ = {}, {}
        for s in b.stmts():
            if s.kind == '=' and s.bb in b.live_blocks:
                r = sym.rvalue(b, s.rv)
                if s.rv.k == 'use' and r[0] == 'const' and r[1] == 1 and b.lty(s.place.local).s == 'usize' or r[0] == 'agg' and r[1] and 'Range' in r[1] and r[3].get('end', ('',))[:2] == ('const', 1):
                    short[s.bb] = s.line
                elif s.rv.k == 'use' and b.lty(s.place.local).s == 'usize' and r[0] in ('const', 'def') and r[1] != 0:
                    long_[s.bb] = s.line
        w = consistent_path(cd, b, 0, set(short), preds=[one])
        ctx.ob('view', f'{b.name}: short', w is None and bool(short), b.loc(b.line), 'a single value is shown although the block is not marked single valued')
        rets = set(b.return_blocks()) & set(b.live_blocks)
        w = consistent_path(cd, b, 0, rets, through=set(short), preds=[many])
        ctx.ob('view', f'{b.name}: long', w is None, b.loc(b.line), 'all frames are shown although the block is marked single valued')
    ctx.floor('view', 'views of parameter values', n, 1)


def rate(ctx, cd):
    p, sym = ctx.p, ctx.sym
    n = 0
    for b in p.bodies.values():
        if b.name != 'set_automation_rate' or b.kind == 'Closure' or b.self_ty is None:
            continue
        n += 1
        ctx.seen(b)
        eff = {t.bb: t.line for t in b.calls() if t.callee is not None and t.callee.name in ('post_message', 'send_control_msg') and t.bb in b.live_blocks}
        eff.update({s.bb: s.line for s in b.stmts() if s.kind == '=' and s.bb in b.live_blocks and s.place.proj and '*' in s.place.proj and 'AutomationRate' in (b.pty(s.place).s if b.place_ty(s.place) else '')})
        free = lambda e, v: e[0] == 'field' and 'constrained' in e[2] and v is False
        same = lambda e, v: e[0] == 'call' and e[3] == 'eq' and v is True
        ctx.ob('rate', f'{b.name}: effect', bool(eff), b.loc(b.line), 'no effect')
        if eff:
            w = consistent_path(cd, b, 0, set(eff), preds=[free, same])
            ctx.ob('rate', f'{b.name}: locked', w is None, b.loc(b.line), 'the rate of a locked parameter can be changed')
    ctx.floor('rate', 'rate setters', n, 1)
    for b in p.bodies.values():
        if b.name == 'set_automation_rate_constrained' and b.kind != 'Closure':
            ok = any(s.kind == '=' and s.place.proj and 'constrained' in str(s.place.proj) and sym.rvalue(b, s.rv)[0] == 'arg' for s in b.stmts()) or \
                any(x[0] == 'field' and 'constrained' in x[2] for s in b.stmts() if s.kind == '=' and s.place.proj for x in walk(sym.place(b, s.place)) if sym.rvalue(b, s.rv)[0] == 'arg')
            ctx.ob('rate', f'{b.name}: stored', ok, b.loc(b.line), 'the lock is not stored')
