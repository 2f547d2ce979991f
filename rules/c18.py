"""C18: each parameter drives its own input of the processor."""
import re
import inline as inl
from ctrl import Ctrl
from model import mentions, tail
from nodes import pairs
from params import Prov, Env, flat
from sym import walk, show
from c12 import strip_bb

EXPLANATION = ('Every parameter is followed from the call that makes it: into the field of the node and the accessor that returns it, into the field of the processor that holds '
               'its id, from the constructor option that initialises it, and from the id to the values the processor reads, through zipped iterators, closures and helper '
               'calls (provenance analysis). Exchanged, duplicated and unused parameters show up as a disagreement between the ends of two such chains; the nine listener '
               'parameters are followed by creation order, id table, listener object and the vectors the panner builds from them.')
TECHNIQUE = 'provenance analysis over symbolic MIR (parameter identity from constructor to use)'
NOTE = 'All built-in nodes, the worklet parameter maps and the listener. What a processor computes from the right values is not decided here.'
PARAM, PID = 'AudioParam', 'AudioParamId'


def is_param(t):
    return t is not None and t.adt is not None and tail(t.adt) == PARAM


def is_pid(t):
    return t is not None and t.adt is not None and tail(t.adt) == PID


def toks(n):
    return [x for x in n.lower().split('_') if x]


def same_tok(a, b):
    return a == b or len(a) >= 3 and len(b) >= 3 and (a.startswith(b) or b.startswith(a))


def refers(n, param):
    """does the name n talk about the parameter"""
    t, q = toks(n), toks(param)
    return any(all(same_tok(x, y) for x, y in zip(t[i:i + len(q)], q)) for i in range(len(t) - len(q) + 1))


def wrong(n, param, all_):
    """name n talks about another parameter than the one it holds"""
    hits = [x for x in all_ if refers(n, x)]
    if not hits:
        return None
    best = max(len(''.join(toks(x))) for x in hits)
    hits = [x for x in hits if len(''.join(toks(x))) == best]
    return None if param in hits or refers(n, param) and len(toks(param)) >= max(len(toks(x)) for x in hits) else hits[0]


def made(e):
    """(creation call, component) of an expression that is part of the result of the parameter constructor"""
    if e[0] == 'field' and e[1][0] == 'call' and e[1][3] == 'create_audio_param':
        return strip_id(e[1]), e[2]
    return None


def strip_id(c):
    return c[4]


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m = ctx.p, ctx.g, ctx.sym, C.m
    ctx.rule('paired', 'The handle of a made parameter is stored in one field of the node and its id in one field of the processor, under names that do not belong to another parameter.')
    ctx.rule('option', 'A parameter is initialised from the option of its own name, and from no other.')
    ctx.rule('default', 'The default of a constructor option is the default of the parameter it initialises.')
    ctx.rule('accessor', 'Every parameter is returned by exactly one accessor, which does not carry the name of another parameter.')
    ctx.rule('used', 'The processor reads every parameter it holds.')
    ctx.rule('role', 'Values of a parameter are not bound to, or passed as, another parameter of the node.')
    ctx.rule('agree', 'A function that is called with the same parameters in several places of a processor gets them in the same positions.')
    ctx.rule('axes', 'Vectors built from parameters have x, y and z of the same quantity in this order.')
    ctx.rule('listener', 'The parameters of the listener keep their place from creation over the id table and the listener object to the panner.')
    ctx.rule('handle', 'The id given to the processor is that of the returned parameter, which is connected to the node.')
    P = Prov(ctx)
    names = {}      # node adt -> {call: node field}
    ps = [x for x in pairs(ctx, m)]
    n = 0
    total = 0
    lists = {}
    for pr in sorted(ps, key=lambda x: (x.node, x.proc)):
        b0 = pr.closure
        has = [t for t in b0.calls() if t.callee is not None and t.callee.name == 'create_audio_param' and t.bb in b0.live_blocks]
        if not has:
            continue
        ctx.seen(b0)
        b = inl.Inliner(p, g, lambda q: q.kind != 'Closure' and q.name not in ('create_audio_param', 'register', 'set_value', 'base'), 2, hof=False).run(b0)
        calls = {(t.bb,): t for t in b.calls() if t.callee is not None and t.callee.name == 'create_audio_param' and t.bb in b.live_blocks}
        nodef, procf = {}, {}
        fields = {f for _, f, t in p.adt_fields(pr.node) if is_param(t)}
        inner = [t.adt for _, _, t in p.adt_fields(pr.node) if t.adt in p.adts and any(is_param(x) for _, _, x in p.adt_fields(t.adt)) and not is_param(t)]
        for s in b.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') in p.adts and s.bb in b.live_blocks:
                for f, o in zip(s.rv.agg['f'], s.rv.ops):
                    c = made(sym.operand(b, o))
                    if c is None:
                        continue
                    if c[1] == '0':
                        nodef.setdefault(c[0], []).append((s.rv.agg['adt'], f, s.line))
                    elif c[1] == '1':
                        procf.setdefault(c[0], []).append((s.rv.agg['adt'], f, s.line))
        key = tail(pr.node)
        listener = bool(inner) and not fields
        if not nodef and not fields and not inner:
            total += 1
            maps(ctx, b, b0, key)
            continue
        n += 1
        own = {c: v[0][1] for c, v in nodef.items()}
        names[pr.node] = own
        allf = set(own.values())
        want = fields | {f for a in inner for _, f, t in p.adt_fields(a) if is_param(t)}
        ctx.ob('paired', f'{key}: all fields', want == allf and len(own) == len(allf), b0.loc(b0.line), f'parameters {sorted(want ^ allf)} of the node do not come from their own creation')
        for c, t in calls.items():
            total += 1
            a, z = nodef.get(c, []), procf.get(c, [])
            nm = a[0][1] if a else f'line {t.line}'
            ctx.ob('paired', f'{key}.{nm}: handle', len(a) == 1, b.at(t.bb, t.line), f'the handle of the parameter is stored in {[x[1] for x in a]}')
            if listener:
                continue
            ctx.ob('paired', f'{key}.{nm}: id', len(z) == 1, b.at(t.bb, t.line), f'the id of the parameter is stored in {[x[1] for x in z]}')
            if a and z:
                w = wrong(z[0][1], nm, allf)
                ctx.ob('paired', f'{key}.{nm}: names', w is None, b0.loc(z[0][2]), f'the id of parameter {nm} is stored as {z[0][1]}')
        options(ctx, b, b0, pr, key, own, calls, listener)
        accessors(ctx, pr.node if not listener else inner[0], key)
        if not listener:
            procs = {}
            for c, z in procf.items():
                for _, f, _ in z:
                    procs[f] = own.get(c, f)
            uses(ctx, C, P, pr, key, procs)
        else:
            order = [own[c] for c in sorted(calls, key=lambda c: sum(1 for d in calls if b.dominates(d[0], c[0])))]
            lists[inner[0]] = order
    ctx.floor('paired', 'nodes with parameters', n, 5)
    ctx.floor('paired', 'parameters', total, 10)
    listener_chain(ctx, C, lists, P)
    control(ctx, C, P, names)
    creation(ctx)


def maps(ctx, b, b0, key):
    """parameters kept by name: handle and id go under the same name"""
    sym = ctx.sym
    ins = {}
    for t in b.calls():
        if t.callee is not None and t.callee.name == 'insert' and t.bb in b.live_blocks and len(t.args) == 3:
            c = made(sym.operand(b, t.args[2]))
            if c:
                ins.setdefault(c[0], {}).setdefault(c[1], []).append((sym.operand(b, t.args[1]), t))
    for c, d in ins.items():
        ok = set(d) == {'0', '1'} and all(len(v) == 1 for v in d.values()) and strip_bb(d['0'][0][0]) == strip_bb(d['1'][0][0])
        ctx.ob('paired', f'{key}: by name', ok, b0.loc(b0.line), 'handle and id of a parameter are stored under different names: ' + '; '.join(show(x[0]) for v in d.values() for x in v))
    ctx.floor('paired', f'{key}: parameters kept by name', len(ins), 1)


def captured(ctx, b0, e):
    """expression of a captured variable in the function that makes the closure"""
    p, sym = ctx.p, ctx.sym
    while e[0] == 'up':
        par = p.bodies.get(b0.parent) if isinstance(b0.parent, str) else b0.parent
        if par is None:
            return e, b0
        hit = None
        for s in par.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('k') == 'closure' and s.rv.agg.get('def') == b0.uid:
                hit = sym.rvalue(par, s.rv)
        if hit is None or e[2] >= len(hit[2]):
            return e, b0
        e, b0 = hit[2][e[2]], par
    if e[0] in ('field', 'cast', 'dc', 'sub') and isinstance(e[1], tuple):
        x, bb = captured(ctx, b0, e[1])
        return (e[0], x) + tuple(e[2:]), bb
    return e, b0


def option_name(e):
    while e[0] in ('cast',) or e[0] == 'call' and e[3] in ('from', 'into', 'clamp', 'min', 'max') and e[2]:
        e = e[1] if e[0] == 'cast' else e[2][0]
    return e[2] if e[0] == 'field' and e[3] is not None and tail(e[3]).endswith('Options') else None


def descriptor(ctx, e, f, d=0):
    """expression of a field of a parameter descriptor"""
    if d > 4:
        return None
    if e[0] == 'agg':
        x = e[3].get(f)
        return descriptor(ctx, x[1], f, d + 1) if x is not None and x[0] == 'field' and x[2] == f else x
    if e[0] == 'def':
        for b in ctx.p.bodies.values():
            if b.path == e[1] or b.uid == e[1]:
                return descriptor(ctx, ctx.sym.local(b, 0), f, d + 1)
    return None


def options(ctx, b, b0, pr, key, own, calls, listener):
    p, sym = ctx.p, ctx.sym
    got = {}
    for t in b.calls():
        if t.callee is not None and t.callee.name in ('set_value', 'set_value_at_time') and t.bb in b.live_blocks:
            c = made(sym.operand(b, t.args[0]))
            if c is None or c[0] not in own:
                continue
            e = sym.operand(b, t.args[1])
            while e[0] in ('cast',):
                e = e[1]
            e, _ = captured(ctx, b0, e)
            o = option_name(e)
            got.setdefault(own[c[0]], []).append((o, t))
    opts, oadt = {}, None
    root = ctx.g.root_fn(b0)
    for i in range(1, root.argc + 1):
        a = root.lty(i).strip().adt
        if a in p.adts and tail(a).endswith('Options'):
            opts, oadt = {f for _, f, _ in p.adt_fields(a)}, a
    rets = set(b.return_blocks()) & set(b.live_blocks)
    from cond import path_without
    dflt = {}
    for d in p.bodies.values():
        if d.name == 'default' and d.kind != 'Closure' and d.self_ty is not None and d.self_ty.strip().adt == oadt:
            e = sym.local(d, 0)
            if e[0] == 'agg':
                dflt = e[3]
    for c, nm in sorted(own.items(), key=lambda x: x[1]):
        x = descriptor(ctx, sym.operand(b, calls[c].args[1]), 'default_value')
        y = dflt.get(nm)
        if x is not None and y is not None and x[0] == 'const' and y[0] == 'const':
            ctx.ob('default', f'{key}.{nm}', float(x[1]) == float(y[1]), b0.loc(calls[c].line), f'parameter {nm} defaults to {x[1]}, its option to {y[1]}')
        for o, t in got.get(nm, []):
            ctx.ob('option', f'{key}.{nm}: source', o is None or o == nm or o not in set(own.values()), b.at(t.bb, t.line), f'parameter {nm} is initialised from option {o}')
        if nm in opts:
            ts = {t.bb for o, t in got.get(nm, []) if o == nm}
            other = [o for o, _ in got.get(nm, []) if o != nm]
            w = path_without(b, 0, rets, through=ts) if ts else [0]
            ctx.ob('option', f'{key}.{nm}: applied', bool(ts) and w is None, b0.loc(b0.line),
                   f'option {nm} does not reach parameter {nm}' + (f' (it gets {other})' if other else ''))


def accessors(ctx, adt, key):
    p, sym = ctx.p, ctx.sym
    fields = [f for _, f, t in p.adt_fields(adt) if is_param(t)]
    acc = {}
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.self_ty is None or b.self_ty.strip().adt != adt or b.argc != 1 or b.lty(0).k not in ('ref', 'refmut') or not is_param(b.lty(0).strip()):
            continue
        e = sym.local(b, 0)
        f = e[2] if e[0] == 'field' and e[3] == adt else None
        nm = b.name
        ctx.seen(b)
        w = wrong(nm, f, fields) if f else nm
        ctx.ob('accessor', f'{key}::{nm}', f is not None and w is None, b.loc(b.line), f'{nm}() returns {show(e)}')
        acc.setdefault(f, []).append(nm)
    for f in fields:
        ctx.ob('accessor', f'{key}.{f}: returned', len(acc.get(f, [])) == 1, None, f'parameter {f} is returned by {acc.get(f, [])}')


def uses(ctx, C, P, pr, key, procs):
    """procs: processor field -> parameter name"""
    p, sym = ctx.p, ctx.sym
    body = [b for b in p.bodies.values() if b.trait == C.m.processor_trait and b.name == 'process' and b.kind != 'Closure' and b.self_ty is not None and b.self_ty.strip().adt == pr.proc]
    if not body:
        ctx.ob('used', f'{key}: process', False, None, 'no process function')
        return
    scopes = P.scopes(body[0])
    ctx.seen(body[0])
    read = set()
    for b, env in scopes:
        for s in b.stmts():
            if s.kind == '=' and s.bb in b.live_blocks:
                read |= {x[2] for x in walk(sym.rvalue(b, s.rv)) if x[0] == 'field' and x[3] == pr.proc}
    for f, nm in sorted(procs.items(), key=lambda x: x[1]):
        ctx.ob('used', f'{key}.{nm}', f in read, body[0].loc(body[0].line), f'the processor never reads parameter {nm}')
    allf = set(procs.values())
    lis = getattr(P, 'listener_names', [])

    def title(l):
        if l[0] == 'own':
            return procs.get(l[1], l[1])
        if l[0] == 'listener' and l[1] is not None and isinstance(l[1], int) and l[1] < len(lis):
            return 'listener_' + lis[l[1]]
        return None
    roles(ctx, P, key, scopes, title, lambda l: allf if l[0] == 'own' else {'listener_' + x for x in lis})


def roles(ctx, P, key, scopes, title, universe):
    p, sym = ctx.p, ctx.sym
    pos = {}
    for b, env in scopes:
        for l in range(b.nlocals()):
            nm = b.lname(l)
            if not nm or len(b.defs.get(l, [])) != 1:
                continue
            sh = P.shape(sym.local(b, l), env)
            if sh[0] != 'L' or not sh[2] or len(sh[1]) != 1:
                continue
            lf = next(iter(sh[1]))
            ti = title(lf)
            if ti is None:
                continue
            w = wrong(nm, ti, universe(lf))
            ctx.ob('role', f'{key}.{ti}: bound', w is None, b.loc(b.line), f'the values of parameter {ti} are bound to {nm}')
        for t in b.calls():
            if t.bb not in b.live_blocks or t.callee is None or t.callee.uid not in p.bodies or t.callee.path in P.getters:
                continue
            cb = p.bodies[t.callee.uid]
            if cb.kind == 'Closure':
                continue
            for i, a in enumerate(t.args):
                e = sym.operand(b, a)
                sh = P.shape(e, env)
                s = flat(sh)
                if not s or any(title(x) is None for x in s):
                    continue
                ts = frozenset(title(x) for x in s)
                pos.setdefault(cb.path, {}).setdefault((b.serial, t.bb), (b, t, {}))[2][i] = ts
                if sh[0] == 'L' and sh[2] and len(s) == 1:
                    lf = next(iter(s))
                    nm = cb.lname(i + 1)
                    if nm and cb.self_ty is None or nm and i > 0:
                        w = wrong(nm, title(lf), universe(lf))
                        ctx.ob('role', f'{key}.{title(lf)}: {tail(cb.path)}({nm})', w is None, b.at(t.bb, t.line), f'parameter {title(lf)} is passed to {tail(cb.path)} as {nm}')
                vec(ctx, P, key, b, env, e, cb, i, t, title)
        for s in b.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('k') == 'array' and len(s.rv.ops) == 3 and s.bb in b.live_blocks:
                axes(ctx, P, key, b, env, [sym.operand(b, o) for o in s.rv.ops], b.at(s.bb, s.line), title)
    for path, sites in sorted(pos.items()):
        v = list(sites.values())
        if len(v) < 2 or max(len(x[2]) for x in v) < 2:
            continue
        for i in sorted(v[0][2]):
            base = v[0][2]
            bad = [x for x in v if i in x[2] and x[2][i] != base[i] and sorted(map(sorted, x[2].values())) == sorted(map(sorted, base.values()))]
            ctx.ob('agree', f'{key}: {tail(path)} argument {i}', not bad, bad[0][0].at(bad[0][1].bb, bad[0][1].line) if bad else v[0][0].loc(v[0][1].line),
                   f'{tail(path)} gets {sorted(base[i])} in one place and {sorted(bad[0][2][i]) if bad else ""} in another')


def leaves3(P, env, es, title):
    out = []
    for e in es:
        sh = P.shape(e, env)
        if sh[0] != 'L' or len(sh[1]) != 1 or not sh[2]:
            return None
        t = title(next(iter(sh[1])))
        if t is None or not re.search(r'_[xyz]$', t):
            return None
        out.append(t)
    return out


def axes(ctx, P, key, b, env, es, loc, title):
    ts = leaves3(P, env, es, title)
    if ts is None:
        return
    ok = [t[-1] for t in ts] == ['x', 'y', 'z'] and len({t[:-2] for t in ts}) == 1
    ctx.ob('axes', f'{key}: {ts[0][:-2]}', ok, loc, f'a vector is built from {ts}')


def vec(ctx, P, key, b, env, e, cb, i, t, title):
    """a vector of one quantity is passed under the name of that quantity"""
    if e[0] != 'tuple' or len(e[1]) != 3:
        return
    ts = leaves3(P, env, e[1], title)
    nm = cb.lname(i + 1)
    if ts is None or not nm:
        return
    stem = ts[0][:-2]
    word = toks(stem)[-1]
    known = {'position', 'orientation', 'forward', 'up'}
    said = set(toks(nm)) & known
    side = 'listener' in toks(stem)
    bad = said and word not in said or 'listener' in toks(nm) and not side or 'source' in toks(nm) and side
    ctx.ob('role', f'{key}: {tail(cb.path)}({nm})', not bad, b.at(t.bb, t.line), f'the vector {stem} is passed to {tail(cb.path)} as {nm}')


def listener_chain(ctx, C, lists, P):
    p, g, sym = ctx.p, ctx.g, ctx.sym
    ctx.floor('listener', 'listener', len(lists), 1)
    for adt, order in lists.items():
        # every place that makes a listener (or its stored parts) from another one keeps the names
        fields = {f for _, f, t in p.adt_fields(adt) if is_param(t)}
        kin = {a for a in p.adts if {f for _, f, _ in p.adt_fields(a)} >= fields}
        n = 0
        for b in p.bodies.values():
            for s in b.stmts():
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') in kin and s.bb in b.live_blocks:
                    for f, o in zip(s.rv.agg['f'], s.rv.ops):
                        if f not in fields:
                            continue
                        e = sym.operand(b, o)
                        src = [x[2] for x in walk(e) if x[0] == 'field' and x[3] in kin and x[2] in fields]
                        if not src and made(e) is None:
                            src = [x[2] for x in walk(sym.operand(inl.Inliner(p, g, lambda q: True, 3).run(b), o)) if x[0] == 'field' and x[3] in kin and x[2] in fields]
                        if src:
                            n += 1
                            ctx.seen(b)
                            ctx.ob('listener', f'{tail(s.rv.agg["adt"])}.{f}', set(src) == {f}, b.loc(s.line), f'{f} of the listener is taken from {sorted(set(src))}')
        ctx.floor('listener', 'listener fields carried over', n, 9)
        handed_out(ctx, adt, order)
        # id table: the listener parameters are the first ones made, in creation order
        tab = table(ctx, P)
        ctx.ob('listener', 'id table', tab is not None and len(tab) == len(order), None, f'the table of listener parameter ids cannot be read: {tab}')
        if not tab or len(tab) != len(order):
            return
        first = min(tab)
        ctx.ob('listener', 'ids are those created', sorted(tab) == list(range(first, first + len(order))), None, f'the ids are {tab}')
        names = [order[x - first] if 0 <= x - first < len(order) else None for x in tab]
        P.listener_names = names
        users = [b for b in p.bodies.values() if any(t.callee is not None and t.callee.path in P.listeners for t in b.calls())]
        ctx.floor('listener', 'users of the listener parameters', len(users), 1)
        for b0 in users:
            if b0.self_ty is None:
                continue
            scopes = P.scopes(b0)
            title = lambda l: ('listener_' + names[l[1]]) if l[0] == 'listener' and isinstance(l[1], int) and l[1] < len(names) and names[l[1]] else (l[1] if l[0] == 'own' else None)
            uni = {'listener_' + x for x in order}
            roles(ctx, P, tail(b0.self_ty.strip().adt), scopes, title, lambda l: uni if l[0] == 'listener' else {title(l)})
            k = set()
            for b, env in scopes:
                for l in range(b.nlocals()):
                    if b.lname(l):
                        k |= {x[1] for x in flat(P.shape(sym.local(b, l), env)) if x[0] == 'listener' and x[1] is not None}
            ctx.ob('listener', f'{tail(b0.self_ty.strip().adt)}: all used', k >= set(range(len(order))), b0.loc(b0.line), f'listener parameters {sorted(set(range(len(order))) - k)} are not used')


def handed_out(ctx, adt, order):
    """a listener whose registrations are taken from a sequence takes them in creation order"""
    p, sym = ctx.p, ctx.sym
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind != '=' or s.rv.k != 'agg' or s.rv.agg.get('adt') != adt or s.bb not in b.live_blocks:
                continue
            got = {}
            for f, o in zip(s.rv.agg['f'], s.rv.ops):
                for x in walk(sym.operand(b, o)):
                    if x[0] == 'call' and x[3] == 'next':
                        got.setdefault(f, x[4][0])
            if not got:
                continue
            seq = sorted(got, key=lambda f: sum(1 for y in got.values() if b.dominates(y, got[f])))
            want = [f for f in order if f in got]
            bad = [f'{x} in the place of {y}' for x, y in zip(seq, want) if x != y]
            ctx.seen(b)
            ctx.ob('listener', f'{b.name}: ids', not bad and len(seq) == len(order), b.loc(s.line), 'the ids are handed out in another order than the parameters are made: ' + ', '.join(bad))


def table(ctx, P):
    """ids of the listener parameters, in the order the panner sees them"""
    p, sym = ctx.p, ctx.sym
    for b in p.bodies.values():
        if b.path in P.listeners:
            ctx.seen(b)
            e = sym.local(b, 0)
            for x in walk(e):
                if x[0] == 'tuple' and x[1] and all(y[0] == 'agg' and tail(y[1]) == PID for y in x[1]):
                    return [list(y[3].values())[0][1] for y in x[1]]
                if x[0] in ('def', 'const') and x[-1]:
                    d = x[1] if x[0] == 'def' else x[2]
                    v = const_ids(ctx, d)
                    if v:
                        return v
    return None


def const_ids(ctx, d):
    p, sym = ctx.p, ctx.sym
    for b in p.bodies.values():
        if b.path == d or b.uid == d:
            e = sym.local(b, 0)
            if e[0] == 'tuple' and all(y[0] == 'agg' and tail(y[1]) == PID for y in e[1]):
                out = []
                for y in e[1]:
                    v = list(y[3].values())[0]
                    out.append(v[1] if v[0] == 'const' else None)
                return out if None not in out else None
    return None


def control(ctx, C, P, names):
    """control side methods that read or write their own parameters"""
    p, g, sym = ctx.p, ctx.g, ctx.sym
    for adt, own in sorted(names.items()):
        allf = set(own.values())
        acc = {b.path: sym.local(b, 0)[2] for b in p.bodies.values() if b.kind != 'Closure' and b.self_ty is not None and b.self_ty.strip().adt == adt and b.argc == 1 and
               is_param(b.lty(0).strip()) and sym.local(b, 0)[0] == 'field'}

        def which(e):
            s = set()
            for x in walk(e):
                if x[0] == 'field' and x[3] == adt and x[2] in allf:
                    s.add(x[2])
                if x[0] == 'call' and x[1] in acc:
                    s.add(acc[x[1]])
            return s
        pos = {}
        for b in p.bodies.values():
            if b.kind == 'Closure' or b.self_ty is None or b.self_ty.strip().adt != adt or b.trait:
                continue
            for t in b.calls():
                if t.callee is None or t.bb not in b.live_blocks or not t.args:
                    continue
                if t.callee.uid in p.bodies and not (t.callee.self_ty is not None and is_param(t.callee.self_ty.strip())):
                    cb = p.bodies[t.callee.uid]
                    for i, a in enumerate(t.args):
                        e = sym.operand(b, a)
                        s = which(e)
                        while e[0] == 'cast' or e[0] == 'call' and e[3] in ('from', 'into'):
                            e = e[1] if e[0] == 'cast' else e[2][0]
                        if len(s) == 1 and cb.lname(i + 1) and e[0] == 'call' and e[3] == 'value':
                            nm = next(iter(s))
                            w = wrong(cb.lname(i + 1), nm, allf)
                            ctx.ob('role', f'{tail(adt)}::{b.name}: {tail(cb.path)}({cb.lname(i + 1)})', w is None, b.loc(t.line), f'parameter {nm} is passed to {tail(cb.path)} as {cb.lname(i + 1)}')
                if t.callee.name == 'set_value' and len(t.args) == 2:
                    s = which(sym.operand(b, t.args[0]))
                    e = sym.operand(b, t.args[1])
                    while e[0] == 'cast':
                        e = e[1]
                    if len(s) == 1 and e[0] == 'arg' and e[1] > 1 and e[2] in ('x', 'y', 'z'):
                        nm = next(iter(s))
                        ctx.ob('axes', f'{tail(adt)}::{b.name}: {e[2]}', nm.endswith('_' + e[2]), b.loc(t.line), f'coordinate {e[2]} is assigned to {nm}')
                        pos.setdefault(b, []).append(nm)
        for b, v in pos.items():
            ctx.seen(b)
            ctx.ob('axes', f'{tail(adt)}::{b.name}: one quantity', len({x[:-2] for x in v}) == 1 and len(v) == 3, b.loc(b.line), f'{b.name} sets {v}')


def creation(ctx):
    """the constructor of parameters: id and handle belong together"""
    p, sym = ctx.p, ctx.sym
    n = 0
    for b in p.bodies.values():
        if b.kind == 'Closure' or b.name != 'create_audio_param':
            continue
        n += 1
        ctx.seen(b)
        e = sym.local(b, 0)
        ok = e[0] == 'tuple' and len(e[1]) == 2
        if ok:
            h, i = e[1]
            root = strip_bb(h)
            ok = any(strip_bb(x) == root for x in walk(i))
        ctx.ob('handle', 'create_audio_param: id', ok, b.loc(b.line), f'the id is not taken from the returned parameter: {show(e)}')
        con = [t for t in b.calls() if t.callee is not None and t.bb in b.live_blocks and t.callee.uid in p.bodies and len(t.args) >= 2 and ok and
               any(strip_bb(sym.operand(b, a)) == strip_bb(e[1][0]) for a in t.args) and
               any(x[0] == 'arg' and x[1] == 3 for a in t.args for x in walk(sym.operand(b, a)))]
        from cond import path_without
        rets = set(b.return_blocks()) & set(b.live_blocks)
        w = path_without(b, 0, rets, through={t.bb for t in con}) if con else [0]
        ctx.ob('handle', 'create_audio_param: connected', w is None, b.loc(b.line), 'a path returns a parameter that is not connected to the node it is made for')
    ctx.floor('handle', 'parameter constructors', n, 1)
