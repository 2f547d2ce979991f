"""C01: nothing reachable on the render thread waits."""
from effects import blocking, callee_key
from model import Model, tail

EXPLANATION = ('Effect analysis on the call graph of the type-checked program (direct calls, trait dispatch, closures, '
               'drop glue). Roots are the callbacks of all processors, the audio callbacks handed to the device '
               'libraries, and the render thread methods entered from the backend threads; every external function '
               'reachable from a root is an obligation and must not be one that waits, locks, sleeps, spawns or does I/O.')
TECHNIQUE = 'call-graph effect analysis on type-checked MIR'
ASSUMPTIONS = ['External crates other than std and crossbeam (fft, resampler, hrtf, log) do not wait when called.',
               'A logger installed by the application is not part of the library.',
               'Allocation and deallocation may take an allocator lock; that is the subject of C02.']
NOTE = ('Decides the absence of waiting calls on every call chain the call graph contains; over-approximates dispatch, so '
        'a quiet run covers all schedules. Does not bound allocation time or external crates.')
KINDS = ('call', 'fnitem', 'closure', 'drop')


def render_roots(ctx):
    """(roots, why) of code executed on the render thread of an online context"""
    p, g = ctx.p, ctx.g
    m = Model(p)
    roots = {}
    for b in m.processor_bodies():
        roots[b.uid] = (b, 'processor callback')
    # what a processor written by the user can call during a quantum: public methods of the types handed to it
    handed = set()
    for b in m.processor_bodies(('process',)):
        for i in range(2, b.argc + 1):
            st = [b.lty(i)]
            while st:
                t = st.pop()
                if t.adt in p.adts:
                    handed.add(t.adt)
                st += t.args
    for b in p.bodies.values():
        if b.public and b.kind != 'Closure' and b.self_ty is not None and b.self_ty.strip().adt in handed and b.uid not in roots:
            roots[b.uid] = (b, 'callable by processors')
    rt = m.render_thread
    rt_methods = {b.uid for b in p.methods_of(rt)} if rt else set()
    reaching = g.can_reach(rt_methods)
    rendering = g.can_reach([b.uid for b in m.processor_bodies(('process',))])
    ncb = 0
    for b in p.bodies.values():
        for e in g.edges(b):
            if e.kind == 'callback' and e.dst.uid in reaching:
                roots[e.dst.uid] = (e.dst, 'device callback')
                ncb += 1
            elif e.kind == 'spawn' and e.dst.uid in reaching:
                # the driver thread paces itself; what it calls on the render thread object is rendering
                seen = {e.dst.uid}
                st = [e.dst]
                while st:
                    x = st.pop()
                    for e2 in g.edges(x):
                        if e2.dst is None or e2.kind not in KINDS or e2.dst.uid in seen:
                            continue
                        seen.add(e2.dst.uid)
                        if e2.dst.uid in rt_methods and e2.dst.uid in rendering:
                            roots[e2.dst.uid] = (e2.dst, 'backend thread')
                        elif e2.dst.uid in reaching:
                            st.append(e2.dst)
    return m, [r for r, _ in roots.values()], {u: w for u, (_, w) in roots.items()}, ncb


def run(ctx):
    p, g = ctx.p, ctx.g
    ctx.rule('no-wait', 'No function reachable from a render thread entry point calls an external function that waits, '
                        'locks, sleeps, spawns or performs I/O.')
    ctx.rule('bounded-slot', 'A blocking send is accepted only into a bounded slot with a single producer that has just '
                             'drained it (try_recv on the receiver made together with the sender).')
    m, roots, why, ncb = render_roots(ctx)
    prev = g.reach(roots, KINDS)
    for adt, b in p.inert_adts.items():
        ctx.rule('inert-drop', 'A destructor that notifies the control side only when an optional field is set never finds it '
                               'set on the render thread: the field is only filled in a local that is handed to user code.')
        ctx.ob('inert-drop', adt, True, b.loc())
    nsites = 0
    for u in prev:
        b = p.bodies[u]
        ctx.seen(b)
        for e in g.edges(b):
            if e.kind not in ('ext', 'extitem') or e.callee is None:
                continue
            nsites += 1
            why_not = blocking(e.callee)
            recv = e.callee.self_ty.s if e.callee.self_ty is not None else ''
            owner = owner_of(ctx, b)
            key = f'{owner} -> {callee_key(e.callee)}{subject(ctx, b, e)}'
            if why_not is None:
                ctx.ob('no-wait', key, True, b.loc(e.line))
                continue
            if slot_ok(ctx, m, b, e) or reply_slot(ctx, m, b, e):
                ctx.ob('bounded-slot', key, True, b.loc(e.line))
                continue
            ctx.ob('no-wait', key, False, b.loc(e.line),
                   f'{e.callee.path} {why_not}; reachable on the render thread from {p.bodies[g_root(prev, u)].path} '
                   f'({why[g_root(prev, u)]})', g.chain(prev, u) + [e.callee.path])
    ctx.floor('no-wait', 'render thread roots', len(roots), 25)
    ctx.floor('no-wait', 'functions reachable on the render thread', len(prev), 150)
    ctx.floor('no-wait', 'device callbacks', ncb, 1)


def reply_slot(ctx, m, b, e):
    """one send into a reply channel that travels inside a control message and is made fresh, with room, by every sender"""
    c, t = e.callee, e.site
    if c.name != 'send' or c.krate != 'crossbeam_channel' or t.k != 'call' or t.bb in b.loops():
        return False
    r = ctx.sym.operand(b, t.args[0])
    if not (r[0] == 'field' and r[3] and r[3].startswith(m.ctrl_enum + '::')):
        return False
    var, fld = tail(r[3]), r[2]
    n = 0
    for x in ctx.p.bodies.values():
        for s in x.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == m.ctrl_enum and s.rv.agg.get('var') == var:
                op = dict(zip(s.rv.agg['f'], s.rv.ops))[fld]
                ch = chan_of(ctx.sym.operand(x, op))
                if not (op.kind == 'move' and ch and ch[3] == 'bounded' and ch[2][0][0] == 'const' and
                        isinstance(ch[2][0][1], int) and ch[2][0][1] >= 1):
                    return False
                # the sender is not used or duplicated otherwise
                for t2 in x.calls():
                    if t2.callee is not None and t2.callee.name in ('clone', 'send', 'try_send') and t2.args and \
                            chan_of(ctx.sym.operand(x, t2.args[0])) == ch and 'Sender' in (t2.callee.self_ty.s if t2.callee.self_ty else t2.callee.path):
                        return False
                n += 1
    return n > 0


def subject(ctx, b, e):
    """which lock or channel the call is about"""
    t = e.site
    if t.k != 'call' or not t.args or blocking(e.callee) is None or e.callee.krate not in ('std', 'crossbeam_channel') or '::io::' in e.callee.path:
        return ''
    x = ctx.sym.operand(b, t.args[0])
    i = ctx.guards.lock_expr_id(x, b)
    return f'({i})' if i else ''


def g_root(prev, u):
    while prev[u] is not None:
        u = prev[u][0]
    return u


def owner_of(ctx, b):
    """type (or function) that owns the code, stable under extraction of helpers within a type"""
    r = ctx.g.root_fn(b)
    st = r.self_ty
    if st is not None and st.strip().adt:
        return tail(st.strip().adt)
    return tail(r.path)


def slot_ok(ctx, m, b, e):
    """single-producer drain-then-send on a bounded channel owned by the processor"""
    c = e.callee
    if c.name != 'send' or c.krate != 'crossbeam_channel':
        return False
    t = e.site
    if t.k != 'call':
        return False
    r = ctx.sym.operand(b, t.args[0])
    if r[0] != 'field':
        return False
    owner, fname = r[3], r[2]
    # no clone of this sender anywhere
    p = ctx.p
    for x in p.bodies.values():
        for t2 in x.all_calls():
            if t2.callee is not None and t2.callee.name == 'clone' and t2.args:
                ex = ctx.sym.operand(x, t2.args[0])
                if ex[0] == 'field' and ex[2] == fname and ex[3] == owner:
                    return False
    # construction: sender and receiver fields come from one bounded(n >= 1) channel
    pair = None
    for x in p.bodies.values():
        for s in x.stmts():
            if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == owner:
                ags = dict(zip(s.rv.agg['f'], s.rv.ops))
                se = ctx.sym.operand(x, ags[fname])
                ch = chan_of(se)
                if ch is None:
                    return False
                cap = ch[2][0] if ch[2] else None
                if not (ch[3] == 'bounded' and cap and cap[0] == 'const' and isinstance(cap[1], int) and cap[1] >= 1):
                    return False
                recvs = [f for f, o in ags.items() if f != fname and chan_of(ctx.sym.operand(x, o)) == ch]
                if not recvs:
                    return False
                pair = recvs
    if not pair:
        return False
    # every path to the send passes a try_recv on the paired receiver
    drains = set()
    for t2 in b.calls():
        if t2.callee is not None and t2.callee.name == 'try_recv':
            ex = ctx.sym.operand(b, t2.args[0])
            if ex[0] == 'field' and ex[3] == owner and ex[2] in pair:
                drains.add(t2.bb)
    if not drains or t.bb in b.loops() and not any(d in b.loops() for d in drains):
        return False
    from flow import must_pass
    return must_pass(b, 0, [t.bb], drains)


def chan_of(e):
    """the channel constructor call an expression was projected from"""
    while isinstance(e, tuple):
        if e[0] == 'field':
            e = e[1]
        elif e[0] == 'call' and e[3] in ('bounded', 'unbounded', 'channel'):
            return e
        else:
            return None
    return None
