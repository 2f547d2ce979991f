"""C06: control changes reach the renderer in order and are never lost."""
import inline as inl
from cond import Conds, path_without
from ctrl import Ctrl
from flow import lines
from graphm import GraphModel, is_call
from model import mentions, tail
from sym import show, walk
from c01 import owner_of
from c08 import keep_inline, built_in

EXPLANATION = ('All places where control messages are sent, staged, queued, flushed, received or taken back are found by type. Path '
               'rules on the inlined functions decide that a message is either sent or staged, that staged messages are flushed '
               'completely, in order and before anything newer, that only the renderer receives while it may be running, that a '
               'renderer handles every message it receives with all of its contents, and that an audio graph taken back from a renderer '
               'is handed to a renderer again on every way out.')
TECHNIQUE = 'path (must-pass) and order rules on inlined MIR, guard liveness, who-may-receive analysis, whitelist of queue operations'
ASSUMPTIONS = ['A crossbeam channel delivers messages first-in first-out.']
NOTE = 'Every send, stage, flush and receive site of the program; all paths and interleavings by the locking discipline.'
SEQ = ('Vec', 'VecDeque', 'IntoIter', 'Drain', 'Iter', 'IterMut')
# operations that keep the order and the contents of a message collection
KEEP = {'new', 'with_capacity', 'push', 'push_back', 'append', 'extend', 'len', 'is_empty', 'into_iter', 'iter', 'iter_mut', 'next', 'for_each',
        'try_for_each', 'deref', 'deref_mut', 'index', 'index_mut', 'first', 'last', 'get', 'get_mut', 'as_ref', 'as_mut', 'take', 'default', 'collect',
        'from_iter', 'reserve', 'capacity', 'as_slice', 'enumerate', 'fmt', 'by_ref', 'fold', 'try_fold', 'any', 'all', 'size_hint', 'drop', 'unwrap_or_default',
        'drain', 'position', 'iter_mut', 'chain', 'map', 'inspect', 'peekable', 'as_mut_slice', 'swap_with', 'from', 'into', 'borrow', 'front', 'back', 'shrink_to_fit',
        'splice', 'split_off', 'contains', 'count', 'find', 'peek', 'fuse', 'for', 'append_all'}
# operations that hand out one message, front first
FRONT = {'remove', 'pop_front'}
BACK = {'pop', 'pop_back', 'swap_remove', 'swap_remove_back', 'swap_remove_front'}
FILTER = {'filter', 'retain', 'retain_mut', 'extract_if', 'drain_filter', 'filter_map', 'partition'}
SLOT_OK = {'lock', 'unwrap', 'expect', 'deref', 'deref_mut', 'as_mut', 'as_ref', 'is_some', 'is_none', 'get_or_insert_with', 'get_or_insert', 'take',
           'new', 'get_or_insert_default', 'unwrap_or_else', 'as_deref_mut', 'as_deref', 'is_some_and', 'is_none_or', 'map_or', 'fmt', 'into_inner', 'iter', 'map'}
RECV = {'recv', 'try_recv', 'try_iter', 'iter', 'recv_timeout', 'recv_deadline', 'into_iter'}


class Msgs(Ctrl):
    def is_msg(self, t):
        return t is not None and t.adt == self.enum

    def is_seq(self, ty):
        return ty is not None and ty.strip().adt is not None and tail(ty.strip().adt) in SEQ and \
            any(a.strip().adt == self.enum for a in ty.strip().args)

    def fields_with(self, pred):
        """(adt, field) of local types whose field type satisfies pred"""
        out = []
        for a in self.p.adts:
            for _, fn, ft in self.p.adt_fields(a):
                if mentions(ft, pred):
                    out.append((a, fn, ft))
        return out

    def slot_fields(self):
        return [(a, f) for a, f, _ in self.fields_with(
            lambda t: t.adt is not None and tail(t.adt) == 'Option' and t.args and self.is_seq(t.args[0]))]

    def queue_fields(self):
        sl = self.slot_fields()
        return [(a, f) for a, f, t in self.fields_with(self.is_seq) if (a, f) not in sl]

    def about(self, e, fields):
        return any(x[0] == 'field' and (x[3], x[2]) in fields for x in walk(e))

    def is_slot_ty(self, ty):
        ty = ty.strip() if ty is not None else None
        return ty is not None and ty.adt is not None and tail(ty.adt) == 'Option' and ty.args and self.is_seq(ty.args[0])

    def ordinary(self):
        return [v for v in self.variants() if v not in self.notify_variants() and v not in (self.recycle_variant(), self.startup_variant())]

    def senders(self):
        """functions that take a message by value and put it into the channel or the staging area, with the variants passed in"""
        out = []
        for b in self.p.bodies.values():
            if b.kind == 'Closure' or b.in_trait or not any(self.is_msg(b.lty(i)) for i in range(1, b.argc + 1)):
                continue
            ib = keep_inline(self.ctx, self, b)
            if not any(self.is_send(ib, t) for t in ib.calls()):
                continue
            vs = {v for e in self.g.rev[b.uid] for _, _, v in built_in(self, e.src)}
            out.append((b, ib, vs))
        return out


def param_of(b, C):
    return next(i for i in range(1, b.argc + 1) if C.is_msg(b.lty(i)))


def calls_with(ib, names):
    return [t for t in ib.calls() if t.callee is not None and t.callee.name in names]


def moved_msg(ctx, ib, t):
    """expression of the message handed to a send/push"""
    return ctx.sym.operand(ib, t.args[-1]) if t.args else ('?',)


def run(ctx):
    p, g = ctx.p, ctx.g
    C = Msgs(ctx)
    cd = Conds(ctx.sym)
    ctx.rule('one-channel', 'Control messages are only sent through the lock that serialises senders with a device change.')
    ctx.rule('sent-or-staged', 'An ordinary message is sent only when nothing is staged, and otherwise appended to the staged messages.')
    ctx.rule('stage-on-suspend', 'Before the renderer is asked to suspend, staging is switched on; an existing staging area is kept.')
    ctx.rule('flush', 'Leaving the staging mode sends all staged messages, front to back, with the staging lock held, before the request itself.')
    ctx.rule('order', 'Collections of messages are only used in ways that keep their order and contents.')
    ctx.rule('only-renderer-receives', 'Messages are received by the renderer only, or where the output device refused to run it.')
    ctx.rule('handled', 'Every message received by the renderer is dispatched, and its whole contents reach the audio graph.')
    ctx.rule('graph-kept', 'An audio graph taken back from a renderer is sent to a renderer on every path to the return.')
    ctx.rule('user-changes', 'Between application code that runs during an offline rendering and the next quantum the renderer receives the messages sent meanwhile.')
    ctx.rule('restored', 'Messages taken back are sent again on every path to the return.')
    user_changes(ctx, C, cd)
    slots, queues = C.slot_fields(), C.queue_fields()
    ctx.floor('sent-or-staged', 'staging areas', len(slots), 1)
    senders = C.senders()
    sender_uids = {b.uid for b, _, _ in senders}
    sender_paths = {b.path for b, _, _ in senders}

    def is_sent(ib, t):
        return C.is_send(ib, t) or t.k == 'call' and t.callee is not None and t.callee.uid in sender_uids

    # ---- one-channel
    n = 0
    roots = {}
    for b in p.bodies.values():
        if any(C.is_send(b, t) for t in b.calls()):
            r = g.root_fn(b)
            roots[r.uid] = r
    # closures of coroutines: use the body itself
    for r in roots.values():
        ib = inl.Inliner(p, g, lambda x: True, 3).run(r)
        ctx.seen(r)
        for t in ib.calls():
            if not C.is_send(ib, t):
                continue
            n += 1
            e = ctx.sym.operand(ib, t.args[0])
            m = moved_msg(ctx, ib, t)
            lock = any(x[0] == 'call' and x[3] in ('read', 'write', 'lock') and
                       any(y[0] == 'field' and y[3] in p.adts and mentions(p.field_ty(y[3], y[2]), C.is_sender) for y in walk(x)) for x in walk(e))
            first = m[0] == 'agg' and m[2] == C.startup_variant() and e[0] != 'arg' and \
                not any(x[0] in ('arg', 'up') for x in walk(e))
            ctx.ob('one-channel', f'{owner_of(ctx, r)} {r.name}: send({m[2] if m[0] == "agg" else "message"})', lock or first, ib.at(t.bb, t.line),
                   f'a message is sent through {show(e)}, outside the lock shared by all senders')
            c = t.callee
            ctx.ob('one-channel', f'{owner_of(ctx, r)} {r.name}: {c.name} waits for room', c.name == 'send', ib.at(t.bb, t.line),
                   f'{c.name} drops the message when the channel is full')
    ctx.floor('one-channel', 'send sites', n, 4)

    # ---- staged or sent
    n = 0
    ordinary = set(C.ordinary())

    def staged(e, v, what):
        if v == what and C.about(e, slots):
            return True
        return e[0] == 'call' and e[3] in ('is_some', 'is_none') and C.about(e, slots) and \
            (e[3] == 'is_some') == (v is True) == (what == 'Some') and v in (True, False)
    for b, ib, vs in senders:
        if not vs & ordinary:
            continue
        n += 1
        ctx.seen(b)
        key = owner_of(ctx, b)
        arg = ('arg', param_of(b, C))
        mine = lambda t: moved_msg(ctx, ib, t)[:2] == arg
        sends = {t.bb for t in ib.calls() if C.is_send(ib, t) and mine(t)}
        push = {t.bb for t in calls_with(ib, ('push', 'push_back')) if mine(t) and C.about(ctx.sym.operand(ib, t.args[0]), slots)}
        none = cd.edges_with(ib, lambda e, v: staged(e, v, 'None'))
        some = cd.edges_with(ib, lambda e, v: staged(e, v, 'Some'))
        w = path_without(ib, 0, sends, none)
        ctx.ob('sent-or-staged', f'{key}: sent while staging', w is None, b.loc(), 'a message can be sent although older ones are staged', w and lines(ib, w))
        rets = set(ib.return_blocks())
        for x, y in sorted(some):
            w = path_without(ib, y, rets, (), push) if y not in push else None
            ctx.ob('sent-or-staged', f'{key}: staged', w is None, ib.at(y, 0), 'a message is dropped while staging is on', w and lines(ib, w))
        for x, y in sorted(none):
            w = path_without(ib, y, rets, (), sends) if y not in sends else None
            ctx.ob('sent-or-staged', f'{key}: sent', w is None, ib.at(y, 0), 'a message is neither sent nor staged', w and lines(ib, w))
        closed = cd.edges_with(ib, lambda e, v: is_closed(C, e, v))
        w = path_without(ib, 0, rets, closed, sends | push)
        ctx.ob('sent-or-staged', f'{key}: not closed', w is None, b.loc(), 'a message is dropped although the context is not closed', w and lines(ib, w))
        ctx.floor('sent-or-staged', 'staging branches', min(len(some), len(none), len(push), len(sends)), 1)
        # the check and the append happen under one acquisition
        acq = {x[4] for t in ib.calls() if t.bb in push for x in walk(ctx.sym.operand(ib, t.args[0])) if x[0] == 'call' and x[3] == 'lock'}
        chk = {x[4] for xx, yy in some for e, v in cd.edge(ib, xx, yy) for x in walk(e) if x[0] == 'call' and x[3] == 'lock'}
        ctx.ob('sent-or-staged', f'{key}: check and append atomic', acq <= chk, b.loc(), 'the staging area is checked and appended to under different acquisitions of its lock')
    ctx.floor('sent-or-staged', 'senders of ordinary messages', n, 1)

    # ---- requests
    suspend = {v for v in C.notify_variants() if v.lower().startswith('suspend')}
    n = m_ = 0
    for b, ib, vs in senders:
        arg = ('arg', param_of(b, C))
        sends = {t.bb: t for t in ib.calls() if C.is_send(ib, t)}
        own = {x for x, t in sends.items() if moved_msg(ctx, ib, t)[:2] == arg}
        key = owner_of(ctx, b)
        if vs & suspend:
            n += 1
            ctx.seen(b)
            on = {t.bb for t in calls_with(ib, ('get_or_insert_with', 'get_or_insert', 'get_or_insert_default')) if C.about(ctx.sym.operand(ib, t.args[0]), slots)}
            on |= {s.bb for s in ib.stmts() if s.kind == '=' and C.is_slot_ty(ib.place_ty(s.place)) and C.about(ctx.sym.place(ib, s.place), slots)}
            keep = cd.edges_with(ib, lambda e, v: staged(e, v, 'Some'))
            w = path_without(ib, 0, own, keep, on)
            ctx.ob('stage-on-suspend', f'{key} {b.name}', w is None and bool(own), b.loc(), 'the renderer is suspended with staging switched off', w and lines(ib, w))
        takes = [t for t in calls_with(ib, ('take', 'replace')) if C.about(ctx.sym.operand(ib, t.args[0]), slots)]
        if not takes:
            continue
        m_ += 1
        ctx.seen(b)
        # flushing loop: every element obtained from the taken collection is sent
        nexts = [t for t in calls_with(ib, ('next', 'pop_front')) if any(x[0] == 'call' and x[3] in ('take', 'replace') and C.about(x, slots)
                                                                       for x in walk(ctx.sym.operand(ib, t.args[0])))]
        loops = [t for t in ib.calls() if is_call(t, 'for_each', 'try_for_each') and any(
            x[0] == 'call' and x[3] in ('take', 'replace') and C.about(x, slots) for x in walk(ctx.sym.operand(ib, t.args[0])))]
        from_taken = {x for x, t in sends.items() if x not in own}
        fail = cd.edges_with(ib, lambda e, v: e[0] == 'call' and e[3] in ('is_ok', 'send') and v in (False, 'Err') and
                             any(x[0] == 'call' and x[3] == 'send' for x in walk(e)))
        rets = set(ib.return_blocks())
        heads = {t.bb for t in nexts} | {t.bb for t in loops}
        ctx.ob('flush', f'{key} {b.name}: flushed', bool(heads) and bool(from_taken), b.loc(), 'the staged messages are taken but not sent')
        for t in takes:
            w = path_without(ib, t.bb, own | rets, fail, heads) if heads else None
            ctx.ob('flush', f'{key} {b.name}: before the request', w is None, ib.at(t.bb, t.line),
                   'the request can be sent (or the function left) before the staged messages are flushed', w and lines(ib, w))
        for t in nexts:
            some = cd.edges_with(ib, lambda e, v: v == 'Some' and any(x[0] == 'call' and x[4] == (t.bb,) for x in walk(e)))
            for x, y in some:
                w = path_without(ib, y, {t.bb} | rets | own, fail, from_taken) if y not in from_taken else None
                ctx.ob('flush', f'{key} {b.name}: each message', w is None, ib.at(y, 0), 'a staged message is skipped', w and lines(ib, w))
            none = cd.edges_with(ib, lambda e, v: v == 'None' and any(x[0] == 'call' and x[4] == (t.bb,) for x in walk(e)))
            for s in own:
                w = path_without(ib, t.bb, {s}, none)
                ctx.ob('flush', f'{key} {b.name}: complete before the request', w is None, ib.at(s, 0),
                       'the request is sent before all staged messages are', w and lines(ib, w))
        # staging lock held while flushing
        acq = {x[4] for t in takes for x in walk(ctx.sym.operand(ib, t.args[0])) if x[0] == 'call' and x[3] == 'lock'}
        for x in sorted(from_taken | own):
            held = ctx.guards.live_at_call(ib, x)
            ok = any(tail(a) + '.' + f in held for a, f in slots)
            ctx.ob('flush', f'{key} {b.name}: staging lock held', ok, ib.at(x, 0), 'a newer message can overtake the staged ones: the staging lock is not held')
        del acq
    ctx.floor('stage-on-suspend', 'suspending functions', n, 1)
    ctx.floor('flush', 'flushing functions', m_, 1)

    # ---- slot and queue operations
    n = 0
    for b in p.bodies.values():
        for s in b.stmts():
            if s.kind == '=' and s.place.proj and C.is_slot_ty(b.place_ty(s.place)) and C.about(ctx.sym.place(b, s.place), slots):
                e = ctx.sym.rvalue(b, s.rv)
                ok = e[0] == 'agg' and e[2] == 'Some' and any(staged(x, v, 'None') for x, v in cd.at(b, s.bb))
                ctx.ob('order', f'{owner_of(ctx, b)}: staging area overwritten', ok, b.loc(s.line), 'staged messages are discarded by overwriting the staging area')
        for t in b.calls():
            c = t.callee
            if c is None or not t.args:
                continue
            a0 = C.gm.op_ty(b, t.args[0])
            st = a0.strip() if a0 is not None else None
            if C.is_slot_ty(st) and c.krate in ('core', 'std', 'alloc') and c.name not in SLOT_OK | KEEP:
                n += 1
                ctx.seen(b)
                ctx.ob('order', f'{owner_of(ctx, b)}: {c.name} of the staging area', False, b.loc(t.line), f'{c.name} can discard staged messages')
            if not (C.is_seq(st) or is_iter_of(C, st)) or c.uid in p.bodies:
                continue
            n += 1
            ctx.seen(b)
            key = f'{owner_of(ctx, b)} {g.root_fn(b).name}: {c.name}'
            if c.name in FRONT:
                ok = True
            elif c.name in BACK:
                fs = [(a, f) for a, f in queues if C.about(ctx.sym.operand(b, t.args[0]), [(a, f)])]
                ok = bool(fs) and all(pushed(ctx, C, f) == {C.m.register_variant} for f in fs)
            elif c.name in FILTER:
                ok = keeps_ordinary(ctx, C, cd, b, t)
            elif c.name in ('rev', 'reverse', 'sort', 'swap', 'rotate_left', 'rotate_right', 'insert', 'push_front', 'clear', 'truncate', 'skip', 'take_while',
                            'skip_while', 'step_by', 'nth', 'rfold', 'next_back', 'dedup', 'sort_by', 'sort_by_key', 'last', 'split_off', 'splice', 'retain'):
                ok = False
            elif c.name == 'take' and tail(st.adt or '') != 'Vec':
                ok = False
            else:
                ok = True
            ctx.ob('order', key, ok, b.loc(t.line), f'{c.name} on a collection of control messages can drop or reorder them')
    ctx.floor('order', 'operations on message collections', n, 5)

    # ---- messages taken out one by one are sent
    for b in p.bodies.values():
        for t in b.calls():
            if t.callee is None or t.callee.name not in FRONT | BACK or not t.args or not C.is_seq(C.gm.op_ty(b, t.args[0])):
                continue
            sent = {u.bb for u in b.calls() if is_sent(b, u) and any(x[0] == 'call' and x[3] == t.callee.name and x[4] == (t.bb,)
                                                                    for x in walk(moved_msg(ctx, b, u)))}
            none = cd.edges_with(b, lambda e, v: v == 'None' and any(x[0] == 'call' and x[4] == (t.bb,) for x in walk(e)))
            goals = set(b.return_blocks()) | {t.bb}
            w = None
            for y in b.succs[t.bb]:
                if y not in sent:
                    w = w or path_without(b, y, goals, none, sent)
            ctx.ob('restored', f'{owner_of(ctx, b)} {g.root_fn(b).name}: {t.callee.name}', w is None, b.loc(t.line), 'a queued message is taken out and not sent', w and lines(b, w))

    # ---- who receives
    rt = C.m.render_thread
    n = 0
    for b in p.bodies.values():
        for t in b.calls():
            c = t.callee
            if c is None or c.name not in RECV or c.krate != 'crossbeam_channel' or c.self_ty is None:
                continue
            ty = c.self_ty.strip()
            if ty.adt is None or tail(ty.adt) != 'Receiver' or not ty.args or not C.is_msg(ty.args[0]):
                continue
            n += 1
            ctx.seen(b)
            r = g.root_fn(b)
            if r.self_ty is not None and r.self_ty.strip().adt == rt:
                handled(ctx, C, cd, b)
                continue
            refused = cd.edges_with(b, lambda e, v: v in ('Err', False) and any(
                x[0] == 'call' and x[3] == 'resume' and is_backend(ctx, C, b, x) for x in walk(e)))
            w = path_without(b, 0, {t.bb}, refused)
            ctx.ob('only-renderer-receives', f'{owner_of(ctx, b)} {r.name}', w is None, b.loc(t.line),
                   'messages are received while the renderer may receive too: they are handled out of order', w and lines(b, w))
            ib = inl.Inliner(p, g, lambda x: True, 3).run(b)
            drains = [x for x in ib.calls() if x.callee is not None and x.callee.name == c.name and x.callee.self_ty is not None and
                      C.is_msg(next(iter(x.callee.self_ty.strip().args), None))]
            again = {x.bb for x in ib.calls() if C.is_send(ib, x) and not moved_msg(ctx, ib, x)[0] == 'agg'}
            loops = {x.bb for x in ib.calls() if is_call(x, 'for_each', 'next', 'try_for_each') and any(
                y[0] == 'call' and y[3] == c.name for y in walk(ctx.sym.operand(ib, x.args[0])))}
            loops |= {x.bb for x in b.calls() if is_call(x, 'for_each', 'try_for_each') and any(
                y[0] == 'call' and y[3] == c.name for y in walk(ctx.sym.operand(b, x.args[0])))}
            for d in drains:
                w = path_without(b, t.bb, set(b.return_blocks()), (), loops) if loops else [t.bb]
                ctx.ob('restored', f'{owner_of(ctx, b)} {r.name}: received messages', w is None and bool(again), b.loc(t.line),
                       'messages taken out of the channel are not sent again', w and lines(b, w))
    ctx.floor('only-renderer-receives', 'receivers', n, 1)

    # ---- graph kept
    n = 0
    for b in p.bodies.values():
        for t in b.calls():
            c = t.callee
            if c is None or c.name not in ('recv', 'recv_timeout', 'try_recv') or c.self_ty is None or not c.self_ty.strip().args or \
                    c.self_ty.strip().args[0].adt != C.m.graph:
                continue
            n += 1
            ctx.seen(b)
            ib = inl.Inliner(p, g, lambda x: True, 3).run(b)
            t2 = [x for x in ib.calls() if x.callee is not None and x.callee.path == c.path and x.bb == t.bb] or [t]
            ships = set()
            for u in ib.calls():
                if C.is_send(ib, u):
                    e = moved_msg(ctx, ib, u)
                    if e[0] == 'agg' and e[2] == C.startup_variant() and any(x[0] == 'call' and x[4] == (t2[0].bb,) for x in walk(e)):
                        ships.add(u.bb)
            failed = cd.edges_with(ib, lambda e, v: v in ('Err', False) and e[0] == 'call' and e[4] == (t2[0].bb,))
            w = path_without(ib, t2[0].bb, set(ib.return_blocks()), failed, ships)
            ctx.ob('graph-kept', f'{owner_of(ctx, b)} {g.root_fn(b).name}', w is None, b.loc(t.line), 'the audio graph (and every pending change) is dropped on this path', w and lines(ib, w))
            # nobody else can send in between: both messages go through the same acquisition of the lock
            acq = lambda u: frozenset(x[4] for x in walk(ctx.sym.operand(ib, u.args[0])) if x[0] == 'call' and x[3] in ('write', 'lock', 'read'))
            rec = [u for u in ib.calls() if C.is_send(ib, u) and moved_msg(ctx, ib, u)[0] == 'agg' and moved_msg(ctx, ib, u)[2] == C.recycle_variant()]
            exclusive = all(any(x[0] == 'call' and x[3] in ('write', 'lock') for x in walk(ctx.sym.operand(ib, u.args[0]))) for u in rec)
            same = {acq(u) for u in rec} | {acq(u) for u in ib.calls() if u.bb in ships}
            ctx.ob('graph-kept', f'{owner_of(ctx, b)} {g.root_fn(b).name}: exclusive', len(same) == 1 and exclusive and bool(rec), b.loc(t.line),
                   'other messages can be sent between shutting down a renderer and handing its graph to the next one')
    ctx.floor('graph-kept', 'places that take the graph back', n, 1)

    # ---- queued connections released after the node they wait for is registered
    n = 0
    for b, s, v in C.built({C.m.register_variant}):
        ib = keep_inline(ctx, C, b)
        qf = [(a, f) for a, f in queues if pushed(ctx, C, (a, f)) and pushed(ctx, C, (a, f)) != {C.m.register_variant}]
        if not qf:
            continue
        n += 1
        ctx.seen(b)
        sends = {t.bb for t in ib.calls() if C.is_send(ib, t) or t.callee is not None and t.callee.uid in sender_uids}
        rel = {t.bb for t in ib.calls() if is_call(t, 'lock') and C.about(ctx.sym.operand(ib, t.args[0]), qf)}
        for x in sorted(sends):
            reg = any(y[0] == 'agg' and y[2] == v for y in walk(moved_msg(ctx, ib, ib.blocks[x].term)))
            if reg:
                w = path_without(ib, x, set(ib.return_blocks()), (), rel)
                ctx.ob('restored', f'{owner_of(ctx, b)} {g.root_fn(b).name}: connections waiting for a node', w is None, ib.at(x, 0),
                       'connections that wait for this node are not released', w and lines(ib, w))
    del sender_paths


def is_iter_of(C, st):
    return st is not None and st.adt is not None and st.adt not in C.p.adts and tail(st.adt) not in ('Option', 'Result', 'RwLock', 'Mutex', 'MutexGuard', 'PoisonError',
        'RwLockReadGuard', 'RwLockWriteGuard', 'Sender', 'Receiver', 'SendError', 'Arc', 'Box', 'TrySendError') and any(C.is_seq(a) for a in st.args)


def is_backend(ctx, C, b, x):
    t = b.blocks[x[4][0]].term
    return t.k == 'call' and t.callee is not None and t.callee.trait == C.m.backend_trait


def pushed(ctx, C, field):
    """variants appended to a queue field anywhere"""
    out = set()
    for b in ctx.p.bodies.values():
        for t in b.calls():
            if is_call(t, 'push', 'push_back', 'extend', 'append', 'insert') and t.args and C.is_seq(C.gm.op_ty(b, t.args[0])) and \
                    C.about(ctx.sym.operand(b, t.args[0]), [field]):
                e = ctx.sym.operand(b, t.args[-1])
                out.add(e[2] if e[0] == 'agg' and e[1] == C.enum else '?')
    return out


def keeps_ordinary(ctx, C, cd, b, t):
    """the predicate rejects nothing but the shutdown command the function itself sent"""
    e = ctx.sym.operand(b, t.args[-1])
    cl = ctx.p.bodies.get(e[1]) if e[0] == 'closure' else None
    if cl is None or cl.lty(0).s != 'bool':
        return False
    for s in cl.stmts():
        if s.kind == '=' and s.place.local == 0:
            x = ctx.sym.rvalue(cl, s.rv)
            x, truth = cd.norm(x, False)
            facts = cd.imply(cl, x, truth) + cd.at(cl, s.bb)
            if x[0] == 'const' and bool(x[1]) != truth:
                continue
            if not any(v == C.recycle_variant() for _, v in facts):
                return False
    return True


def is_closed(C, e, v):
    """fact that says the context is closed"""
    if e[0] == 'call' and e[3] == 'eq' and len(e[2]) == 2:
        k = [x for x in e[2] if x[0] == 'agg' and x[1] == C.state]
        return len(k) == 1 and k[0][2] == 'Closed' and v is True
    return v == 'Closed'


def user_changes(ctx, C, cd):
    """a rendering that application code can interrupt looks at its messages before it renders on"""
    p, g, m = ctx.p, ctx.g, C.m

    def receives(t):
        c = t.callee
        ty = c.self_ty.strip() if c is not None and c.self_ty is not None else None
        return ty is not None and c.krate == 'crossbeam_channel' and c.name in RECV and bool(ty.args) and C.is_msg(ty.args[0])

    can = {'render': g.can_reach({b.uid for b in GraphModel(ctx).render_entries()}),
           'receive': g.can_reach({b.uid for b in p.bodies.values() if any(receives(t) for t in b.calls())}),
           'user': g.can_reach({b.uid for b in p.bodies.values() if any(e.kind == 'usercall' for e in g.edges(b))})}
    n = 0
    for b in list(p.bodies.values()):
        r = g.root_fn(b)
        if r.self_ty is None or r.self_ty.strip().adt != m.render_thread:
            continue
        at = {}
        for x in g.edges(b):
            k = at.setdefault(getattr(x.site, 'bb', None), set())
            if x.kind == 'usercall':
                k.add('user')
            elif x.dst is not None and x.kind in g.SYNC:
                k |= {w for w in can if x.dst.uid in can[w]}
        at.pop(None, None)
        ren = {x for x, k in at.items() if 'render' in k and 'receive' not in k}
        rec = {x for x, k in at.items() if 'receive' in k}
        user = {x for x, k in at.items() if 'user' in k and not k & {'render', 'receive'}}
        user |= {x.i for x in b.blocks if x.term.k == 'yield' and x.i in b.live_blocks}
        if not ren or not user:
            continue
        ctx.seen(b)
        for x in sorted(user):
            n += 1
            t = b.blocks[x].term
            quiet = cd.edges_with(b, lambda e, v: e[0] == 'call' and e[4] == (x,) and v is False)
            w = None
            for y in b.succs[x]:
                w = w or ([y] if y in ren else path_without(b, y, ren, quiet, rec) if y not in rec else None)
            what = tail(t.callee.path) if t.k == 'call' and t.callee is not None else 'a pause'
            ctx.ob('user-changes', f'{owner_of(ctx, b)}: {what}', w is None, b.at(x, t.line),
                   'the next quantum is rendered without receiving the changes that application code made meanwhile', w and lines(b, w))
    ctx.floor('user-changes', 'interruptions of offline rendering', n, 2)


def handled(ctx, C, cd, b):
    """in the renderer: each received message reaches the dispatch"""
    p = ctx.p
    ib = inl.Inliner(p, ctx.g, lambda x: x.self_ty is None or x.self_ty.strip().adt == C.m.render_thread, 3).run(b)
    disp = {blk.i for blk in ib.blocks if blk.term.k == 'switch' and blk.term.d.get('enum') == C.enum and len(blk.term.d['cases']) >= 3 and blk.i in ib.live_blocks}
    rec = [t for t in ib.calls() if t.callee is not None and t.callee.name in RECV and t.callee.krate == 'crossbeam_channel' and
           t.callee.self_ty is not None and t.callee.self_ty.strip().args and C.is_msg(t.callee.self_ty.strip().args[0])]
    goals = set(ib.return_blocks()) | {t.bb for t in rec}
    for t in rec:
        ok = cd.edges_with(ib, lambda e, v: v in ('Ok', 'Some') and e[0] == 'call' and e[4] == (t.bb,))
        ctx.ob('handled', f'{owner_of(ctx, b)}: received', bool(ok) and bool(disp), b.loc(t.line), 'received messages are not dispatched')
        for x, y in sorted(ok):
            w = path_without(ib, y, goals, (), disp) if y not in disp else None
            ctx.ob('handled', f'{owner_of(ctx, b)}: every message', w is None, ib.at(y, 0), 'a received message is dropped without being handled', w and lines(ib, w))
    arms = C.arms(ib)
    n = 0
    for v in C.ordinary():
        fs = C.m.variant_fields(C.enum, v)
        if not any(ft.adt == C.m.node_id for _, ft in fs):
            continue
        n += 1
        names = {fn for fn, _ in fs}
        calls = set()
        for t in ib.calls():
            c = t.callee
            if c is None or c.self_ty is None or c.self_ty.strip().adt != C.m.graph:
                continue
            got = {x[2] for a in t.args for x in walk(ctx.sym.operand(ib, a)) if x[0] == 'field' and x[1][0] == 'dc' and x[1][2] == v}
            if names <= got:
                calls.add(t.bb)
        for a in sorted(arms.get(v, ())):
            w = path_without(ib, a, goals, (), calls) if a not in calls else None
            ctx.ob('handled', f'{v}: applied', w is None and bool(calls), ib.at(a, 0), f'a {v} message is not (fully) applied to the audio graph', w and lines(ib, w))
        if not arms.get(v):
            ctx.ob('handled', f'{v}: applied', False, b.loc(), f'a {v} message is not handled')
    ctx.floor('handled', 'message kinds about nodes', n, 5)
