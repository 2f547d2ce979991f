"""C14: every quantum starts from silence and rewrites outputs."""
import inline as inl
from cond import Conds, path_without
from ctrl import Ctrl
from flow import lines
from graphm import is_call
from loops import drivers, ends, headers, natural, resolve
from model import mentions, tail
from nodes import pairs
from sym import show, walk
from c01 import owner_of
from c13 import Order

EXPLANATION = ('Graph side: on every path from the processing of a node to the next one its inputs are silenced or the node is removed, and the '
               'nodes left out because of a cycle get their inputs and outputs silenced before rendering returns. Node side: in every built-in '
               'processing function, with its helpers and closures inlined, all writes to the output blocks are located by tracing the written '
               'place back through iterators, zips and accessors to the outputs argument; a return may not be reached without the output having '
               'been replaced, silenced or filled by a loop that writes in each iteration and is not left early, and output samples may not be '
               'read before that. Outputs set to a fixed number of channels must have each of them filled.')
TECHNIQUE = 'must-write dataflow over inlined MIR with loop summaries, tracing of written places through iterator adapters'
ASSUMPTIONS = ['A loop over the samples or channels of an output covers all of them unless an adapter that shortens it is applied.',
               'Library and resampler/convolver calls that are given an output slice fill it.']
NOTE = 'All branches of every built-in processor and of the graph renderer.'
RMW = ('mix', 'add', 'modify_channels')
ASSIGN_OPS = ('mul_assign', 'add_assign', 'sub_assign', 'div_assign')
BULK = ('copy_from_slice', 'clone_from_slice', 'fill', 'fill_with', 'swap_with_slice')
SHORT = ('take', 'skip', 'step_by', 'filter', 'take_while', 'skip_while', 'map_while', 'chunks_exact_mut', 'first_mut', 'last_mut', 'split_first_mut')
COPIES = ('clone', 'cloned', 'copied', 'to_vec', 'to_owned', 'collect', 'replace')
QUANTUM, CHANNEL = 'AudioRenderQuantum', 'AudioRenderQuantumChannel'


def quantum_free(q):
    """inline everything but the methods of the buffer types"""
    st = q.self_ty
    return not (st is not None and st.strip().adt and tail(st.strip().adt) in (QUANTUM, CHANNEL, 'AudioBuffer', 'ChannelData', 'Alloc', 'AudioParamValues'))


def base(e):
    """chain of the expression down to its root"""
    out = [e]
    while isinstance(e, tuple):
        if e[0] in ('field', 'idx', 'dc', 'elem', 'mapped', 'sub', 'cast'):
            e = e[1]
        elif e[0] == 'call' and e[2] and e[3] not in COPIES:
            e = e[2][0]
        elif e[0] == 'phi':
            cs = [x for x in e[2]]
            for c in cs:
                b = base(c)
                if b[-1][0] == 'arg':
                    return out + b
            break
        else:
            break
        out.append(e)
    return out


class Writes:
    """writes to the outputs of one processing function"""

    def __init__(self, ctx, C, body):
        self.ctx, self.C, self.p, self.sym = ctx, C, ctx.p, ctx.sym
        self.b = inl.Inliner(ctx.p, ctx.g, quantum_free, 6).run(body)
        b = self.b
        self.arg = None
        for i in range(1, b.argc + 1):
            t = b.lty(i)
            if t.s.startswith('&mut') and QUANTUM in t.s:
                self.arg = i
        self.strong, self.fill, self.read = set(), [], []     # blocks; (block, channel); (block, line, what)
        self.sizes = []
        self.single = set()
        if self.arg is not None:
            self._collect()

    def target(self, e):
        """(chain) if the expression denotes a part of the outputs"""
        c = base(resolve(self.sym, self.b, e))
        return c if c[-1][:2] == ('arg', self.arg) else None

    def channel(self, chain):
        for x in chain:
            if x[0] == 'call' and x[3] == 'channel_data_mut' and len(x[2]) > 1:
                k = x[2][1]
                return k[1] if k[0] == 'const' else 'any'
            if x[0] == 'idx' and x[1][0] == 'call' and x[1][3] == 'stereo_mut':
                return x[2][1] if x[2][0] == 'const' else 'any'
        return 'any'

    def partial(self, chain):
        for x in chain:
            if x[0] == 'call' and x[3] in SHORT:
                return True
            if x[0] == 'call' and x[3] in ('index_mut', 'index') and len(x[2]) > 1 and not (x[2][1][0] == 'agg' and tail(x[2][1][1]) == 'RangeFull'):
                return x[2][1][0] == 'agg'
        return False

    def _collect(self):
        b, sym = self.b, self.sym
        for t in b.calls():
            if t.bb in b.live_blocks and is_call(t, 'set_single_valued') and self.target(sym.operand(b, t.args[0])):
                v = sym.operand(b, t.args[1])
                if v[0] == 'const' and v[1]:
                    self.single.add(t.bb)
        for s in b.stmts():
            if s.kind != '=' or s.bb not in b.live_blocks:
                continue
            if s.place.proj:
                ty = b.place_ty(s.place)
                n = tail(ty.adt) if ty.adt else ty.s
                if n in (QUANTUM, CHANNEL, 'f32'):
                    c = self.target(sym.place(b, s.place))
                    if c:
                        if n == QUANTUM:
                            self.strong.add(s.bb)
                        elif not self.partial(c) and not (n == 'f32' and self._one(c, s.bb)):
                            self.fill.append((s.bb, self.channel(c)))
            for o in s.rv.ops:
                if o.place is not None and '*' in o.place.proj and b.pty(o.place).s == 'f32' and _mutref(b, o.place):
                    if self.target(sym.place(b, o.place)):
                        self.read.append((s.bb, s.line, 'sample'))
        for t in b.calls():
            if t.bb not in b.live_blocks or t.callee is None or not t.args:
                continue
            nm = t.callee.name
            for k, a in enumerate(t.args):
                ty = self.C.gm.op_ty(b, a)
                if ty is None:
                    continue
                if nm in ('for_each',) and k == 1:
                    f = sym.operand(b, a)
                    if f[0] == 'fn' and f[1].endswith('::make_silent') and self.target(sym.operand(b, t.args[0])) and \
                            not self.partial(self.target(sym.operand(b, t.args[0]))):
                        self.strong.add(t.bb)
                if not ty.s.startswith('&mut'):
                    continue
                c = self.target(sym.operand(b, a))
                if not c or own_value(b, a):
                    continue
                el = ty.strip()
                q = tail(el.adt) if el.adt else el.s
                if q == QUANTUM:
                    if nm in ('make_silent', 'clone_from') and k == 0:
                        self.strong.add(t.bb)
                    elif nm in RMW and k == 0:
                        self.read.append((t.bb, t.line, nm))
                    elif nm == 'set_number_of_channels':
                        self.sizes.append((t.bb, t.line, sym.operand(b, t.args[1])))
                    elif nm in ('swap', 'replace', 'take') and t.callee.krate in ('core', 'std'):
                        self.strong.add(t.bb)
                elif nm in ASSIGN_OPS and q == 'f32':
                    self.fill.append((t.bb, self.channel(c)))
                    self.read.append((t.bb, t.line, 'sample'))
                elif nm in BULK and k == 0:
                    if not self.partial(c):
                        self.fill.append((t.bb, self.channel(c)))
                elif q in ('[f32]', CHANNEL) or q.startswith('[f32;'):
                    if t.callee.krate not in ('core', 'std', 'alloc') and not (t.callee.self_ty is not None and t.callee.self_ty.strip().adt and
                                                                               tail(t.callee.self_ty.strip().adt) in (QUANTUM, CHANNEL)):
                        if not self.partial(c) and t.callee.trait is None or t.callee.trait is not None and tail(t.callee.trait) not in ('DerefMut', 'IndexMut', 'AsMut', 'IntoIterator', 'Iterator'):
                            self.fill.append((t.bb, self.channel(c)))

    def _one(self, chain, bb):
        """assignment of one fixed sample: only complete when the block is marked as single valued"""
        for x in chain:
            if x[0] == 'idx' and x[2][0] == 'const' and not (x[1][0] == 'call' and x[1][3] == 'stereo_mut') or \
                    x[0] == 'call' and x[3] == 'index_mut' and len(x[2]) > 1 and x[2][1][0] == 'const':
                if x[1][:2] == ('arg', self.arg):
                    continue
                return not any(self.b.dominates(s, bb) for s in self.single)
        return False

    def used(self):
        return any(o.place is not None and o.place.local == self.arg for s in self.b.stmts() if s.kind == '=' for o in s.rv.ops) or \
            any(s.rv.place is not None and s.rv.place.local == self.arg for s in self.b.stmts() if s.kind == '=') or \
            any(a.place is not None and a.place.local == self.arg for t in self.b.calls() for a in t.args)

    def cover(self, ch=None):
        """(through blocks, cut edges): what determines the content of channel ch (None: of some channel)"""
        b = self.b
        ev = set(self.strong) | {bb for bb, c in self.fill if ch is None or c in ('any', ch)}
        cut = set()
        nat = natural(b)
        for h in sorted(nat, key=lambda h: len(nat[h])):
            L = nat[h]
            if not (ev & L) and not any(s in L for s, _ in cut):
                continue
            en = ends(b, h, L)
            own = head(b, h, {x for x, _ in en})
            if any(self._short(e) for bb, e, _ in drivers(self.sym, b, L) if bb in own):
                continue
            bad = None
            for x, _ in en:
                for y in b.succs[x]:
                    if y in L and y not in ev:
                        bad = bad or _back(b, y, h, L, cut, ev)
            if bad is None:
                cut |= en
        return ev, cut

    def _short(self, e):
        for x in adapters(e):
            if x[3] == 'take' and len(x[2]) > 1 and x[2][1][0] == 'const' and isinstance(x[2][1][1], int) and x[2][1][1] >= 128:
                continue
            if x[3] in SHORT and (x[3] not in ('take', 'skip') or base(resolve(self.sym, self.b, x))[-1][:2] == ('arg', self.arg)):
                return True
        return False


def own_value(b, a):
    """the reference is to a block held in a local variable, such as a copy"""
    seen = set()
    while a.place is not None and not a.place.proj and a.place.local not in seen:
        seen.add(a.place.local)
        ds = b.defs.get(a.place.local, [])
        if len(ds) != 1 or not hasattr(ds[0], 'rv'):
            return False
        rv = ds[0].rv
        if rv.k == 'use':
            a = rv.ops[0]
        elif rv.k == 'refmut':
            if '*' not in rv.place.proj:
                t = b.lty(rv.place.local)
                return t.adt is not None and tail(t.adt) in (QUANTUM, CHANNEL)
            if rv.place.proj != ['*'] and rv.place.proj != ('*',):
                return False
            a = _Op(rv.place.local)
        else:
            return False
    return False


class _Op:
    def __init__(self, l):
        self.place = _Pl(l)


class _Pl:
    def __init__(self, l):
        self.local, self.proj = l, ()


def adapters(e):
    """iterator adapters applied on the way to the elements, in all zipped iterators"""
    if isinstance(e, tuple) and e[0] == 'call' and e[2]:
        yield e
        for a in e[2] if e[3] in ('zip', 'chain') else e[2][:1]:
            yield from adapters(a)


def head(b, h, last):
    """blocks from the header to the first branch"""
    out, x = [h], h
    while x not in last and len(set(b.succs[x])) == 1 and b.succs[x][0] not in out:
        x = b.succs[x][0]
        out.append(x)
    return set(out)


def _mutref(b, pl):
    t = b.lty(pl.local)
    return '&mut' in t.s or not t.s.startswith('&')


def _back(b, y, h, L, cut, ev):
    prev, q = {y: None}, [y]
    while q:
        x = q.pop(0)
        if x == h:
            return x
        for z in b.succs[x]:
            if z in L and z not in prev and z not in ev and (x, z) not in cut:
                prev[z] = x
                q.append(z)
    return None


def outputs_of(ctx, C, proc):
    """numbers of outputs (constants) declared by the nodes that use this processor; None if not constant"""
    out = set()
    for pr in pairs(ctx, C.m):
        if pr.proc != proc:
            continue
        for b in ctx.p.methods_of(pr.node, 'number_of_outputs'):
            e = ctx.sym.local(b, 0)
            out.add(e[1] if e[0] == 'const' else None)
    return out


def run(ctx):
    C = Ctrl(ctx)
    p, g, sym, m, gm = ctx.p, ctx.g, ctx.sym, C.m, C.gm
    cd = Conds(sym)
    ctx.rule('inputs-reset', 'After a node was processed its inputs are silenced before the next node is processed, unless the node is removed.')
    ctx.rule('cycle-silenced', 'Nodes that are skipped because of a cycle have their inputs and outputs silenced before rendering returns.')
    ctx.rule('written', 'On every path through the processing function of a built-in node the outputs are replaced, silenced or completely filled.')
    ctx.rule('channels', 'When the number of channels of an output is set to a fixed value, each of these channels is filled.')
    ctx.rule('no-stale-read', 'Output samples are read or mixed into only after they were determined in the same call.')
    ctx.rule('single-value', 'A loop that fills a block is not cut short by a parameter that delivers a single value.')
    graph_rules(ctx, C, cd)
    n = 0
    for adt, ms in sorted(m.processors().items()):
        b0 = ms.get('process')
        if b0 is None:
            continue
        if outputs_of(ctx, C, adt) == {0}:
            continue
        W = Writes(ctx, C, b0)
        b = W.b
        for x in b.origin:
            ctx.seen(x)
        n += 1
        key = tail(adt)
        if W.arg is None or not W.used():
            continue       # blocks nobody writes to stay silent
        rets = set(b.return_blocks())
        through, cut = W.cover()
        empty = cd.edges_with(b, lambda e, v: _no_channels(e, v) or _no_outputs(e, v, W))
        w = None if 0 in through else path_without(b, 0, rets, cut | empty, through)
        ctx.ob('written', key, w is None, b0.loc(b0.line), 'a return is reached without the output having been determined in this quantum', w and lines(b, w))
        for bb, line, what in W.read:
            tr = through - {bb}
            w = None if 0 in tr else path_without(b, 0, {bb}, cut | empty, tr)
            ctx.ob('no-stale-read', f'{key}: {what}', w is None, b.at(bb, line), 'the content of an output from an earlier quantum is used', w and lines(b, w))
        szb = {bb for bb, _, _ in W.sizes}
        for bb, line, e in W.sizes:
            if e[0] == 'const' and isinstance(e[1], int) and 1 < e[1] <= 32:
                full = set(W.strong)
                if path_without(b, 0, {bb}, (), full - {bb}) is None:
                    continue       # determined before, only resized
                for ch in range(e[1]):
                    tr, cu = W.cover(ch)
                    # filled before (e.g. shrunk afterwards) or after
                    w = path_without(b, bb, rets | (szb - {bb}), cu | empty, tr)
                    if w is not None and path_without(b, 0, {bb}, cu, tr) is None:
                        w = None
                    ctx.ob('channels', f'{key}: channel {ch} of {e[1]}', w is None, b.at(bb, line), f'channel {ch} keeps or copies old samples', w and lines(b, w))
        single_value(ctx, C, W, cd, key)
    ctx.floor('written', 'processing functions with outputs', n, 15)


def _no_channels(e, v):
    return v is True and e[0] == 'bin' and e[1] == 'Eq' and e[2][0] == 'call' and e[2][3] == 'number_of_channels' and e[3] == ('const', 0, None) or \
        e[0] == 'call' and e[3] == 'number_of_channels' and v == 0 and v is not False


def _no_outputs(e, v, W):
    return v is True and e[0] == 'call' and e[3] == 'is_empty' and base(e)[-1][:2] == ('arg', W.arg)


def single_value(ctx, C, W, cd, key):
    b, sym = W.b, ctx.sym
    nat = natural(b)
    ev = {bb for bb, _ in W.fill}
    for h in sorted(nat, key=lambda h: len(nat[h])):
        L = nat[h]
        if not (ev & L):
            continue
        if any(h2 != h and nat[h2] < L and ev & nat[h2] for h2 in nat):
            continue
        for bb, e, n in drivers(sym, b, L):
            if n not in ('next', 'for_each', 'try_for_each', 'fold', 'map'):
                continue
            for x in _short_params(e):
                facts = cd.at(b, bb)
                ok = any(_longer(f, v, x) for f, v in facts)
                ctx.ob('single-value', f'{key}: {show(x)[:60]}', ok, b.at(bb, b.blocks[bb].term.line), f'the loop ends after one sample when {show(x)} delivers one value')


def _short_params(e):
    """parameter slices zipped into the iterator without being repeated"""
    if not isinstance(e, tuple):
        return []
    if e[0] == 'call':
        if e[3] == 'zip':
            return [y for a in e[2] for y in _short_params(a)]
        if e[3] in ('enumerate', 'map', 'take', 'skip', 'rev', 'inspect', 'peekable', 'by_ref'):
            return _short_params(e[2][0]) if e[2] else []
        if e[3] == 'get' and 'AudioParamValues' in e[1]:
            return [e]
    return []


def _longer(f, v, x):
    def islen(y):
        return y[0] == 'call' and y[3] == 'len' and _same(y[2][0], x)
    if f[0] == 'bin' and f[1] == 'Eq' and v is False and islen(f[2]) and f[3] == ('const', 1, None):
        return True
    if f[0] == 'bin' and f[1] in ('Ne',) and v is True and islen(f[2]) and f[3] == ('const', 1, None):
        return True
    if f[0] == 'bin' and f[1] in ('Gt', 'Ge', 'Eq') and v is True and islen(f[2]) and f[3][0] == 'const' and isinstance(f[3][1], int) and f[3][1] + (f[1] == 'Gt') > 1:
        return True
    if f[0] == 'bin' and f[1] in ('Lt', 'Le') and v is False and islen(f[2]) and f[3][0] == 'const' and isinstance(f[3][1], int):
        return True
    return islen(f) and v not in (1, True, False)


def _same(a, b):
    return a[:1] + a[1:4] == b[:1] + b[1:4] if a[0] == 'call' and b[0] == 'call' else a == b


def silences(ctx, b, t, field, node):
    """call silences the elements of a field of the node: for_each(make_silent), or make_silent on an element"""
    sym = ctx.sym
    e = resolve(sym, b, sym.operand(b, t.args[0]))
    if not any(x[0] == 'field' and x[2] == field and x[3] == node for x in base(e)):
        return False
    if t.callee.name == 'make_silent':
        return True
    if t.callee.name == 'for_each' and len(t.args) > 1:
        f = sym.operand(b, t.args[1])
        return f[0] == 'fn' and f[1].endswith('::make_silent') and not any(x[0] == 'call' and x[3] in SHORT for x in base(e))
    return False


def silence_events(ctx, b, field, node):
    """(through, cut) for the silencing of all elements of a field of nodes"""
    ev = {t.bb for t in b.calls() if t.callee is not None and t.args and t.bb in b.live_blocks and silences(ctx, b, t, field, node)}
    bulk = {bb for bb in ev if b.blocks[bb].term.callee.name == 'for_each'}
    cut = set()
    for h, L in natural(b).items():
        if ev & L and not (bulk & L):
            if any(x[0] == 'field' and x[2] == field and x[3] == node for _, e, _ in drivers(ctx.sym, b, L) for x in walk(e)):
                en = ends(b, h, L)
                if all(_back(b, y, h, L, (), ev) is None for x, _ in en for y in b.succs[x] if y in L and y not in ev):
                    cut |= en
    return bulk, cut


def graph_rules(ctx, C, cd):
    p, g, sym, m, gm = ctx.p, ctx.g, ctx.sym, C.m, C.gm
    o = Order(ctx, C)
    ctx.floor('inputs-reset', 'render entry points', len(o.entries), 1)
    if not o.field:
        return
    node = m.node
    quants = [fn for _, fn, ft in p.adt_fields(node) if mentions(ft, lambda t: t.adt and tail(t.adt) == QUANTUM)]
    # the input blocks are the ones mixed into by edges
    b = inl.Inliner(p, g, lambda q: gm._pred(q) and quantum_free(q), 6).run(o.body.base)
    for x in b.origin:
        ctx.seen(x)
    ins = set()
    for t in b.calls():
        if is_call(t, 'add') and t.bb in b.live_blocks and len(t.args) > 1:
            for x in base(sym.operand(b, t.args[0])):
                if x[0] == 'field' and x[3] == node and x[2] in quants:
                    ins.add(x[2])
    ctx.floor('inputs-reset', 'input blocks of a node', len(ins), 1)
    outs = [q for q in quants if q not in ins]
    disp = {x.uid for x, _ in gm.dispatches(('process',))}
    can = g.can_reach(disp)
    errs = {blk.i for blk in b.blocks if blk.term.d.get('caught') in can and blk.i in b.live_blocks}
    starts = {i for i in b.live_blocks for s in b.succs[i] if s in errs}
    rem = set(gm.removal_blocks(b))
    key = owner_of(ctx, o.body.base)
    from paths import Paths
    for f in sorted(ins):
        th, cut = silence_events(ctx, b, f, node)
        for s in starts:
            L = gm.loop_of(b, s, set())
            hs = headers(b, L)
            w = Paths(b).find(s, set(hs) | set(b.return_blocks()), cut, th | rem)
            ctx.ob('inputs-reset', f'{key}: {f}', w is None, b.at(s, b.blocks[s].term.line), 'a node can keep the input of this quantum for the next one', w and lines(b, w))
    # skipped nodes: every id list that entries of the ordering are taken out for
    lists = _skip_lists(ctx, o, b)
    ctx.floor('cycle-silenced', 'lists of skipped nodes', len(lists), 1)
    for l in sorted(lists):
        for f in sorted(ins) + outs:
            th, cut = silence_events(ctx, b, f, node)
            done, cut2 = set(), set()
            for h, L in natural(b).items():
                if any(any(o.is_list(x, l) for x in base(resolve(sym, b, e))) for _, e, _ in drivers(sym, b, L)) and (th & L or any(a in L for a, _ in cut)):
                    en = ends(b, h, L)
                    gone = cd.edges_with(b, lambda e, v: v == 'None' or v == 'Break')
                    if all(_back(b, y, h, L, cut | gone, th) is None for x, _ in en for y in b.succs[x] if y in L and y not in th):
                        cut2 |= en
            empty = cd.edges_with(b, lambda e, v: v is True and e[0] == 'call' and e[3] == 'is_empty' and any(x[0] == 'field' and x[2] == l for x in walk(e)))
            w = path_without(b, 0, set(b.return_blocks()), cut2 | empty, done)
            ctx.ob('cycle-silenced', f'{key}: {f}', w is None, o.body.base.loc(o.body.base.line), f'skipped nodes keep old blocks in {f}', w and lines(b, w))


def _skip_lists(ctx, o, b):
    """fields of the graph whose members are removed from the ordering"""
    out = set()
    sym = ctx.sym
    for t in b.calls():
        if t.bb in b.live_blocks and is_call(t, 'contains') and t.args:
            e = sym.operand(b, t.args[0])
            fs = {x[2] for x in walk(e) if o.is_list(x)} - {o.field}
            if len(fs) != 1:
                continue
            f = fs.pop()
            # inside the closure of a retain on the ordering, or in a loop that removes from it
            for i, blk in enumerate(b.blocks):
                if blk.term.d.get('hof') is not None and i in b.live_blocks:
                    for y in b.succs[i]:
                        c = b.blocks[y].term
                        if c.k == 'call' and is_call(c, 'retain', 'retain_mut') and o.about(sym.operand(b, c.args[0]), o.field) and t.bb in gm_loop(o, b, i):
                            out.add(f)
            for q in b.calls():
                if is_call(q, 'remove', 'swap_remove') and q.bb in b.live_blocks and o.about(sym.operand(b, q.args[0]), o.field) and t.bb in gm_loop(o, b, q.bb):
                    out.add(f)
    return out


def gm_loop(o, b, i):
    return o.gm.loop_of(b, i, set())
