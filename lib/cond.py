"""Facts established by branch edges: (expression, truth) pairs implied when a switch edge is taken."""
from mir import Operand

FLIP = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}
CALLFLIP = {'is_none': 'is_some', 'is_err': 'is_ok', 'ne': 'eq'}


class Conds:
    def __init__(self, sym):
        self.sym = sym
        self._e = {}
        sym.p.__dict__.setdefault('_cd', self)

    def norm(self, e, truth):
        """strip negations; comparisons normalised to their positive form"""
        while True:
            if e[0] == 'un' and e[1] == 'Not':
                e, truth = e[2], not truth
            elif e[0] == 'bin' and e[1] == 'Ne':
                e, truth = ('bin', 'Eq', e[2], e[3]), not truth
            elif e[0] == 'call' and e[3] in CALLFLIP:
                e = ('call', e[1], e[2], CALLFLIP[e[3]]) + e[4:]
                truth = not truth
            elif e[0] == 'bin' and e[1] == 'Eq' and e[3][0] == 'const' and e[3][1] in (0, 1, True, False) and \
                    e[2][0] in ('call', 'un') and isinstance(e[3][1], bool):
                e, truth = e[2], truth if e[3][1] else not truth
            else:
                return e, truth

    def edge(self, body, bb, target):
        """set of (expr, truth-or-variant) implied by going bb -> target"""
        k = (body.serial, bb, target)
        if k not in self._e:
            self._e[k] = self._edge(body, bb, target)
        return self._e[k]

    def _edge(self, body, bb, target):
        t = body.blocks[bb].term
        out = []
        if t.k == 'assert':
            o = Operand(body.p, t.d['c'])
            if t.target == target and o.place is not None:
                out += self.imply(body, self.sym.operand(body, o), bool(t.d['e']))
            return out
        if t.k != 'switch':
            return out
        op = Operand(body.p, t.d['d'])
        if op.place is None:
            return out
        vals = [v for v, b in t.d['cases'] if b == target]
        els = t.d['else'] == target
        e = self.sym.operand(body, op)
        if e[0] == 'discr' or 'variants' in t.d:
            names = dict(t.d.get('variants', []))
            of = e[1] if e[0] == 'discr' else e
            if els and not vals:
                rest = set(names.values()) - {names.get(v) for v, _ in t.d['cases']}
                if len(rest) == 1:
                    out.append((of, next(iter(rest))))
                for v, _ in t.d['cases']:
                    if names.get(v):
                        out.append((of, ('not', names[v])))
            elif vals and not els and len(vals) == 1:
                if names.get(vals[0]):
                    out.append((of, names[vals[0]]))
            elif vals and not els and all(names.get(v) for v in vals):
                out.append((of, ('in', frozenset(names[v] for v in vals))))
            elif vals and els:
                out += [(of, ('not', names[v])) for v, b in t.d['cases'] if b != target and names.get(v)]
            return out
        # booleans and integers
        ty = body.place_ty(op.place)
        if ty is not None and ty.s == 'bool':
            if vals == [0] and not els:
                out += self.imply(body, e, False, op)
            elif els and not vals:
                out += self.imply(body, e, True, op)
            elif vals == [1] and not els:
                out += self.imply(body, e, True, op)
        elif len(vals) == 1 and not els:
            out.append((('bin', 'Eq', e, ('const', vals[0], None)), True))
        elif vals and not els:
            out.append((e, ('in', frozenset(vals))))
        elif els and not vals:
            for v, _ in t.d['cases']:
                out.append((('bin', 'Eq', e, ('const', v, None)), False))
        return out

    def imply(self, body, e, truth, op=None, depth=6):
        e, truth = self.norm(e, truth)
        out = [(e, truth)]
        if depth <= 0:
            return out
        if e[0] == 'phi':
            l = e[1]
            cands = []
            for d in body.defs.get(l, []):
                if hasattr(d, 'rv'):
                    de = self.sym.rvalue(body, d.rv)
                else:
                    de = self.sym._call(body, d, 20, frozenset())
                if de[0] == 'const' and de[1] in (0, 1, True, False):
                    if bool(de[1]) != truth:
                        continue
                    cands.append((d, None))
                else:
                    cands.append((d, de))
            if len(cands) == 1:
                d, de = cands[0]
                if de is not None:
                    out += self.imply(body, de, truth, None, depth - 1)
                out += self.at(body, d.bb, depth - 1)
        elif e[0] == 'bin' and e[1] == 'BitAnd' and truth:
            out += self.imply(body, e[2], True, None, depth - 1) + self.imply(body, e[3], True, None, depth - 1)
        elif e[0] == 'bin' and e[1] == 'BitOr' and not truth:
            out += self.imply(body, e[2], False, None, depth - 1) + self.imply(body, e[3], False, None, depth - 1)
        return out

    def at(self, body, bb, depth=6):
        """facts established by edges that dominate bb (may be stale if the state changed since)"""
        k = (body.serial, 'at', bb)
        if k in self._e:
            return self._e[k]
        self._e[k] = []
        out = []
        for d in body.doms.get(bb, ()):
            t = body.blocks[d].term
            if t.k not in ('switch', 'assert'):
                continue
            for s in dict.fromkeys(body.succs[d]):
                # the edge d->s dominates bb if s dominates bb and d is s's only predecessor
                if s != d and body.dominates(s, bb) and all(q == d or body.dominates(s, q) for q in body.preds[s] if q in body.live_blocks):
                    out += self.edge(body, d, s)
        self._e[k] = out
        return out

    def edges_with(self, body, pred):
        """edges (bb, target) on which some implied fact satisfies pred(expr, truth)"""
        out = Edges()
        out.preds = (pred,)
        for b in body.live_blocks:
            if body.blocks[b].term.k in ('switch', 'assert'):
                for s in dict.fromkeys(body.succs[b]):
                    if any(holds(pred, e, v) for e, v in self.edge(body, b, s)):
                        out.add((b, s))
        return out


def holds(pred, e, v):
    """pred of a fact; of every possible value when there are several"""
    return pred(e, v) or isinstance(v, tuple) and len(v) == 2 and v[0] == 'in' and all(pred(e, x) for x in v[1])


class Edges(set):
    """edges, and the facts that select them"""
    preds = ()

    def __or__(self, other):
        out = Edges(set.__or__(self, other))
        out.preds = self.preds + getattr(other, 'preds', ())
        return out

    __ror__ = __or__

    def __ior__(self, other):
        set.__ior__(self, other)
        self.preds = self.preds + getattr(other, 'preds', ())
        return self


def path_without(body, start, goals, cut_edges=(), through=()):
    """path from start to a goal that takes none of cut_edges and visits no block of `through` (start excluded);
    a path on which a boolean or variant that was just computed is then tested to be another one does not count"""
    w = plain_path(body, start, goals, cut_edges, through)
    cd = body.p.__dict__.get('_cd')
    if w is None or cd is None:
        return w
    return consistent_path(cd, body, start, goals, cut_edges, through, 20000, getattr(cut_edges, 'preds', ()), facts=False)


def plain_path(body, start, goals, cut_edges=(), through=()):
    prev = {start: None}
    q = [start]
    while q:
        x = q.pop(0)
        if x in goals and not (x == start and x in through):
            out = []
            while x is not None:
                out.append(x)
                x = prev[x]
            return out[::-1]
        for y in body.succs[x]:
            if y not in prev and (x, y) not in cut_edges and y not in through:
                prev[y] = x
                q.append(y)
    return None



# tests of a number that always give the same answer
PURE = {'is_finite', 'is_nan', 'is_infinite', 'is_sign_negative', 'is_sign_positive', 'is_power_of_two'}


def keyed(e, v):
    if e[0] == 'call' and e[3] in ('is_some', 'is_ok') and isinstance(v, bool) and e[2]:
        names = ('Some', 'None') if e[3] == 'is_some' else ('Ok', 'Err')
        return e[2][0], names[0] if v else names[1]
    if e[0] == 'call' and e[3] in PURE and e[2] and all(x[0] in ('arg', 'const') for x in e[2]):
        return e[:4] + ((),), v
    return e, v


def contains(e, k):
    if e == k:
        return True
    if isinstance(e, tuple):
        return any(contains(x, k) for x in e if isinstance(x, tuple))
    return False


class Tracks:
    """what consistent_path needs to know about a body, computed once"""

    def __init__(self, cd, body):
        self.cd, self.body = cd, body
        sym = cd.sym
        n = {}
        self.facts = {}
        for i in body.live_blocks:
            if body.blocks[i].term.k in ('switch', 'assert'):
                seen = set()
                for y in dict.fromkeys(body.succs[i]):
                    fs = [keyed(e, v) for e, v in cd.edge(body, i, y) if e[0] in ('field', 'bin', 'call')]
                    self.facts[(i, y)] = fs
                    seen |= {e for e, _ in fs}
                for e in seen:
                    n[e] = n.get(e, 0) + 1
        for k in self.facts:
            self.facts[k] = [(e, v) for e, v in self.facts[k] if n.get(e, 0) > 1]
        self.kills = {}
        tracked = {e for fs in self.facts.values() for e, _ in fs}
        for i in body.live_blocks:
            ks = [sym.place(body, s.place) for s in body.blocks[i].stmts if s.kind == '=' and s.place.proj]
            t = body.blocks[i].term
            if t.k == 'call' and t.dest is not None and t.dest.proj:
                ks.append(sym.place(body, t.dest))
            dead = {e for e in tracked if any(contains(e, k) for k in ks)} if ks else set()
            if dead:
                self.kills[i] = dead
        # booleans computed on several paths and tested later, also when written through a reference; variants of enum values
        refs = {s.rv.place.local for s in body.stmts() if s.kind == '=' and s.rv.k in ('refmut', 'rawptr') and not s.rv.place.proj}
        shared = {l for l in sym._shared(body) if body.lty(l).s == 'bool'}
        self.multi = {l for l, ds in body.defs.items() if (len(ds) > 1 or l in shared) and body.lty(l).s == 'bool'}
        self.enums = set()
        grow = True
        while grow:
            grow = False
            for l, ds in body.defs.items():
                if l not in self.enums and l not in refs and any(hasattr(d, 'rv') and not d.place.proj and (
                        d.rv.k == 'agg' and d.rv.agg.get('var') or d.rv.k == 'use' and d.rv.ops[0].place is not None
                        and not d.rv.ops[0].place.proj and d.rv.ops[0].place.local in self.enums) for d in ds):
                    self.enums.add(l)
                    grow = True
                if l not in self.enums and l not in refs and any(self.question(d) in self.enums or self.residual(d) for d in ds if not hasattr(d, 'rv')):
                    self.enums.add(l)
                    grow = True
        # only those that are tested in the end
        tested = set()
        for i in body.live_blocks:
            t = body.blocks[i].term
            if t.k == 'switch':
                o = Operand(body.p, t.d['d'])
                if o.place is not None:
                    tested.add(o.place.local)
        st = list(tested)
        while st:
            for d in body.defs.get(st.pop(), []):
                src = [o.place for o in d.rv.ops if o.place is not None] + ([d.rv.place] if d.rv.place is not None else []) if hasattr(d, 'rv') else \
                    [a.place for a in d.args if a.place is not None] if d.callee is not None and (d.callee.name in ASKS or d.callee.name == 'branch') else []
                for q in src:
                    if q.local not in tested:
                        tested.add(q.local)
                        st.append(q.local)
        self.multi &= tested
        self.enums &= tested
        self.sets = {}

        def value(d):
            if not hasattr(d, 'rv'):
                return sym._call(body, d, 20, frozenset())
            if d.rv.k == 'use' and d.rv.ops[0].place is not None and not d.rv.ops[0].place.proj and d.rv.ops[0].place.local in self.multi | self.enums:
                return ('copy', d.rv.ops[0].place.local)
            if d.rv.k == 'agg' and d.rv.agg.get('var'):
                return ('variant', d.rv.agg['var'])
            return sym.rvalue(body, d.rv)

        for i in body.live_blocks:
            for s in body.blocks[i].stmts:
                if s.kind == 'dead' and s.place is not None and s.place.local in self.multi | self.enums:
                    self.sets.setdefault(i, []).append((s.place.local, None))
                if s.kind != '=':
                    continue
                l = s.place.local
                if s.place.proj:
                    e = sym.place(body, s.place) if shared and '*' in s.place.proj else None
                    if e is None or e[0] != 'local' or e[1] not in shared:
                        continue
                    l = e[1]
                if l in self.multi:
                    self.sets.setdefault(i, []).append((l, value(s)))
                elif l in self.enums:
                    v = value(s)
                    self.sets.setdefault(i, []).append((l, v if v[0] in ('copy', 'variant') else None))
            t = body.blocks[i].term
            if t.k == 'call' and t.dest is not None and not t.dest.proj:
                if t.dest.local in self.multi:
                    self.sets.setdefault(i, []).append((t.dest.local, value(t)))
                elif t.dest.local in self.enums:
                    q, r = self.question(t), self.residual(t)
                    self.sets.setdefault(i, []).append((t.dest.local, ('branch', q) if q is not None else ('variant', r) if r else None))
        self.loops = set()

    def question(self, t):
        """local whose failure `?` asks for"""
        if t.k != 'call' or t.callee is None or t.callee.name != 'branch' or not t.args or t.args[0].place is None or t.args[0].place.proj:
            return None
        return t.args[0].place.local

    def residual(self, t):
        """variant a failed `?` returns"""
        if t.k != 'call' or t.callee is None or t.callee.name != 'from_residual' or t.dest.proj:
            return None
        ty = self.body.lty(t.dest.local)
        return {'Result': 'Err', 'Option': 'None', 'ControlFlow': 'Break'}.get((ty.adt or '').rsplit('::', 1)[-1])


BRANCH = {'Ok': 'Continue', 'Some': 'Continue', 'Err': 'Break', 'None': 'Break', 'Continue': 'Continue', 'Break': 'Break'}
ASKS = {'is_break': 'Break', 'is_continue': 'Continue', 'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}


def consistent_path(cd, body, start, goals, cut_edges=(), through=(), limit=80000, preds=(), via=None, facts=True):
    """like path_without, but a path may not take two edges that contradict each other on the value of the same (unchanged) expression,
    and booleans computed on several branches are followed; an edge whose facts satisfy one of preds is not taken; with via = {block: position} only paths count that pass such a block
    ('stmt': in its statements, 'term': in its terminator) before the goal"""
    memo = cd.__dict__.setdefault('_tracks', {})
    if body.serial not in memo:
        memo[body.serial] = Tracks(cd, body)
    T = memo[body.serial]
    if preds and facts:
        cut_edges = set(cut_edges) | cd.edges_with(body, lambda e, v: any(f(e, v) for f in preds))
    s0 = (start, frozenset(), frozenset(), via is None)
    prev = {s0: None}
    q = [s0]
    while q:
        st = q.pop(0)
        x, fs, env, hit = st
        if via and via.get(x) == 'stmt':
            hit = True
        if hit and x in goals and not (x == start and x in through):
            out = []
            while st is not None:
                out.append(st[0])
                st = prev[st]
            return out[::-1]
        if x in T.kills:
            fs = frozenset(f for f in fs if f[0] not in T.kills[x])
        if x in T.sets:
            d = dict(env)
            for l, e in T.sets[x]:
                if e is not None and e[0] in ('copy', 'branch'):
                    v = d.get(e[1])
                    e = v if e[0] == 'copy' else ('variant', BRANCH[v[1]]) if v is not None and v[0] == 'variant' and v[1] in BRANCH else None
                if e is None:
                    d.pop(l, None)
                else:
                    d[l] = e
            env = frozenset(d.items())
        t = body.blocks[x].term
        dyn = variant = asked = None
        if t.k == 'switch':
            op = Operand(body.p, t.d['d'])
            if op.place is not None and not op.place.proj:
                d = dict(env)
                dyn = switched(body, T, x, op.place.local, d)
                ds = body.defs.get(op.place.local, [])
                if dyn is not None and dyn[0][0] == 'variant':
                    dyn = None
                elif dyn is None and len(ds) == 1 and hasattr(ds[0], 'rv') and ds[0].rv.k == 'discr' and not ds[0].rv.place.proj:
                    variant = d.get(ds[0].rv.place.local)
                elif dyn is None and len(ds) == 1 and not hasattr(ds[0], 'rv') and ds[0].callee is not None and ds[0].callee.name in ASKS and ds[0].args[0].place is not None:
                    rs = body.defs.get(ds[0].args[0].place.local, [])
                    if len(rs) == 1 and hasattr(rs[0], 'rv') and rs[0].rv.k == 'ref' and not rs[0].rv.place.proj and d.get(rs[0].rv.place.local, (None,))[0] == 'variant':
                        asked = d[rs[0].rv.place.local][1] == ASKS[ds[0].callee.name]
        for y in dict.fromkeys(body.succs[x]):
            if (x, y) in cut_edges or y in through:
                continue
            if variant is not None and not could(t, y, variant[1]):
                continue
            if asked is not None and asked != (y not in [b for v, b in t.d['cases'] if v == 0]):
                continue
            nf = fs
            new = T.facts.get((x, y), ()) if facts else ()
            if dyn is not None:
                e, neg = dyn
                no = [b for v, b in t.d['cases'] if v == 0]
                truth = (y not in no) != neg
                e, truth = cd.norm(e, truth)
                if e[0] == 'const' and e[1] in (0, 1, True, False):
                    if bool(e[1]) != truth:
                        continue
                else:
                    imp = cd.imply(body, e, truth)
                    if any(holds(f, a, v) for f in preds for a, v in imp):
                        continue
                    if facts:
                        new = list(new) + [keyed(a, v) for a, v in imp if a[0] in ('field', 'bin', 'call')]
            if new:
                if any(e == e2 and clash(v, v2) for e, v in new for e2, v2 in fs):
                    continue
                nf = fs | {(e, v) for e, v in new if not (isinstance(v, tuple) and v[0] == 'in')}
            ns = (y, nf, env, hit or bool(via) and x in via)
            if ns not in prev:
                if len(prev) > limit:
                    if via:
                        w = [plain_path(body, v, goals, cut_edges, through) for v in via]
                        return next((z for z in w if z), None)
                    return plain_path(body, start, goals, cut_edges, through)
                prev[ns] = st
                q.append(ns)
    return None


def could(t, y, variant):
    """can the switch over an enum go to y when the value is this variant?"""
    names = dict(t.d.get('variants', []))
    for v, b in t.d['cases']:
        if names.get(v) == variant:
            return b == y
    return variant not in names.values() or t.d['else'] == y


def clash(v, v2):
    if isinstance(v, tuple) and isinstance(v2, tuple):
        return False
    if isinstance(v, tuple):
        v, v2 = v2, v
    if isinstance(v2, tuple):
        return v2[0] == 'not' and v == v2[1]
    return v != v2 and type(v) is type(v2)


def switched(body, T, x, l, env):
    """(expression, negated) of a switched boolean that was computed on several branches"""
    neg = False
    for _ in range(6):
        if l in env:
            return env[l], neg
        ds = body.defs.get(l, [])
        if len(ds) != 1 or not hasattr(ds[0], 'rv'):
            return None
        rv = ds[0].rv
        if rv.k == 'un' and rv.op == 'Not':
            neg = not neg
        elif rv.k != 'use':
            return None
        o = rv.ops[0]
        if o.place is None or o.place.proj:
            return None
        l = o.place.local
    return None
