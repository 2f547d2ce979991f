"""Call graph: direct calls, trait dispatch, closures, drop glue; reachability with witness chains."""
from collections import defaultdict, deque

import flow

FN_TRAITS = {'std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn', 'core::ops::FnOnce', 'core::ops::FnMut',
             'core::ops::Fn', 'std::ops::function::FnOnce', 'std::ops::function::FnMut', 'std::ops::function::Fn'}

# external functions that run a closure argument later, on another thread or from an event source
DEFERRED_SINKS = {
    'std::thread::spawn': 'thread',
    'std::thread::Builder::spawn': 'thread',
    'std::thread::Builder::spawn_scoped': 'thread',
}


class Edge:
    __slots__ = ('kind', 'src', 'dst', 'site', 'callee')

    def __init__(self, kind, src, dst, site, callee=None):
        self.kind, self.src, self.dst, self.site, self.callee = kind, src, dst, site, callee

    @property
    def line(self): return getattr(self.site, 'line', 0)


class CallGraph:
    def __init__(self, p):
        self.p = p
        self._edges = {}
        self._closure_info = {}
        self._dyn_closures = None
        self._generic_closures = None
        self._rev = None
        self._own = {}

    # ---- where do closures go
    def _flows(self, body, local):
        """forward: terms/casts consuming the value held in `local` (through moves, refs, aggregates, casts)"""
        out = []
        seen = set()
        st = [local]
        while st:
            l = st.pop()
            if l in seen:
                continue
            seen.add(l)
            for b in body.blocks:
                if b.cleanup:
                    continue
                for s in b.stmts:
                    if s.kind != '=':
                        continue
                    used = any(o.place is not None and o.place.local == l for o in s.rv.ops) or \
                        (s.rv.place is not None and s.rv.place.local == l and s.rv.k != 'discr')
                    if used:
                        if s.rv.k == 'cast':
                            out.append(('cast', s))
                        if s.rv.k == 'agg' and s.rv.agg['k'] == 'adt':
                            out.append(('agg', s))
                        if s.rv.k == 'agg' and s.rv.agg['k'] in ('closure', 'coroutine'):
                            out.append(('capture', s))
                            continue
                        st.append(s.place.local)
                t = b.term
                if t.k == 'call' and any(a.place is not None and a.place.local == l for a in t.args):
                    out.append(('call', t))
                    if t.callee is not None and t.callee.trait in FN_TRAITS and t.args[0].place is not None and t.args[0].place.local == l:
                        continue    # the result of calling it
                    # the result of Box::new / Arc::new / adapters still holds the closure
                    st.append(t.dest.local)
                if t.k == 'call' and t.callee is None and t.func.place is not None and t.func.place.local == l:
                    out.append(('invoke', t))
        return out

    def closure_uses(self, body):
        """list of (closure uid, creating stmt, set of dispositions, flows)"""
        key = body.uid
        if key in self._closure_info:
            return self._closure_info[key]
        out = []
        for uid, st in self.p.closures_in(body):
            if st.bb not in body.live_blocks and not body.blocks[st.bb].cleanup:
                continue
            flows = self._flows(body, st.place.local)
            disp = set()
            for k, x in flows:
                if k == 'call' and x.callee is not None:
                    c = x.callee
                    base = c.path.split('::<')[0]
                    import re
                    norm = re.sub(r'::<[^>]*>', '', c.path)
                    if norm in DEFERRED_SINKS:
                        disp.add('thread')
                    elif c.krate in ('cpal', 'cubeb', 'cubeb_core') or norm.startswith(('cpal::', 'cubeb')):
                        disp.add('callback')
                    elif c.name == 'new' and c.self_ty is not None and c.self_ty.adt in ('std::boxed::Box', 'alloc::boxed::Box', 'std::sync::Arc'):
                        disp.add('boxed')
                    else:
                        disp.add('call')
                elif k == 'cast':
                    disp.add('cast')
                elif k == 'capture':
                    disp.add('captured')
                elif k == 'agg':
                    disp.add('agg')
            out.append((uid, st, disp, flows))
        self._closure_info[key] = out
        return out

    @property
    def dyn_closures(self):
        """dyn Fn type string -> set of closure uids coerced to it anywhere"""
        if self._dyn_closures is None:
            m = defaultdict(set)
            for body in self.p.bodies.values():
                for s in body.stmts(live_only=False):
                    if s.kind == '=' and s.rv.k == 'cast' and 'Unsize' in (s.rv.cast or ''):
                        tgt = s.rv.ty.peel()
                        if tgt.k != 'dyn':
                            continue
                        o = s.rv.ops[0]
                        src = None
                        if o.place is not None:
                            t = body.place_ty(o.place)
                            src = t.peel() if t is not None else None
                        elif o.ty is not None:
                            src = o.ty.peel()
                        if src is not None and src.k == 'closure' and src.local:
                            m[tgt.s].add(src.closure)
            self._dyn_closures = m
        return self._dyn_closures

    @property
    def generic_closures(self):
        """local fn uid -> closures (or fn items) appearing in the generic arguments at its call sites"""
        if self._generic_closures is None:
            m = defaultdict(set)
            for body in self.p.bodies.values():
                for t in body.all_calls():
                    if t.callee is None:
                        continue
                    cl = set()
                    for a in t.callee.args:
                        x = a.peel()
                        if x.k == 'closure' and x.local:
                            cl.add(x.closure)
                        elif x.k == 'fndef':
                            u = x.d['fn'].get('uid')
                            if u in self.p.bodies:
                                cl.add(u)
                    if cl:
                        for tgt in self.p.resolve(t.callee):
                            m[tgt.uid] |= cl
            self._generic_closures = m
        return self._generic_closures

    def root_fn(self, body):
        """enclosing named function of a closure"""
        b = body
        while b.parent and b.parent in self.p.bodies:
            b = self.p.bodies[b.parent]
        return b

    def fn_call_targets(self, body, t):
        """targets of FnOnce/FnMut/Fn::call* """
        c = t.callee
        st = c.self_ty
        x = st.peel() if st is not None else None
        if x is None:
            return []
        if x.k == 'closure':
            return [self.p.bodies[x.closure]] if x.closure in self.p.bodies else []
        if x.k == 'dyn':
            return [self.p.bodies[u] for u in self.dyn_closures.get(x.s, ()) if u in self.p.bodies]
        if x.k in ('param', 'alias'):
            r = self.root_fn(body)
            return [self.p.bodies[u] for u in self.generic_closures.get(r.uid, ()) if u in self.p.bodies]
        if x.k == 'fndef':
            u = x.d['fn'].get('uid')
            return [self.p.bodies[u]] if u in self.p.bodies else []
        return []

    def _owned(self, body):
        if body.uid not in self._own:
            track = frozenset(b.term.place.local for b in body.blocks
                              if b.term.k == 'drop' and not b.cleanup and not b.term.place.proj)
            self._own[body.uid] = flow.Owned(body, track)
        return self._own[body.uid]

    # ---- edges
    def edges(self, body, cleanup=False):
        key = (body.uid, cleanup)
        if key in self._edges:
            return self._edges[key]
        out = []
        for b in body.blocks:
            if b.cleanup and not cleanup:
                continue
            if not b.cleanup and b.i not in body.live_blocks:
                continue
            t = b.term
            if t.k == 'call':
                c = t.callee
                if c is None:
                    out.append(Edge('ptr', body, None, t))
                    continue
                tgts = []
                if c.trait in FN_TRAITS:
                    tgts = self.fn_call_targets(body, t)
                    if not tgts:
                        out.append(Edge('usercall', body, None, t, c))
                else:
                    tgts = self.p.resolve(c)
                for x in tgts:
                    out.append(Edge('call', body, x, t, c))
                if not tgts and c.trait not in FN_TRAITS:
                    if c.uid in self.p.bodies:
                        out.append(Edge('call', body, self.p.bodies[c.uid], t, c))
                    else:
                        out.append(Edge('ext', body, None, t, c))
                elif tgts and c.trait and c.trait not in self.p.traits and c.trait not in FN_TRAITS and c.rkind != 'item':
                    # std trait on dyn/param: external impls are possible as well
                    out.append(Edge('ext', body, None, t, c))
                # fn items passed as values
                for a in t.args:
                    if a.kind == 'const' and a.callee is not None:
                        u = a.callee
                        ts = self.p.resolve(u)
                        for x in ts:
                            out.append(Edge('fnitem', body, x, t, u))
                        if not ts:
                            out.append(Edge('extitem', body, None, t, u))
                # external generic code calling back into local trait impls of an argument type
                # (e.g. Iterator adapters over a local iterator)
            elif t.k == 'drop':
                bodies, _ = self.p.drop_targets(t.drop_ty)
                if bodies and not t.place.proj and not b.cleanup and \
                        t.place.local not in self._owned(body).at_term(b.i):
                    continue    # moved out on every path: the drop does nothing
                for u in sorted(bodies):
                    out.append(Edge('drop', body, self.p.bodies[u], t))
        for uid, st, disp, flows in self.closure_uses(body):
            if uid not in self.p.bodies:
                continue
            tgt = self.p.bodies[uid]
            if 'thread' in disp:
                out.append(Edge('spawn', body, tgt, st))
            elif 'callback' in disp:
                out.append(Edge('callback', body, tgt, st))
            elif 'boxed' in disp and 'cast' in disp:
                out.append(Edge('boxed', body, tgt, st))
            else:
                out.append(Edge('closure', body, tgt, st))
        self._edges[key] = out
        return out

    SYNC = ('call', 'fnitem', 'closure', 'drop')

    def reach(self, roots, kinds=SYNC, cleanup=False, stop=None):
        """BFS: returns {uid: (prev uid, edge)}"""
        prev = {}
        dq = deque()
        for r in roots:
            if r.uid not in prev:
                prev[r.uid] = None
                dq.append(r)
        while dq:
            b = dq.popleft()
            if stop is not None and stop(b):
                continue
            for e in self.edges(b, cleanup):
                if e.kind in kinds and e.dst is not None and e.dst.uid not in prev:
                    prev[e.dst.uid] = (b.uid, e)
                    dq.append(e.dst)
        return prev

    def chain(self, prev, uid):
        out = []
        while uid is not None:
            pe = prev[uid]
            out.append(self.p.bodies[uid].path)
            uid = pe[0] if pe else None
        return out[::-1]

    @property
    def rev(self):
        if self._rev is None:
            r = defaultdict(list)
            for b in self.p.bodies.values():
                for e in self.edges(b):
                    if e.dst is not None:
                        r[e.dst.uid].append(e)
            self._rev = r
        return self._rev

    def can_reach(self, pred_uids, kinds=SYNC):
        """set of body uids from which any of pred_uids is reachable"""
        seen = set(pred_uids)
        st = list(pred_uids)
        while st:
            u = st.pop()
            for e in self.rev[u]:
                if e.kind in kinds and e.src.uid not in seen:
                    seen.add(e.src.uid)
                    st.append(e.src.uid)
        return seen
