"""Shared view of the render graph code: inlined entry points, the per-node panic barrier, edges, order, removal."""
import inline as inl
from cprop import CProp
from model import Model, mentions, tail

KEEP_OUT = ('AudioRenderQuantum', 'AudioRenderQuantumChannel', 'Alloc')


def is_call(t, *names):
    return t.k == 'call' and t.callee is not None and t.callee.name in names


class GraphModel:
    def __init__(self, ctx):
        self.ctx, self.p, self.g, self.sym = ctx, ctx.p, ctx.g, ctx.sym
        self.m = Model(ctx.p)
        self.pred = self._pred

    def _pred(self, b):
        st = b.self_ty
        if st is not None and st.strip().adt and tail(st.strip().adt) in KEEP_OUT:
            return False
        return True

    def inline(self, body, depth=6):
        memo = self.ctx.cur.__dict__.setdefault('_gm_inl', {})
        if (body.uid, depth) not in memo:
            memo[(body.uid, depth)] = inl.Inliner(self.p, self.g, self._pred, depth).run(body)
        return memo[(body.uid, depth)]

    # ---- dispatch into processors
    def is_dispatch(self, t, names=('process', 'onmessage', 'before_drop')):
        """call of a processor callback through the trait object"""
        return t.k == 'call' and t.callee is not None and t.callee.trait == self.m.processor_trait and \
            t.callee.name in names and t.callee.self_ty is not None and t.callee.self_ty.peel().k == 'dyn'

    def dispatches(self, names=('process', 'onmessage', 'before_drop')):
        for b in self.p.bodies.values():
            for t in b.calls():
                if self.is_dispatch(t, names):
                    yield b, t

    def barrier_closures(self):
        """closures handed to catch_unwind"""
        out = set()
        for b in self.p.bodies.values():
            for uid, st, disp, flows in self.g.closure_uses(b):
                if any(k == 'call' and x.callee is not None and x.callee.name == 'catch_unwind' for k, x in flows):
                    out.add(uid)
        return out

    # ---- graph types
    @property
    def edge(self):
        """local struct type of a connection: element type of a collection held by the render node that carries a node id"""
        nid = self.m.node_id
        for _, fn, ft in self.p.adt_fields(self.m.node):
            for a in self._elems(ft):
                if a.adt in self.p.adts and a.adt != nid and any(f.adt == nid for _, _, f in self.p.adt_fields(a.adt)):
                    return a.adt
        return None

    def _elems(self, ty, depth=4):
        out = []
        for a in ty.args:
            out.append(a)
            if depth > 0:
                out += self._elems(a, depth - 1)
        return out

    def mentions_ty(self, ty, adt):
        return ty is not None and mentions(ty, lambda t: t.adt == adt)

    def op_ty(self, body, op):
        if op.place is not None:
            t = body.place_ty(op.place)
            return t if t is not None else None
        return op.ty

    def arg_is(self, body, t, adt, i=0, coll=True):
        """argument i of the call is a (reference to a) collection of `adt`"""
        if i >= len(t.args):
            return False
        ty = self.op_ty(body, t.args[i])
        if ty is None:
            return False
        ty = ty.strip()
        if ty.adt == adt:
            return not coll
        return ty.adt is not None and tail(ty.adt) in ('SmallVec', 'Vec', 'VecDeque', 'ArrayVec') and self.mentions_ty(ty, adt)

    def removal_blocks(self, body):
        """blocks that take a render node out of the collection"""
        out = []
        for t in body.calls():
            if is_call(t, 'take', 'remove', 'swap_remove', 'replace') and t.args:
                ty = self.op_ty(body, t.args[0])
                if ty is not None and self.mentions_ty(ty.strip(), self.m.node) and ty.strip().adt and \
                        tail(ty.strip().adt) in ('Option', 'Vec', 'HashMap', 'BTreeMap', 'Slab'):
                    out.append(t.bb)
        return out

    def render_entries(self):
        """graph methods that (transitively) run processors and are not called by another graph method"""
        disp = {b.uid for b, _ in self.dispatches(('process',))}
        can = self.g.can_reach(disp)
        cand = [b for b in self.p.methods_of(self.m.graph) if b.uid in can and b.kind != 'Closure']
        inner = set()
        for b in cand:
            for u in self.g.reach([b]):
                if u != b.uid:
                    inner.add(u)
        return [b for b in cand if b.uid not in inner]

    def loop_of(self, body, bb, avoid):
        """blocks of the loop around bb that does not pass `avoid`"""
        fw = body.reachable(bb, avoid=avoid)
        return {x for x in fw if bb in body.reachable(x, avoid=avoid)} if any(bb in body.succs[x] for x in fw) else {bb}
