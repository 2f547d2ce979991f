"""Messages from node handles to their processors: who posts which type, and how processors take them in."""
import inline as inl
from model import mentions, tail
from nodes import pairs
from sym import walk

DOWNCAST = ('downcast_ref', 'downcast_mut', 'downcast', 'is', 'downcast_ref_unchecked', 'downcast_mut_unchecked')


def is_any(t):
    return t.k == 'dyn' and 'std::any::Any' in t.s or t.s.startswith('(dyn std::any::Any') or t.s.startswith('dyn std::any::Any')


class Post:
    def __init__(self, body, term, owner, ty):
        self.body, self.term, self.owner, self.ty = body, term, owner, ty


class Msgs:
    def __init__(self, ctx, C):
        self.ctx, self.C, self.p, self.g, self.sym, self.m = ctx, C, ctx.p, ctx.g, ctx.sym, C.m
        p = self.p
        self.variant = None
        for v, fn, ft in p.adt_fields(C.enum):
            if mentions(ft, is_any):
                self.variant = v
        self.nodes = {}
        for pr in pairs(ctx, self.m):
            self.nodes.setdefault(pr.node, set()).add(pr.proc)
        self.posts, self.direct, self.posters = [], [], {}
        if self.variant is None:
            return
        for b, s, v in C.built([self.variant]):
            ty = self.boxed(b)
            if ty is None:
                continue
            if ty.k == 'param':
                self.posters[self.g.root_fn(b).uid] = b
            else:
                self.direct.append((b, s, ty))
        seen = set()
        for uid in list(self.posters):
            self._sites(uid, None, seen)

    def boxed(self, b):
        """type that is put into a Box<dyn Any> in this function"""
        for s in b.stmts():
            if s.kind == '=' and s.rv.k == 'cast' and s.rv.cast.startswith('PointerCoercion') and s.rv.ty.adt and tail(s.rv.ty.adt) == 'Box' and \
                    s.rv.ty.args and is_any(s.rv.ty.args[0]):
                src = b.place_ty(s.rv.ops[0].place) if s.rv.ops[0].place is not None else None
                if src is not None and src.args:
                    return src.args[0]
        return None

    def owner(self, b):
        """node type whose handle the function belongs to"""
        r = self.g.root_fn(b)
        st = r.self_ty
        a = st.strip().adt if st is not None else None
        if a in self.nodes:
            return a
        if a is not None:
            c = [n for n in self.nodes if any(mentions(ft, lambda t: t.adt == a) for _, _, ft in self.p.adt_fields(n))]
            if len(c) == 1:
                return c[0]
        return None

    def _sites(self, uid, ty, seen):
        for b in self.p.bodies.values():
            for t in b.calls():
                if t.callee is None or t.callee.uid != uid:
                    continue
                m = ty
                if m is None:
                    ps = [a for a in t.callee.args if a.s != "'_" and a.k != 'region']
                    m = ps[-1] if ps else None
                if m is None or (b.uid, t.bb, m.s) in seen:
                    continue
                seen.add((b.uid, t.bb, m.s))
                r = self.g.root_fn(b)
                own = self.owner(b)
                if m.k == 'param':
                    self._sites(r.uid, None, seen)
                elif own is None and not r.public:
                    self._sites(r.uid, m, seen)
                    self.posts.append(Post(b, t, None, m))
                else:
                    self.posts.append(Post(b, t, own, m))

    # ---- the receiving side
    def receiver(self, proc):
        memo = self.ctx.cur.__dict__.setdefault('_recv', {})
        if proc not in memo:
            b0 = self.m.processors().get(proc, {}).get('onmessage')
            memo[proc] = Receiver(self, b0) if b0 is not None else None
        return memo[proc]


class Receiver:
    def __init__(self, M, b0):
        self.M, self.b0 = M, b0
        p, g = M.p, M.g
        own = b0.self_ty.strip().adt
        types = set()
        # methods of the message types stay calls
        for uid in g.reach([b0], ('call', 'closure')):
            for t in p.bodies[uid].calls():
                if t.callee is not None and t.callee.name in DOWNCAST and t.callee.args:
                    a = t.callee.args[-1]
                    if a.adt:
                        types.add(a.adt)
        self.b = inl.Inliner(p, g, lambda q: not (q.self_ty is not None and q.self_ty.strip().adt in types and q.self_ty.strip().adt != own) and
                             not (q.self_ty is not None and q.self_ty.strip().adt and tail(q.self_ty.strip().adt) in ('AudioRenderQuantum', 'AudioRenderQuantumChannel')), 5).run(b0)
        self.tests = []      # (block, type, name, dest local)
        for t in self.b.calls():
            if t.bb in self.b.live_blocks and t.callee is not None and t.callee.name in DOWNCAST and t.callee.args and 'Any' in (t.callee.self_ty.s if t.callee.self_ty is not None else t.callee.rpath):
                self.tests.append((t.bb, t.callee.args[-1], t.callee.name, t.dest))

    def taint(self, start):
        """locals that carry (parts of) the value, going forward from the given locals"""
        b = self.b
        out = set(start)
        while True:
            n = len(out)
            for s in b.stmts():
                if s.kind == '=' and s.place.local not in out:
                    src = [o.place for o in s.rv.ops if o.place is not None] + ([s.rv.place] if s.rv.place is not None else [])
                    if any(x.local in out for x in src) and not (s.place.proj and self.of_self(s.place)):
                        out.add(s.place.local)
            for t in b.calls():
                if t.dest is not None and t.dest.local not in out and any(a.place is not None and a.place.local in out for a in t.args):
                    out.add(t.dest.local)
                # values written through a mutable reference argument, closures' items
                if b.items and any(v == t.bb for v in b.items.values()) and any(a.place is not None and a.place.local in out for a in t.args):
                    out |= {k for k, v in b.items.items() if v == t.bb}
            if len(out) == n:
                return out

    def of_self(self, pl):
        e = self.M.sym.place(self.b, pl)
        return root_is(e, 1)

    def field_of(self, e):
        """outermost field of the processor in an access expression"""
        r = None
        while isinstance(e, tuple):
            if e[0] == 'field' and e[1][:2] == ('arg', 1):
                return e[2]
            if e[0] in ('field', 'idx', 'dc', 'elem', 'mapped', 'sub', 'cast'):
                e = e[1]
            elif e[0] == 'call' and e[2]:
                e = e[2][0]
            elif e[0] == 'phi':
                for c in e[2]:
                    r = r or self.field_of(c)
                return r
            else:
                return r
        return r

    def effects(self, T, within=None):
        """(block, line, processor field, type written) of writes of tainted values into the processor's state"""
        b, sym = self.b, self.M.sym
        from loops import resolve
        out = []
        for s in b.stmts():
            if s.kind == '=' and s.place.proj and (within is None or s.bb in within):
                if any(o.place is not None and o.place.local in T for o in s.rv.ops) and root_is(resolve(sym, b, sym.place(b, s.place)), 1):
                    out.append((s.bb, s.line, self.field_of(resolve(sym, b, sym.place(b, s.place))), [b.place_ty(o.place) for o in s.rv.ops if o.place is not None and o.place.local in T][0]))
        for t in b.calls():
            if t.callee is None or within is not None and t.bb not in within:
                continue
            ta = [a for a in t.args if a.place is not None and a.place.local in T]
            if not ta:
                continue
            for a in t.args:
                if a.place is None or not any(x is not a for x in ta):
                    continue
                ty = self.M.C.gm.op_ty(b, a)
                if ty is not None and ty.s.startswith('&mut') and root_is(resolve(sym, b, sym.operand(b, a)), 1):
                    out.append((t.bb, t.line, self.field_of(resolve(sym, b, sym.operand(b, a))), self.M.C.gm.op_ty(b, [x for x in ta if x is not a][0])))
            # value stored directly into the state
            if t.dest is not None and t.dest.proj and self.of_self(t.dest):
                out.append((t.bb, t.line, self.field_of(sym.place(b, t.dest)), self.M.C.gm.op_ty(b, ta[0])))
        return out

    def parts(self, ptr, T, ty):
        """(variant or None, field) -> locals that are read from this part of the message"""
        b, out = self.b, {}
        for s in b.stmts():
            if s.kind != '=':
                continue
            for pl in [o.place for o in s.rv.ops if o.place is not None] + ([s.rv.place] if s.rv.place is not None and s.rv.k != 'discr' else []):
                if pl.local not in T:
                    continue
                k = part_of(b, pl, ty)
                if k is not None:
                    out.setdefault(k, []).append(s)
        return out


def part_of(b, pl, ty):
    """which part of a value of type ty (an ADT) the place denotes"""
    cur = b.lty(pl.local)
    var = None
    for e in pl.proj:
        if e == '*':
            cur = cur.args[0] if cur.k in ('ref', 'refmut', 'ptr', 'ptrmut') and cur.args else cur.strip()
            continue
        if isinstance(e, tuple) and e[0] == 'dc':
            if cur is not None and cur.s == ty.s:
                var = e[1]
            continue
        if isinstance(e, tuple) and e[0] == 'f':
            if cur is not None and cur.s == ty.s:
                return (var, e[1])
            return None
        return None
    return None


def root_is(e, n):
    while isinstance(e, tuple):
        if e[0] in ('field', 'idx', 'dc', 'elem', 'mapped', 'sub', 'cast'):
            e = e[1]
        elif e[0] == 'call' and e[2]:
            e = e[2][0]
        elif e[0] == 'phi':
            return any(root_is(c, n) for c in e[2])
        else:
            return e[:2] == ('arg', n)
    return False
