"""Which processor belongs to which node handle: read off the closures given to node registration."""
import inline as inl
from model import Model, mentions, tail


class Pair:
    def __init__(self, node, proc, closure, cast_ty):
        self.node, self.proc, self.closure, self.ty = node, proc, closure, cast_ty

    def __repr__(self):
        return f'{tail(self.node)} <-> {tail(self.proc)}'


def registration(p):
    """the registration handle: local struct with a Drop impl, passed to registration closures (public name)"""
    c = [a for a in p.adts if tail(a) == 'AudioContextRegistration']
    return c[0] if c else None


def is_ctor(p, m, b):
    """closure handed to node registration: returns (handle, Box<dyn AudioProcessor>)"""
    r = b.lty(0)
    return r.k == 'tuple' and len(r.args) == 2 and r.args[0].adt in p.adts and \
        r.args[1].adt is not None and tail(r.args[1].adt) == 'Box' and r.args[1].args and m.is_dyn(r.args[1].args[0], m.processor_trait)


def ctors(p, m):
    return [b for b in p.bodies.values() if is_ctor(p, m, b)]


def pairs(ctx, m=None):
    memo = ctx.cur.__dict__
    if '_pairs' in memo:
        return memo['_pairs']
    p = ctx.p
    m = m or Model(p)
    out, seen = [], set()
    for b in ctors(p, m):
        node = b.lty(0).args[0].adt
        inner = {b.uid} | set(ctx.g.reach([b], ('call',)))
        for uid in inner:
            x = p.bodies[uid]
            if x is not b and is_ctor(p, m, x):
                continue
            for s in x.stmts():
                if s.kind == '=' and s.rv.k == 'cast' and s.rv.cast.startswith('PointerCoercion') and s.rv.ops[0].place is not None and \
                        s.rv.ty.adt and tail(s.rv.ty.adt) == 'Box' and s.rv.ty.args and m.is_dyn(s.rv.ty.args[0], m.processor_trait):
                    src = x.place_ty(s.rv.ops[0].place)
                    if src is not None and src.args and src.args[0].adt is not None and (node, src.args[0].adt, b.uid) not in seen:
                        if x is b or x.lty(0).s == b.lty(0).s or mentions(x.lty(0), lambda t: m.is_dyn(t, m.processor_trait)):
                            seen.add((node, src.args[0].adt, b.uid))
                            out.append(Pair(node, src.args[0].adt, b, src.args[0]))
    memo['_pairs'] = out
    return out
