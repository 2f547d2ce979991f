"""Destructors that act only when an optional field is set, for types whose values never carry it while stored or queued."""
from cg import FN_TRAITS
from model import tail


def guarded_field(prog, b):
    """(adt, field) if all calls of the Drop impl sit under `if let Some(..) = self.field`"""
    if b.name != 'drop' or not b.trait or tail(b.trait) != 'Drop':
        return None
    adt = b.self_ty.adt
    p, sym = prog.p, prog.sym
    for blk in b.blocks:
        t = blk.term
        if t.k != 'switch' or blk.i not in b.live_blocks:
            continue
        d = [s for s in blk.stmts if s.kind == '=' and s.rv.k == 'discr']
        if not d:
            continue
        e = sym.place(b, d[-1].rv.place)
        while e[0] == 'call' and e[3] in ('take', 'as_ref', 'as_mut', 'replace') and e[2]:
            e = e[2][0]
        if not (e[0] == 'field' and e[3] == adt and e[1][0] == 'arg'):
            continue
        some = [x for v, x in t.d['cases'] if v == 1]
        if not some and all(v == 0 for v, _ in t.d['cases']):
            some = [t.d['else']]
        if not some:
            continue
        calls = [c for c in b.calls() if c.bb != blk.i and c.callee is not None and p.resolve(c.callee)]
        if calls and all(b.dominates(some[0], c.bb) for c in calls):
            return adt, e[2]
    return None


def _is_none(e):
    return e[0] == 'agg' and e[2] == 'None'


def inert_types(prog):
    """{adt: drop body}: values of adt reach a container, queue or message only with the field empty; the field is filled
    only in a local that then is handed to user code by value"""
    p, g, sym = prog.p, prog.g, prog.sym
    out = {}
    for b in p.bodies.values():
        gf = guarded_field(prog, b)
        if gf is None:
            continue
        adt, fld = gf
        ok = True
        for x in p.bodies.values():
            filled = set()
            for s in x.stmts():
                if s.kind != '=':
                    continue
                if s.rv.k == 'agg' and s.rv.agg.get('adt') == adt:
                    v = sym.operand(x, dict(zip(s.rv.agg['f'], s.rv.ops))[fld])
                    if not _is_none(v):
                        filled.add((s.place.local, bool(s.place.proj)))
                elif s.place.proj and isinstance(s.place.proj[-1], tuple) and s.place.proj[-1][0] == 'f' and \
                        s.place.proj[-1][1] == fld and s.place.proj[-1][2] == adt:
                    if not _is_none(sym.rvalue(x, s.rv)):
                        filled.add((s.place.local, '*' in s.place.proj))
            for l, indirect in filled:
                if indirect or l <= x.argc:
                    ok = False
                    continue
                for kind, f in g._flows(x, l):
                    if kind == 'call' and f.callee is not None and f.callee.trait in FN_TRAITS and not g.fn_call_targets(x, f):
                        continue
                    ok = False
        if ok:
            out[adt] = b
    return out
