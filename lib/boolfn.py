"""Decision table of a small (inlined) body: which results and which blocks follow from which tests."""
from cond import Conds
from mir import Operand


class Row:
    def __init__(self, facts, ret, blocks):
        self.facts, self.ret, self.blocks = facts, ret, blocks

    def has(self, pred):
        return any(pred(e, v) for e, v in self.facts)


def table(sym, b, limit=4000, loops=1, start=0):
    """[Row] for every path from entry to a return: facts (expr, truth or variant), returned bool (None if unknown), blocks passed.
    None if there are too many paths."""
    cd = Conds(sym)
    rows = []
    work = [(start, {}, (), ())]
    n = 0

    def boolval(env, op, neg=False):
        if op.place is None:
            return ('c', bool(op.value) != neg) if op.value in (0, 1, True, False) else None
        if not op.place.proj and op.place.local in env:
            v = env[op.place.local]
            return (v[0], not v[1]) + v[2:] if neg and v is not None else v
        e, t = cd.norm(sym.operand(b, op), not neg)
        return ('a', t, e)

    def asg(env, l, rv):
        if rv.k == 'use':
            env[l] = boolval(env, rv.ops[0])
        elif rv.k == 'un' and rv.op == 'Not':
            env[l] = boolval(env, rv.ops[0], True)
        elif rv.k == 'bin' and rv.op in ('BitAnd', 'BitOr') and len(rv.ops) == 2:
            x, y = boolval(env, rv.ops[0]), boolval(env, rv.ops[1])
            keep = rv.op == 'BitAnd'
            for u, w in ((x, y), (y, x)):
                if u is not None and u[0] == 'c':
                    env[l] = w if u[1] == keep else ('c', not keep)
                    return
            e, t = cd.norm(sym.rvalue(b, rv), True)
            env[l] = ('a', t, e)
        else:
            e, t = cd.norm(sym.rvalue(b, rv), True)
            env[l] = ('c', bool(e[1]) == t) if e[0] == 'const' and e[1] in (0, 1) else ('a', t, e)

    while work:
        i, env, facts, seen = work.pop()
        n += 1
        if n > limit:
            return None
        if seen.count(i) > loops:
            continue
        seen = seen + (i,)
        env = dict(env)
        blk = b.blocks[i]
        for s in blk.stmts:
            if s.kind == '=' and not s.place.proj and b.lty(s.place.local).s == 'bool':
                asg(env, s.place.local, s.rv)
        t = blk.term
        if t.k == 'call' and t.dest is not None and not t.dest.proj and b.lty(t.dest.local).s == 'bool':
            e, tr = cd.norm(sym._call(b, t, 20, frozenset()), True)
            env[t.dest.local] = ('a', tr, e)
        if t.k == 'return':
            v = env.get(0)
            if v is None or v[0] == 'c':
                rows.append(Row(facts, v[1] if v else None, seen))
            else:
                known = [x for e, x in facts if e == v[2]]
                if known:
                    rows.append(Row(facts, known[0] == v[1], seen))
                else:
                    rows.append(Row(facts + ((v[2], v[1]),), True, seen))
                    rows.append(Row(facts + ((v[2], not v[1]),), False, seen))
            continue
        if t.k == 'switch':
            op = Operand(b.p, t.d['d'])
            ty = b.place_ty(op.place) if op.place is not None else None
            if ty is not None and ty.s == 'bool':
                v = boolval(env, op)
                no = [x for c, x in t.d['cases'] if c == 0]
                no = no[0] if no else t.d['else']
                yes = [x for c, x in t.d['cases'] if c == 1]
                yes = yes[0] if yes else t.d['else']
                if v is None:
                    work += [(x, env, facts, seen) for x in (no, yes)]
                elif v[0] == 'c':
                    work.append((yes if v[1] else no, env, facts, seen))
                else:
                    known = [x for e, x in facts if e == v[2]]
                    for truth, x in ((True, yes), (False, no)):
                        f = v[1] if truth else not v[1]
                        if known and known[0] != f:
                            continue
                        work.append((x, env, facts if known else facts + ((v[2], f),), seen))
                continue
            for x in dict.fromkeys(b.succs[i]):
                fs = cd.edge(b, i, x)
                if any(e == e2 and isinstance(v, str) and isinstance(v2, str) and v != v2 for e, v in fs for e2, v2 in facts):
                    continue
                work.append((x, env, facts + tuple(fs), seen))
            continue
        if t.k == 'assert':
            work.append((t.target, env, facts + tuple(cd.edge(b, i, t.target)), seen))
            continue
        for x in dict.fromkeys(b.succs[i]):
            if x in b.live_blocks:
                work.append((x, env, facts, seen))
    return rows
