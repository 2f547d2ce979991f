"""Path-sensitive reachability: explores (block, known constants) pairs without joining, on one (inlined) body."""
from cprop import CProp, key_of
from mir import Operand

LIMIT = 60000


class TooBig(Exception):
    pass


class Paths:
    def __init__(self, body):
        self.b = body
        self.cp = CProp(body, stop=set(range(len(body.blocks))))     # only its transfer functions are used
        self.rel = self._relevant()
        self.tests = {}

    def _relevant(self):
        """locals whose constants can reach a switch"""
        b, rel, work = self.b, set(), []
        for i in b.live_blocks:
            t = b.blocks[i].term
            if t.k == 'switch':
                o = Operand(b.p, t.d['d'])
                if o.place is not None:
                    work.append(o.place.local)
        while work:
            l = work.pop()
            if l in rel:
                continue
            rel.add(l)
            for d in b.defs.get(l, []):
                ops = d.rv.ops if hasattr(d, 'rv') else d.args
                for o in ops:
                    if o.place is not None:
                        work.append(o.place.local)
                if hasattr(d, 'rv') and d.rv.place is not None:
                    work.append(d.rv.place.local)
        return rel

    def _learn(self, i):
        """keys of a boolean tested by the switch that ends block i: the operand and the local it was copied from"""
        if i in self.tests:
            return self.tests[i]
        b, out = self.b, ()
        t = b.blocks[i].term
        if t.k == 'switch' and len(t.d['cases']) == 1 and t.d['cases'][0][0] == 0:
            o = Operand(b.p, t.d['d'])
            if o.place is not None and not o.place.proj and b.lty(o.place.local).s == 'bool':
                out = [(o.place.local,)]
                for s in reversed(b.blocks[i].stmts):
                    if s.kind == '=' and s.place.local == out[-1][0] and not s.place.proj:
                        if s.rv.k == 'use' and s.rv.ops[0].place is not None:
                            k = self.cp.key(s.rv.ops[0].place)
                            if k is not None and k[0] not in self.cp.mb and len(b.defs.get(k[0], [])) > 1:
                                out.append(k)
                        break
                # a value with a single definition is tested once: nothing to remember
                out = tuple(out[1:])
        self.tests[i] = out
        return out

    def find(self, start, goals, cut_edges=(), through=(), env=None, stop=()):
        """path from start to a goal taking no edge of cut_edges, entering no block of `through`; None if there is none.
        Blocks in `stop` are not left."""
        b = self.b
        goals, through, stop = set(goals), set(through), set(stop)
        if start in through:
            return None
        st0 = (start, frozenset((env or {}).items()))
        prev = {st0: None}
        q = [st0]
        while q:
            cur = q.pop(0)
            i, fr = cur
            if i in goals:
                out = []
                while cur is not None:
                    out.append(cur[0])
                    cur = prev[cur]
                return out[::-1]
            if i in stop:
                continue
            env = self.cp.flow(i, dict(fr))
            outs = self.cp.out(i, env)
            fr2 = frozenset((k, v) for k, v in env.items() if k[0] in self.rel)
            for s in outs:
                if (i, s) in cut_edges or s in through:
                    continue
                ks = self._learn(i)
                if ks:
                    v = int(s != b.blocks[i].term.d['cases'][0][1])
                    n = (s, frozenset(set(x for x in fr2 if x[0] not in ks) | {(k, v) for k in ks}))
                else:
                    n = (s, fr2)
                if n not in prev:
                    prev[n] = cur
                    q.append(n)
                    if len(prev) > LIMIT:
                        raise TooBig(self.b.path)
        return None
