"""Conditional constant propagation on one (possibly inlined) body, from a given block on.

Tracks booleans, integers and enum variants held in locals (and fields of local tuples/structs) that are never mutably
borrowed. Joins at merge points; a switch on a known value follows one edge only."""
from mir import Operand, Place

TOP = object()
INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
DISCR = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1}


def key_of(pl):
    k = [pl.local]
    for e in pl.proj:
        if isinstance(e, tuple) and e[0] == 'f':
            k.append(e[1])
        elif isinstance(e, tuple) and e[0] == 'dc':
            k.append('@' + e[1])
        else:
            return None
    return tuple(k)


class CProp:
    def __init__(self, body, start=0, env=None, stop=()):
        self.b = body
        self.p = body.p
        mb = set()
        self.alias = {}
        refs = {}
        for s in body.stmts(live_only=False):
            if s.kind == '=' and s.rv.k in ('refmut', 'rawptr') and '*' not in s.rv.place.proj:
                mb.add(s.rv.place.local)
            if s.kind == '=' and s.rv.k in ('ref', 'fakeref') and not s.place.proj:
                refs.setdefault(s.place.local, []).append(s.rv.place)
        for l, ps in refs.items():
            if len(ps) == 1 and len(body.defs.get(l, [])) == 1 and key_of(ps[0]) is not None:
                self.alias[l] = ps[0]
        self.cap = self._captures(mb)
        self.mb = mb
        self.ent = {start: dict(env or {})}
        work = [start]
        self.edge = set()
        self.succ = {}
        while work:
            i = work.pop()
            st = self.flow(i, dict(self.ent[i]))
            outs = self.out(i, st) if i not in stop else []
            self.succ[i] = outs
            for s in outs:
                cur = self.ent.get(s)
                if cur is None:
                    self.ent[s] = dict(st)
                    work.append(s)
                else:
                    new = {k: v for k, v in cur.items() if st.get(k, TOP) == v}
                    if new != cur:
                        self.ent[s] = new
                        work.append(s)
                    elif s not in self.succ and s not in work:
                        work.append(s)
        self.reach = set(self.ent)

    def _captures(self, mb):
        """(closure parameter, field) -> local captured by reference by a closure that is spliced into this body; such locals are
        taken out of `mb` when the capture is their only mutable borrow"""
        b = self.b
        ref, nref, agg, link = {}, {}, {}, {}
        for s in b.stmts(live_only=False):
            if s.kind != '=' or s.place.proj:
                continue
            rv = s.rv
            if rv.k in ('ref', 'refmut') and not rv.place.proj:
                ref[s.place.local] = rv.place.local
                link.setdefault(s.place.local, rv.place.local)
            if rv.k in ('refmut', 'rawptr') and '*' not in rv.place.proj:
                nref[rv.place.local] = nref.get(rv.place.local, 0) + 1
            if rv.k == 'use' and rv.ops[0].place is not None and not rv.ops[0].place.proj:
                link.setdefault(s.place.local, rv.ops[0].place.local)
            if rv.k == 'agg' and 'closure' in str(rv.agg.get('k', '')):
                agg[s.place.local] = [o.place.local if o.place is not None and not o.place.proj else None for o in rv.ops]
        out = {}
        for l in list(link):
            x, n = l, 0
            while x in link and x not in agg and n < 12:
                x, n = link[x], n + 1
            if x in agg and x != l:
                for k, r in enumerate(agg[x]):
                    if r in ref and len(b.defs.get(r, [])) == 1:
                        out[l, str(k)] = ref[r]
        for v in set(out.values()):
            if nref.get(v, 0) <= 1:
                mb.discard(v)
        return out

    def key(self, pl):
        """key of a place, seen through the captures of spliced closures"""
        if self.cap and '*' in pl.proj:
            pr = list(pl.proj)
            if pr and pr[0] == '*':
                pr = pr[1:]
            if len(pr) >= 2 and isinstance(pr[0], tuple) and pr[0][0] == 'f' and pr[1] == '*' and (pl.local, str(pr[0][1])) in self.cap:
                k = [self.cap[pl.local, str(pr[0][1])]]
                for e in pr[2:]:
                    if isinstance(e, tuple) and e[0] in ('f', 'dc'):
                        k.append(e[1] if e[0] == 'f' else '@' + e[1])
                    else:
                        return None
                return tuple(k)
        return key_of(pl)

    # ---- values
    def disc(self, adt, var):
        if adt in self.p.adts:
            vs = [v['n'] for v in self.p.adts[adt]['variants']]
            return vs.index(var) if var in vs else None
        return DISCR.get(var)

    def val(self, op, st):
        if op.kind == 'const':
            v = op.value
            return v if isinstance(v, (int, bool)) else TOP
        k = self.key(op.place)
        if k is None:
            return TOP
        return st.get(k, TOP)

    def variant(self, op, st):
        """enum variant behind a (reference) operand"""
        if op.kind == 'const':
            if 'promoted' in op.d:
                pb = self.p.promoted.get((getattr(self.b, 'base', self.b).uid, op.d['promoted']))
                if pb is not None:
                    vs = {s.rv.agg.get('var') for s in pb.stmts() if s.kind == '=' and s.rv.k == 'agg'}
                    return vs.pop() if len(vs) == 1 else None
            return None
        pl = op.place
        if pl.local in self.alias and not pl.proj:
            pl = self.alias[pl.local]
        k = self.key(pl)
        return st.get(k + ('#',)) if k is not None else None

    def kill(self, k, st):
        n = len(k)
        for x in [x for x in st if x[:n] == k]:
            del st[x]

    def copy(self, src, dst, st):
        n = len(src)
        for x, v in [(x, v) for x, v in st.items() if x[:n] == src]:
            st[dst + x[n:]] = v

    def flow(self, i, st):
        for s in self.b.blocks[i].stmts:
            if s.kind == 'dead':
                self.kill((s.place.local,), st)
                continue
            if s.kind != '=':
                k = self.key(s.place)
                if k:
                    self.kill(k, st)
                continue
            k = self.key(s.place)
            if k is None:
                continue
            if k[0] in self.mb:
                self.kill(k, st)
                continue
            rv = s.rv
            new = {}
            if rv.k == 'use':
                o = rv.ops[0]
                v = self.val(o, st)
                if v is not TOP:
                    new[k] = v
                if o.place is not None:
                    sk = self.key(o.place)
                    if sk is not None:
                        tmp = {}
                        n = len(sk)
                        for x, v in st.items():
                            if x[:n] == sk:
                                tmp[k + x[n:]] = v
                        new.update(tmp)
            elif rv.k == 'cast':
                v = self.val(rv.ops[0], st)
                if v is not TOP and isinstance(v, (int, bool)) and rv.ty.s in INTS and 0 <= int(v) < 128:
                    new[k] = int(v)
                elif v is TOP and rv.ops[0].place is not None:
                    sk = self.key(rv.ops[0].place)
                    if sk is not None and sk + ('#',) in st:       # fieldless enum to integer
                        dv = self.disc(st[sk + ('#adt',)], st[sk + ('#',)])
                        if dv is not None:
                            new[k] = dv
            elif rv.k == 'un' and rv.op == 'Not':
                v = self.val(rv.ops[0], st)
                if v is not TOP and v in (0, 1, True, False):
                    new[k] = 0 if v else 1
            elif rv.k == 'bin':
                a, c = self.val(rv.ops[0], st), self.val(rv.ops[1], st)
                if a is not TOP and c is not TOP:
                    f = {'Eq': lambda: int(a == c), 'Ne': lambda: int(a != c), 'Lt': lambda: int(a < c), 'Le': lambda: int(a <= c),
                         'Gt': lambda: int(a > c), 'Ge': lambda: int(a >= c), 'BitAnd': lambda: a & c, 'BitOr': lambda: a | c,
                         'BitXor': lambda: a ^ c}.get(rv.op)
                    if f:
                        new[k] = f()
                elif rv.op == 'BitAnd' and (a == 0 or c == 0):
                    new[k] = 0
                elif rv.op == 'BitOr' and (a == 1 or c == 1):
                    new[k] = 1
            elif rv.k == 'agg':
                fs = rv.agg.get('f') or [str(j) for j in range(len(rv.ops))]
                var = rv.agg.get('var')
                pre = k + ('@' + var,) if var else k
                if var is not None:
                    new[k + ('#',)] = var
                    new[k + ('#adt',)] = rv.agg['adt']
                for f, o in zip(fs, rv.ops):
                    v = self.val(o, st)
                    if v is not TOP:
                        new[pre + (f,)] = v
                    if o.place is not None and self.key(o.place) is not None:
                        sk = self.key(o.place)
                        n = len(sk)
                        for x, v in st.items():
                            if x[:n] == sk:
                                new[pre + (f,) + x[n:]] = v
            elif rv.k == 'discr':
                sk = self.key(rv.place)
                if sk is not None and sk + ('#',) in st:
                    dv = self.disc(st[sk + ('#adt',)], st[sk + ('#',)])
                    if dv is not None:
                        new[k] = dv
            self.kill(k, st)
            st.update(new)
        t = self.b.blocks[i].term
        if t.k == 'call':
            k = self.key(t.dest)
            new = None
            if t.callee is not None and t.args and t.callee.name in ('is_err', 'is_ok', 'is_some', 'is_none'):
                o = t.args[0]
                if o.place is not None and not o.place.proj and o.place.local in self.alias:
                    sk = self.key(self.alias[o.place.local])
                    if sk is not None and sk + ('#',) in st:
                        v = st[sk + ('#',)]
                        new = int({'is_err': v == 'Err', 'is_ok': v == 'Ok', 'is_some': v == 'Some', 'is_none': v == 'None'}[t.callee.name])
                        if v in ('Continue', 'Break'):
                            new = None
            if t.callee is not None and t.args and t.callee.name in ('is_break', 'is_continue') and t.callee.krate == 'core':
                o = t.args[0]
                if o.place is not None and not o.place.proj and o.place.local in self.alias:
                    sk = self.key(self.alias[o.place.local])
                    if sk is not None and sk + ('#',) in st:
                        new = int((st[sk + ('#',)] == 'Break') == (t.callee.name == 'is_break'))
            var = None
            if t.callee is not None and t.args and t.callee.name in ('then_some', 'then') and t.callee.krate == 'core':
                v = self.val(t.args[0], st)
                if v is not TOP:
                    var = 'Some' if v else 'None'
            if t.callee is not None and len(t.args) == 2 and t.callee.name in ('eq', 'ne'):
                vs = [self.variant(o, st) for o in t.args]
                if None not in vs:
                    new = int((vs[0] == vs[1]) == (t.callee.name == 'eq'))
            if k is not None:
                self.kill(k, st)
                if t.dest.local not in self.mb:
                    if new is not None:
                        st[k] = new
                    if var is not None:
                        st[k + ('#',)] = var
                        st[k + ('#adt',)] = 'std::option::Option'
        return st

    def out(self, i, st):
        t = self.b.blocks[i].term
        if t.k == 'switch':
            v = self.val(Operand(self.p, t.d['d']), st)
            if v is not TOP:
                for c, b in t.d['cases']:
                    if c == int(v):
                        return [b]
                return [t.d['else']]
        return t.succs()

    # ---- queries on the pruned graph
    def paths_avoiding(self, start, goals, through):
        if start in through:
            return None
        prev = {start: None}
        q = [start]
        while q:
            x = q.pop(0)
            if x in goals:
                out = []
                while x is not None:
                    out.append(x)
                    x = prev[x]
                return out[::-1]
            for y in self.succ.get(x, []):
                if y not in prev and y not in through:
                    prev[y] = x
                    q.append(y)
        return None

    def reachable(self, start, avoid=()):
        seen, q = {start}, [start]
        while q:
            x = q.pop()
            for y in self.succ.get(x, []):
                if y not in seen and y not in avoid:
                    seen.add(y)
                    q.append(y)
        return seen
