"""Which audio parameter a value inside a processor comes from: provenance through zipped iterators, closures, helpers and indexing."""
import inline as inl
from model import tail

THROUGH = {'iter', 'iter_mut', 'into_iter', 'cycle', 'copied', 'cloned', 'skip', 'take', 'rev', 'step_by', 'by_ref', 'peekable', 'fuse', 'deref', 'deref_mut', 'as_ref', 'borrow',
           'as_slice', 'to_vec', 'clone', 'inspect', 'filter', 'skip_while', 'take_while', 'chunks', 'chunks_exact', 'windows'}
ITEM = {'next', 'last', 'nth', 'first', 'get', 'get_unchecked', 'unwrap', 'expect', 'unwrap_or', 'next_back'}
CAST = {'from', 'into', 'as_', 'f64', 'f32', 'try_into', 'try_from'}
NONE = ('L', frozenset(), True)


def leaf(s, direct=True):
    return ('L', frozenset(s), direct)


def flat(sh):
    if sh[0] == 'T':
        return frozenset().union(*[flat(x) for x in sh[1]]) if sh[1] else frozenset()
    return sh[1]


class Env:
    """meaning of the free names of a body: closure captures and the closure argument"""

    def __init__(self, body, up=None, arg=None):
        self.body, self.up, self.arg = body, up or {}, arg or {}
        self.site = None    # (block of the call that gets the closure, environment of the caller)

    def block(self):
        """block of the outermost body in which this scope runs"""
        e, bb = self, None
        while e.site is not None:
            bb, e = e.site
        return bb


class Prov:
    def __init__(self, ctx):
        self.ctx, self.p, self.g, self.sym = ctx, ctx.p, ctx.g, ctx.sym
        p = self.p
        self.getters, self.listeners = set(), set()
        for b in p.bodies.values():
            if b.kind == 'Closure' or b.self_ty is None or b.argc < 1:
                continue
            a = b.self_ty.strip().adt
            if not a or tail(a) != 'AudioParamValues':
                continue
            if b.argc == 2 and b.lty(2).strip().adt and tail(b.lty(2).strip().adt) == 'AudioParamId':
                self.getters.add(b.path)
            elif b.argc == 1 and b.lty(0).k == 'array':
                self.listeners.add(b.path)
        self.owner = None
        self.memo = {}

    def is_get(self, e):
        return e[0] == 'call' and e[1] in self.getters

    def is_listener(self, e):
        return e[0] == 'call' and e[1] in self.listeners

    # ---- shapes
    def elem(self, e, env, d=0):
        """shape of the items of iterator e"""
        if d > 60:
            return NONE
        if e[0] == 'item':
            return self.shape(e[1], env, d + 1)
        if e[0] == 'tuple':
            return leaf(flat(self.shape(e, env, d + 1)), False)
        if e[0] == 'call' and e[2]:
            n = e[3]
            if n == 'zip':
                return ('T', [self.elem(e[2][0], env, d + 1), self.elem(e[2][1], env, d + 1)])
            if n == 'enumerate':
                return ('T', [NONE, self.elem(e[2][0], env, d + 1)])
            if n in THROUGH:
                return self.elem(e[2][0], env, d + 1)
            if n == 'map' and len(e[2]) > 1 and e[2][1][0] == 'closure':
                return self.mapped(e, env, d + 1)
        sh = self.shape(e, env, d + 1)
        return sh

    def mapped(self, e, env, d):
        cb = self.p.bodies.get(e[2][1][1])
        if cb is None:
            return leaf(flat(self.elem(e[2][0], env, d)), False)
        if e[2][0][0] == 'tuple':
            return ('T', [self.shape(self.sym.local(cb, 0), self.closure_env(e[2][1], env, ('item', x)), d + 1) for x in e[2][0][1]])
        ce = self.closure_env(e[2][1], env, e[2][0])
        sh = self.shape(self.sym.local(cb, 0), ce, d + 1)
        if not flat(sh):
            return leaf(flat(self.elem(e[2][0], env, d)), False)
        return sh

    def closure_env(self, cl, env, recv):
        cb = self.p.bodies[cl[1]]
        return Env(cb, {i: (x, env) for i, x in enumerate(cl[2])}, {2: (recv, env)})

    def shape(self, e, env, d=0):
        if d > 60 or not isinstance(e, tuple) or not e:
            return NONE
        k = e[0]
        if self.is_get(e):
            x = e[2][1]
            x, env2 = self.resolve(x, env)
            if x[0] == 'field':
                return leaf({('own', x[2])})
            if x[0] in ('arg', 'local', 'up', 'idx'):
                return leaf({('any', str(x[2]))}) if k == 'arg' else NONE
            return NONE
        if self.is_listener(e):
            return leaf({('listener', None)}, False)
        if k == 'idx':
            b, _ = self.resolve(e[1], env)
            if self.is_listener(b):
                i = e[2]
                return leaf({('listener', i[1])}) if i[0] == 'const' else leaf({('listener', None)}, False)
            sh = self.shape(e[1], env, d + 1)
            if sh[0] == 'T':
                return sh[1][e[2][1]] if e[2][0] == 'const' and isinstance(e[2][1], int) and e[2][1] < len(sh[1]) else leaf(flat(sh), False)
            return sh
        if k == 'up':
            if e[2] in env.up:
                x, en = env.up[e[2]]
                return self.shape(x, en, d + 1)
            return NONE
        if k == 'arg':
            if e[1] in env.arg:
                x, en = env.arg[e[1]]
                return self.elem(x, en, d + 1)
            return NONE
        if k == 'field':
            base = e[1]
            if base[0] == 'dc' and base[2] in ('Some', 'Ok', 'Continue', 'Borrowed', 'Owned') and e[2] == '0':
                return self.shape(base[1], env, d + 1)
            sh = self.shape(base, env, d + 1)
            if sh[0] == 'T':
                return sh[1][int(e[2])] if e[2].isdigit() and int(e[2]) < len(sh[1]) else leaf(flat(sh), False)
            return ('L', sh[1], False) if sh[1] else NONE
        if k == 'dc':
            return self.shape(e[1], env, d + 1)
        if k == 'tuple':
            return ('T', [self.shape(x, env, d + 1) for x in e[1]])
        if k == 'sub' or k == 'discr':
            return self.shape(e[1], env, d + 1)
        if k == 'call':
            if e[3] in ('next', 'last', 'next_back', 'nth') and e[2]:
                return self.elem(e[2][0], env, d + 1)
            if (e[3] in THROUGH or e[3] in ITEM or e[3] in CAST) and e[2]:
                return self.shape(e[2][0], env, d + 1)
            if e[3] == 'map' and len(e[2]) > 1 and e[2][1][0] == 'closure':
                return self.mapped(e, env, d + 1)
            if e[3] == 'zip':
                return self.elem(e, env, d + 1)
            s = frozenset().union(*[flat(self.shape(x, env, d + 1)) for x in e[2]]) if e[2] else frozenset()
            return leaf(s, False)
        if k in ('cast', 'un', 'neg'):
            return self.sub_all(e, env, d, direct=k == 'cast')
        if k == 'phi':
            shs = [self.shape(x, env, d + 1) for x in e[2]]
            s = frozenset().union(*[flat(x) for x in shs]) if shs else frozenset()
            return leaf(s, all(x[0] == 'L' and x[2] for x in shs) and len(s) <= 1)
        return self.sub_all(e, env, d)

    def sub_all(self, e, env, d, direct=False):
        s = frozenset()
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                s |= flat(self.shape(x, env, d + 1))
            elif isinstance(x, (tuple, list)):
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        s |= flat(self.shape(y, env, d + 1))
            elif hasattr(x, 'values'):
                for y in x.values():
                    if isinstance(y, tuple) and y:
                        s |= flat(self.shape(y, env, d + 1))
        return leaf(s, direct and len(s) <= 1)

    def resolve(self, e, env):
        """follow captures"""
        while e[0] == 'up' and e[2] in env.up or e[0] == 'arg' and e[1] in env.arg and env.arg[e[1]][0][0] == 'item':
            if e[0] == 'up':
                e, env = env.up[e[2]]
            else:
                (_, e), env = env.arg[e[1]]
        if e[0] == 'field':
            b, env2 = self.resolve(e[1], env)
            return ('field', b) + tuple(e[2:]), env2
        return e, env

    # ---- where to look
    def scopes(self, body, free=False):
        """the processing function with its helper methods inlined, and every closure it hands to an iterator adapter"""
        own = body.self_ty.strip().adt
        mine = lambda q: q.self_ty is not None and q.self_ty.strip().adt == own and q.argc >= 2
        pred = lambda q: q.kind != 'Closure' and (mine(q) or free and (q.self_ty is None or q.self_ty.strip().adt == own)) and any(
            q.lty(i).k in ('ref', 'refmut') and ('[f32]' in q.lty(i).s or 'AudioParamValues' in q.lty(i).s) or 'AudioParamValues' in q.lty(i).s for i in range(1, q.argc + 1))
        b = inl.Inliner(self.p, self.g, pred, 3, hof=False).run(body)
        out = [(b, Env(b))]
        todo = [out[0]]
        seen = set()
        while todo:
            x, env = todo.pop(0)
            for t in x.calls():
                if t.bb not in x.live_blocks or t.callee is None or not t.args:
                    continue
                for a in t.args[1:]:
                    e = self.sym.operand(x, a)
                    if e[0] == 'closure' and e[1] in self.p.bodies and (x.serial, t.bb, e[1]) not in seen:
                        seen.add((x.serial, t.bb, e[1]))
                        recv = self.sym.operand(x, t.args[0])
                        ce = self.closure_env(e, env, recv)
                        if t.callee.name in ('fold', 'scan', 'try_fold'):
                            ce.arg = {3: ce.arg[2]}
                        ce.site = (t.bb, env)
                        out.append((ce.body, ce))
                        todo.append((ce.body, ce))
        return out
