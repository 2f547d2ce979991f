"""Symbolic expressions of MIR operands (flow-insensitive per local, references transparent)."""
from mir import Place, Operand, Callee

# calls through which a value keeps its identity (result is a view or copy of argument 0)
VIEW = {
    'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'clone', 'to_owned', 'as_slice',
    'as_mut_slice', 'as_deref', 'as_deref_mut', 'cloned', 'copied', 'unwrap', 'expect', 'into_iter', 'iter',
    'iter_mut', 'get_mut', 'get_ref', 'by_ref',
}
SCALARS = {'bool', 'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'f32', 'f64'}
VIEW_CRATES = {'core', 'std', 'alloc', 'smallvec', 'arrayvec', 'arc_swap', 'llq'}


class Sym:
    def __init__(self, prog, view=VIEW, depth=40):
        self.p = prog
        self.view = view
        self.maxdepth = depth
        self._memo = {}

    # -- public
    def operand(self, body, op, depth=None):
        d = self.maxdepth if depth is None else depth
        return self._operand(body, op, d, frozenset())

    def place(self, body, pl, depth=None):
        d = self.maxdepth if depth is None else depth
        return self._place(body, pl, d, frozenset())

    def local(self, body, l, depth=None):
        d = self.maxdepth if depth is None else depth
        return self._local(body, l, d, frozenset())

    def rvalue(self, body, rv, depth=None):
        d = self.maxdepth if depth is None else depth
        return self._rvalue(body, rv, d, frozenset())

    # -- impl
    def _operand(self, body, op, d, seen):
        if op.kind == 'const':
            if op.callee is not None:
                return ('fn', op.callee.rpath, op.callee.uid)
            if 'promoted' in op.d:
                pb = self.p.promoted.get((body.uid, op.d['promoted']))
                if pb is not None and d > 0:
                    return self._local(pb, 0, d - 1, frozenset())
            if op.value is not None:
                return ('const', op.value, op.const_def)
            if op.const_def:
                return ('def', op.const_def)
            return ('const', op.text, None)
        return self._place(body, op.place, d, seen)

    def _place(self, body, pl, d, seen):
        e = None
        # closure captures
        proj = list(pl.proj)
        if pl.local == 1 and body.kind == 'Closure' and not (body.parent is None):
            i = 0
            while i < len(proj) and proj[i] == '*':
                i += 1
            if i < len(proj) and isinstance(proj[i], tuple) and proj[i][0] == 'f' and proj[i][2] == 'closure':
                idx = proj[i][3]
                e = ('up', body.upvars.get(idx, str(idx)), idx)
                proj = proj[i + 1:]
        if e is None:
            e = self._local(body, pl.local, d, seen)
        for x in proj:
            if x == '*':
                continue
            if isinstance(x, tuple):
                if x[0] == 'f':
                    e = self._field(e, x)
                elif x[0] == 'dc':
                    e = ('dc', e, x[1])
                elif x[0] == 'i':
                    e = ('idx', e, self._local(body, x[1], d - 1, seen) if d > 0 else ('?',))
                elif x[0] == 'ci':
                    e = ('idx', e, ('const', (-x[1] if x[2] else x[1]), None))
                else:
                    e = ('sub', e)
        return e

    @staticmethod
    def _field(e, x):
        # project out of a known aggregate
        if e[0] == 'agg' and x[1] in e[3]:
            return e[3][x[1]]
        if e[0] == 'closure' and x[2] in ('closure', 'coroutine') and x[3] < len(e[2]):
            return e[2][x[3]]
        if e[0] == 'tuple' and x[1].isdigit() and int(x[1]) < len(e[1]):
            return e[1][int(x[1])]
        # overflow-checked arithmetic: (a op b).0
        if e[0] == 'bin' and e[1].endswith('WithOverflow') and x[1] == '0':
            return ('bin', e[1][:-len('WithOverflow')], e[2], e[3])
        if e[0] == 'dc':
            # payload of an Option/Result view
            if e[2] in ('Some', 'Ok') and x[1] == '0':
                inner = e[1]
                if inner[0] == 'agg' and inner[2] == e[2] and '0' in inner[3]:
                    return inner[3]['0']
            return ('field', e, x[1], x[2])
        return ('field', e, x[1], x[2])

    @staticmethod
    def _shared(body):
        if 'shared' not in body._cache:
            body._cache['shared'] = {s.rv.place.local for s in body.stmts() if s.kind == '=' and s.rv.k == 'refmut' and not s.rv.place.proj
                                     and body.lty(s.rv.place.local).s in SCALARS}
        return body._cache['shared']

    def _local(self, body, l, d, seen):
        key = (body.uid, l)
        if 1 <= l <= body.argc and l not in body.defs:
            return ('arg', l, body.lname(l))
        ds = body.defs.get(l, [])
        if d <= 0 or l in seen or not ds:
            if 1 <= l <= body.argc:
                return ('arg', l, body.lname(l))
            return ('local', l, body.lname(l))
        memo = self._memo.get((body.serial, l))
        if memo is not None:
            return memo
        if l in self._shared(body):
            # a scalar that is also written through a reference
            return ('local', l, body.lname(l))
        seen2 = seen | {l}
        outs = []
        for df in ds:
            if hasattr(df, 'rv'):
                e = self._rvalue(body, df.rv, d - 1, seen2)
            else:
                e = self._call(body, df, d - 1, seen2)
            if e not in outs:
                outs.append(e)
        if 1 <= l <= body.argc:
            a = ('arg', l, body.lname(l))
            if a not in outs:
                outs.append(a)
        if len(outs) == 1:
            r = outs[0]
        else:
            r = ('phi', l, tuple(outs))
        if not seen:
            self._memo[(body.serial, l)] = r
        return r

    def _call(self, body, t, d, seen):
        c = t.callee
        if c is None:
            return ('callptr', self._operand(body, t.func, d, seen),
                    tuple(self._operand(body, a, d, seen) for a in t.args))
        if c.name in self.view and c.krate in VIEW_CRATES and t.args and not (c.name == 'get_mut' and len(t.args) > 1):
            return self._operand(body, t.args[0], d, seen)
        if c.name in ('index', 'index_mut') and c.krate in VIEW_CRATES and len(t.args) > 1 and 'RangeFull' in repr(self._operand(body, t.args[1], d, seen)[:2]):
            return self._operand(body, t.args[0], d, seen)
        # Into/From between references and owned views keep identity only for local conversions
        return ('call', c.rpath, tuple(self._operand(body, a, d, seen) for a in t.args), c.name, (t.bb,))

    def _rvalue(self, body, rv, d, seen):
        k = rv.k
        if k == 'use':
            return self._operand(body, rv.ops[0], d, seen)
        if k in ('ref', 'refmut', 'fakeref', 'rawptr'):
            return self._place(body, rv.place, d, seen)
        if k == 'cast':
            inner = self._operand(body, rv.ops[0], d, seen)
            if rv.cast.startswith(('PointerCoercion', 'PtrToPtr')):
                return inner
            return ('cast', inner, rv.ty.s)
        if k == 'bin':
            return ('bin', rv.op, self._operand(body, rv.ops[0], d, seen), self._operand(body, rv.ops[1], d, seen))
        if k == 'un' and rv.op == 'PtrMetadata':
            # length of a slice, as asked for by slice patterns
            return ('call', 'core::slice::<impl [T]>::len', (self._operand(body, rv.ops[0], d, seen),), 'len', ())
        if k == 'un':
            return ('un', rv.op, self._operand(body, rv.ops[0], d, seen))
        if k == 'discr':
            return ('discr', self._place(body, rv.place, d, seen))
        if k == 'agg':
            a = rv.agg
            ops = [self._operand(body, o, d, seen) for o in rv.ops]
            if a['k'] == 'adt':
                return AggT(a['adt'], a.get('var'), dict(zip(a['f'], ops)))
            if a['k'] in ('closure', 'coroutine'):
                return ('closure', a['def'], tuple(ops))
            return ('tuple', tuple(ops))
        if k == 'repeat':
            return ('repeat', self._operand(body, rv.ops[0], d, seen))
        return (k,)


class FD(dict):
    """hashable dict"""
    def __hash__(self):
        return hash(tuple(sorted((k, v) for k, v in self.items()) if all(isinstance(k, str) for k in self) else 0))


def AggT(adt, var, fields):
    return ('agg', adt, var, FD(fields))


def walk(e):
    """all sub-expressions"""
    if not isinstance(e, tuple):
        return
    yield e
    for x in e[1:]:
        if isinstance(x, FD):
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from walk(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield from walk(y)


def show(e, n=0):
    if not isinstance(e, tuple):
        return str(e)
    k = e[0]
    if n > 12:
        return '..'
    s = lambda x: show(x, n + 1)
    if k == 'arg':
        return e[2] or f'arg{e[1]}'
    if k == 'up':
        return e[1]
    if k == 'const':
        return (e[2].rsplit('::', 1)[-1] if e[2] else str(e[1]))
    if k == 'def':
        return e[1].rsplit('::', 1)[-1]
    if k == 'field':
        return f'{s(e[1])}.{e[2]}'
    if k == 'dc':
        return f'({s(e[1])} as {e[2]})'
    if k == 'idx':
        return f'{s(e[1])}[{s(e[2])}]'
    if k == 'call':
        return f'{e[3]}({", ".join(s(a) for a in e[2])})'
    if k == 'bin':
        return f'({s(e[2])} {e[1]} {s(e[3])})'
    if k == 'un':
        return f'{e[1]}({s(e[2])})'
    if k == 'agg':
        return f'{e[1].rsplit("::", 1)[-1]}{"::" + e[2] if e[2] else ""}{{{", ".join(f"{a}: {s(b)}" for a, b in e[3].items())}}}'
    if k == 'phi':
        return 'phi(' + ' | '.join(s(x) for x in e[2]) + ')'
    if k == 'tuple':
        return '(' + ', '.join(s(x) for x in e[1]) + ')'
    if k == 'closure':
        return '<closure>'
    if k == 'local':
        return e[2] or f'_{e[1]}'
    if k == 'cast':
        return s(e[1])
    if k == 'discr':
        return f'discr({s(e[1])})'
    if k == 'fn':
        return e[1].rsplit('::', 1)[-1]
    return k
