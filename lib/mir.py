"""Model of the extracted program: bodies, types, call graph, control-flow queries.

Facts come from /verif/driver (pre-drop-elaboration MIR of the type-checked crate); nothing in this
module executes or simulates code of the crate.
"""
import itertools
import json
import names
from collections import defaultdict, deque

IDENT_CALLS = {
    # callee name -> index of the argument the result is an alias/view/copy of
    'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'clone', 'into', 'from',
    'to_owned', 'as_slice', 'as_mut_slice', 'as_deref', 'as_deref_mut', 'get_mut', 'into_inner',
    'cloned', 'copied', 'unwrap', 'expect', 'into_iter', 'iter', 'iter_mut', 'as_ptr', 'unwrap_or_default',
}

# external types whose generic argument is borrowed, not owned
BORROWING = {
    'PhantomData', 'ManuallyDrop', 'MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'MappedMutexGuard', 'Ref', 'RefMut', 'Weak',
    'Iter', 'IterMut', 'Chunks', 'ChunksMut', 'ChunksExact', 'ChunksExactMut', 'Windows', 'Keys', 'Values', 'ValuesMut', 'NonNull',
    'TryIter', 'TypeId',
}


class Ty:
    __slots__ = ('p', 'i', 'd')

    def __init__(self, p, i):
        self.p, self.i, self.d = p, i, p.raw_types[i]

    @property
    def s(self): return self.d['s']
    @property
    def k(self): return self.d.get('k', 'prim')
    @property
    def adt(self): return self.d.get('adt')
    @property
    def args(self): return [self.p.ty(a) for a in self.d.get('args', [])]
    @property
    def local(self): return self.d.get('local', False)
    @property
    def closure(self): return self.d.get('def') if self.k in ('closure', 'coroutine') else None

    def strip(self):
        """peel references / raw pointers"""
        t = self
        while t.k in ('ref', 'refmut', 'ptr', 'ptrmut'):
            t = t.args[0]
        return t

    def peel(self, wrappers=('std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc', 'std::pin::Pin',
                             'alloc::sync::Arc', 'alloc::boxed::Box', 'alloc::rc::Rc')):
        """peel references and smart pointers"""
        t = self
        while True:
            if t.k in ('ref', 'refmut', 'ptr', 'ptrmut'):
                t = t.args[0]
            elif t.k == 'adt' and t.adt in wrappers and t.args:
                t = t.args[0]
            else:
                return t

    def __eq__(self, o): return isinstance(o, Ty) and o.i == self.i and o.p is self.p
    def __hash__(self): return hash(self.i)
    def __repr__(self): return self.s


class _Unknown:
    s, k, adt, args, local, closure, d, i = '?', '?', None, [], False, None, {}, -1

    def strip(self): return self

    def peel(self, *a): return self

    def __bool__(self): return False


UNKNOWN = _Unknown()


class Callee:
    __slots__ = ('p', 'd')

    def __init__(self, p, d):
        self.p, self.d = p, d

    @property
    def path(self): return self.d['path']
    @property
    def rpath(self): return self.d.get('rpath', self.d['path'])
    @property
    def uid(self): return self.d.get('ruid', self.d['uid'])
    @property
    def decl_uid(self): return self.d['uid']
    @property
    def name(self): return self.d['name']
    @property
    def krate(self): return self.d['krate']
    @property
    def trait(self): return self.d.get('trait')
    @property
    def ctor(self): return self.d.get('ctor', False)
    @property
    def rkind(self): return self.d.get('rkind')
    @property
    def self_ty(self):
        return self.p.ty(self.d['self']) if 'self' in self.d else None
    @property
    def args(self): return [self.p.ty(a) for a in self.d.get('args', [])]
    @property
    def is_unsafe(self): return self.d.get('unsafe', False)
    def __repr__(self): return self.rpath


class Place:
    __slots__ = ('local', 'proj')

    def __init__(self, raw):
        if isinstance(raw, int):
            self.local, self.proj = raw, ()
        else:
            self.local = raw[0]
            pr = []
            for e in raw[1:]:
                if e == '*':
                    pr.append('*')
                elif isinstance(e, list):
                    pr.append(('f', e[0], e[1], e[2]))
                elif isinstance(e, dict):
                    if 'i' in e:
                        pr.append(('i', e['i']))
                    elif 'ci' in e:
                        pr.append(('ci', e['ci'], e.get('fe', False)))
                    elif 'ss' in e:
                        pr.append(('ss',))
                    elif 'dc' in e:
                        pr.append(('dc', e['dc']))
                else:
                    pr.append('?')
            self.proj = tuple(pr)

    def fields(self):
        return [(e[1], e[2]) for e in self.proj if isinstance(e, tuple) and e[0] == 'f']

    def __repr__(self):
        s = f'_{self.local}'
        for e in self.proj:
            if e == '*':
                s = f'(*{s})'
            elif isinstance(e, tuple) and e[0] == 'f':
                s += '.' + e[1]
            elif isinstance(e, tuple) and e[0] == 'i':
                s += f'[_{e[1]}]'
            elif isinstance(e, tuple) and e[0] == 'ci':
                s += f'[{e[1]}]'
            elif isinstance(e, tuple) and e[0] == 'dc':
                s = f'({s} as {e[1]})'
            else:
                s += '?'
        return s

    def __eq__(self, o): return self.local == o.local and self.proj == o.proj
    def __hash__(self): return hash((self.local, self.proj))


class Operand:
    __slots__ = ('p', 'kind', 'place', 'd')

    def __init__(self, p, d):
        self.p, self.d = p, d
        if 'c' in d and 't' not in d:
            self.kind, self.place = 'copy', Place(d['c'])
        elif 'm' in d:
            self.kind, self.place = 'move', Place(d['m'])
        else:
            self.kind, self.place = 'const', None

    @property
    def callee(self): return Callee(self.p, self.d['fn']) if 'fn' in self.d else None
    @property
    def value(self): return self.d.get('v', self.d.get('f'))
    @property
    def text(self): return self.d.get('k')
    @property
    def const_def(self): return self.d.get('def')
    @property
    def ty(self): return self.p.ty(self.d['t']) if 't' in self.d else None

    def __repr__(self):
        if self.kind == 'const':
            return self.callee.path if self.callee else str(self.text)
        return ('move ' if self.kind == 'move' else '') + repr(self.place)


class Stmt:
    __slots__ = ('kind', 'place', 'rv', 'line', 'macros', 'bb', 'idx', 'body', 'variant')

    def __init__(self, body, bb, idx, raw):
        self.body, self.bb, self.idx = body, bb, idx
        self.kind = raw[0]
        self.rv = None
        self.variant = None
        self.line, self.macros = 0, ()
        if raw[0] == '=':
            self.place = Place(raw[1])
            self.rv = Rvalue(body.p, raw[2])
            self.line = raw[3][0]
            self.macros = tuple(raw[3][1]) if len(raw[3]) > 1 else ()
        elif raw[0] == 'setd':
            self.place = Place(raw[1])
            self.variant = raw[2]
            self.line = raw[3][0]
        else:
            self.place = Place(raw[1])

    def __repr__(self):
        if self.kind == '=':
            return f'{self.place} = {self.rv}'
        return f'{self.kind} {self.place}'


class Rvalue:
    __slots__ = ('p', 'k', 'ops', 'place', 'op', 'agg', 'ty', 'cast')

    def __init__(self, p, raw):
        self.p = p
        self.k = raw[0]
        self.ops, self.place, self.op, self.agg, self.ty, self.cast = [], None, None, None, None, None
        if self.k in ('use', 'repeat'):
            self.ops = [Operand(p, raw[1])]
        elif self.k in ('ref', 'refmut', 'fakeref', 'rawptr', 'discr'):
            self.place = Place(raw[1])
        elif self.k == 'cast':
            self.ops = [Operand(p, raw[1])]
            self.ty = p.ty(raw[2])
            self.cast = raw[3]
        elif self.k == 'bin':
            self.op = raw[1]
            self.ops = [Operand(p, raw[2]), Operand(p, raw[3])]
        elif self.k == 'un':
            self.op = raw[1]
            self.ops = [Operand(p, raw[2])]
        elif self.k == 'agg':
            self.agg = raw[1]
            self.ops = [Operand(p, x) for x in raw[2]]

    def __repr__(self):
        if self.k == 'use':
            return repr(self.ops[0])
        if self.place is not None:
            return f'{self.k} {self.place}'
        if self.k == 'agg':
            n = self.agg.get('adt', self.agg['k'])
            if 'var' in self.agg:
                n += '::' + self.agg['var']
            if 'def' in self.agg:
                n += ' ' + self.agg['def']
            return f'{n}{{{", ".join(map(repr, self.ops))}}}'
        return f'{self.k} {self.op or ""} {self.ops}'


class Term:
    __slots__ = ('k', 'd', 'bb', 'body', 'line', 'macros', 'callee', 'args', 'dest', 'place', 'target', 'unwind', 'func')

    def __init__(self, body, bb, d):
        self.body, self.bb, self.d = body, bb, d
        self.k = d['k']
        l = d.get('l', [0])
        self.line = l[0]
        self.macros = tuple(l[1]) if len(l) > 1 else ()
        self.callee = None
        self.args, self.dest, self.place, self.func = [], None, None, None
        self.target = d.get('t')
        u = d.get('u')
        self.unwind = u if isinstance(u, int) else None
        if self.k == 'call':
            self.func = Operand(body.p, d['f'])
            self.callee = self.func.callee
            self.args = [Operand(body.p, a) for a in d['a']]
            self.dest = Place(d['d'])
        elif self.k == 'drop':
            self.place = Place(d['p'])

    @property
    def drop_ty(self): return self.body.p.ty(self.d['ty'])

    def succs(self):
        k = self.k
        if k == 'switch':
            out = [b for _, b in self.d['cases']] + [self.d['else']]
            return list(dict.fromkeys(out))
        if self.target is not None:
            return [self.target]
        return []

    def __repr__(self):
        if self.k == 'call':
            c = self.callee.rpath if self.callee else repr(self.func)
            return f'{self.dest} = {c}({", ".join(map(repr, self.args))}) -> {self.target}'
        if self.k == 'switch':
            return f'switch {Operand(self.body.p, self.d["d"])} {self.d["cases"]} else {self.d["else"]}'
        if self.k == 'drop':
            return f'drop {self.place} -> {self.target}'
        if self.k == 'assert':
            return f'assert {self.d["m"]} -> {self.target}'
        return f'{self.k} -> {self.target}'


class Block:
    __slots__ = ('stmts', 'term', 'cleanup', 'i')

    def __init__(self, body, i, d):
        self.i = i
        self.stmts = [Stmt(body, i, j, s) for j, s in enumerate(d['s'])]
        self.term = Term(body, i, d['t'])
        self.cleanup = d.get('c', False)


class Body:
    _serial = itertools.count()

    def __init__(self, p, d, promoted=False):
        self.p, self.d = p, d
        self.serial = next(Body._serial)
        self.uid = d['uid']
        self.path = d['path']
        self.kind = d['kind']
        self.file = d['file']
        self.line = d['loc'][0]
        self.argc = d['argc']
        self.public = d.get('public', False)
        self.parent = d.get('parent')
        self.trait = d.get('trait')
        self.in_trait = d.get('in_trait')
        self.is_coroutine = d.get('coroutine', False)
        self.is_async = d.get('async', False)
        self._blocks = None
        self._cache = {}

    @property
    def name(self):
        return self.path.rsplit('::', 1)[-1] if self.kind != 'Closure' else self.path

    @property
    def self_ty(self): return self.p.ty(self.d['self']) if 'self' in self.d else None

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = [Block(self, i, b) for i, b in enumerate(self.d['bbs'])]
        return self._blocks

    def lty(self, l): return self.p.ty(self.d['locals'][l][0])

    def lname(self, l):
        x = self.d['locals'][l]
        return x[1] if len(x) > 1 else None

    def nlocals(self): return len(self.d['locals'])

    @property
    def upvars(self):
        """closure capture names: field index -> name"""
        if 'upv' not in self._cache:
            out = {}
            for name, pl in self.d.get('up', []):
                pl = Place(pl)
                if pl.local == 1:
                    for e in pl.proj:
                        if isinstance(e, tuple) and e[0] == 'f':
                            out.setdefault(e[3], name)
                            break
            self._cache['upv'] = out
        return self._cache['upv']

    def loc(self, line=None): return f'{self.file}:{line or self.line}'

    def at(self, bb, line=None):
        """source location of something in block bb (in an inlined body, of the function it came from)"""
        return self.owner(bb).loc(line)

    def owner(self, bb):
        o = getattr(self, 'origin', None)
        return o[bb] if o else self

    # ---- CFG
    @property
    def succs(self):
        if 'succ' not in self._cache:
            self._cache['succ'] = [b.term.succs() for b in self.blocks]
        return self._cache['succ']

    @property
    def preds(self):
        if 'pred' not in self._cache:
            pr = [[] for _ in self.blocks]
            for i, ss in enumerate(self.succs):
                for s in ss:
                    pr[s].append(i)
            self._cache['pred'] = pr
        return self._cache['pred']

    def reachable(self, start=0, avoid=(), succs=None):
        succs = succs or self.succs
        if start in avoid:
            return set()
        seen = {start}
        st = [start]
        while st:
            x = st.pop()
            for y in succs[x]:
                if y not in seen and y not in avoid:
                    seen.add(y)
                    st.append(y)
        return seen

    @property
    def live_blocks(self):
        if 'live' not in self._cache:
            self._cache['live'] = self.reachable(0)
        return self._cache['live']

    @property
    def doms(self):
        """dominator sets (normal control flow)"""
        if 'dom' not in self._cache:
            live = self.live_blocks
            order = self.rpo()
            full = set(live)
            dom = {b: set(full) for b in live}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [p for p in self.preds[b] if p in live]
                    nd = set.intersection(*[dom[p] for p in ps]) if ps else set()
                    nd = nd | {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        ch = True
            self._cache['dom'] = dom
        return self._cache['dom']

    def rpo(self):
        if 'rpo' not in self._cache:
            seen, out = set(), []
            st = [(0, iter(self.succs[0]))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succs[y])))
                        break
                else:
                    out.append(b)
                    st.pop()
            self._cache['rpo'] = out[::-1]
        return self._cache['rpo']

    def dominates(self, a, b):
        return b in self.doms and a in self.doms[b]

    def return_blocks(self):
        return [i for i in self.live_blocks if self.blocks[i].term.k == 'return']

    def loops(self):
        """set of blocks that are on a cycle"""
        if 'loops' not in self._cache:
            out = set()
            for b in self.live_blocks:
                for s in self.succs[b]:
                    if b in self.reachable(s):
                        out.add(b)
            self._cache['loops'] = out
        return self._cache['loops']

    # ---- iteration helpers
    def calls(self, live_only=True):
        for b in self.blocks:
            if live_only and b.i not in self.live_blocks:
                continue
            if b.term.k == 'call':
                yield b.term

    def all_calls(self):
        """including cleanup blocks"""
        for b in self.blocks:
            if b.term.k == 'call':
                yield b.term

    def stmts(self, live_only=True):
        for b in self.blocks:
            if live_only and b.i not in self.live_blocks:
                continue
            for s in b.stmts:
                yield s

    @property
    def defs(self):
        """local -> list of (bb, idx, stmt|term) whole-local definitions"""
        if 'defs' not in self._cache:
            d = defaultdict(list)
            for b in self.blocks:
                if b.i not in self.live_blocks:
                    continue
                for s in b.stmts:
                    if s.kind == '=' and not s.place.proj:
                        d[s.place.local].append(s)
                if b.term.k == 'call' and not b.term.dest.proj:
                    d[b.term.dest.local].append(b.term)
            self._cache['defs'] = d
        return self._cache['defs']

    @property
    def partial_defs(self):
        if 'pdefs' not in self._cache:
            d = defaultdict(list)
            for b in self.blocks:
                if b.i not in self.live_blocks:
                    continue
                for s in b.stmts:
                    if s.kind == '=' and s.place.proj:
                        d[s.place.local].append(s)
                if b.term.k == 'call' and b.term.dest.proj:
                    d[b.term.dest.local].append(b.term)
            self._cache['pdefs'] = d
        return self._cache['pdefs']

    def place_ty(self, pl):
        """type of a place (best effort, via ADT table)"""
        t = self.lty(pl.local)
        for e in pl.proj:
            if e == '*':
                if t.k in ('ref', 'refmut', 'ptr', 'ptrmut') or t.adt in ('std::boxed::Box', 'alloc::boxed::Box'):
                    t = t.args[0]
                else:
                    return None
            elif isinstance(e, tuple) and e[0] == 'f':
                if t.k in ('tuple', 'closure', 'coroutine'):
                    if e[3] >= len(t.args):
                        return None
                    t = t.args[e[3]]
                elif t.k == 'adt':
                    ft = self.p.field_ty(e[2], e[1])
                    if ft is None:
                        if t.args and e[2].startswith(('std::option::Option', 'core::option::Option', 'std::result::Result', 'core::result::Result')):
                            if e[2].endswith('Err'):
                                t = t.args[1]
                            else:
                                t = t.args[0]
                            continue
                        return None
                    t = ft
                else:
                    return None
            elif isinstance(e, tuple) and e[0] in ('i', 'ci'):
                if t.k in ('slice', 'array'):
                    t = t.args[0]
                else:
                    return None
            elif isinstance(e, tuple) and e[0] == 'dc':
                pass
            else:
                return None
        return t

    def pty(self, pl):
        """like place_ty, but never None"""
        return self.place_ty(pl) or UNKNOWN

    def __repr__(self): return f'<{self.path}>'


class Program:
    def __init__(self, d, config=''):
        self.d = d
        self.config = config
        self.raw_types = d['types']
        self._ty = {}
        self.bodies = {}
        self.promoted = {}
        for b in d['bodies']:
            bo = Body(self, b)
            self.bodies[bo.uid] = bo
            for i, pr in enumerate(b.get('promoted', [])):
                self.promoted[(bo.uid, i)] = Body(self, pr, promoted=True)
        self.by_path = defaultdict(list)
        for b in self.bodies.values():
            self.by_path[b.path].append(b)
        self.adts = {a['path']: a for a in d['adts']}
        self.impls = d['impls']
        self.traits = {t['path']: t for t in d['traits']}
        self.fns = {f['uid']: f for f in d['fns']}
        self._impl_idx = None
        self._field = {}
        for a in d['adts']:
            for v in a['variants']:
                key = a['path'] if a['kind'] != 'Enum' else a['path'] + '::' + v['n']
                for f in v['f']:
                    self._field[(key, f['n'])] = f['t']
        self._callees = {}
        self._drops = {}
        self.inert_adts = {}
        self.absorbed = []      # helper functions analysed as part of their callers

    def ty(self, i):
        t = self._ty.get(i)
        if t is None:
            t = self._ty[i] = Ty(self, i)
        return t

    def named_ty(self, name):
        k = '_named'
        if k not in self.__dict__:
            self.__dict__[k] = {self.ty(i).s: i for i in range(len(self.raw_types))}
        return self.__dict__[k].get(name, 0)

    def bool_ty(self): return self.named_ty('bool')
    def isize_ty(self): return self.named_ty('isize')

    def field_ty(self, owner, name):
        i = self._field.get((owner, name))
        return self.ty(i) if i is not None else None

    def adt_fields(self, path):
        a = self.adts.get(path)
        if not a:
            return []
        return [(v['n'], f['n'], self.ty(f['t'])) for v in a['variants'] for f in v['f']]

    def find(self, suffix):
        """bodies whose path ends with suffix"""
        return [b for b in self.bodies.values() if b.path == suffix or b.path.endswith('::' + suffix)]

    def impls_of(self, trait):
        return [i for i in self.impls if i.get('trait') == trait]

    def methods_of(self, adt, name=None):
        """bodies that are methods (any impl) of the local ADT"""
        out = []
        for b in self.bodies.values():
            st = b.self_ty
            if st is not None and st.strip().adt == adt and (name is None or b.name == name):
                out.append(b)
        return out

    # ---- dynamic dispatch
    @property
    def trait_methods(self):
        """(trait path, method name) -> [bodies] of local impls"""
        if self._impl_idx is None:
            idx = defaultdict(list)
            for b in self.bodies.values():
                if b.trait:
                    idx[(b.trait, b.name)].append(b)
            for t, d in self.traits.items():
                for it in d['items']:
                    if it['default'] and it['uid'] in self.bodies:
                        idx[(t, it['n'])].append(self.bodies[it['uid']])
            self._impl_idx = idx
        return self._impl_idx

    def resolve(self, callee):
        """list of local bodies a call may enter"""
        c = callee
        if c.uid in self.bodies and c.rkind in ('item', 'shim', None):
            b = self.bodies[c.uid]
            if not (b.in_trait and c.trait and c.rkind is None):
                return [b]
        if c.trait:
            cands = self.trait_methods.get((c.trait, c.name), [])
            st = c.self_ty.strip() if c.self_ty is not None else None
            if st is not None and st.k in ('adt', 'closure') and st.k == 'adt':
                # concrete but unresolved (generic args): filter by ADT
                f = [b for b in cands if b.self_ty is not None and b.self_ty.strip().adt == st.adt]
                if f:
                    return f
                if st.adt in ('std::boxed::Box', 'alloc::boxed::Box') and st.args and st.args[0].k == 'dyn':
                    return list(cands)
                if st.local or st.adt:
                    # default method bodies only
                    return [b for b in cands if b.in_trait]
            if st is not None and st.k in ('dyn', 'param', 'alias'):
                return list(cands)
            return list(cands) if st is None else [b for b in cands if b.in_trait or (b.self_ty is not None and b.self_ty.strip() == st)]
        return []

    # ---- drop glue
    def drop_targets(self, ty, _seen=None):
        """local Drop::drop bodies run when a value of this type is dropped, plus set of ADT paths dropped"""
        key = ty.i
        if key in self._drops:
            return self._drops[key]
        bodies, adts = set(), set()
        seen = set()
        st = [ty]
        while st:
            t = st.pop()
            if t.i in seen:
                continue
            seen.add(t.i)
            if t.k == 'adt':
                adts.add(t.adt)
                if t.adt not in self.adts and t.adt.rsplit('::', 1)[-1] in BORROWING:
                    continue
                if t.adt in self.adts:
                    for b in self.trait_methods.get(('std::ops::Drop', 'drop'), []) + self.trait_methods.get(('core::ops::Drop', 'drop'), []) + self.trait_methods.get(('std::ops::drop::Drop', 'drop'), []):
                        if b.self_ty.adt == t.adt and not (t.adt in self.inert_adts and t.i != ty.i):
                            bodies.add(b.uid)
                    for _, _, ft in self.adt_fields(t.adt):
                        st.append(ft)
                st.extend(t.args)
            elif t.k in ('tuple', 'slice', 'array', 'closure', 'coroutine'):
                st.extend(t.args)
            elif t.k == 'dyn':
                for tr in t.d.get('traits', []):
                    adts.add('dyn ' + tr)
                    if tr in self.traits:
                        for im in self.impls_of(tr):
                            st.append(self.ty(im['self']))
        self._drops[key] = (bodies, adts)
        return self._drops[key]

    # ---- call graph
    def closures_in(self, body):
        """closure/coroutine/fn-item values created in this body: list of (uid, stmt/term, how)"""
        out = []
        for b in body.blocks:
            for s in b.stmts:
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg['k'] in ('closure', 'coroutine'):
                    out.append((s.rv.agg['def'], s))
        return out


def load(path, config=''):
    with open(path) as f:
        d = json.load(f)
    renamed = names.canonical(d, config)
    p = Program(d, config)
    p.renamed = renamed
    base = names.base(config)
    if base is not None:
        import absorb
        p.absorbed = absorb.absorb(p, base)
    return p


def dump(body):
    out = [f'fn {body.path}  [{body.file}:{body.line}] argc={body.argc} uid={body.uid}']
    for i in range(body.nlocals()):
        n = body.lname(i)
        out.append(f'   let _{i}: {body.lty(i).s}' + (f'  // {n}' if n else ''))
    if body.upvars:
        out.append(f'   upvars {body.upvars}')
    for b in body.blocks:
        out.append(f' bb{b.i}{" (cleanup)" if b.cleanup else ""}:')
        for s in b.stmts:
            if s.kind == 'dead':
                continue
            out.append(f'   {s}   // {s.line} {" ".join(s.macros)}')
        out.append(f'   {b.term}   // {b.term.line} {" ".join(b.term.macros)}')
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    p = load(sys.argv[1])
    for b in p.bodies.values():
        if any(x in b.path for x in sys.argv[2:]):
            print(dump(b))
            print()
