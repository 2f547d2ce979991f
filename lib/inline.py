"""Inlining of local functions and closures on the extracted MIR.

The result is a Body whose control flow contains the callee bodies, so that path rules do not depend on how the code is
split into helper functions. Closures handed to library combinators are spliced in as "any number of times" (for_each, map,
retain, ...), closures handed to catch_unwind as "completed -> Ok(result)" or "panicked -> Err".
"""
import copy

import mir
from cg import FN_TRAITS

NONDET = {'k': 'nondet', 't': 0}
ONCE = {'with', 'with_borrow_mut', 'with_borrow', 'no_denormals'}


O, R = 'std::option::Option', 'std::result::Result'
# type, method -> (variant for which the closure runs, closure takes the payload, result then, result otherwise)
COMBINE = {
    (O, 'map'): ('Some', True, (O, 'Some', 'ret'), (O, 'None', None)),
    (O, 'and_then'): ('Some', True, 'ret', (O, 'None', None)),
    (O, 'is_some_and'): ('Some', True, 'ret', False),
    (O, 'is_none_or'): ('Some', True, 'ret', True),
    (O, 'map_or'): ('Some', True, 'ret', 'arg1'),
    (O, 'unwrap_or_else'): ('None', False, 'ret', 'payload'),
    (O, 'or_else'): ('None', False, 'ret', 'self'),
    (O, 'ok_or_else'): ('None', False, (R, 'Err', 'ret'), (R, 'Ok', 'payload')),
    (R, 'map'): ('Ok', True, (R, 'Ok', 'ret'), (R, 'Err', 'payload')),
    (R, 'map_err'): ('Err', True, (R, 'Err', 'ret'), (R, 'Ok', 'payload')),
    (R, 'and_then'): ('Ok', True, 'ret', (R, 'Err', 'payload')),
    (R, 'is_ok_and'): ('Ok', True, 'ret', False),
    (R, 'is_err_and'): ('Err', True, 'ret', False),
    (R, 'map_or'): ('Ok', True, 'ret', 'arg1'),
    (R, 'unwrap_or_else'): ('Err', True, 'ret', 'payload'),
    (R, 'or_else'): ('Err', True, 'ret', (R, 'Ok', 'payload')),
    ('bool', 'then'): ('true', False, (O, 'Some', 'ret'), (O, 'None', None)),
}


def combinator(c):
    if c.krate not in ('core', 'std') or c.trait is not None:
        return None
    ty = 'bool' if '<impl bool>' in c.path or c.path.startswith('bool::') else O if 'option::Option' in c.path else R if 'result::Result' in c.path else None
    r = COMBINE.get((ty, c.name))
    return (ty,) + r if r else None


def _place(raw, off):
    if isinstance(raw, int):
        return raw + off
    out = [raw[0] + off]
    for e in raw[1:]:
        if isinstance(e, dict) and 'i' in e:
            e = dict(e, i=e['i'] + off)
        out.append(e)
    return out


class _Map:
    """copies raw MIR of `src` with locals shifted, blocks renumbered and promoted constants re-registered"""

    def __init__(self, inl, src, off, bmap):
        self.inl, self.src, self.off, self.bmap = inl, src, off, bmap

    def op(self, d):
        if 'c' in d and 't' not in d:
            return {'c': _place(d['c'], self.off)}
        if 'm' in d:
            return {'m': _place(d['m'], self.off)}
        if 'promoted' in d:
            return dict(d, promoted=self.inl.promote(self.src, d['promoted']))
        return d

    def rv(self, r):
        k = r[0]
        if k in ('use', 'repeat'):
            return [k, self.op(r[1])]
        if k in ('ref', 'refmut', 'fakeref', 'rawptr', 'discr'):
            return [k, _place(r[1], self.off)]
        if k == 'cast':
            return [k, self.op(r[1]), r[2], r[3]]
        if k == 'bin':
            return [k, r[1], self.op(r[2]), self.op(r[3])]
        if k == 'un':
            return [k, r[1], self.op(r[2])]
        if k == 'agg':
            return [k, r[1], [self.op(x) for x in r[2]]]
        return r

    def st(self, s):
        if s[0] == '=':
            return ['=', _place(s[1], self.off), self.rv(s[2]), s[3]]
        if s[0] == 'setd':
            return ['setd', _place(s[1], self.off)] + s[2:]
        if s[0] == 'dead':
            return ['dead', _place(s[1], self.off)]
        return s

    def term(self, t):
        t = dict(t)
        if isinstance(t.get('t'), int):
            t['t'] = self.bmap.get(t['t'])
        if 'u' in t and isinstance(t['u'], int):
            t['u'] = self.bmap.get(t['u'], 'continue')
        k = t['k']
        if k == 'call':
            t['f'] = self.op(t['f'])
            t['a'] = [self.op(a) for a in t['a']]
            t['d'] = _place(t['d'], self.off)
        elif k == 'drop':
            t['p'] = _place(t['p'], self.off)
        elif k == 'switch':
            t['d'] = self.op(t['d'])
            t['cases'] = [[v, self.bmap[b]] for v, b in t['cases']]
            t['else'] = self.bmap[t['else']]
            if 'of' in t:
                t['of'] = _place(t['of'], self.off)
        elif k == 'assert':
            t['c'] = self.op(t['c'])
        elif k == 'yield':
            t['v'] = self.op(t['v'])
        return t


class Inliner:
    def __init__(self, p, g, pred=None, depth=5, hof=True, maxblocks=6000):
        self.p, self.g = p, g
        self.pred = pred or (lambda b: True)
        self.depth, self.hof, self.maxblocks = depth, hof, maxblocks
        self.uid = None
        self._n = 0

    def promote(self, src, idx):
        key = (src.uid, idx)
        pb = self.p.promoted.get(key)
        self._n += 1
        new = f'{src.uid}/{idx}/{self._n}'
        if pb is not None:
            self.p.promoted[(self.uid, new)] = pb
        return new

    def run(self, body):
        """Body with everything inlined (cleanup blocks of callees are left out)"""
        self.uid = self.identity(body)
        d = dict(body.d)
        d['uid'] = self.uid
        for i in range(len(body.d.get('promoted', []))):
            if (body.uid, i) in self.p.promoted:
                self.p.promoted[(self.uid, i)] = self.p.promoted[(body.uid, i)]
        self.locals = list(d['locals'])
        self.bbs = [copy.copy(b) for b in d['bbs']]
        self.origin = list(getattr(body, 'origin', None) or [body] * len(self.bbs))
        self.stack = [()] * len(self.bbs)     # call stack of (function uid, line) that led to the block
        work = [i for i, b in enumerate(self.bbs) if not b.get('c')]
        self.base = body
        self.items = {}     # parameter of a closure run by a library call -> block of that call
        seenblk = 0
        while work:
            i = work.pop()
            if len(self.bbs) > self.maxblocks:
                break
            work += self.expand(i)
        if len(self.bbs) > len(d['bbs']):
            self.fold(body.argc)
        d['locals'], d['bbs'] = self.locals, self.bbs
        nb = mir.Body(self.p, d)
        nb.origin = self.origin
        nb.stack = self.stack
        nb.items = self.items
        nb.base = body
        return nb

    def identity(self, body):
        return body.uid + '#inl'

    def fold(self, argc):
        """tests of a constant handed to an inlined function have one outcome"""
        defs, taken = {}, set(range(argc + 1))
        for b in self.bbs:
            for s in b['s']:
                if s[0] == '=':
                    if isinstance(s[1], int) or len(s[1]) == 1:
                        defs.setdefault(s[1] if isinstance(s[1], int) else s[1][0], []).append(s[2])
                    else:
                        taken.add(s[1][0])
                    if s[2][0] in ('refmut', 'rawptr'):
                        taken.add(s[2][1] if isinstance(s[2][1], int) else s[2][1][0])
                elif s[0] == 'setd':
                    taken.add(s[1] if isinstance(s[1], int) else s[1][0])
            if b['t']['k'] == 'call':
                q = b['t']['d']
                taken.add(q if isinstance(q, int) else q[0])

        def const(op, depth=8):
            if 't' in op and 'v' in op:
                return op['v']
            q = op.get('m', op.get('c'))
            q = q[0] if isinstance(q, list) and len(q) == 1 else q
            if not isinstance(q, int) or q in taken or len(defs.get(q, ())) != 1 or not depth:
                return None
            r = defs[q][0]
            if r[0] == 'use':
                return const(r[1], depth - 1)
            if r[0] == 'un' and r[1] == 'Not' and self.p.ty(self.locals[q][0]).s == 'bool':
                v = const(r[2], depth - 1)
                return None if v is None else int(not v)
            return None
        for i, b in enumerate(self.bbs):
            t = b['t']
            if t['k'] == 'switch' and t['d'].get('k') != 'nondet' and 'of' not in t:
                v = const(t['d'])
                if isinstance(v, (int, bool)):
                    to = dict((int(c), x) for c, x in t['cases']).get(int(v), t['else'])
                    self.bbs[i] = dict(b, t={'k': 'goto', 't': to, 'l': t.get('l', [0])})

    def expand(self, i):
        t = self.bbs[i]['t']
        if t['k'] != 'call' or 'fn' not in t['f'] or t.get('t') is None:
            return []
        c = mir.Callee(self.p, t['f']['fn'])
        stk = self.stack[i]
        if len(stk) >= self.depth:
            return []
        active = {u for u, _ in stk} | {self.base.uid}
        # direct invocation of a closure
        if c.trait in FN_TRAITS:
            x = c.self_ty.peel() if c.self_ty is not None else None
            if x is not None and x.k == 'closure' and x.closure in self.p.bodies and x.closure not in active:
                return self.splice(i, self.p.bodies[x.closure], 'invoke')
            if x is not None and x.k in ('param', 'alias'):
                # generic callable parameter of an inlined function: resolve through the argument value
                cl = self.closure_of_operand(t['a'][0])
                if cl is not None and cl not in active and cl in self.p.bodies:
                    return self.splice(i, self.p.bodies[cl], 'invoke')
            return []
        tg = self.p.resolve(c)
        if len(tg) == 1 and (c.trait is None or c.rkind == 'item') and tg[0].uid == c.uid:
            b = tg[0]
            if b.uid in active or b.is_async or b.is_coroutine or not self.pred(b):
                return []
            return self.splice(i, b, 'call')
        if tg or not self.hof:
            return []
        if c.name == 'new' and c.krate in ('core', 'alloc', 'std'):
            return []       # stored, not run
        # closures handed to library code
        cls = []
        for a in c.args:
            x = a
            while x.k == 'adt' and x.args and x.adt.rsplit('::', 1)[-1] in ('AssertUnwindSafe', 'Box'):
                x = x.args[0]
            if x.k == 'closure' and x.local and x.closure in self.p.bodies and x.closure not in active and \
                    x.closure not in cls:
                if any(k in ('thread', 'callback') for k in self.disp(x.closure)):
                    continue
                # only when the closure itself is an argument of this call, not merely part of an adapter's type
                cls.append(x.closure)
        cls = [u for u in cls if self.pred(self.p.bodies[u])]
        if not cls:
            return []
        new = []
        for u in cls:
            arm = combinator(c)
            if arm is not None and len(cls) == 1:
                r = self.combine(i, self.p.bodies[u], arm)
                if r is not None:
                    return r
            new += self.splice(i, self.p.bodies[u], 'catch' if c.name == 'catch_unwind' else 'once' if c.name in ONCE else 'hof')
            break
        return new

    def combine(self, i, callee, arm):
        """closure given to a combinator of Option, Result or bool: runs for one variant, exactly once"""
        adt, runs, takes, on, off_ = arm
        t = self.bbs[i]['t']
        l = t.get('l', [0])
        a0 = t['a'][0]
        q = a0.get('m', a0.get('c') if 't' not in a0 else None)
        if q is None:
            return None
        q = [q] if isinstance(q, int) else list(q)
        dest, tgt = t['d'], t['t']
        off = len(self.locals)
        names = {'std::option::Option': ['None', 'Some'], 'std::result::Result': ['Ok', 'Err']}.get(adt)
        self.locals += callee.d['locals']
        keep = [j for j, b in enumerate(callee.d['bbs']) if not b.get('c')]
        base = len(self.bbs)
        bmap = {j: base + n for n, j in enumerate(keep)}
        mp = _Map(self, callee, off, bmap)
        stk = self.stack[i] + ((callee.uid, l[0]),)

        def pay(v):
            return {'c': q + [{'dc': v}, ['0', f'{adt}::{v}', 0]]}

        def value(spec, other):
            if spec == 'ret':
                return ['use', {'m': off}]
            if spec == 'self':
                return ['use', {'c': q}]
            if spec == 'payload':
                return ['use', pay(other)]
            if spec == 'arg1':
                return ['use', t['a'][1]]
            if isinstance(spec, bool):
                return ['use', {'t': self.p.bool_ty(), 'k': 'true' if spec else 'false', 'v': int(spec)}]
            ad, v, x = spec
            ops = [] if x is None else [{'m': off} if x == 'ret' else pay(other)]
            return ['agg', {'k': 'adt', 'adt': ad, 'f': ['0'] if ops else [], 'var': v}, ops]
        pro = []
        cl = self.closure_local(callee.uid)
        if cl is not None:
            pro.append(['=', off + 1, ['use', {'c': cl}], l])
        if takes and callee.argc >= 2:
            pro.append(['=', off + 2, ['use', pay(runs)], l])
        new = []
        for j in keep:
            b = callee.d['bbs'][j]
            self.bbs.append({'s': [mp.st(s) for s in b['s']], 't': mp.term(b['t'])})
            self.origin.append(callee)
            self.stack.append(stk)
            new.append(len(self.bbs) - 1)

        def block(st, term):
            self.bbs.append({'s': st, 't': term})
            self.origin.append(self.origin[i])
            self.stack.append(self.stack[i])
            return len(self.bbs) - 1
        other = None if names is None else [n for n in names if n != runs][0]
        ex = block([['=', dest, value(on, runs), l]], {'k': 'goto', 't': tgt, 'l': l})
        no = block([['=', dest, value(off_, other), l]], {'k': 'goto', 't': tgt, 'l': l})
        go = block(pro, {'k': 'goto', 't': bmap[0], 'l': l, 'inl': dict(t)})
        blk = self.bbs[i]
        st = list(blk['s'])
        if names is None:
            term = {'k': 'switch', 'd': a0, 'cases': [[0, no]], 'else': go, 'l': l}
        else:
            dl = len(self.locals)
            self.locals.append([self.p.isize_ty()])
            st.append(['=', dl, ['discr', q], l])
            term = {'k': 'switch', 'd': {'m': dl}, 'cases': [[names.index(runs), go]], 'else': no, 'l': l,
                    'variants': [[k, n] for k, n in enumerate(names)], 'enum': adt, 'of': q}
        self.bbs[i] = {'s': st, 't': term}
        if 'c' in blk:
            self.bbs[i]['c'] = blk['c']
        for j in new:
            if self.bbs[j]['t']['k'] == 'return':
                self.bbs[j]['t'] = {'k': 'goto', 't': ex, 'l': self.bbs[j]['t'].get('l', [0])}
        return new

    def disp(self, uid):
        b = self.p.bodies[uid]
        par = self.p.bodies.get(b.parent)
        if par is None:
            return set()
        for u, st, disp, _ in self.g.closure_uses(par):
            if u == uid:
                return disp
        return set()

    def closure_of_operand(self, op, depth=12):
        """uid of the closure held by an operand (follows whole-local copies in the partially inlined body)"""
        raw = op.get('m', op.get('c'))
        if raw is None:
            return None
        l = raw if isinstance(raw, int) else raw[0]
        seen = set()
        while depth > 0 and l not in seen:
            seen.add(l)
            depth -= 1
            t = self.p.ty(self.locals[l][0]).peel()
            if t.k == 'closure':
                return t.closure
            nxt = None
            for b in self.bbs:
                for s in b['s']:
                    if s[0] == '=' and (s[1] == l or s[1] == [l]):
                        r = s[2]
                        if r[0] == 'use':
                            q = r[1].get('m', r[1].get('c') if 't' not in r[1] else None)
                        elif r[0] in ('ref', 'refmut'):
                            q = r[1]
                        else:
                            q = None
                        if q is not None:
                            nxt = q if isinstance(q, int) else q[0]
            if nxt is None:
                return None
            l = nxt
        return None

    def closure_local(self, uid):
        for b in self.bbs:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1]['k'] == 'closure' and s[2][1]['def'] == uid:
                    return s[1]
        return None

    def splice(self, i, callee, how):
        t = self.bbs[i]['t']
        l = t.get('l', [0])
        off = len(self.locals)
        self.locals += callee.d['locals']
        keep = [j for j, b in enumerate(callee.d['bbs']) if not b.get('c')]
        base = len(self.bbs)
        bmap = {j: base + n for n, j in enumerate(keep)}
        mp = _Map(self, callee, off, bmap)
        stk = self.stack[i] + ((callee.uid, l[0]),)
        pro = []
        tgt, dest = t['t'], t['d']
        if how == 'call':
            for k, a in enumerate(t['a']):
                pro.append(['=', off + 1 + k, ['use', a], l])
        elif how == 'invoke':
            pro.append(['=', off + 1, ['use', t['a'][0]], l])
            q = t['a'][1].get('m', t['a'][1].get('c'))
            if q is not None:
                q = [q] if isinstance(q, int) else list(q)
                for k in range(callee.argc - 1):
                    pro.append(['=', off + 2 + k, ['use', {'c': q + [[str(k), 'tuple', k]]}], l])
        else:
            q = self.closure_local(callee.uid)
            if q is not None:
                pro.append(['=', off + 1, ['use', {'c': q}], l])
        new = []
        for j in keep:
            b = callee.d['bbs'][j]
            nb = {'s': [mp.st(s) for s in b['s']], 't': mp.term(b['t'])}
            self.bbs.append(nb)
            self.origin.append(callee)
            self.stack.append(stk)
            new.append(len(self.bbs) - 1)
        ent = bmap[0]
        # exit block(s)
        def block(st, term, org=None):
            self.bbs.append({'s': st, 't': term})
            self.origin.append(self.origin[i])
            self.stack.append(self.stack[i])
            return len(self.bbs) - 1
        orig = dict(t)
        if how in ('call', 'invoke', 'once'):
            ex = block([['=', dest, ['use', {'m': off}], l]], {'k': 'goto', 't': tgt, 'l': l})
            blk = self.bbs[i]
            self.bbs[i] = {'s': list(blk['s']) + pro, 't': {'k': 'goto', 't': ent, 'l': l, 'inl': orig}}
            if 'c' in blk:
                self.bbs[i]['c'] = blk['c']
        elif how == 'catch':
            ok = ['agg', {'k': 'adt', 'adt': 'std::result::Result', 'f': ['0'], 'var': 'Ok'}, [{'m': off}]]
            er = ['agg', {'k': 'adt', 'adt': 'std::result::Result', 'f': ['0'], 'var': 'Err'}, [dict(NONDET)]]
            ex = block([['=', dest, ok, l]], {'k': 'goto', 't': tgt, 'l': l})
            err = block([['=', dest, er, l]], {'k': 'goto', 't': tgt, 'l': l, 'caught': callee.uid})
            blk = self.bbs[i]
            self.bbs[i] = {'s': list(blk['s']) + pro, 't': {'k': 'switch', 'd': dict(NONDET), 'cases': [[0, ent]], 'else': err,
                                                            'l': l, 'inl': orig}}
        else:
            # loop header: run the closure again, or finish the library call
            call = block([], orig)
            if callee.argc >= 2:
                self.items[off + callee.argc] = call
            hdr = block([], {'k': 'switch', 'd': dict(NONDET), 'cases': [[0, ent]], 'else': call, 'l': l, 'hof': callee.uid})
            ex = block([], {'k': 'goto', 't': hdr, 'l': l})
            blk = self.bbs[i]
            self.bbs[i] = {'s': list(blk['s']) + pro, 't': {'k': 'goto', 't': hdr, 'l': l}}
        for j in new:
            if self.bbs[j]['t']['k'] == 'return':
                self.bbs[j]['t'] = {'k': 'goto', 't': ex, 'l': self.bbs[j]['t'].get('l', [0])}
        return new


def inline(prog, body, pred=None, depth=5, hof=True):
    """memoised per program"""
    memo = prog.__dict__.setdefault('_inl', {})
    key = (body.uid, pred, depth, hof)
    if key not in memo:
        memo[key] = Inliner(prog.p, prog.g, pred, depth, hof).run(body)
    return memo[key]
