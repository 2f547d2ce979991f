"""Interprocedural summaries used by the lock rules: acquired locks, waits, user code, explicit panics."""
import re
from cg import FN_TRAITS
from effects import blocking, norm
from mir import BORROWING

PANIC_MACROS = {'panic', 'assert', 'assert_eq', 'assert_ne', 'std::panic', 'core::panic', 'todo', 'unimplemented'}
PANIC_FNS = {'panic_fmt', 'panic', 'panic_str', 'panic_display', 'panic_explicit', 'unreachable_display', 'assert_failed',
             'panic_str_2015', 'begin_panic', 'resume_unwind'}
# panicking accessors: (type fragment, method)
UNWRAPS = {'unwrap', 'expect', 'unwrap_err', 'expect_err', 'unwrap_or_else'}
USER_TRAITS_EXT = ('std::iter::Iterator', 'core::iter::Iterator', 'std::io::Read', 'std::io::Seek', 'std::iter::IntoIterator',
                   'std::iter::traits::iterator::Iterator')


def macro_names(term):
    return {m.rsplit('::', 1)[-1] for m in term.macros}


class Summaries:
    def __init__(self, prog):
        self.prog = prog
        self.p, self.g, self.sym, self.guards = prog.p, prog.g, prog.sym, prog.guards
        self._memo = {}

    # -- what may run during a call/drop terminator
    def closures_in_type(self, ty, depth=6, seen=None):
        seen = set() if seen is None else seen
        if depth < 0 or ty.i in seen:
            return set()
        seen.add(ty.i)
        out = set()
        if ty.k == 'closure' and ty.local and ty.closure in self.p.bodies:
            out.add(ty.closure)
        if ty.k == 'adt' and ty.adt.rsplit('::', 1)[-1] in ('Box', 'Arc', 'Rc', 'Vec'):
            return out      # boxed closures are stored by external code, not invoked
        for a in ty.args:
            out |= self.closures_in_type(a, depth - 1, seen)
        return out

    def owned_callbacks(self, ty):
        """does the value exclusively own a boxed closure (not through shared ownership or a channel)"""
        key = ('cb', ty.i)
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = False
        n = ty.adt.rsplit('::', 1)[-1] if ty.k == 'adt' else ''
        if ty.k == 'adt' and (n in BORROWING or n in ('Arc', 'Rc', 'Sender', 'Receiver', 'Producer', 'Consumer')):
            r = False
        elif ty.k == 'dyn':
            r = any(x.rsplit('::', 1)[-1] in ('Fn', 'FnMut', 'FnOnce') for x in ty.d.get('traits', []))
        elif ty.k == 'adt':
            r = any(self.owned_callbacks(a) for a in ty.args) or \
                any(self.owned_callbacks(f) for _, _, f in self.p.adt_fields(ty.adt))
        elif ty.k in ('tuple', 'slice', 'array', 'closure', 'coroutine'):
            r = any(self.owned_callbacks(a) for a in ty.args)
        else:
            r = False
        self._memo[key] = r
        return r

    def known_variant(self, body, bb, place):
        """variant of the enum at `place` established by a dominating match that leads to block bb, or None"""
        want = self.sym.place(body, place)
        for blk in body.blocks:
            t = blk.term
            if t.k != 'switch' or blk.i not in body.live_blocks or not body.dominates(blk.i, bb):
                continue
            for s in blk.stmts:
                if s.kind == '=' and s.rv.k == 'discr' and self.sym.place(body, s.rv.place) == want:
                    for v, tgt in t.d['cases']:
                        if body.dominates(tgt, bb) and len(body.preds[tgt]) == 1:
                            return v
                    tgt, vs = t.d['else'], [v for v, _ in t.d['cases']]
                    if len(vs) == 1 and vs[0] in (0, 1) and body.dominates(tgt, bb) and len(body.preds[tgt]) == 1:
                        ty = body.place_ty(s.rv.place)
                        if ty is not None and ty.k == 'adt' and ty.adt.rsplit('::', 1)[-1] in ('Option', 'Result'):
                            return 1 - vs[0]
        return None

    def site_bodies(self, body, t):
        """local bodies that may execute during terminator t"""
        key = ('site', body.uid, t.bb)
        if key in self._memo:
            return self._memo[key]
        out = []
        if t.k == 'call' and self.direct_user(body, t):
            # user code: reported as such, not by what implementations of this crate would do
            self._memo[key] = out
            return out
        for e in self.g.edges(body):
            if e.site is t and e.dst is not None and e.kind in ('call', 'fnitem', 'drop'):
                out.append(e.dst)
        if t.k == 'call' and t.callee is not None and not self.p.resolve(t.callee):
            c = t.callee
            n = norm(c.path)
            if not (c.name == 'spawn' and 'thread' in n) and not c.krate.startswith(('cpal', 'cubeb')) and not n.startswith(('cpal::', 'cubeb')) and not (c.name in ('new', 'pin') and ('Box' in n or 'Arc' in n or 'Rc' in n)):
                for a in t.args:
                    ty = None
                    if a.place is not None:
                        ty = body.place_ty(a.place)
                        if ty is None and not a.place.proj:
                            ty = body.lty(a.place.local)
                    elif a.ty is not None:
                        ty = a.ty
                    if ty is not None:
                        for u in self.closures_in_type(ty):
                            out.append(self.p.bodies[u])
        self._memo[key] = out
        return out

    def sites(self, body):
        for b in body.blocks:
            if b.cleanup or b.i not in body.live_blocks:
                continue
            if b.term.k in ('call', 'drop', 'yield'):
                yield b.term

    # -- direct facts at a terminator
    def direct_acquire(self, body, t):
        if t.k == 'call' and self.guards.is_acquire(t.callee) and not t.callee.name.startswith('try'):
            return self.guards.acquire_id(body, t)
        return None

    def direct_user(self, body, t):
        """user-supplied code run directly by this terminator"""
        if t.k == 'drop':
            if not self.owned_callbacks(t.drop_ty):
                return None
            if not t.place.proj and t.place.local not in self.g._owned(body).at_term(t.bb):
                return None
            v = self.known_variant(body, t.bb, t.place)
            if v is not None and t.drop_ty.adt in self.p.adts:
                fs = self.p.adts[t.drop_ty.adt]['variants'][v]['f']
                if not any(self.owned_callbacks(self.p.ty(f['t'])) for f in fs):
                    return None
            return 'drops a user-supplied callback'
        if t.callee is None:
            return None
        c = t.callee
        if t.args and c.krate in ('core', 'std', 'alloc') and (norm(c.path).endswith('mem::drop') or c.name in ('clear', 'truncate', 'retain')):
            a = t.args[0]
            ty = body.place_ty(a.place) if a.place is not None else a.ty
            if ty is not None and self.owned_callbacks(ty if c.name == 'drop' else ty.peel()):
                return 'drops a user-supplied callback'
        if c.trait in FN_TRAITS:
            if not self.g.fn_call_targets(body, t):
                st = c.self_ty
                if st is not None and st.peel().k in ('dyn', 'param', 'alias'):
                    return f'calls a user-supplied callback ({st.peel().s})'
            return None
        if c.trait in USER_TRAITS_EXT or (c.trait and c.trait.endswith(('iter::Iterator', 'io::Read', 'io::Seek'))):
            st = c.self_ty.peel() if c.self_ty is not None else None
            if st is not None and st.k in ('dyn', 'param', 'alias') and not st.s.startswith('impl '):
                return f'runs a user-supplied {c.trait.rsplit("::", 1)[-1]} ({st.s})'
        return None

    def direct_wait(self, body, t):
        if t.k == 'call' and t.callee is not None:
            r = blocking(t.callee)
            if r and 'lock' not in r and 'I/O' not in r and 'spawns' not in r and 'initialisation' not in r:
                return r
        if t.k == 'yield':
            return 'awaits a future'
        return None

    def direct_panic(self, body, t):
        """an explicit panic for an invalid argument, state or error (not an internal-invariant marker)"""
        if t.k != 'call' or t.callee is None:
            return None
        c = t.callee
        ms = macro_names(t)
        if 'unreachable' in ms or 'debug_assert' in ms or 'debug_assert_eq' in ms or 'debug_assert_ne' in ms:
            return None
        if c.krate in ('core', 'std') and c.name in PANIC_FNS:
            return 'panics explicitly'
        if c.name in ('unwrap', 'expect', 'unwrap_err', 'expect_err') and c.krate in ('core', 'std') and t.args:
            a = t.args[0]
            ty = body.place_ty(a.place) if a.place is not None else a.ty
            s = ty.s if ty is not None else ''
            if 'PoisonError' in s or 'LockResult' in s:
                return None
            if 'SendError' in s or 'RecvError' in s or 'Canceled' in s or 'TryRecvError' in s or 'TrySendError' in s:
                return None
            if c.name == 'unwrap' and 'Option' in s.split('<')[0]:
                return 'panics if empty'
            return f'panics on error ({c.name} of {s})'
        return None

    # -- transitive summaries: {item: chain of body paths}
    def trans(self, what, body):
        """all `what` facts reachable from body: {fact: (chain tuple, loc)}"""
        key = (what,)
        if key not in self._memo:
            self._memo[key] = self._fix(what)
        return self._memo[key].get(body.uid, {})

    def _fix(self, what):
        fn = {'acquire': self.direct_acquire, 'user': self.direct_user, 'wait': self.direct_wait, 'panic': self.direct_panic}[what]
        res = {}
        callers = {}
        work = []
        for b in self.p.bodies.values():
            d = {}
            for t in self.sites(b):
                f = fn(b, t)
                if f is not None:
                    d.setdefault(f if what != 'wait' else (f, self._wait_subject(b, t)), ((b.path,), b.loc(t.line)))
            res[b.uid] = d
            for t in self.sites(b):
                for x in self.site_bodies(b, t):
                    callers.setdefault(x.uid, set()).add(b.uid)
            if d:
                work.append(b.uid)
        while work:
            u = work.pop()
            for cu in callers.get(u, ()):
                cd = res[cu]
                ch = False
                for f, (chain, loc) in res[u].items():
                    if f not in cd and len(chain) < 14:
                        cd[f] = ((self.p.bodies[cu].path,) + chain, loc)
                        ch = True
                if ch:
                    work.append(cu)
        return res

    def _wait_subject(self, body, t):
        """what is waited for: the channel element type"""
        c = t.callee
        st = c.self_ty if c is not None else None
        if st is not None and st.strip().args:
            return re.sub(r"(?:[A-Za-z_0-9]+::)+", '', st.strip().args[0].s)
        for a in (c.args if c is not None else []):
            return re.sub(r"(?:[A-Za-z_0-9]+::)+", '', a.s)
        return ''

    def at_site(self, what, body, t):
        """facts that may happen during terminator t: {fact: (chain, loc)}"""
        fn = {'acquire': self.direct_acquire, 'user': self.direct_user, 'wait': self.direct_wait, 'panic': self.direct_panic}[what]
        out = {}
        f = fn(body, t)
        if f is not None:
            out[f if what != 'wait' else (f, self._wait_subject(body, t))] = ((body.path,), body.loc(t.line))
        for x in self.site_bodies(body, t):
            for k, (chain, loc) in self.trans(what, x).items():
                out.setdefault(k, ((body.path,) + chain, loc))
        return out
