"""Dataflow on one body: initialisation of locals, live lock guards, must-pass-through queries."""
import re

GUARD_ADTS = ('std::sync::MutexGuard', 'std::sync::RwLockReadGuard', 'std::sync::RwLockWriteGuard',
              'std::sync::MappedMutexGuard', 'std::sync::nonpoison::MutexGuard',
              'parking_lot::MutexGuard', 'lock_api::MutexGuard', 'lock_api::RwLockReadGuard', 'lock_api::RwLockWriteGuard')


def is_guard_adt(path):
    if not path:
        return False
    n = path.rsplit('::', 1)[-1]
    return n in ('MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'MappedMutexGuard', 'ReentrantLockGuard') and \
        not path.startswith(('core::cell', 'std::cell'))


class Types:
    """type predicates with memo (one per program)"""

    def __init__(self, p):
        self.p = p
        self._g = {}

    def contains_guard(self, ty):
        k = ty.i
        if k in self._g:
            return self._g[k]
        self._g[k] = False
        r = False
        if ty.k == 'adt':
            if is_guard_adt(ty.adt):
                r = True
            else:
                r = any(self.contains_guard(a) for a in ty.args)
                if not r and ty.adt in self.p.adts:
                    r = any(self.contains_guard(f) for _, _, f in self.p.adt_fields(ty.adt))
        elif ty.k in ('tuple', 'closure', 'coroutine', 'array', 'slice'):
            r = any(self.contains_guard(a) for a in ty.args)
        self._g[k] = r
        return r


def moves_of(ops):
    for o in ops:
        if o.kind == 'move':
            yield o.place


class Init:
    """forward may-analysis: locals that may hold a value, restricted to `track`"""

    def __init__(self, body, track):
        self.b = body
        self.track = track
        self.ent = {}
        if not track:
            return
        init = frozenset(l for l in track if 1 <= l <= body.argc)
        work = [0]
        self.ent[0] = init
        while work:
            i = work.pop()
            for s, st in self._out(i):
                cur = self.ent.get(s)
                new = st if cur is None else cur | st
                if cur is None or new != cur:
                    self.ent[s] = new
                    work.append(s)

    def _stmt(self, s, st):
        if s.kind == '=':
            for pl in moves_of(s.rv.ops):
                if pl.local in st and self._kills(pl):
                    st = st - {pl.local}
            if s.place.local in self.track and not s.place.proj:
                st = st | {s.place.local}
            elif s.place.local in self.track and s.rv is not None:
                st = st | {s.place.local}
        elif s.kind == 'dead':
            st = st - {s.place.local}
        return st

    def _kills(self, pl):
        """a move out of (a part of) the local ends its tracking"""
        return True

    def _out(self, i):
        blk = self.b.blocks[i]
        st = self.ent[i]
        for s in blk.stmts:
            st = self._stmt(s, st)
        t = blk.term
        if t.k == 'call':
            for pl in moves_of(t.args):
                if pl.local in st and self._kills(pl):
                    st = st - {pl.local}
            if t.dest.local in self.track:
                st = st | {t.dest.local}
        elif t.k == 'drop':
            if not t.place.proj:
                st = st - {t.place.local}
        elif t.k == 'yield':
            pass
        for s in self.b.succs[i]:
            yield s, st

    def at_term(self, i):
        """state just before the terminator takes effect (arguments still owned)"""
        if i not in self.ent:
            return frozenset()
        st = self.ent[i]
        for s in self.b.blocks[i].stmts:
            st = self._stmt(s, st)
        return st

    def at_call(self, i):
        """state while the callee runs: arguments moved into it, destination not yet assigned"""
        st = self.at_term(i)
        t = self.b.blocks[i].term
        if t.k == 'call':
            for pl in moves_of(t.args):
                if pl.local in st and self._kills(pl):
                    st = st - {pl.local}
        return st

    def at_stmt(self, i, idx):
        if i not in self.ent:
            return frozenset()
        st = self.ent[i]
        for s in self.b.blocks[i].stmts[:idx]:
            st = self._stmt(s, st)
        return st


class Owned(Init):
    """locals that may still own (a part of) their value"""

    def _kills(self, pl):
        return not pl.proj


class Guards:
    """lock guards that may be live at each point of a body, with the lock they belong to"""

    def __init__(self, p, sym, types):
        self.p, self.sym, self.types = p, sym, types
        self._init = {}
        self._lock = {}
        self._ret = {}

    def init(self, body):
        if body.serial not in self._init:
            track = frozenset(l for l in range(body.nlocals()) if self.types.contains_guard(body.lty(l)))
            self._init[body.serial] = Init(body, track)
        return self._init[body.serial]

    @staticmethod
    def is_acquire(callee):
        if callee is None or callee.name not in ('lock', 'read', 'write', 'try_lock', 'try_read', 'try_write'):
            return False
        if callee.krate not in ('std', 'core', 'alloc', 'parking_lot', 'lock_api'):
            return False
        return 'Mutex' in callee.path or 'RwLock' in callee.path or 'ReentrantLock' in callee.path

    def lock_expr_id(self, e, body):
        """stable name of a lock: owning type and field (innermost), or the value type"""
        last = None
        x = e
        while isinstance(x, tuple):
            if x[0] == 'field':
                if x[3] and not x[3].startswith(('std::option', 'core::option')) and x[3] not in ('closure', 'tuple', 'coroutine'):
                    last = x
                    break
                x = x[1]
            elif x[0] in ('dc', 'idx', 'cast', 'sub'):
                x = x[1]
            elif x[0] == 'call':
                return 'fn:' + x[3]
            else:
                break
        if last is not None:
            return short(last[3]) + '.' + last[2]
        return None

    def acquire_id(self, body, t):
        """lock acquired by the call terminator t"""
        e = self.sym.operand(body, t.args[0])
        i = self.lock_expr_id(e, body)
        if i is None:
            if e[0] == 'up':
                # captured by reference: resolve in the parent
                i = self._upvar_id(body, e)
            if i is None:
                st = t.callee.self_ty
                i = 'type:' + (short_ty(st.s) if st is not None else t.callee.path)
        return i

    def _upvar_id(self, body, e):
        par = self.p.bodies.get(body.parent) if body.parent else None
        if par is None:
            return None
        for uid, st in self.p.closures_in(par):
            if uid == body.uid and e[2] < len(st.rv.ops):
                pe = self.sym.operand(par, st.rv.ops[e[2]])
                r = self.lock_expr_id(pe, par)
                if r is None and pe[0] == 'up':
                    return self._upvar_id(par, pe)
                return r
        return None

    def returns_locks(self, body, depth=4):
        """locks whose guard this body may return"""
        if body.serial in self._ret:
            return self._ret[body.serial]
        self._ret[body.serial] = set()
        out = set()
        if self.types.contains_guard(body.lty(0)):
            out = self._trace(body, 0, depth, set())
        self._ret[body.serial] = out
        return out

    def _trace(self, body, l, depth, seen):
        """ids of the locks whose guards flow into local l"""
        out = set()
        if l in seen:
            return out
        seen = seen | {l}
        for d in body.defs.get(l, []) + body.partial_defs.get(l, []):
            if hasattr(d, 'rv'):
                for o in d.rv.ops:
                    if o.place is not None and self.types.contains_guard(body.lty(o.place.local)):
                        out |= self._trace(body, o.place.local, depth, seen)
            else:
                c = d.callee
                if self.is_acquire(c):
                    out.add(self.acquire_id(body, d))
                    continue
                hit = False
                for a in d.args:
                    if a.place is not None and self.types.contains_guard(body.lty(a.place.local)):
                        out |= self._trace(body, a.place.local, depth, seen)
                        hit = True
                if not hit and c is not None and depth > 0:
                    for tb in self.p.resolve(c):
                        out |= self.returns_locks(tb, depth - 1)
        return out

    def locks_of(self, body, l):
        k = (body.serial, l)
        if k not in self._lock:
            r = self._trace(body, l, 4, set())
            self._lock[k] = r or {'type:' + short_ty(body.lty(l).s)}
        return self._lock[k]

    def live_at_call(self, body, bb):
        """{lock id: local} of guards live while the call/drop at the end of block bb runs"""
        out = {}
        ini = self.init(body)
        st = ini.at_call(bb)
        t = body.blocks[bb].term
        for l in st:
            if t.k == 'drop' and t.place.local == l and not t.place.proj:
                continue
            for k in self.locks_of(body, l):
                out.setdefault(k, l)
        return out


def short(path):
    return path.rsplit('::', 1)[-1]


def short_ty(s):
    return re.sub(r"(?:[a-z_0-9]+::)+", '', s)


# ---- path queries
def must_pass(body, start, goals, through, avoid_cleanup=True):
    """True if every path from `start` (block) to any block in goals passes a block in `through`
    (start and goal blocks themselves count)"""
    if start in through:
        return True
    r = body.reachable(start, avoid=set(through))
    return not any(g in r for g in goals)


def path_avoiding(body, start, goals, through):
    """a witness path start -> goal avoiding `through`, or None"""
    if start in through:
        return None
    prev = {start: None}
    st = [start]
    while st:
        x = st.pop(0)
        if x in goals:
            out = []
            while x is not None:
                out.append(x)
                x = prev[x]
            return out[::-1]
        for y in body.succs[x]:
            if y not in prev and y not in through:
                prev[y] = x
                st.append(y)
    return None


def lines(body, path):
    out = []
    for i in path:
        b = body.blocks[i]
        l = b.term.line or next((s.line for s in b.stmts if s.line), 0)
        if l and (not out or out[-1] != l):
            out.append(l)
    return out
