"""Helpers carry no meaning: private functions that did not exist when the rules were written are analysed as part of their callers.

A rule about a function therefore sees the same code whether or not a part of it was moved into a helper.  Functions that stand in for one of names.json (same owner, similar
contents) are left alone, as are functions with many callers, recursive ones and those used as values."""
import collections

import inline
import names
from cg import FN_TRAITS

MOST = 8    # call sites


class _NoGraph:
    """closures are only spliced where they are called directly, their other uses do not matter"""

    def closure_uses(self, body):
        return []


class _Absorb(inline.Inliner):
    """inlines the absorbed functions, under the caller's own identity"""

    def __init__(self, p, fns):
        super().__init__(p, _NoGraph(), lambda b: b.uid in fns, 8, hof=False)
        self.fns = fns

    def run(self, body):
        nb = super().run(body)
        del nb.base
        return nb

    def identity(self, body):
        return body.uid

    def expand(self, i):
        t = self.bbs[i]['t']
        if t['k'] == 'call' and 'fn' in t['f'] and t['f']['fn'].get('trait') in FN_TRAITS:
            # a closure handed to an absorbed function
            if not self.stack[i]:
                return []
        return super().expand(i)


def sites(p):
    """function uid -> callers, and the functions used as values"""
    calls, values = collections.defaultdict(list), set()

    def value(x):
        if isinstance(x, dict):
            if 'fn' in x and isinstance(x['fn'], dict):
                values.add(x['fn'].get('uid'))
            for k, v in x.items():
                if k != 'fn':
                    value(v)
        elif isinstance(x, list):
            for v in x:
                value(v)
    for b in p.bodies.values():
        for bb in b.d['bbs']:
            if bb.get('c'):
                continue
            value(bb['s'])
            t = bb['t']
            if t['k'] == 'call':
                value(t['a'])
                if 'fn' in t['f']:
                    calls[t['f']['fn'].get('uid')].append(b.uid)
            for q in b.d.get('promoted', ()):
                value(q['bbs'])
    return calls, values


def recursive(start, calls, among):
    seen, st = set(), [start]
    while st:
        for c in calls.get(st.pop(), ()):
            c = c.split('::{closure')[0]
            if c == start:
                return True
            if c in among and c not in seen:
                seen.add(c)
                st.append(c)
    return False


def absorb(p, base):
    """inline new private helpers into their callers; the list of what was absorbed"""
    known = base['fns']
    here = {b.path for b in p.bodies.values() if b.kind in ('Fn', 'AssocFn')}
    gone = [q for q in known if q not in here]
    new = [b for b in p.bodies.values() if b.kind in ('Fn', 'AssocFn') and b.path not in known and not b.public and not b.trait and not b.in_trait
           and not b.is_async and not b.is_coroutine]
    if not new:
        return []
    calls, values = sites(p)
    inner = collections.defaultdict(collections.Counter)
    for b in p.bodies.values():
        if b.parent:
            inner[b.uid.split('::{closure')[0]].update(names.uses(b.d))

    def replaces(b):
        """stands in for a function that is gone: moved, or with another signature"""
        mine = names.uses(b.d) + inner[b.uid]
        for q in gone:
            if names.tail(q) == b.name:
                return True
            if q[:len(q) - len(names.tail(q))] == b.path[:len(b.path) - len(b.name)] and names.similar(known[q]['uses'], mine) >= 0.6:
                return True
        return False
    cand = {b.uid: b for b in new if calls.get(b.uid) and len(calls[b.uid]) <= MOST and b.uid not in values and not replaces(b)}
    cand = {u: b for u, b in cand.items() if not recursive(u, calls, cand)}
    if not cand:
        return []
    users = {c for u in cand for c in calls[u]}
    # closures inside an absorbed function can call absorbed functions themselves
    homes = {}
    done = {}
    for u in users:
        if u in cand:
            continue
        done[u] = _Absorb(p, set(cand)).run(p.bodies[u])
    left = {c.uid for b in done.values() for c in (t.callee for t in b.calls()) if c is not None and c.uid in cand}
    for b in p.bodies.values():
        if b.parent:
            homes.setdefault(b.parent, []).append(b)
    p.bodies.update(done)
    out = []
    for u in sorted(cand):
        if u in left:
            continue
        b = p.bodies.pop(u)
        p.by_path[b.path].remove(b)
        out.append(f'{b.path} in {", ".join(sorted({c.split("::", 1)[-1] for c in calls[u]}))}')
        # its closures belong to the first caller
        c = u
        while c in cand:
            c = sorted(calls[c])[0]
        for x in homes.get(u, ()):
            x.parent = c
    for u, b in done.items():
        p.by_path[b.path] = [x for x in p.by_path[b.path] if x.uid != u] + [b]
    return out
