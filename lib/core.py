"""Rule context: obligations, violations, known findings, evidence."""
import json
import os
import re
import sys
import time

import cg
import facts
import flow
import inert
import mir
import sym

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(.+?) :: (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2).strip()] = m.group(3)
    return out


def owners(p):
    """private type -> public type it belongs to: one that has it in a field or whose methods make it"""
    if hasattr(p, '_owners'):
        return p._owners
    up = {}

    def visit(ty, a, seen):
        if ty.i in seen:
            return
        seen.add(ty.i)
        if ty.adt in p.adts and ty.adt != a:
            up.setdefault(ty.adt, set()).add(a)
        for x in ty.args:
            visit(x, a, seen)
    for a in p.adts:
        for _, _, ft in p.adt_fields(a):
            visit(ft, a, set())
    for b in p.bodies.values():
        r = p.bodies.get(b.uid.split('::{closure')[0], b)
        me = r.self_ty.strip().adt if r.self_ty is not None else None
        if me in p.adts:
            for s in b.stmts():
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') in p.adts and s.rv.agg['adt'] != me:
                    up.setdefault(s.rv.agg['adt'], set()).add(me)
    out = {}
    for a in p.adts:
        lvl, seen = {a}, {a}
        while lvl:
            pub = sorted(short(x) for x in lvl if p.adts[x]['public'])
            if pub:
                out[a] = pub[0]
                break
            lvl = {y for x in lvl for y in up.get(x, ())} - seen
            seen |= lvl
    p._owners = out
    return out


def stable(p, key):
    """the key with the names of private types and fields replaced by the public type they belong to and the shape of the field's type, so that a known finding is recognised
    after a renaming"""
    own = owners(p)
    names = {}
    for a in p.adts:
        names.setdefault(short(a), a)

    def shape(ty):
        if ty.adt in p.adts:
            return short(ty.adt) if p.adts[ty.adt]['public'] else own.get(ty.adt, '?') + '~'
        n = short(ty.adt) if ty.k == 'adt' else 'dyn ' + short(ty.d['traits'][0]) if ty.k == 'dyn' and ty.d.get('traits') and ty.d['traits'][0] not in p.traits else ty.k if ty.k != 'prim' else ty.s
        xs = [shape(x) for x in ty.args]
        return n + ('<' + ', '.join(xs) + '>' if xs and ty.k == 'adt' else '')

    hidden = {v['n'] for a in p.adts.values() if a['kind'] == 'Enum' and not a['public'] for v in a['variants']}

    def sub(m):
        a = names.get(m.group(1))
        if a is None:
            return '*' if m.group(1) in hidden and m.end() == len(key) else m.group(0)
        n = m.group(1) if p.adts[a]['public'] else own.get(a, '?') + '~'
        if m.group(2):
            ft = [ft for _, fn, ft in p.adt_fields(a) if fn == m.group(2)]
            n += '.' + (shape(ft[0]) if ft else m.group(2))
        return n
    return re.sub(r'\b([A-Z]\w+)(?:\.(\w+))?', sub, key)


class Prog:
    """one feature configuration with its derived analyses"""

    def __init__(self, config):
        self.config = config
        path, self.cached = facts.extract(config)
        self.p = mir.load(path, config)
        self.g = cg.CallGraph(self.p)
        self.sym = sym.Sym(self.p)
        self.types = flow.Types(self.p)
        self.guards = flow.Guards(self.p, self.sym, self.types)
        self.p.inert_adts = inert.inert_types(self)
        self.p._drops.clear()
        self.g = cg.CallGraph(self.p)


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obligations = {}     # (rule, key) -> dict
        self.rules = {}           # rule -> text
        self.functions = set()
        self.notes = []
        self.cur = None

    def use(self, prog):
        self.cur = prog
        self.p, self.g, self.sym, self.guards, self.types = prog.p, prog.g, prog.sym, prog.guards, prog.types

    def rule(self, name, text):
        self.rules.setdefault(name, text)

    def seen(self, body):
        self.functions.add(body.path)

    def ob(self, rule, key, ok, loc='', msg='', path=None):
        """one obligation: `key` identifies the construct without line numbers"""
        assert rule in self.rules, rule
        k = (rule, key)
        o = self.obligations.get(k)
        if o is None:
            o = self.obligations[k] = {'rule': rule, 'key': key, 'ok': True, 'loc': loc, 'msg': '', 'configs': set(), 'path': None}
        o['configs'].add(self.cur.config)
        if not ok and o['ok']:
            o.update(ok=False, loc=loc, msg=msg, path=path)
        return ok

    def floor(self, rule, what, n, minimum):
        """fail closed when the analysis no longer finds what it was confirmed to find"""
        self.rule('anchor', 'The constructs a rule talks about are found in the program (fail closed).')
        self.ob('anchor', f'{rule}: {what}', n >= minimum, '',
                f'rule {rule}: found {n} {what}, expected at least {minimum}; the analysis lost its anchor')

    def result(self, wall, seed, explanation, assumptions, level):
        known = known_findings(self.prop)
        viol, knownhits = [], []
        for o in self.obligations.values():
            if o['ok']:
                continue
            full = f"{o['rule']}|{o['key']}"
            if stable(self.p, full) in known:
                knownhits.append((full, known[stable(self.p, full)], o))
            else:
                viol.append((full, o))
        per = {}
        for o in self.obligations.values():
            r = per.setdefault(o['rule'], {'rule': self.rules[o['rule']], 'obligations': 0, 'violated': 0, 'samples': []})
            r['obligations'] += 1
            r['violated'] += 0 if o['ok'] else 1
            if len(r['samples']) < 4:
                r['samples'].append(f"{o['key']} @ {o['loc']}" if o['loc'] else o['key'])
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': seed, 'level': level,
            'coverage': {
                'explanation': explanation,
                'obligations': len(self.obligations),
                'discharged': sum(1 for o in self.obligations.values() if o['ok']),
                'functions_analysed': len(self.functions),
                'rules': per,
                'known_findings': [k for k, _, _ in knownhits],
                'notes': self.notes + [f'identified by structure after renaming: {x}' for x in self.p.renamed[:50]] +
                [f'analysed as part of its callers: {x}' for x in self.p.absorbed[:50]],
            },
            'assumptions': assumptions,
            'wall_s': round(wall, 3),
            'violations': len(viol),
        }
        return ev, viol, knownhits


def short(path):
    return path.rsplit('::', 1)[-1]
