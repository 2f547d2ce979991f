"""Names carry no meaning: private types, variants, fields and functions that were renamed or moved get the name they had when the rules were written.

names.json lists the names (with types, signatures and what each function uses).  An item of the list that is gone is identified with a new item of the program when
the two agree in everything but the name: kind, fields and their types; owner, signature and what the body uses.  Nothing else is changed, and an item without a clear counterpart is
left alone."""
import collections
import json
import os
import re

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')
ME = 'web_audio_api::'
_base = {}


def tail(p):
    return p.rsplit('::', 1)[-1]


def uses(b):
    """what a body uses: names of callees, fields, variants and constants"""
    out = collections.Counter()

    def visit(x):
        if isinstance(x, dict):
            if 'name' in x and 'krate' in x:
                out['fn ' + x['name']] += 1
                return
            if x.get('adt') and 'var' in x:
                out['var ' + x['var']] += 1
            if isinstance(x.get('k'), str) and 't' in x and 'fn' not in x:
                out['const ' + x['k'][:40]] += 1
            for v in x.values():
                visit(v)
        elif isinstance(x, list):
            if len(x) == 3 and isinstance(x[0], str) and isinstance(x[1], str) and isinstance(x[2], int):
                out['field ' + x[0]] += 1
                return
            if len(x) > 2 and isinstance(x[0], str) and isinstance(x[1], str) and x[0] in ('bin', 'un'):
                out[x[0] + ' ' + x[1]] += 1
            for v in x:
                visit(v)
    for bb in b['bbs']:
        if not bb.get('c'):
            visit(bb['s'])
            t = bb['t']
            out['t ' + t['k']] += 1
            visit([t.get(k) for k in ('f', 'a')])
    return out


def summary(d):
    """the part of the facts that identifies named items"""
    ty = [t['s'] for t in d['types']]
    sig = {f['uid']: f['sig'] for f in d['fns']}
    adts = {a['path']: {'kind': a['kind'], 'public': a['public'],
                        'variants': [[v['n'], [[f['n'], ty[f['t']]] for f in v['f']]] for v in a['variants']]} for a in d['adts']}
    inner = collections.defaultdict(collections.Counter)
    fns = {}
    for b in d['bodies']:
        if b['kind'] in ('Fn', 'AssocFn'):
            fns[b['path']] = {'uid': b['uid'], 'sig': sig.get(b['uid'], ''), 'self': ty[b['self']] if b.get('self') is not None else '', 'trait': b.get('trait') or '', 'in_trait': b.get('in_trait') or '',
                              'public': bool(b.get('public')), 'uses': uses(b)}
        elif b.get('parent'):
            inner[b['uid'].split('::{closure')[0]].update(uses(b))
    for f in fns.values():
        f['uses'] = dict(f['uses'] + inner.get(f['uid'], collections.Counter()))
    return {'adts': adts, 'fns': fns, 'traits': {t['path']: [i['n'] for i in t['items']] for t in d['traits']}}


def words(m):
    """substitution of whole paths"""
    if not m:
        return lambda s: s
    rx = re.compile(r'(?<![\w:])(' + '|'.join(re.escape(k) for k in sorted(m, key=len, reverse=True)) + r')(?!\w)')
    return lambda s: rx.sub(lambda x: m[x.group(1)], s)


def similar(a, b):
    """overlap of two bags"""
    n = sum((collections.Counter(a) & collections.Counter(b)).values())
    m = max(sum(a.values()), sum(b.values()))
    return n / m if m else 1.0


def best(olds, news, score, least):
    """pairs that are each other's clear best match"""
    sc = {(o, n): score(o, n) for o in olds for n in news}
    out = {}
    for o in olds:
        row = sorted(((sc[o, n], n) for n in news), reverse=True)
        if not row or row[0][0] < least or len(row) > 1 and row[1][0] >= row[0][0]:
            continue
        n = row[0][1]
        col = sorted((sc[x, n] for x in olds if x != o), reverse=True)
        if col and col[0] >= sc[o, n]:
            continue
        out[n] = o
    return out


class Mapping:
    def __init__(self, base, cur):
        self.base, self.cur = base, cur
        self.types = {}         # new path -> old path
        self.variants = {}      # (new adt path, new variant) -> old variant
        self.fields = {}        # (new adt path, new variant, new field) -> old field
        self.fns = {}           # new uid -> old name
        B, N = base['adts'], cur['adts']
        gone = [a for a in B if a not in N]
        new = [a for a in N if a not in B]
        for o in list(gone):
            c = [n for n in new if tail(n) == tail(o)]
            if len(c) == 1 and len([x for x in gone if tail(x) == tail(o)]) == 1 and N[c[0]]['kind'] == B[o]['kind']:
                self.types[c[0]] = o
                gone.remove(o)
                new.remove(c[0])
        for _ in range(3):
            w = words(self.types)
            self.types.update(best([o for o in gone if o not in self.types.values()], [n for n in new if n not in self.types], lambda o, n: self.alike(B[o], N[n], w), 0.6))
        self.traits()
        self.members()
        for _ in range(3):
            self.functions()

    @staticmethod
    def alike(o, n, w):
        if o['kind'] != n['kind'] or o['public'] and not n['public']:
            return 0
        a = collections.Counter()
        b = collections.Counter()
        for c, x, f in ((a, o, lambda s: s), (b, n, w)):
            for v, fs in x['variants']:
                if x['kind'] == 'Enum':
                    c['v ' + v] += 2
                for fn, ft in fs:
                    c['f ' + fn] += 1
                    c['t ' + f(ft)] += 1
        return similar(a, b)

    def traits(self):
        B, N = self.base['traits'], self.cur['traits']
        gone, new = [t for t in B if t not in N], [t for t in N if t not in B]
        for n, o in best(gone, new, lambda o, n: similar(collections.Counter(B[o]), collections.Counter(N[n])), 0.6).items():
            self.types[n] = o

    def members(self):
        w = words(self.types)
        for n, x in self.cur['adts'].items():
            o = self.base['adts'].get(self.types.get(n, n))
            if o is None or o['kind'] != x['kind']:
                continue
            ov, nv = dict(map(tuple, o['variants'])), dict(map(tuple, x['variants']))
            pairs = {}
            if x['kind'] == 'Enum':
                pairs = {v: v for v in nv if v in ov}
                g, a = [v for v in ov if v not in nv], [v for v in nv if v not in ov]
                shp = lambda fs, f: [f(t) for _, t in fs]
                if len(g) == len(a):
                    # renamed variants keep their place
                    for y, z in zip(a, g):
                        if shp(nv[y], w) == shp(ov[z], str):
                            pairs[y] = z
                            self.variants[n, y] = z
            else:
                pairs = {next(iter(nv)): next(iter(ov))}
            for y, z in pairs.items():
                of, nf = dict(map(tuple, ov[z])), dict(map(tuple, nv[y]))
                g, a = [f for f in of if f not in nf], [f for f in nf if f not in of]
                for t in dict.fromkeys(of[f] for f in g):
                    gs, as_ = [f for f in g if of[f] == t], [f for f in a if w(nf[f]) == t]
                    if len(gs) == len(as_):
                        for q, r in zip(as_, gs):
                            self.fields[n, y, q] = r

    def old_path(self, path):
        return words(self.types)(path)

    def functions(self):
        w = words(self.types)
        B = self.base['fns']
        N = {}
        for p, f in self.cur['fns'].items():
            q = w(p)
            if f['uid'] in self.fns:
                q = q[:len(q) - len(tail(q))] + self.fns[f['uid']]
            N[q] = f
        gone, new = [p for p in B if p not in N], [p for p in N if p not in B]
        names = {tail(p): self.fns[f['uid']] for p, f in self.cur['fns'].items() if f['uid'] in self.fns}
        fnames = {f: o for (_, _, f), o in self.fields.items()}
        vnames = {v: o for (_, v), o in self.variants.items()}

        def bag(f):
            out = collections.Counter()
            for k, v in f['uses'].items():
                kind, _, x = k.partition(' ')
                x = {'fn': names, 'field': fnames, 'var': vnames}.get(kind, {}).get(x, x)
                out[kind + ' ' + x] += v
            return out
        bags = {p: bag(N[p]) for p in new}

        def score(o, n):
            a, b = B[o], N[n]
            if a['public'] and not b['public'] or a['trait'] != w(b['trait']) or a['in_trait'] != w(b['in_trait']):
                return 0
            # methods stay with their type, functions with their module
            if o[:len(o) - len(tail(o))] != n[:len(n) - len(tail(n))]:
                return 0
            if a['sig'] != w(b['sig']):
                return 0
            return 0.3 + 0.7 * similar(a['uses'], bags[n])
        for n, o in best(gone, new, score, 0.6).items():
            self.fns[N[n]['uid']] = tail(o)
        # a method of a local trait: the declaration follows the implementations
        for t, items in self.cur['traits'].items():
            o = self.base['traits'].get(self.types.get(t, t))
            if o is None:
                continue
            g, a = [i for i in o if i not in items], [i for i in items if i not in o]
            if len(g) == len(a):
                for x, y in zip(a, g):
                    self.fns[f'{ME}{t}::{x}'] = y
                    for p, f in self.cur['fns'].items():
                        if f['trait'] == t and tail(p) == x:
                            self.fns[f['uid']] = y

    def empty(self):
        return not (self.types or self.variants or self.fields or self.fns)

    def apply(self, d):
        w = words(self.types)
        uids = {u: u[:len(u) - len(tail(u))] + n for u, n in self.fns.items()}
        fieldm = {}
        for (a, v, f), o in self.fields.items():
            enum = self.cur['adts'][a]['kind'] == 'Enum'
            fieldm[(a + '::' + v if enum else a), f] = o
        varm = {(a, v): o for (a, v), o in self.variants.items()}
        known = {v for a in self.cur['adts'].values() for v, _ in a['variants']}
        anyvar = {v: o for (a, v), o in varm.items() if sum(1 for x in self.cur['adts'].values() for y, _ in x['variants'] if y == v) == 1 and v not in ('Some', 'None', 'Ok', 'Err')}
        vpaths = {a + '::' + v: a + '::' + o for (a, v), o in varm.items()}
        memo = {}

        def uid(s):
            if s in uids:
                return uids[s]
            i = s.find('::{closure')
            if i > 0 and s[:i] in uids:
                return uids[s[:i]] + s[i:]
            return s

        def text(s):
            if s not in memo:
                memo[s] = w(s)
            return memo[s]

        def adtpath(s):
            """path of a type or of a variant"""
            return text(vpaths.get(s, s))

        def fn(x):
            for u, pth in (('uid', 'path'), ('ruid', 'rpath')):
                if u in x and x[u] in uids:
                    old = tail(uids[x[u]])
                    if pth in x:
                        x[pth] = re.sub(r'\b' + re.escape(tail(x[u])) + r'$', old, x[pth])
                    if u == 'uid':
                        x['name'] = old
                    x[u] = uids[x[u]]
                elif u in x:
                    x[u] = uid(x[u])
            if x.get('ctor'):
                p = vpaths.get(x['path'])
                if p:
                    x['path'], x['name'] = p, tail(p)
            for k in ('path', 'rpath', 'trait'):
                if k in x:
                    x[k] = text(x[k])

        def visit(x):
            if isinstance(x, dict):
                if 'name' in x and 'krate' in x and 'path' in x:
                    fn(x)
                    return
                if 'adt' in x and 'f' in x and isinstance(x['f'], list):
                    a, v = x['adt'], x.get('var')
                    key = a + '::' + v if v and self.cur['adts'].get(a, {}).get('kind') == 'Enum' else a
                    x['f'] = [fieldm.get((key, f), f) for f in x['f']]
                    if v and (a, v) in varm:
                        x['var'] = varm[a, v]
                    x['adt'] = text(a)
                    return
                if 'enum' in x and 'variants' in x:
                    x['variants'] = [[i, varm.get((x['enum'], v), v)] for i, v in x['variants']]
                    x['enum'] = text(x['enum'])
                if 'def' in x and isinstance(x['def'], str):
                    x['def'] = text(uid(x['def']))
                if isinstance(x.get('adt'), str):
                    x['adt'] = text(x['adt'])
                if 'traits' in x and isinstance(x['traits'], list) and x['traits'] and isinstance(x['traits'][0], str):
                    x['traits'] = [text(t) for t in x['traits']]
                for k, v in x.items():
                    if isinstance(v, (dict, list)):
                        visit(v)
            elif isinstance(x, list):
                if len(x) == 3 and isinstance(x[0], str) and isinstance(x[1], str) and isinstance(x[2], int):
                    x[0] = fieldm.get((x[1], x[0]), x[0])
                    x[1] = adtpath(x[1])
                    return
                for i, y in enumerate(x):
                    if isinstance(y, dict) and 'dc' in y and isinstance(y['dc'], str):
                        nxt = x[i + 1] if i + 1 < len(x) else None
                        if isinstance(nxt, list) and len(nxt) == 3 and isinstance(nxt[1], str) and nxt[1].rsplit('::', 1)[0] in self.cur['adts']:
                            y['dc'] = varm.get((nxt[1].rsplit('::', 1)[0], y['dc']), y['dc'])
                        else:
                            y['dc'] = anyvar.get(y['dc'], y['dc'])
                for y in x:
                    if isinstance(y, (dict, list)):
                        visit(y)

        def body(b):
            u = b['uid']
            b['uid'] = uid(u)
            if u in uids:
                b['path'] = re.sub(r'\b' + re.escape(tail(u)) + r'$', tail(uids[u]), b['path'])
            elif b['uid'] != u:
                i = u.find('::{closure')
                b['path'] = re.sub(r'\b' + re.escape(tail(u[:i])) + r'(?=::\{closure)', tail(b['uid'][:b['uid'].find('::{closure')]), b['path'])
            for k in ('path', 'trait', 'in_trait'):
                if b.get(k):
                    b[k] = text(b[k])
            if b.get('parent'):
                b['parent'] = uid(b['parent'])
            visit(b['bbs'])
            if b.get('up'):
                visit(b['up'])
            for q in b.get('promoted', ()):
                body(q)
        for b in d['bodies']:
            body(b)
        for t in d['types']:
            t['s'] = text(t['s'])
            visit(t)
        for a in d['adts']:
            p = a['path']
            for v in a['variants']:
                key = p + '::' + v['n'] if a['kind'] == 'Enum' else p
                for f in v['f']:
                    f['n'] = fieldm.get((key, f['n']), f['n'])
                if (p, v['n']) in varm:
                    v['n'] = varm[p, v['n']]
                elif a['kind'] != 'Enum' and p in self.types:
                    v['n'] = tail(self.types[p])
            a['path'] = text(p)
        for i in d['impls']:
            if i.get('trait'):
                i['trait'] = text(i['trait'])
            for x in i['items']:
                if x['uid'] in uids:
                    x['n'] = tail(uids[x['uid']])
                x['uid'] = uid(x['uid'])
        for t in d['traits']:
            for x in t['items']:
                if x['uid'] in uids:
                    x['n'] = tail(uids[x['uid']])
                x['uid'] = uid(x['uid'])
            t['path'] = text(t['path'])
        for f in d['fns']:
            if f['uid'] in uids:
                f['path'] = re.sub(r'\b' + re.escape(tail(f['uid'])) + r'$', tail(uids[f['uid']]), f['path'])
            f['uid'] = uid(f['uid'])
            f['path'], f['sig'] = text(f['path']), text(f['sig'])

    def describe(self):
        out = [f'{n} = {o}' for n, o in sorted(self.types.items())]
        out += [f'{a}::{v} = {o}' for (a, v), o in sorted(self.variants.items())]
        out += [f'{a}.{f} = {o}' for (a, v, f), o in sorted(self.fields.items())]
        out += [f'{u} = {o}' for u, o in sorted(self.fns.items())]
        return out


def base(config):
    if not os.path.exists(FILE):
        return None
    if config not in _base:
        _base.update(json.load(open(FILE)))
    return _base.get(config)


def canonical(d, config):
    """the facts with the names the rules were written for"""
    b = base(config)
    if b is None:
        return []
    m = Mapping(b, summary(d))
    if m.empty():
        return []
    m.apply(d)
    return m.describe()
