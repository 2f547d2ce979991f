"""Loops of inlined bodies and what they iterate over."""


def drivers(sym, b, blocks):
    """(block, expression, name) of what the loop made of `blocks` iterates over: iterators advanced in it, or the receiver of a
    library call that runs the loop body as a closure"""
    out = []
    for i in sorted(blocks):
        t = b.blocks[i].term
        if t.k == 'call' and t.callee is not None and t.args and t.callee.name in ('next', 'next_back', 'get', 'get_mut', 'index', 'index_mut'):
            out.append((i, sym.operand(b, t.args[0]), t.callee.name))
        if t.d.get('hof') is not None:
            for y in b.succs[i]:
                c = b.blocks[y].term
                if y not in blocks and c.k == 'call' and c.callee is not None and c.args:
                    out.append((i, sym.operand(b, c.args[0]), c.callee.name))
    return out


def headers(b, blocks):
    """blocks of the loop that are entered from outside"""
    return [x for x in sorted(blocks) if any(q not in blocks for q in b.preds[x] if q in b.live_blocks)]


THROUGH = ('map', 'take', 'skip', 'rev', 'step_by', 'cycle', 'take_while', 'skip_while', 'filter', 'peekable', 'by_ref', 'inspect', 'into_iter', 'chunks',
           'chunks_mut', 'chunks_exact', 'chunks_exact_mut', 'windows', 'fuse', 'split_at_mut', 'index_mut', 'index')


def resolve(sym, b, e, depth=30):
    """rewrites elements of iterators: ('elem', collection). Looks through zip, enumerate and adapters that keep elements, for loops and
    closures run by library calls alike"""
    if not isinstance(e, tuple) or depth <= 0:
        return e
    k = e[0]
    items = getattr(b, 'items', {})
    if k == 'local' and e[1] in items:
        t = b.blocks[items[e[1]]].term
        if t.k == 'call' and t.args:
            return _elem(sym, b, sym.operand(b, t.args[0]), depth - 1)
        return e
    if k == 'field' and e[1][0] == 'dc' and e[1][2] == 'Some' and e[1][1][0] == 'call' and e[1][1][3] in ('next', 'next_back'):
        return _elem(sym, b, e[1][1][2][0], depth - 1)
    if k == 'field':
        x = resolve(sym, b, e[1], depth - 1)
        if x[0] == 'tuple' and e[2].isdigit() and int(e[2]) < len(x[1]):
            return x[1][int(e[2])]
        return ('field', x) + e[2:]
    if k in ('idx', 'sub', 'dc', 'cast'):
        return (k, resolve(sym, b, e[1], depth - 1)) + e[2:]
    if k == 'call':
        return ('call', e[1], tuple(resolve(sym, b, a, depth - 1) for a in e[2])) + e[3:]
    if k == 'phi':
        return ('phi', e[1], tuple(resolve(sym, b, a, depth - 1) for a in e[2]))
    return e


def _elem(sym, b, c, depth):
    """element of the iterator expression c"""
    if depth <= 0 or not isinstance(c, tuple):
        return ('elem', c)
    if c[0] == 'call':
        if c[3] == 'zip' and len(c[2]) == 2:
            return ('tuple', (_elem(sym, b, c[2][0], depth - 1), _elem(sym, b, c[2][1], depth - 1)))
        if c[3] == 'enumerate':
            return ('tuple', (('index',), _elem(sym, b, c[2][0], depth - 1)))
        if c[3] == 'map':
            return ('mapped', _elem(sym, b, c[2][0], depth - 1))
        if c[3] in THROUGH and c[2] and c[3] not in ('index_mut', 'index', 'chunks', 'chunks_mut', 'windows', 'chunks_exact', 'chunks_exact_mut'):
            return _elem(sym, b, c[2][0], depth - 1)
    return ('elem', resolve(sym, b, c, depth - 1))


def natural(b):
    """natural loops: header -> blocks"""
    memo = b._cache
    if 'natural' not in memo:
        out = {}
        for u in b.live_blocks:
            for h in b.succs[u]:
                if b.dominates(h, u):
                    L = out.setdefault(h, {h})
                    work = [u]
                    while work:
                        x = work.pop()
                        if x not in L:
                            L.add(x)
                            work += [q for q in b.preds[x] if q in b.live_blocks]
        memo['natural'] = out
    return memo['natural']


def ends(b, h, blocks):
    """edges by which the loop ends regularly: leaving from the first branch after the header"""
    x, seen = h, set()
    while x not in seen:
        seen.add(x)
        ins = [s for s in dict.fromkeys(b.succs[x]) if s in blocks]
        outs = [s for s in dict.fromkeys(b.succs[x]) if s not in blocks]
        if outs:
            return {(x, s) for s in outs}
        if len(ins) != 1:
            return set()
        x = ins[0]
    return set()
