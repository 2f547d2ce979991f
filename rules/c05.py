"""C05: no explicit panic on the control side while a lock guard is live."""
import locks
from c01 import owner_of
from sym import walk

EXPLANATION = ('Lock-guard liveness on the MIR of every function that public API functions can reach, combined with '
               'interprocedural summaries of explicit panics (panic!, assert!, unwrap/expect of fallible results). Every call '
               'made with a lock held is an obligation: it must not be able to raise such a panic, because unwinding would '
               'poison the lock for all later calls.')
TECHNIQUE = 'guard-liveness dataflow with interprocedural panic summaries'
ASSUMPTIONS = ['Arithmetic overflow, indexing and allocation failure are internal faults, not rejected calls.',
               'unwrap on lock results and on channel send/receive results is not a rejection of the call.']
NOTE = ('Covers every explicit panic reachable with a live guard from the public API, for all arguments and states. Panics '
        'inside user-supplied iterators and inside external crates are not included.')


def run(ctx):
    p, g, guards = ctx.p, ctx.g, ctx.guards
    S = locks.Summaries(ctx.cur)
    ctx.rule('panic-under-lock', 'No call made while a lock guard is live can raise an explicit panic.')
    api = g.reach([b for b in p.bodies.values() if b.public and b.kind != 'Closure'], ('call', 'fnitem', 'closure', 'drop', 'boxed'))
    n = 0
    for u in api:
        b = p.bodies[u]
        for t in S.sites(b):
            live = guards.live_at_call(b, t.bb)
            if not live:
                continue
            n += 1
            ctx.seen(b)
            fs = S.at_site('panic', b, t)
            for h in live:
                if not fs:
                    ctx.ob('panic-under-lock', f'{h}: {owner_of(ctx, b)} {t.callee.name if t.callee else t.k}', True, b.loc(t.line))
                for f, (chain, loc) in fs.items():
                    if revalidated(ctx, b, t, chain):
                        ctx.ob('panic-under-lock', f'{h}: {owner_of(ctx, b)} {chain[-1].rsplit("::", 1)[-1]} (validated before)', True, b.loc(t.line))
                        continue
                    ctx.ob('panic-under-lock', f'{h}: {owner_of(ctx, b)} {chain[-1].rsplit("::", 1)[-1]} {f.split(" ")[0]}', False,
                           b.loc(t.line), f'{f} at {loc} while {h} is locked; the panic poisons the lock', list(chain) + [loc])
    ctx.floor('panic-under-lock', 'calls made with a lock held', n, 20)


def revalidated(ctx, b, t, chain):
    """the panic is the sample rate validation of a backend, applied to options made from the context's own sample rate"""
    if chain[-1].rsplit('::', 1)[-1] != 'assert_valid_sample_rate':
        return False
    for a in t.args:
        for e in walk(ctx.sym.operand(b, a)):
            if e[0] == 'agg' and 'sample_rate' in e[3]:
                v = e[3]['sample_rate']
                if v[0] == 'agg' and v[2] == 'Some' and v[3]['0'][0] == 'call' and v[3]['0'][3] == 'sample_rate':
                    return True
    return False
