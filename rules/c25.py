"""C25: every quantum is rendered inside the denormal guard."""
from graphm import GraphModel
from c01 import owner_of

EXPLANATION = ('Effect analysis on the call graph: every call chain from an entry point to the function that renders the graph passes '
               'through a closure handed to the no_denormals guard.')
TECHNIQUE = 'effect (enclosing-context) analysis on the call graph of the type-checked program'
ASSUMPTIONS = ['The analysed target is x86_64, one of the platforms where the guard exists; cfg-disabled code is not part of the program.']
NOTE = 'All call chains from every public function, thread, callback or coroutine to the graph rendering function.'


def run(ctx):
    p, g = ctx.p, ctx.g
    gm = GraphModel(ctx)
    ctx.rule('denormals-off', 'Each call chain to the graph render function passes a closure executed by no_denormals.')
    bar = set()
    for b in p.bodies.values():
        for uid, st, disp, flows in g.closure_uses(b):
            if any(k == 'call' and x.callee is not None and x.callee.krate == 'no_denormals' for k, x in flows):
                bar.add(uid)
    ctx.floor('denormals-off', 'closures run by the guard', len(bar), 1)
    n = 0
    for e in gm.render_entries():
        for ed in g.rev[e.uid]:
            if ed.kind not in ('call', 'fnitem'):
                continue
            n += 1
            b = ed.src
            bad = None
            seen, st = {b.uid}, [(b, [b.path, e.path])]
            while st and bad is None:
                x, ch = st.pop()
                ctx.seen(x)
                if x.uid in bar:
                    continue
                ins = [q for q in g.rev[x.uid] if q.kind in ('call', 'fnitem', 'closure', 'drop', 'callback', 'spawn', 'boxed')]
                if not ins or x.public or any(q.kind in ('callback', 'spawn', 'boxed') for q in ins):
                    bad = ch
                    break
                for q in ins:
                    if q.src.uid not in seen:
                        seen.add(q.src.uid)
                        st.append((q.src, [q.src.path] + ch))
            ctx.ob('denormals-off', f'{owner_of(ctx, b)}: graph rendering from {p_name(ctx, b)}', bad is None, b.loc(ed.line),
                   'the graph can be rendered without the denormal guard', bad)
    ctx.floor('denormals-off', 'call sites of the graph render function', n, 2)


def p_name(ctx, b):
    return ctx.g.root_fn(b).name
