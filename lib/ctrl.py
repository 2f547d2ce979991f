"""The control message protocol: message enum, its handler on the render thread, the arms, and who sends what."""
import inline as inl
from graphm import GraphModel, KEEP_OUT, is_call
from model import mentions, tail


class Ctrl:
    def __init__(self, ctx):
        self.ctx, self.p, self.g, self.sym = ctx, ctx.p, ctx.g, ctx.sym
        self.gm = GraphModel(ctx)
        self.m = self.gm.m
        self.enum = self.m.ctrl_enum
        c = [a for a in self.p.adts if tail(a) == 'AudioContextState']
        self.state = c[0] if c else None

    # ---- message shapes
    def variants(self):
        return [v['n'] for v in self.p.adts[self.enum]['variants']]

    def notify_ty(self):
        """local type carried by messages whose sender waits: holds senders of ()"""
        for v, fn, ft in self.p.adt_fields(self.enum):
            if ft.adt in self.p.adts and self.p.adts[ft.adt]['kind'] == 'Enum' and \
                    any(mentions(x, lambda t: t.adt is not None and tail(t.adt) == 'Sender' and any(a.s == '()' for a in t.args))
                        for _, _, x in self.p.adt_fields(ft.adt)):
                return ft.adt
        return None

    def notify_variants(self):
        n = self.notify_ty()
        return sorted({v for v, _, ft in self.p.adt_fields(self.enum) if ft.adt == n}) if n else []

    def recycle_variant(self):
        """message that asks the renderer to hand back the graph"""
        for v, _, ft in self.p.adt_fields(self.enum):
            if ft.adt and tail(ft.adt) == 'Sender' and ft.args and ft.args[0].adt == self.m.graph:
                return v
        return None

    def startup_variant(self):
        for v, _, ft in self.p.adt_fields(self.enum):
            if ft.adt == self.m.graph:
                return v
        return None

    # ---- handler
    def takes_state(self, b):
        """functions with a parameter of the state enum: the state setters"""
        return any(b.lty(i).strip().adt == self.state for i in range(1, b.argc + 1))

    def setters(self):
        """functions that write the state atomic from a parameter"""
        out = []
        for b in self.p.bodies.values():
            if b.kind != 'Closure' and self.takes_state(b):
                u = self.g.reach([b], ('call', 'closure', 'fnitem'))
                if any(is_state_atomic(t) for x in u for t in self.p.bodies[x].calls()):
                    out.append(b)
        # a function that also changes fields of the render thread is part of the message handling, not a plain setter
        rt = self.m.render_thread
        return [b for b in out if not any(s.kind == '=' and any(f[1] == rt for f in s.place.fields()) for s in b.stmts())]

    def handler_root(self):
        """the render thread method that matches on the message"""
        out = []
        rt = self.m.render_thread
        for b in self.p.bodies.values():
            r = self.g.root_fn(b)
            if r.self_ty is None or r.self_ty.strip().adt != rt:
                continue
            for blk in b.blocks:
                t = blk.term
                if t.k == 'switch' and t.d.get('enum') == self.enum and blk.i in b.live_blocks and len(t.d['cases']) >= 3:
                    out.append(b)
                    break
        return out

    def inlined_handler(self, keep_state=True):
        memo = self.ctx.cur.__dict__.setdefault('_ctrl_inl', {})
        if keep_state not in memo:
            graph, setters = self.m.graph, {b.uid for b in self.setters()}

            def pred(b):
                st = b.self_ty
                if st is not None and st.strip().adt and (st.strip().adt == graph or tail(st.strip().adt) in KEEP_OUT):
                    return False
                return not (keep_state and b.uid in setters)
            memo[keep_state] = [inl.Inliner(self.p, self.g, pred, 5).run(b) for b in self.handler_root()]
        return memo[keep_state]

    def arms(self, body):
        """variant -> set of entry blocks of its arm"""
        out = {}
        for blk in body.blocks:
            t = blk.term
            if t.k == 'switch' and t.d.get('enum') == self.enum and blk.i in body.live_blocks and len(t.d['cases']) >= 3:
                names = dict(t.d['variants'])
                for v, b in t.d['cases']:
                    out.setdefault(names[v], set()).add(b)
                rest = set(names.values()) - {names[v] for v, _ in t.d['cases']}
                if body.blocks[t.d['else']].term.k != 'unreachable':
                    for v in rest:
                        out.setdefault(v, set()).add(t.d['else'])
        return out

    # ---- construction sites
    def built(self, variants=None):
        """(body, stmt, variant) for every construction of a message"""
        for b in self.p.bodies.values():
            for s in b.stmts():
                if s.kind == '=' and s.rv.k == 'agg' and s.rv.agg.get('adt') == self.enum:
                    v = s.rv.agg.get('var')
                    if variants is None or v in variants:
                        yield b, s, v

    def is_sender(self, ty):
        return ty is not None and ty.adt is not None and tail(ty.adt) == 'Sender' and ty.args and ty.args[0].adt == self.enum

    def is_send(self, body, t):
        """call that puts a message into the channel"""
        if not is_call(t, 'send', 'try_send', 'send_timeout', 'send_deadline') or not t.args:
            return False
        c = t.callee
        return c.krate == 'crossbeam_channel' and c.self_ty is not None and self.is_sender(c.self_ty.strip())

    def state_arg(self, body, t):
        """constant state variant passed to a setter call"""
        for a in t.args:
            e = self.sym.operand(body, a)
            if e[0] == 'agg' and e[1] == self.state:
                return e[2]
            if e[0] == 'const' and isinstance(e[1], int):
                continue
        return None


def is_state_atomic(t, names=None):
    c = t.callee
    if c is None or c.self_ty is None:
        return False
    ty = c.self_ty.strip()
    ok = ty.adt is not None and (tail(ty.adt) == 'AtomicU8' or tail(ty.adt) == 'Atomic' and ty.args and ty.args[0].s == 'u8')
    return ok and (names is None or c.name in names)
