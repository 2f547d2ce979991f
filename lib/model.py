"""Structural discovery of the crate's key types and functions (by type, trait and public name, not by text)."""


def tail(path):
    return path.rsplit('::', 1)[-1]


def mentions(ty, pred, p=None, depth=6, seen=None):
    """does the type (through args, pointers, tuples) contain one satisfying pred"""
    seen = seen if seen is not None else set()
    if ty.i in seen or depth < 0:
        return False
    seen.add(ty.i)
    if pred(ty):
        return True
    return any(mentions(a, pred, p, depth - 1, seen) for a in ty.args)


class Model:
    def __init__(self, p):
        self.p = p
        self._c = {}

    def _memo(self, k, f):
        if k not in self._c:
            self._c[k] = f()
        return self._c[k]

    def trait(self, name):
        """path of the local trait with this (public) name"""
        c = [t for t in self.p.traits if tail(t) == name]
        return c[0] if c else None

    def is_dyn(self, ty, trait):
        return ty.k == 'dyn' and trait in ty.d.get('traits', [])

    @property
    def processor_trait(self): return self.trait('AudioProcessor')
    @property
    def node_trait(self): return self.trait('AudioNode')
    @property
    def backend_trait(self):
        """trait object an online context holds to control its device"""
        def f():
            out = []

            def visit(ty, seen):
                if ty.i in seen:
                    return
                seen.add(ty.i)
                if ty.k == 'dyn':
                    out.extend(t for t in ty.d.get('traits', []) if t in self.p.traits and t not in out)
                for a in ty.args:
                    visit(a, seen)
                if ty.k == 'adt' and ty.adt in self.p.adts:
                    for _, _, ft in self.p.adt_fields(ty.adt):
                        visit(ft, seen)
            for a in self.p.adts:
                if tail(a) == 'AudioContext':
                    for _, _, ft in self.p.adt_fields(a):
                        if not (ft.adt in self.p.adts or ft.k == 'adt' and any(x.adt in self.p.adts for x in ft.args)):
                            visit(ft, set())
            return out[0] if out else None
        return self._memo('backend', f)

    def enums(self):
        return [a for a in self.p.adts.values() if a['kind'] == 'Enum']

    def structs(self):
        return [a for a in self.p.adts.values() if a['kind'] == 'Struct']

    def _holds(self, adt, pred):
        return any(mentions(ft, pred) for _, _, ft in self.p.adt_fields(adt))

    @property
    def ctrl_enum(self):
        """enum with a variant carrying Box<dyn AudioProcessor>: the control -> render message type"""
        def f():
            tr = self.processor_trait
            for a in self.enums():
                if self._holds(a['path'], lambda t: self.is_dyn(t, tr)):
                    return a['path']
            return None
        return self._memo('ctrl', f)

    @property
    def register_variant(self):
        tr = self.processor_trait
        for v, fn, ft in self.p.adt_fields(self.ctrl_enum):
            if mentions(ft, lambda t: self.is_dyn(t, tr)):
                return v
        return None

    def variant_fields(self, adt, var):
        return [(fn, ft) for v, fn, ft in self.p.adt_fields(adt) if v == var]

    @property
    def node_id(self):
        """the node id newtype: T of the queue entry llq::Node<T> that travels with a Box<dyn AudioProcessor>"""
        def f():
            for _, ft in self.variant_fields(self.ctrl_enum, self.register_variant) if self.ctrl_enum else ():
                if ft.adt and ft.adt.startswith('llq') and ft.args and ft.args[0].adt in self.p.adts:
                    return ft.args[0].adt
            c = [a for a in self.p.adts if tail(a) == 'AudioNodeId']
            return c[0] if c else None
        return self._memo('nid', f)

    @property
    def graph(self):
        """struct owning the producer side of the recycled id queue"""
        def f():
            nid = self.node_id
            for a in self.structs():
                for _, _, ft in self.p.adt_fields(a['path']):
                    if ft.adt and ft.adt.startswith('llq') and tail(ft.adt) == 'Producer' and \
                            mentions(ft, lambda t: t.adt == nid):
                        return a['path']
            return None
        return self._memo('graph', f)

    @property
    def node(self):
        """struct owning a Box<dyn AudioProcessor> (the render side node)"""
        def f():
            tr = self.processor_trait
            for a in self.structs():
                for _, _, ft in self.p.adt_fields(a['path']):
                    if ft.k == 'adt' and tail(ft.adt) == 'Box' and ft.args and self.is_dyn(ft.args[0], tr):
                        return a['path']
            return None
        return self._memo('node', f)

    @property
    def render_thread(self):
        """struct owning an optional Graph"""
        def f():
            g = self.graph
            for a in self.structs():
                for _, _, ft in self.p.adt_fields(a['path']):
                    if ft.adt and tail(ft.adt) == 'Option' and ft.args and ft.args[0].adt == g:
                        return a['path']
            return None
        return self._memo('rt', f)

    @property
    def event_enum(self):
        """payload type sent to the event loop: struct/enum T with Sender<T> in AudioWorkletGlobalScope"""
        def f():
            for a in self.structs():
                if tail(a['path']) == 'AudioWorkletGlobalScope':
                    for _, _, ft in self.p.adt_fields(a['path']):
                        if ft.adt and tail(ft.adt) == 'Sender':
                            return ft.args[0].adt
            return None
        return self._memo('ev', f)

    @property
    def scope(self):
        c = [a['path'] for a in self.structs() if tail(a['path']) == 'AudioWorkletGlobalScope']
        return c[0] if c else None

    def processors(self):
        """local impls of AudioProcessor: {adt path: {method name: body}}"""
        def f():
            out = {}
            tr = self.processor_trait
            for b in self.p.bodies.values():
                if b.trait == tr and b.self_ty is not None and b.kind != 'Closure':
                    st = b.self_ty
                    out.setdefault(st.adt or st.s, {})[b.name] = b
            return out
        return self._memo('procs', f)

    def processor_bodies(self, names=('process', 'onmessage', 'before_drop')):
        tr = self.processor_trait
        out = []
        for ms in self.processors().values():
            out += [b for n, b in ms.items() if n in names]
        # provided methods of the trait
        for b in self.p.bodies.values():
            if b.in_trait == tr and b.name in names:
                out.append(b)
        return out
