"""general scenarios: a sequence of public calls on several objects"""
from .circ_base import *
from .inst import Circ


class Step:
    def __init__(self, label, res):
        self.label, self.res = label, res
        self.value = res.value


class Scene:
    def __init__(self, world, state=None):
        self.w = world
        self.state = state or world.base
        self.steps = []

    def clone(self):
        s = Scene(self.w, self.state)
        s.steps = list(self.steps)
        return s

    def do(self, label, f, must=True):
        r = self.w.run(f, self.state)
        st = Step(label, r)
        self.steps.append(st)
        if r.dead:
            if must:
                site = r.raises[0][3] if r.raises else None
                raise Definite("%s always raises %s" % (label, exc_name(r.raises[0][1]) if r.raises else "?"), site)
        else:
            self.state = r.state
        return r.value

    def call(self, label, obj, meth, args=(), kwargs=None, must=True):
        return self.do(label, lambda ip: ip.call(ip.get_attr(obj, meth), list(args), dict(kwargs or {})), must)

    def get(self, obj, *path):
        def f(ip):
            v = obj
            for p in path:
                v = ip.get_attr(v, p) if isinstance(p, str) and not p.startswith("[") else ip.get_item(v, const(p[1:-1]) if isinstance(p, str) else const(p))
            return v

        return self.w.run(f, self.state).value

    def frozen(self, v, state=None):
        return self.w.run(lambda ip: ip.freeze(v), state or self.state).value

    def at(self, env=None):
        return SceneAt(self, env or {})


class SceneAt:
    def __init__(self, scene, env):
        self.scene = scene
        self.ex = Expander(scene.state.heap, env)
        self.ev = self.ex.ev
        self.slices = []
        for s in scene.steps:
            for st, name, v, site in s.res.raises:
                vals = [self.ev.cond(p) for p in st.pc[len(s.res.base.pc) :]]
                if not any(x is False for x in vals):
                    raise Definite("%s raises %s" % (s.label, exc_name(name)), site)
            before = {a: (len(c.ops), len(c.order)) for a, c in self.ex.circs.items()}
            self.ex.run(s.res.effects)
            self.slices.append({a: (before.get(a, (0, 0))[0], len(c.ops), before.get(a, (0, 0))[1], len(c.order)) for a, c in self.ex.circs.items()})

    def circ(self, ref):
        a = self.ev(ref).addr
        return self.ex.circs.setdefault(a, Circ())

    def ops(self, i, ref):
        a = self.ev(ref).addr
        if a not in self.slices[i]:
            return []
        x, y, _, _ = self.slices[i][a]
        return self.ex.circs[a].ops[x:y]

    def newregs(self, i, ref):
        a = self.ev(ref).addr
        if a not in self.slices[i]:
            return []
        _, _, x, y = self.slices[i][a]
        return self.ex.circs[a].order[x:y]

    def touched(self, i):
        return [a for a, (x, y, u, v) in self.slices[i].items() if y > x or v > u]

    def norm(self, ops, ref):
        """instructions with bits written as (register name, index)"""
        c = self.circ(ref)
        nm = lambda b: (c.addrs[b[0]].name, b[1]) if b[0] in c.addrs else ("?%d" % b[0], b[1])
        out = []
        for o in ops:
            if o.name == "barrier":
                continue
            out.append((o.name, tuple(map(nm, o.q)), nm(o.c) if o.c else None, (tuple(map(nm, o.cond[0])), o.cond[1]) if o.cond else None))
        return out

    def namer(self, ref):
        c = self.circ(ref)
        return lambda b: "%s[%d]" % (c.addrs[b[0]].name if b[0] in c.addrs else "?", b[1])


# ---------------------------------------------------------------- observation of object state
def cells(heap, skip_kinds=("ext", "frame", "module", "func")):
    """flat map of every scalar/list/dict cell of the heap"""
    return {a: o for a, o in heap.items() if o.kind in ("obj", "dict", "list", "set")}


def observe(scene, obj, names, state=None):
    """{name: frozen attribute value or None}"""
    out = {}
    for n in names:
        def f(ip, n=n):
            v = obj
            for p in n.split("."):
                v = ip.get_attr(v, p)
            return ip.freeze(v)

        out[n] = scene.w.run(f, state or scene.state).value
    return out


def flat_effects(effs):
    for e in effs:
        yield e
        for k in ("body", "then", "els"):
            v = e.a.get(k)
            if isinstance(v, tuple):
                for x in flat_effects(v):
                    yield x
