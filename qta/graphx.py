"""
Evaluation of graph-building summaries: node/edge effects, containers tracked
through effects (`live`), and recursive functions given by the summary of
their body.  Everything is evaluated on the summaries, for given code
dimensions.
"""
from .inst import *
from .inst import _MISS
from .terms import *


class Snap:
    """contents of a container or the node list of a graph at one point"""

    __slots__ = ("v", "_set")

    def __init__(self, v):
        self.v = v
        self._set = None

    def has(self, x):
        if self._set is None:
            try:
                self._set = set(self.v)
            except TypeError:
                self._set = False
        if self._set is False:
            return None
        try:
            return x in self._set
        except TypeError:
            return None


POISON = Snap(None)
DBG = 0


class Graph:
    def __init__(self, multigraph, site):
        self.multigraph, self.site = multigraph, site
        self.nodes = []
        self.pos = {}
        self.dups = []
        self.edges = {}  # frozenset of labels -> [(weight, site)]
        self.snap = None
        self.sites = {}

    def add(self, label, site):
        if label in self.pos:
            self.dups.append((label, site))
        else:
            self.pos[label] = len(self.nodes)
            self.sites[label] = site
        self.nodes.append(label)
        self.snap = None


class GEv(Ev):
    ex = None

    def ev(self, t):
        if t.op == "s" and self.env.get(t) is POISON and not self.raw:
            raise Undecided("a value that changed while effects were carried out")
        return Ev.ev(self, t)

    raw = False

    def snapof(self, t):
        s = self.env.get(t) if t.op == "s" else self.ev(t)
        if not isinstance(s, Snap):
            raise Undecided("not a snapshot: %r" % (s,))
        if s is POISON:
            raise Undecided("contents of a container that changed while a sequence was built")
        return s

    def o_ref(self, t):
        o = self.heap.get(t.args[0])
        a = self.ex.alias.get(t.args[0], t.args[0])
        if o is not None and o.label == "live" or a in self.ex.live:
            return Ref(a)
        return Ev.o_ref(self, t)

    def o_node(self, t):
        n = Ev.o_node(self, t)
        g = self.ex.graphs.get(getattr(n.g, "addr", None))
        if g is not None:
            n.idx = g.pos.get(n.label)
        return n

    def o_live(self, t):
        return self.snapof(t.args[1]).v

    def o_gnodes(self, t):
        return self.snapof(t.args[1]).v

    def o_lget(self, t):
        d = self.ev(t.args[0])
        k = hashable(self.ev(t.args[1]))
        if not isinstance(d, dict):
            raise Undecided("lookup in %r" % (d,))
        if k not in d:
            self.bad("missing key %r" % (k,))
        return d[k]

    def o_lkey(self, t):
        return list(self.ev(t.args[0]))[self.integer(t.args[1])]

    def o_lval(self, t):
        return list(self.ev(t.args[0]).values())[self.integer(t.args[1])]

    def o_in(self, t):
        c = t.args[1]
        if c.op in ("live", "gnodes"):
            s = self.snapof(c.args[1])
            x = hashable(self.ev(t.args[0]))
            if isinstance(s.v, dict):
                return x in s.v
            r = s.has(x)
            if r is not None:
                return r
        return Ev.o_in(self, t)


class GraphExec(Expander):
    LIMIT = 400000

    def __init__(self, heap, env, hook=None):
        Expander.__init__(self, heap, env, hook)
        self.ev = GEv(heap, env, hook)
        self.ev.ex = self
        self.graphs = {}
        self.live = {}  # addr -> list / dict
        self.snaps = {}  # addr -> current Snap
        self.alias = {}
        self.depth = 0
        self.steps = 0
        self.loopsids = []

    # ------------------------------------------------------------ containers
    def real(self, a):
        return self.alias.get(a, a)

    def x_newobj(self, e):
        v = self.ev(e.init)
        self.live[e.addr] = dict(v) if e.what == "dict" else [hashable(x) for x in self.plain(v)]
        self.snaps.pop(e.addr, None)
        self.ev.memo.clear()

    def plain(self, v):
        v = list(v)
        if any(isinstance(x, G) for x in v):
            raise Undecided("container contents depend on outcomes")
        return v

    def x_snapobj(self, e):
        a = self.real(e.ref.args[0])
        if a not in self.live:
            raise Undecided("container %s has no known contents" % a)
        s = self.snaps.get(a)
        if s is None:
            v = self.live[a]
            s = self.snaps[a] = Snap(dict(v) if isinstance(v, dict) else list(v))
        self.setsid(e.sid, s)

    def setsid(self, sid, s):
        self.ev.env[sid] = s
        for fr in self.loopsids:
            fr.setdefault(sid, []).append(s)

    def x_mut(self, e):
        if e.a.get("obj") != "live":
            self.other.append(e)
            return
        a = self.real(e.addr)
        if a not in self.live:
            raise Undecided("container %s has no known contents" % a)
        v = self.live[a]
        if e.what == "setitem":
            v[hashable(self.ev(e.key))] = self.ev(e.val)
        elif e.what == "del":
            k = hashable(self.ev(e.key))
            if k not in v:
                raise Definite("missing key %r" % (k,), e.site)
            del v[k]
        else:
            n = self.ev(e.val)
            self.live[a] = dict(n) if isinstance(n, dict) else [hashable(x) for x in self.plain(n)]
        self.snaps.pop(a, None)

    def x_for(self, e):
        n = self.ev.integer(e.n, "loop bound")
        self.loopsids.append({})
        try:
            for i in range(n):
                self.ev.with_env({e.k: i}, lambda: self.run(e.body))
        finally:
            seen = self.loopsids.pop()
        keep = e.body[-1].syms if e.body and e.body[-1].kind == "let" else ()
        for sid, vs in seen.items():
            if sid not in keep and any(v is not vs[0] for v in vs):
                self.ev.env[sid] = POISON

    def x_let(self, e):
        for sm, v in zip(e.syms, [self.letval(v) for v in e.vals]):
            self.setsid(sm, v)

    def letval(self, v):
        if v.op == "undef":
            return POISON
        try:
            return self.ev(v)
        except Undecided as ee:
            if DBG: print("LET", show(v)[:300], ee)
            return POISON  # matters only if the value is used

    def x_forget(self, e):
        for sm in e.syms:
            self.setsid(sm, POISON)

    # ------------------------------------------------------------ graphs
    def graph(self, ref):
        r = self.ev(ref)
        g = self.graphs.get(r.addr) if isinstance(r, Ref) else None
        if g is None:
            raise Undecided("graph %r" % (r,))
        return g

    def x_newgraph(self, e):
        self.graphs[e.graph.args[0]] = Graph(self.ev(e.multigraph), e.site)

    def x_addnode(self, e):
        self.graph(e.graph).add(hashable(self.ev(e.label)), e.site)

    def x_addedge(self, e):
        g = self.graph(e.graph)
        ns = []
        for x in (self.ev(e.a.get("a")), self.ev(e.a.get("b"))):
            if isinstance(x, bool) or not isinstance(x, (Node, int)):
                raise Undecided("edge endpoint %r" % (x,))
            if isinstance(x, int):
                if not 0 <= x < len(g.nodes):
                    raise Definite("edge to node index %d of a graph with %d nodes" % (x, len(g.nodes)), e.site)
                ns.append(g.nodes[x])
                continue
            if self.graphs.get(getattr(x.g, "addr", None)) is not g and x.idx is not None and x.idx < len(g.nodes):
                ns.append(g.nodes[x.idx])
                continue
            if self.graphs.get(getattr(x.g, "addr", None)) is not g:
                raise Definite("an edge is added with a node index of another graph (%r)" % (x.label,), e.site)
            ns.append(x.label)
        k = frozenset(ns)
        w = self.ev(e.w)
        if not g.multigraph and k in g.edges:
            g.edges[k] = [(w, e.site)]
        else:
            g.edges.setdefault(k, []).append((w, e.site))

    def x_snapshot(self, e):
        g = self.graph(e.graph)
        if g.snap is None:
            g.snap = Snap(list(g.nodes))
        self.setsid(e.sid, g.snap)

    def x_graph_other(self, e):
        raise Undecided("graph operation %s is not modelled" % e.name)

    # ------------------------------------------------------------ recursion
    def x_rec(self, e):
        s = e.summ
        if s["effects"] is None:
            raise Undecided("incomplete recursion summary")
        self.steps += 1
        if self.steps > 60000:
            raise Definite("the recursion of %s does not end" % s["f"].qual, e.site)
        upd = dict(zip(e.syms, [self.ev(v) for v in e.vals]))
        refs = {p.args[0]: self.real(a.args[0]) for p, a in zip(e.prefs, e.arefs)}
        env, al, ls = dict(self.ev.env), self.alias, self.loopsids
        self.alias = dict(self.alias, **{}) if not refs else {**self.alias, **refs}
        self.loopsids = []
        self.ev.env.update(upd)
        # a list passed by reference is read through its alias
        try:
            self.run(s["effects"])
            for st, name, v, site in s["raises"]:
                c = self.ev.cond(and_(*st.pc)) if st.pc else True
                if c is not False:
                    if c is True:
                        raise Definite("%s raises" % s["f"].qual, site)
                    raise Undecided("raise in a recursive function")
            val = self.ev(s["value"]) if s["value"] is not None else None
        finally:
            self.alias, self.loopsids = al, ls
            self.ev.env = env
        self.ev.env[e.result] = val
