"""D01-D08: the decoders, decided on summaries of their construction and decoding."""
import math
from collections import deque
from .scene import *
from .graphx import *
from .p_circ import samples, plaquette_map, parse_at, fmt, hits_of, creg_string
from .circ_base import *

TT = sym("T", "int", 1)
PERR = sym("perr", "num")

DECS = [
    ("RotatedDecoder", "2d"),
    ("RotatedDecoder", "column"),
    ("RotatedDecoder", "row"),
    ("RepetitionDecoder", "column"),
    ("RepetitionDecoder", "row"),
]
# code classes whose readouts a decoder is offered for
FOR = {"RotatedDecoder": ["XXZZQubit", "XZZXQubit"], "RepetitionDecoder": ["RepetitionQubit"]}


def err_raises(r, ev, what):
    for st, name, v, site in r.raises:
        vals = [ev.cond(p) for p in st.pc[len(r.base.pc) :]]
        if not any(x is False for x in vals):
            raise Definite("%s raises %s" % (what, exc_name(name)), site)


class Mat:
    """all-pairs distances of a syndrome graph, as floyd_warshall numbers them"""

    def __init__(self, ex, addr, weighted, kind="dist"):
        self.ex, self.addr, self.g, self.weighted = ex, addr, ex.graphs[addr], weighted
        self.rows = {}

    def row(self, lab):
        if lab not in self.rows:
            self.rows[lab] = sssp(self.g, lab, self.weighted)[0]
        return self.rows[lab]

    def __hash__(self):
        return id(self)


def adjacency(g):
    if not hasattr(g, "adj") or g.adjn != len(g.edges):
        g.adj = {n: [] for n in g.nodes}
        g.adjn = len(g.edges)
        for k, ws in g.edges.items():
            a, b = (tuple(k) * 2)[:2]
            for w, site in ws:
                g.adj[a].append((b, w))
                if a != b:
                    g.adj[b].append((a, w))
    return g.adj


def sssp(g, src, weighted=False):
    """hop distances and numbers of shortest paths from src"""
    adj = adjacency(g)
    dist, cnt = {src: 0}, {src: 1}
    q = deque([src])
    while q:
        x = q.popleft()
        for y, w in adj[x]:
            if weighted and w != 1:
                raise Undecided("non-unit edge weights in the syndrome graph")
            if y not in dist:
                dist[y] = dist[x] + 1
                cnt[y] = 0
                q.append(y)
            if dist[y] == dist[x] + 1:
                cnt[y] += cnt[x]
    return dist, cnt


class DEv(GEv):
    """evaluation of decoding summaries: retworkx answers are computed on the
    evaluated syndrome graph, matchings are supplied by the obligation"""

    matching = None
    weighting = None

    def label_at(self, g, i, what):
        if isinstance(i, Node):
            if i.g.addr not in self.ex.graphs or self.ex.graphs[i.g.addr] is not g:
                if i.idx is not None and i.idx < len(g.nodes):
                    return g.nodes[i.idx]
                raise Definite("%s is indexed with a node of another graph" % what, self.loc)
            return i.label
        i = self.integer(i, "node index")
        if not 0 <= i < len(g.nodes):
            self.bad("%s: node index %d of a graph with %d nodes" % (what, i, len(g.nodes)))
        return g.nodes[i]

    def index(self, v, k):
        if isinstance(v, Mat):
            if isinstance(k, tuple) and len(k) == 2:
                return self.index(self.index(v, k[0]), k[1])
            lab = self.label_at(v.g, k, "the distance matrix")
            return MatRow(v, lab)
        if isinstance(v, MatRow):
            lab = self.label_at(v.m.g, k, "the distance matrix")
            d = v.m.row(v.lab).get(lab)
            return float("inf") if d is None else d
        if isinstance(v, Counts):
            return v.get(self.label_at(v.g, k, "the path counts"), self)
        return GEv.index(self, v, k)

    def o_item(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, (Mat, MatRow, Counts)):
            return self.index(v, self.ev(t.args[1]))
        return GEv.o_item(self, t)

    def o_dget(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, Counts):
            return self.index(v, self.ev(t.args[1]))
        return GEv.o_dget(self, t)

    def o_lget(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, Counts):
            return self.index(v, self.ev(t.args[1]))
        return GEv.o_lget(self, t)

    def graphof(self, t):
        r = self.ev(t)
        if isinstance(r, Ref) and r.addr in self.ex.graphs:
            return r.addr
        raise Undecided("graph %r" % (r,))

    def o_call(self, t):
        n = t.args[0]
        if isinstance(n, str):
            n = n.replace("rustworkx.", "retworkx.")
        kw = {a.args[0]: a.args[1] for a in t.args[1:] if isinstance(a, Term) and a.op == "kw"}
        pos = [a for a in t.args[1:] if not (isinstance(a, Term) and a.op == "kw")]
        if n in ("retworkx.graph_floyd_warshall_numpy", "retworkx.floyd_warshall_numpy", "retworkx.graph_distance_matrix", "retworkx.distance_matrix"):
            return Mat(self.ex, self.graphof(pos[0]), "weight_fn" in kw or len(pos) > 1)
        if n in ("retworkx.num_shortest_paths_unweighted", "retworkx.graph_num_shortest_paths_unweighted"):
            a = self.graphof(pos[0])
            g = self.ex.graphs[a]
            return Counts(g, self.label_at(g, self.ev(pos[1]), "num_shortest_paths"))
        if n == "dict" and len(pos) == 1:
            v = self.ev(pos[0])
            if isinstance(v, (Counts, dict)):
                return v
        if n == "retworkx.max_weight_matching":
            if self.matching is None:
                raise Undecided("matching")
            return self.matching(self, pos, kw)
        if isinstance(n, str) and n.startswith("PyGraph.") and pos and not kw:
            g = self.ex.graphs[self.graphof(pos[0])]
            a = [self.ev(x) for x in pos[1:]]
            if n in ("PyGraph.get_edge_data", "PyGraph.has_edge") and len(a) == 2:
                k = frozenset(self.label_at(g, x, n) for x in a)
                if n == "PyGraph.has_edge":
                    return k in g.edges
                if k not in g.edges:
                    self.bad("no edge between %s" % (sorted(k, key=str),))
                return g.edges[k][0][0]
            if n in ("PyGraph.num_nodes", "PyGraph.__len__") and not a:
                return len(g.nodes)
            if n == "PyGraph.num_edges" and not a:
                return sum(map(len, g.edges.values()))
            if n == "PyGraph.get_node_data" and len(a) == 1:
                return self.label_at(g, a[0], n)
        return GEv.o_call(self, t)

    def o_nodelabel(self, t):
        g, n = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(n, Node):
            return n.label
        if isinstance(g, Ref) and g.addr in self.ex.graphs:
            return self.label_at(self.ex.graphs[g.addr], n, "the graph")
        raise Undecided("label of %r" % (n,))


class MatRow:
    def __init__(self, m, lab):
        self.m, self.lab = m, lab


class Counts:
    """numbers of shortest paths from one node"""

    def __init__(self, g, src):
        self.g, self.src = g, src
        self.c = None

    def get(self, lab, ev):
        if self.c is None:
            self.c = sssp(self.g, self.src)[1]
        if lab == self.src or lab not in self.c:
            ev.bad("no number of shortest paths from %r to %r" % (self.src, lab))
        return self.c[lab]


class DExec(GraphExec):
    def __init__(self, heap, env):
        GraphExec.__init__(self, heap, env)
        self.ev = DEv(heap, env, None)
        self.ev.ex = self

    def x_call(self, e):
        unknown_callee(e)


class Dec:
    """one decoder class in one size regime, T symbolic"""

    def __init__(self, world, cname, regime):
        self.w, self.cname, self.regime = world, cname, regime
        world.ip.live_dicts = True
        dh, dw = REGIMES[regime]
        items = [("d", mk("tuple", dh, dw)), ("T", TT)]
        if cname == "RepetitionDecoder":
            items.append(("phase-flip-protected", boolc(regime == "row")))
        self.r = world.new(cname, lambda ip: ([mkdict(ip, items)], {}))
        if self.r.dead:
            raise Definite("%s cannot be built in regime %s: always raises %s" % (cname, regime, [exc_name(x[1]) for x in self.r.raises]))
        self.d, self.state = self.r.value, self.r.state
        self.at_ = {}
        self.frozen = {}

    def expr(self, key, f):
        if key not in self.frozen:
            self.frozen[key] = self.w.run(f, self.state).value
        return self.frozen[key]

    def at(self, hw, T):
        if (hw, T) not in self.at_:
            self.at_[hw, T] = DecAt(self, hw, T)
        return self.at_[hw, T]

    def field(self, name, K):
        return self.expr((name, K), lambda ip: ip.freeze(ip.get_item(ip.get_attr(self.d, name), const(K))))


class DecAt:
    """a decoder of one size, evaluated"""

    def __init__(self, dec, hw, T):
        self.dec, self.hw, self.T = dec, hw, T
        self.env = Code.env(hw)
        self.env[TT] = T
        self.ex = DExec(dec.state.heap, self.env)
        err_raises(dec.r, self.ex.ev, dec.cname)
        self.ex.run(dec.r.effects)
        self.dh = 2 * hw[0] + 1 if dec.regime != "row" else 1
        self.dw = 2 * hw[1] + 1 if dec.regime != "column" else 1
        self.prep = {}
        self.label = "%s d=%dx%d T=%d" % (dec.cname, self.dh, self.dw, T)

    def keys(self):
        ks = self.ex.ev(self.dec.expr("keys", lambda ip: ip.freeze(ip.get_attr(self.dec.d, "syndrome_graph_keys"))))
        return list(ks)

    def graph(self, K):
        r = self.ex.ev(self.dec.expr(("S", K), lambda ip: ip.get_item(ip.get_attr(self.dec.d, "S"), const(K))))
        g = self.ex.graphs.get(r.addr) if isinstance(r, Ref) else None
        if g is None:
            raise Undecided("syndrome graph %r" % (r,))
        return g, r

    def virtual(self, K):
        v = self.ex.ev(self.dec.field("virtual", K))
        return [hashable(x) for x in v]

    def node_map(self, K):
        t = self.dec.expr(("node_map", K), lambda ip: ip.get_item(ip.get_attr(self.dec.d, "node_map"), const(K)))
        if t.op == "ref" and t.args[0] in self.ex.live:
            return self.ex.live[t.args[0]]
        return self.ex.ev(self.dec.field("node_map", K))


class DLab(Lab):
    def __init__(self, ck):
        Lab.__init__(self, ck)
        self.decs = {}

    def dec(self, cn, rg):
        if (cn, rg) not in self.decs:
            self.decs[cn, rg] = Dec(self.w, cn, rg)
        return self.decs[cn, rg]


# sizes beyond every grid, one round
BIG = {"2d": [(6, 7)], "column": [(20, 0)], "row": [(0, 20)]}


def each_dec(ck, lab, n_quick, n_thorough, decs=DECS, Ts=(1, 2), Tth=(1, 2, 4), deep=(5,), large={}):
    """decoders of all sizes of a grid, and of many rounds on the smallest size"""
    n = n_thorough if ck.thorough else n_quick
    lits = literals(ck, 50)
    for cn, rg in decs:
        d = ck.case("%s %s" % (cn, rg), lab.dec, cn, rg)
        if d is None:
            continue
        grid = [(h, w) for h in range(1, n + 1) for w in range(1, n + 1)] if rg == "2d" else [(h, 0) for h in range(1, 2 * n)] if rg == "column" else [(0, w) for w in range(1, 2 * n)]
        todo = [(hw, T) for hw in grid for T in (Tth if ck.thorough else Ts)]
        todo += [(grid[0], T) for T in deep]
        todo += [(hw, 1) for hw in large.get(rg, ())]
        fixed = len(todo)
        todo += [(grid[0], T) for T in tuple(x for c in lits[:5] for x in (c, c + 1))]
        todo += [(hw, 2) for hw in more_sizes(rg, grid, [c for c in lits if c <= 20][:3])]
        for i, (hw, T) in enumerate(todo):
            if (hw, T) in todo[:i] or i >= fixed and not spare(ck):
                continue
            at = ck.case("%s %s %s T=%d" % (cn, rg, hw, T), d.at, hw, T)
            if at is not None:
                yield at


def real(n):
    return isinstance(n, tuple) and len(n) == 3 and n[0] != -1


def nz(n):
    return tuple(float(x) if isinstance(x, Fraction) and x.denominator != 1 else x for x in n)


# ---------------------------------------------------------------- physics of one code, independent of the decoder
def mechanisms(ck, lab, cn, rg, hw, K):
    """(checks {coord}, edges [(frozenset coords, flips logical K, data qubit)], forbidden) of kind K

    every single-qubit data Pauli is reduced to its K part: the K checks it flips and whether it flips logical K"""
    f, hits, name = plaquette_map(ck, lab, cn, rg, hw)
    fr, checks = lab.checks(cn, rg, hw)
    fl, L = lab.logical(cn, rg, hw, K.lower())
    coord, ops = {}, {}
    for c, p, o in checks:
        where = name.get(c[1], [])
        if len(where) != 1:
            raise Undecided("outcome %d has no unique plaquette" % c[1])
        ty, x = where[0]
        if ty == K:
            ops[x[1:]] = fr.restrict(p)[0]
    data = fr.data()
    edges = []
    for i in range(data.size):
        q = Bit((data.addr, i))
        for e in (Pauli((q,)), Pauli((), (q,)), Pauli((q,), (q,))):
            fx = frozenset(x for x, p in ops.items() if not p.commutes(e))
            fl_ = not L.commutes(e)
            edges.append((fx, fl_, q, e))
    return fr, ops, edges


def kinds(lab, ck, cn, rg, hw):
    f, hits, name = plaquette_map(ck, lab, cn, rg, hw)
    return {w[0][0] for w in name.values() if len(w) == 1}


# ---------------------------------------------------------------- D02
def d02(ck):
    lab = DLab(ck)
    for at in each_dec(ck, lab, 2, 4, deep=(3, 5, 14), large=BIG):
        for cn in FOR[at.dec.cname]:
            ck.case("%s for %s" % (at.label, cn), d02_one, ck, lab, at, cn)


def d02_one(ck, lab, at, cn):
    rg, hw, T = at.dec.regime, at.hw, at.T
    have = kinds(lab, ck, cn, rg, hw)
    for K in sorted(have):
        if not ck.ob("a syndrome graph per kind of check", K in at.keys(), lambda: "%s has no syndrome graph for the %s checks of %s (only %s)" % (at.label, K, cn, at.keys())):
            continue
        d02_key(ck, lab, at, cn, K)


def d02_key(ck, lab, at, cn, K):
    rg, hw, T = at.dec.regime, at.hw, at.T
    g, ref = at.graph(K)
    fr, ops, mech = mechanisms(ck, lab, cn, rg, hw, K)
    virt = set(at.virtual(K))
    who = "%s, graph %s" % (at.label, K)
    ck.ob("at most one edge between two nodes", g.multigraph is False or all(len(x) == 1 for x in g.edges.values()), who + ": parallel edges", g.site)
    ck.ob("nodes are added once", not g.dups, lambda: "%s: node %s is added twice" % (who, g.dups[0][0]), g.dups[0][1] if g.dups else g.site)
    rn = {tuple(Fraction(y) for y in n) for n in g.pos if real(n)}
    want = {(Fraction(t),) + x for t in range(T) for x in ops}
    for n in sorted(want - rn):
        ck.ob("one node per check and round", False, "%s has no node for the %s check at %s in round %d" % (who, K, fmt(n[1:]), n[0]), g.site)
    for n in sorted(rn - want):
        ck.ob("one node per check and round", False, "%s has a node %s that is no %s check" % (who, fmt(n), K), g.site)
    ck.ob("one node per check and round", rn == want, "%s: nodes differ" % who, g.site)
    nm = at.node_map(K)
    for n in g.nodes:
        v = nm.get(n)
        ok = (isinstance(v, Node) and v.label == n and v.g.addr == ref.addr) or (isinstance(v, int) and not isinstance(v, bool) and g.pos.get(n) == v)
        ck.ob("node_map leads to the node with that label", ok, lambda: "%s: node_map[%s] is %r" % (who, n, v), g.sites.get(n))
    for v in virt:
        ck.ob("virtual nodes are in the graph", v in g.pos and v in nm, lambda: "%s: virtual node %s is not in the graph" % (who, v), g.site)
    for n in g.nodes:
        if not real(n):
            ck.ob("boundary nodes are virtual nodes", n in virt, lambda: "%s: node %s is not listed in virtual" % (who, n), g.sites.get(n))
    # edges
    def F(n):
        return tuple(Fraction(y) for y in n)

    inner, bound, tim = {}, {}, {}
    for k, ws in g.edges.items():
        for w, site in ws:
            ck.ob("unit weights", w == 1, lambda: "%s: edge %s has weight %s" % (who, sorted(map(str, k)), w), site)
        k2 = tuple(k)
        site = ws[0][1]
        if len(k2) != 2:
            ck.ob("no self loops", False, "%s: edge from %s to itself" % (who, k2[0]), site)
            continue
        a, b = k2
        if real(a) and real(b):
            if a[0] == b[0]:
                inner.setdefault((a[0], frozenset((F(a)[1:], F(b)[1:]))), site)
            else:
                tim[frozenset((F(a), F(b)))] = site
        elif real(a) or real(b):
            r, v = (a, b) if real(a) else (b, a)
            bound.setdefault((r[0], F(r)[1:]), []).append((v, site))
        else:
            ck.ob("edges are error mechanisms", False, "%s: edge between virtual nodes %s and %s" % (who, a, b), site)
    winner, wbound = {}, {}
    for fx, fl, q, e in mech:
        if len(fx) == 2:
            winner.setdefault(fx, []).append((fl, q, e))
        elif len(fx) == 1:
            wbound.setdefault(next(iter(fx)), set()).add((fl, q))
        elif fx:
            ck.ob("errors flip at most two checks of a kind", False, "%s: %s flips %d %s checks" % (cn, fr.show(e), len(fx), K))
        else:
            ck.ob("undetected single errors flip no logical", not fl, lambda: "%s: %s is undetected and flips logical %s" % (cn, fr.show(e), K))
    for t in range(T):
        have = {p for tt, p in inner if tt == t}
        for p in winner:
            ck.ob("every data error between two checks is an edge", p in have, lambda: "%s: no edge between %s in round %d although %s flips both checks" % (who, " and ".join(map(fmt, sorted(p))), t, fr.show(winner[p][0][2])), g.site)
        for p in have:
            ck.ob("every edge is a data error", p in winner, lambda: "%s: edge between %s in round %d matches no data error" % (who, " and ".join(map(fmt, sorted(p))), t), inner.get((t, p)))
        for c in ops:
            es = bound.get((t, c), [])
            ws = wbound.get(c, set())
            ck.ob("boundary edges", len({q for fl, q in ws}) == len(es), lambda: "%s: check %s has %d boundary edges in round %d, %d data qubits lead to the boundary" % (who, fmt(c), len(es), t, len({q for fl, q in ws})), es[0][1] if es else g.site)
    wt = {frozenset(((Fraction(t),) + c, (Fraction(t + 1),) + c)) for t in range(T - 1) for c in ops}
    for p in wt:
        ck.ob("consecutive rounds of a check are linked", p in tim, lambda: "%s: no edge between %s" % (who, " and ".join(map(fmt, sorted(p)))), g.site)
    for p in tim:
        ck.ob("time edges link one check to itself", p in wt, lambda: "%s: edge between %s" % (who, " and ".join(map(fmt, sorted(p)))), tim[p])


# ---------------------------------------------------------------- decoding calls
NODES = sym("nodes", "seq")
OTHERS = sym("others", "seq")
VAL = sym("value", "int", 0)
RS = sym("READOUT", "str")


def symlist(ip, s):
    k = fresh("j", "int", 0)
    return ip.new_list([seg(((k, length(s)),), TRUE, item(s, k))])


class Call:
    """one summarised public decoding call"""

    def __init__(self, dec, K, form, withp, fn="correct_readout", prev=None, tag=None):
        self.dec, self.K, self.form, self.withp = dec, K, form, withp
        self.args = {}
        self.syms = (NODES, OTHERS, VAL, PERR, RS) if tag is None else (sym("nodes" + tag, "seq"), sym("others" + tag, "seq"), sym("value" + tag, "int", 0), sym("perr" + tag, "num"), sym("READOUT" + tag, "str"))
        ns, os_, vl, pe, rs = self.syms

        def f(ip):
            kw = {"err_prob": pe} if withp else {}
            if form == "str":
                a = [rs, const(K)]
            else:
                if prev is not None and tag is None:
                    d = prev.args["dict"]
                else:
                    ls = {k: symlist(ip, ns if k == K else os_) for k in "XZ"}
                    d = mkdict(ip, sorted(ls.items()))
                    self.args = dict(ls, dict=d)
                a = [d, const(K), vl]
            return ip.call(ip.get_attr(dec.d, fn), a, kw)

        self.r = dec.w.run(f, prev.r.state if prev is not None else dec.state)
        if self.r.dead:
            raise Definite("%s.%s always raises %s" % (dec.cname, fn, exc_name(self.r.raises[0][1]) if self.r.raises else "?"), self.r.raises[0][3] if self.r.raises else None)
        self.value = dec.w.run(lambda ip: ip.freeze(self.r.value), self.r.state).value


class Matching:
    """the matching the summary asks retworkx for, and the answer the obligation gives"""

    def __init__(self, call, answer):
        self.call, self.answer = call, answer
        self.graph = None
        self.asked = 0
        self.kw = None

    def __call__(self, ev, pos, kw):
        r = ev.ev(pos[0])
        if isinstance(r, Ref) and r.addr not in ev.ex.graphs:
            return []  # this part of the code is not reached
        addr = ev.graphof(pos[0])
        self.graph = ev.ex.graphs[addr]
        self.asked += 1
        self.pos, self.kw = pos, kw
        self.ref = Ref(addr)
        out = []
        for a, b in self.answer(self.graph) if self.answer else []:
            out.append((Node(self.ref, a, self.graph.pos.get(a)), Node(self.ref, b, self.graph.pos.get(b))))
        return out


def decode(at, call, nodes=None, value=0, others=(), p=None, answer=None, rs=None):
    """evaluate a decoding call at one size: (returned value, Matching, executor)"""
    key = (id(call), tuple(nodes or ()), tuple(others), p, rs if isinstance(rs, (str, BS)) else None)
    ex = at.prep.get(key)
    if ex is None:
        ex = DExec(call.r.state.heap, at.env)
        ex.graphs = dict(at.ex.graphs)
        ex.live = {a: (dict(v) if isinstance(v, dict) else list(v)) for a, v in at.ex.live.items()}
        env = ex.ev.env
        if nodes is not None:
            env[NODES], env[OTHERS], env[VAL] = list(nodes), list(others), value
        if p is not None:
            env[PERR] = p
        if rs is not None:
            env[RS] = rs
        ex.ev.matching = Matching(call, None)
        err_raises(call.r, ex.ev, "%s.correct_readout on %d hits" % (at.label, len(nodes or ())))
        ex.run(call.r.effects)
        at.prep[key] = ex
    ex.ev.memo.clear()
    ex.ev.recs.clear()
    ex.ev.env[VAL] = value
    m = ex.ev.matching = Matching(call, answer)
    v = ex.ev(call.value)
    return v, m, ex


def calls(lab, dec, K, form, withp):
    k = ("call", dec.cname, dec.regime, K, form, withp)
    if k not in lab.hists:
        lab.hists[k] = Call(dec, K, form, withp)
    return lab.hists[k]


def chain(lab, at, specs):
    """decode one set of hits after another: [(value, Matching)]; specs are (kind, p, hits, value, answer)"""
    dec, prev, cs = at.dec, None, []
    key = ("chain", dec.cname, dec.regime)
    for i, (K, p, nodes, value, ans) in enumerate(specs):
        key = key + ((K, p is not None),)
        if key not in lab.hists:
            lab.hists[key] = Call(dec, K, "dict", p is not None, prev=prev, tag="@%d" % i)
        prev = lab.hists[key]
        cs.append(prev)
    ex = fresh_exec(at, dec.state.heap)
    out = []
    for c, (K, p, nodes, value, ans) in zip(cs, specs):
        ex.heap = ex.ev.heap = c.r.state.heap
        ex.ev.env.update(zip(c.syms, (list(nodes), [], value, p)))
        m = ex.ev.matching = Matching(c, ans)
        ex.ev.memo.clear()
        err_raises(c.r, ex.ev, "%s.correct_readout on %d hits after other readouts" % (at.label, len(nodes)))
        ex.run(c.r.effects)
        ex.ev.memo.clear()
        out.append((ex.ev(c.value), m))
    return out


def history(ck, lab, at, K, seqs, who, kinds):
    """what is decoded before changes neither the matching problem nor the value"""
    g, ref = at.graph(K)
    rn = [n for n in g.nodes if real(n)]
    sel = rn[:2] + rn[-2:] if len(rn) > 4 else rn
    K2 = [k for k in kinds if k != K]
    for s in seqs:
        steps = []
        for k, p, how in s:
            kk = K if k == "same" else (K2[0] if K2 else None)
            if kk is None:
                break
            r2 = [n for n in at.graph(kk)[0].nodes if real(n)]
            hs = {"all": r2[:6], "rev": r2[::-1][:4], "some": r2[len(r2) // 2 :][:3], "first": r2[:1]}[how]
            steps.append((kk, p, hs, 1, lambda G: []))
        else:
            for p in sorted({x[1] for x in s}, key=str)[-1:]:
                for nodes in (sel, sel[::-1]):
                    end = [(nodes[0], v) for v in at.virtual(K)[:1]]
                    ans = lambda G: end
                    a = chain(lab, at, [(K, p, nodes, 0, ans)])[-1]
                    b = chain(lab, at, steps + [(K, p, nodes, 0, ans)])[-1]
                    w = "%s graph %s, after decoding %s" % (who, K, "; ".join("%d %s hits%s" % (len(x[2]), x[0], "" if x[1] is None else " with p=%s" % x[1]) for x in steps))
                    ga, gb = a[1].graph, b[1].graph
                    if ga is None or gb is None:
                        raise Undecided("no matching is asked for")
                    ck.ob("what was decoded before does not change the value", a[0] == b[0], lambda: "%s: value %r instead of %r" % (w, b[0], a[0]))
                    ck.ob("what was decoded before does not change the nodes to match", list(ga.nodes) == list(gb.nodes), lambda: "%s: nodes %s instead of %s" % (w, gb.nodes, ga.nodes), gb.site)
                    ea, eb = ({k: [float(x) for x, _ in ws] for k, ws in G.edges.items()} for G in (ga, gb))
                    for k in sorted(set(ea) | set(eb), key=str):
                        ck.ob("what was decoded before does not change the weights", ea.get(k) == eb.get(k), lambda: "%s: pair %s weighs %s instead of %s" % (w, " - ".join(map(str, map(nz, k))), eb.get(k), ea.get(k)), gb.edges[k][0][1] if k in gb.edges else gb.site)


def dec_kinds(lab, ck, at):
    return sorted(kinds(lab, ck, FOR[at.dec.cname][0], at.dec.regime, at.hw))


def crossing(ck, lab, at, K):
    """virtual node -> does its boundary edge flip the logical K; None if a node is ambiguous"""
    rg, hw = at.dec.regime, at.hw
    g, ref = at.graph(K)
    out = {}
    for cn in FOR[at.dec.cname]:
        fr, ops, mech = mechanisms(ck, lab, cn, rg, hw, K)
        by = {}
        for fx, fl, q, e in mech:
            if len(fx) == 1:
                by.setdefault(next(iter(fx)), set()).add((fl, q))
            elif len(fx) == 2 and fl:
                raise Undecided("%s: %s between two checks flips the logical operator" % (cn, fr.show(e)))
        # which boundary edge stands for which data qubit: the virtual node lies on the
        # other side of that qubit, i.e. qubit = midpoint of check and virtual node
        data = fr.data()
        w = fr.dims()[1]
        for k in g.edges:
            a, b = tuple(k) if len(k) == 2 else (None, None)
            if a is None or real(a) == real(b):
                continue
            r, v = (a, b) if real(a) else (b, a)
            cell = (Fraction(r[1]) + Fraction(v[1])) / 2, (Fraction(r[2]) + Fraction(v[2])) / 2
            for fl, q in by.get(tuple(Fraction(y) for y in r[1:]), ()):
                if divmod(q[1], w) == cell:
                    out.setdefault(v, set()).add(fl)
    return out


def some_nodes(g, T):
    """a few spread-out check nodes of a graph"""
    rn = [n for n in g.nodes if real(n)]
    k = max(1, len(rn) // 5)
    return rn[::k][:6] + rn[-1:] if len(rn) > 6 else rn


# ---------------------------------------------------------------- D03 / D06
def d03(ck):
    lab = DLab(ck)
    for at in each_dec(ck, lab, 2, 4):
        ck.case(at.label, d03_one, ck, lab, at)


def d03_one(ck, lab, at):
    for K in dec_kinds(lab, ck, at):
        g, ref = at.graph(K)
        cross = crossing(ck, lab, at, K)
        virt = at.virtual(K)
        who = "%s, %s readout" % (at.label, K)
        for v in virt:
            c = cross.get(v)
            if not ck.ob("each boundary node lies on one side of the logical operator", c is not None and len(c) == 1, lambda: "%s: boundary node %s stands for data qubits that %s the logical operator" % (who, v, "both flip and keep" if c else "are unknown to"), g.sites.get(v)):
                return
        side = {v: next(iter(cross[v])) for v in virt}
        ck.ob("both boundaries exist", set(side.values()) == {True, False}, who + ": all boundary nodes lie on one side", g.site)
        call = calls(lab, at.dec, K, "dict", False)
        rn = [n for n in g.nodes if real(n)]
        pick = some_nodes(g, at.T)

        def test(pairs, want, what):
            for val in (0, 1):
                nodes = []
                for a, b in pairs:
                    nodes += [n for n in (a, b) if real(n) and n not in nodes]
                if not nodes:
                    nodes = pick[:2]
                for order in (pairs, [(b, a) for a, b in pairs]):
                    r, m, ex = decode(at, call, nodes, val, answer=lambda G: order)
                    if isinstance(r, (B, Lin)):
                        raise Undecided("readout value %r" % (r,))
                    if m.asked == 0:
                        raise Undecided("no matching is asked for")
                    ck.ob(what, r == (val ^ want) and not isinstance(r, float), lambda: "%s: matching %s turns value %d into %r, expected %d" % (who, order, val, r, val ^ want), m.graph.site)

        a0 = pick[0]
        for v in virt:
            test([(a0, v)], int(side[v]), "a match to the boundary flips the readout exactly on the logical operator's side")
        for i, a in enumerate(pick):
            for b in pick[i + 1 :]:
                test([(a, b)], 0, "a match between two checks keeps the readout")
        for v in virt:
            for u in virt:
                if u is not v:
                    test([(u, v)], 0, "boundary-boundary matches are ignored")
        par = [n for n in decode(at, call, [a0], 0, answer=lambda G: [])[1].graph.nodes if not real(n) and n not in virt]
        for n in par:
            for v in virt:
                test([(n, v)], 0, "the parity node is ignored")
        hi = [v for v in virt if side[v]]
        lo = [v for v in virt if not side[v]]
        others = [n for n in pick if n != a0]
        if others:
            b0 = others[0]
            test([(a0, hi[0]), (b0, hi[-1])], 0, "crossings add up modulo two")
            test([(a0, hi[0]), (b0, lo[0])], 1, "crossings add up modulo two")
            test([(hi[0], lo[0]), (a0, hi[-1])], 1, "crossings add up modulo two")
        if len(others) > 1:
            test([(a0, hi[0]), (others[0], hi[-1]), (others[1], hi[0])], 1, "crossings add up modulo two")
            test([(a0, others[0]), (others[1], hi[0])], 1, "crossings add up modulo two")
        if len(rn) > 8:
            for k in {7, 8, min(len(rn), 40)} | {min(len(rn), k) for c in literals(ck, 64)[:3] for k in (c + 1, c + 2)}:
                test([(n, hi[i % len(hi)]) for i, n in enumerate(rn[:k])], k % 2, "crossings add up modulo two")
        if smallest(at):
            callp = calls(lab, at.dec, K, "dict", True)
            for p in [0.1] + rates(ck):
                for v in (hi[0], lo[-1]):
                    r, m, ex = decode(at, callp, [a0], 0, p=p, answer=lambda G: [(v, a0)])
                    ck.ob("the rule does not depend on the error rate", r == int(side[v]), lambda: "%s, error rate %g: matching %s with %s turns value 0 into %r" % (who, p, a0, v, r), m.graph.site if m.graph else None)
        for val in (0, 1):
            r, m, ex = decode(at, call, [], val, answer=lambda G: [(virt[0], virt[-1])])
            ck.ob("no hits, no correction", r == val, lambda: "%s: without hits value %d becomes %r" % (who, val, r))
            r, m, ex = decode(at, call, [], val, others=[a0], answer=lambda G: [(a0, hi[0])])
            ck.ob("only hits of the readout's kind are decoded", r == val, lambda: "%s: hits of the other kind change value %d to %r" % (who, val, r))


# ---------------------------------------------------------------- D04 / D05
def hits_sets(ck, g):
    thorough = ck.thorough
    rn = [n for n in g.nodes if real(n)]
    out = [[rn[0]], [rn[-1]]]
    if len(rn) > 1:
        out += [[rn[0], rn[-1]], [rn[-1], rn[0]], [rn[0], rn[1]]]
    if len(rn) > 2:
        out += [rn[:3], rn[-3:][::-1]]
    if len(rn) > 4:
        out += [rn[::2][:5]] + ([rn[::2][:6], rn[:5]] if thorough else [])
    if len(rn) >= 10:
        out += [rn[:9], rn[-10:]]
    if len(rn) >= 13:
        out.append(rn[::-1][:20])
    for c in literals(ck, 64)[:3]:
        if 10 < c < len(rn):
            out += [rn[: c + 1], rn[-c - 1 :]]
    return out


def weight_of(at, ex, m, call):
    """the integer weight retworkx gets for an edge of the matching graph"""
    wf = m.kw.get("weight_fn")
    if wf is None and len(m.pos) > 2:
        wf = m.pos[2]
    if wf is None or (is_const(wf) and cval(wf) is None):
        return lambda w: 1
    x = sym("edgeweight", "num")
    r = at.dec.w.run(lambda ip: ip.freeze(ip.call(wf, [x], {})), call.r.state)
    if r.dead or r.value is None:
        raise Undecided("weight function")

    def f(w):
        return ex.ev.with_env({x: w}, r.value)

    return f


def matching_graph(ck, lab, at, K, nodes, p):
    call = calls(lab, at.dec, K, "dict", p is not None)
    v, m, ex = decode(at, call, nodes, 0, p=p, answer=lambda G: [])
    if m.graph is None:
        raise Undecided("no matching is asked for")
    return call, m, ex


def truthy(ex, t):
    return t is not None and ex.ev.cond(t) is True


def d04(ck):
    lab = DLab(ck)
    for at in each_dec(ck, lab, 2, 3):
        ck.case(at.label, d04_one, ck, lab, at, None)
        ck.case(at.label + " with degeneracy", d04_one, ck, lab, at, 0.1)
        if smallest(at):
            for p in rates(ck):
                if spare(ck):
                    ck.case("%s with error rate %g" % (at.label, p), d04_one, ck, lab, at, p)


def smallest(at):
    return max(at.hw) == 1 and at.T == 1


def d04_one(ck, lab, at, p):
    for K in dec_kinds(lab, ck, at):
        g, ref = at.graph(K)
        virt = at.virtual(K)
        who = "%s graph %s" % (at.label, K)
        for nodes in hits_sets(ck, g):
            call, m, ex = matching_graph(ck, lab, at, K, nodes, p)
            M = m.graph
            mc = m.kw.get("max_cardinality")
            if mc is None and len(m.pos) > 1:
                mc = m.pos[1]
            ck.ob("the matching is perfect", truthy(ex, mc), who + ": max_cardinality is not requested, hits may stay unmatched", M.site)
            ck.ob("matching nodes appear once", not M.dups and M.multigraph is False, lambda: "%s: %s" % (who, M.dups or "parallel edges"), M.site)
            need = set(nodes) | set(virt)
            extra = [n for n in M.nodes if n not in need]
            ck.ob("every hit and every boundary node can be matched", need <= set(M.nodes), lambda: "%s: %s missing from the matching graph of hits %s" % (who, sorted(need - set(M.nodes)), nodes), M.site)
            ck.ob("an even number of nodes", len(M.nodes) % 2 == 0, lambda: "%s: %d nodes for hits %s, a perfect matching is impossible" % (who, len(M.nodes), nodes), M.site)
            ck.ob("at most one extra node, only to make the count even", len(extra) == len(need) % 2, lambda: "%s: extra nodes %s" % (who, extra), M.site)
            for n in extra:
                ck.ob("the extra node is recognisable as no check", n[0] == -1, lambda: "%s: parity node %s looks like a check" % (who, n), M.sites.get(n))
            wf = weight_of(at, ex, m, call)
            want, have = {}, {}
            ok = True
            for k, ws in M.edges.items():
                if len(k) != 2:
                    ok = ck.ob("no self matches", False, "%s: self edge at %s" % (who, tuple(k)), ws[0][1])
                    continue
                a, b = tuple(k)
                have[k] = ws[0]
            ns = list(M.nodes)
            for i, a in enumerate(ns):
                for b in ns[i + 1 :]:
                    k = frozenset((a, b))
                    ra, rb = real(a), real(b)
                    if a in extra or b in extra:
                        if ra or rb:
                            ok &= ck.ob("the extra node only joins boundary nodes", k not in have, lambda: "%s: the parity node can be matched with the hit %s" % (who, a if ra else b), have.get(k, (0, M.site))[1])
                            continue
                        want[k] = 0.0
                    elif not ra and not rb:
                        want[k] = 0.0
                    else:
                        want[k] = expected(g, virt, a, b, p)
                    if not ck.ob("all pairs can be matched", k in have, lambda: "%s: no edge between %s and %s" % (who, a, b), M.site):
                        ok = False
            if not ok:
                continue
            base = None
            for k, w in want.items():
                got = have[k][0]
                if not isinstance(got, (int, float, Fraction)):
                    raise Undecided("edge weight %r" % (got,))
                ck.ob(
                    "edge weight is minus the length of the most likely error" + (", corrected by its degeneracy" if p else ""),
                    abs(float(got) - w) < 1e-9,
                    lambda: "%s: edge %s weighs %s, expected %s%s" % (who, " - ".join(map(str, map(nz, k))), float(got), w, " for p=%s" % p if p else ""),
                    have[k][1],
                )
            eff = {k: wf(have[k][0]) for k in want}
            for k, e in eff.items():
                ck.ob("retworkx gets integer weights", isinstance(e, int) or (isinstance(e, Fraction) and e.denominator == 1), lambda: "%s: weight %r of an edge is not an integer" % (who, e), M.site)
            lv = sorted(set((round(w, 3), eff[k]) for k, w in want.items()))
            for (w1, e1), (w2, e2) in zip(lv, lv[1:]):
                if w2 - w1 > 0.005:
                    ck.ob("rounding keeps the order of the weights", e1 < e2, lambda: "%s: weights %s < %s are handed over as %s, %s" % (who, w1, w2, e1, e2), M.site)
            if lv and lv[0][0] < -0.5:
                big = lv[0]
                for w1, e1 in lv:
                    ck.ob("handed-over weights are proportional", abs(e1 * big[0] - big[1] * w1) <= 2e-2 * abs(big[1]) if p else e1 * big[0] == big[1] * w1, lambda: "%s: weight %s becomes %s while %s becomes %s" % (who, w1, e1, big[0], big[1]), M.site)


def expected(g, virt, a, b, p):
    if not real(a):
        a, b = b, a
    dist, cnt = sssp(g, a)
    if b not in dist:
        raise Undecided("hits are not connected")
    d = dist[b]
    if p is None:
        return -float(d)
    deg = cnt[b] if real(b) else sum(cnt[v] for v in virt if dist.get(v) == d)
    return -(d - math.log(deg) / (math.log1p(-p) - math.log(p)))


def d05(ck):
    """all pairs, in both orders and positions: weight depends only on the pair"""
    lab = DLab(ck)
    # one shape with thousands of shortest chains through time
    for at in each_dec(ck, lab, 2, 3, Ts=(1, 3), Tth=(1, 3), deep=(5, 60)):
        ck.case(at.label, d05_one, ck, lab, at)
        if at.T == 1:
            for K in dec_kinds(lab, ck, at):
                seqs = [[("same", 0.1, "all")], [("other", 0.1, "all")]] + ([[("same", 0.3, "some"), ("other", 0.1, "rev")]] if ck.thorough else [])
                ck.case("%s %s after other readouts" % (at.label, K), history, ck, lab, at, K, seqs, at.label, dec_kinds(lab, ck, at))


def d05_one(ck, lab, at):
    for K in dec_kinds(lab, ck, at):
        g, ref = at.graph(K)
        virt = at.virtual(K)
        rn = [n for n in g.nodes if real(n)]
        lim = 24 if ck.thorough else 8
        sel = rn if len(rn) <= lim else rn[: lim // 2] + rn[-lim // 2 :]
        got = {}
        for p in ((0.03, 0.3) if ck.thorough else (0.1,)) + tuple(rates(ck) if smallest(at) else ()):
            for nodes in (sel, sel[::-1], sel[1::2] + sel[::2]):
                call, m, ex = matching_graph(ck, lab, at, K, nodes, p)
                for k, ws in m.graph.edges.items():
                    k2 = tuple(k)
                    if len(k2) != 2 or not (real(k2[0]) or real(k2[1])):
                        continue
                    if any(not real(n) and n not in virt for n in k2):
                        continue
                    w = ws[0][0]
                    e = expected(g, virt, k2[0], k2[1], p)
                    ck.ob("the degeneracy counts every shortest error, wherever the nodes stand", abs(float(w) - e) < 1e-9, lambda: "%s graph %s: pair %s weighs %s instead of %s (p=%s, hits in order %s)" % (at.label, K, " - ".join(map(str, map(nz, k2))), float(w), e, p, "as numbered" if nodes is sel else "permuted"), ws[0][1])


# ---------------------------------------------------------------- D01
PUBLIC_STATE = ("params", "virtual", "syndrome_graph_keys", "look_up_table", "look_up_table_shots")


def snapshot_state(ex, dec, state):
    """everything a user can read from a decoder, evaluated"""
    out = {}
    for n in PUBLIC_STATE:
        r = dec.w.run(lambda ip: ip.freeze(ip.get_attr(dec.d, n)), state)
        if r.dead:
            raise Definite("attribute %s of the decoder has vanished" % n)
        out[n] = ex.ev(r.value)
    for K in out["syndrome_graph_keys"]:
        r = ex.ev(dec.w.run(lambda ip: ip.get_item(ip.get_attr(dec.d, "S"), const(K)), state).value)
        g = ex.graphs.get(r.addr) if isinstance(r, Ref) else None
        if g is None:
            raise Undecided("syndrome graph %r" % (r,))
        out["S[%s] nodes" % K] = (r.addr, list(g.nodes))
        out["S[%s] edges" % K] = {k: [w for w, s in ws] for k, ws in g.edges.items()}
        t = dec.w.run(lambda ip: ip.get_item(ip.get_attr(dec.d, "node_map"), const(K)), state).value
        nm = ex.live[t.args[0]] if t.op == "ref" and t.args[0] in ex.live else ex.ev(dec.w.run(lambda ip: ip.freeze(t), state).value)
        out["node_map[%s]" % K] = {n: (v.label if isinstance(v, Node) else v) for n, v in nm.items()}
    return out


def copygraph(g):
    h = Graph(g.multigraph, g.site)
    h.nodes, h.pos, h.dups, h.sites = list(g.nodes), dict(g.pos), list(g.dups), dict(g.sites)
    h.edges = {k: list(v) for k, v in g.edges.items()}
    return h


def fresh_exec(at, heap):
    ex = DExec(heap, at.env)
    ex.graphs = {a: copygraph(g) for a, g in at.ex.graphs.items()}
    ex.live = {a: (dict(v) if isinstance(v, dict) else list(v)) for a, v in at.ex.live.items()}
    return ex


def d01(ck):
    lab = DLab(ck)
    for at in each_dec(ck, lab, 2, 3, Ts=(1, 2), Tth=(1, 2, 3)):
        ck.case(at.label, d01_one, ck, lab, at)


def d01_one(ck, lab, at):
    for K in dec_kinds(lab, ck, at):
        g, ref = at.graph(K)
        hi = [v for v, c in crossing(ck, lab, at, K).items() if c == {True}]
        for p in (None, 0.1):
            for nodes in hits_sets(ck, g) + [[]]:
                ck.case("%s hits %s%s" % (K, [nz(n) for n in nodes], "" if p is None else " with degeneracy"), d01_query, ck, lab, at, K, p, nodes, hi)
        ck.case("%s readout string" % K, d01_string, ck, lab, at, K, hi)
        if at.T == 2:
            seqs = [[("same", None, "some")], [("other", None, "all")], [("same", 0.1, "first"), ("same", None, "rev")]] + ([[("other", 0.1, "all")], [("same", 0.1, "all")]] if ck.thorough else [])
            ck.case("%s after other readouts" % K, history, ck, lab, at, K, seqs, at.label, dec_kinds(lab, ck, at))


def d01_query(ck, lab, at, K, p, nodes, hi):
    dec = at.dec
    c1 = calls(lab, dec, K, "dict", p is not None)
    key = ("second", id(c1))
    if key not in lab.hists:
        lab.hists[key] = Call(dec, K, "dict", p is not None, prev=c1)
    c2 = lab.hists[key]
    K2 = "X" if K == "Z" else "Z"
    others = [nodes[0]] if nodes else []
    ex = fresh_exec(at, dec.state.heap)
    before = snapshot_state(ex, dec, dec.state)
    ex.heap = ex.ev.heap = c2.r.state.heap
    env = ex.ev.env
    env[NODES], env[OTHERS], env[VAL] = list(nodes), list(others), 0
    if p is not None:
        env[PERR] = p
    ans = (lambda G: [(nodes[0], hi[0])]) if nodes and hi else (lambda G: [])
    res = []
    for c in (c1, c2):
        m = ex.ev.matching = Matching(c, ans)
        err_raises(c.r, ex.ev, "%s.correct_readout on %d hits" % (at.label, len(nodes)))
        ex.ev.memo.clear()
        ex.run(c.r.effects)
        ex.ev.memo.clear()
        v = ex.ev(c.value)
        e = {}
        if m.graph is not None:
            e = {k: [float(w) for w, s in ws] for k, ws in m.graph.edges.items()}
        res.append((v, e, list(m.graph.nodes) if m.graph is not None else [], m))
        if c is c1:
            arg = ex.ev(dec.w.run(lambda ip: ip.freeze(c1.args["dict"]), c1.r.state).value)
            got = {k: list(v) for k, v in arg.items()}
            ck.ob("the caller's syndromes are left alone", got == {K: list(nodes), K2: list(others)}, lambda: "%s: correct_readout turns the caller's %s hits %s into %s" % (at.label, K, nodes, got.get(K)))
    after = snapshot_state(ex, dec, c2.r.state)
    for n in before:
        ck.ob("decoding changes nothing of the decoder", before[n] == after.get(n), lambda: "%s: correct_readout changes %s of the decoder from %s to %s" % (at.label, n, str(before[n])[:200], str(after.get(n))[:200]))
    (v1, e1, n1, m1), (v2, e2, n2, m2) = res
    ck.ob("repeating the query gives the same answer", v1 == v2, lambda: "%s: decoding the same hits again gives %r after %r" % (at.label, v2, v1))
    ck.ob("repeating the query asks for the same matching", n1 == n2 and e1 == e2, lambda: "%s: the second decoding matches over %s instead of %s" % (at.label, n2, n1), m2.graph.site if m2.graph else None)


def d01_string(ck, lab, at, K, hi):
    dec = at.dec
    for cn in FOR[dec.cname]:
        if K not in kinds(lab, ck, cn, dec.regime, at.hw):
            continue
        f = lab.flat(cn, dec.regime, "dec:%d:readout_%s" % (at.T, K.lower()), at.hw, [("stabilize",)] * (at.T + 1) + [("readout_" + K.lower(),)])
        one = f.newregs(1)[0]
        bits = {Bit((one.addr, 0))}
        c1 = calls(lab, dec, K, "str", False)
        ex = fresh_exec(at, dec.state.heap)
        before = snapshot_state(ex, dec, dec.state)
        ex.heap = ex.ev.heap = c1.r.state.heap
        ex.ev.env[RS] = s_norm(creg_string(f, lambda b: BT if b in bits else BF))
        ex.ev.matching = Matching(c1, lambda G: [])
        err_raises(c1.r, ex.ev, "%s.correct_readout on a string" % at.label)
        ex.run(c1.r.effects)
        after = snapshot_state(ex, dec, c1.r.state)
        for n in before:
            ck.ob("decoding changes nothing of the decoder", before[n] == after.get(n), lambda: "%s: correct_readout of a string changes %s of the decoder from %s to %s" % (at.label, n, str(before[n])[:200], str(after.get(n))[:200]))
        r = parse_call(lab, dec, K)
        ex = fresh_exec(at, dec.state.heap)
        before = snapshot_state(ex, dec, dec.state)
        ex.heap = ex.ev.heap = r.state.heap
        after = snapshot_state(ex, dec, r.state)
        for n in before:
            ck.ob("parsing changes nothing of the decoder", before[n] == after.get(n), lambda: "%s: parse_readout changes %s of the decoder" % (at.label, n))
        return


def parse_call(lab, dec, K):
    key = ("dparse", dec.cname, dec.regime, K)
    if not lab.hists.get(key):
        r = dec.w.run(lambda ip: ip.freeze(ip.call(ip.get_attr(dec.d, "parse_readout"), [RS, const(K)], {})), dec.state)
        if r.dead:
            raise Definite("%s.parse_readout always raises %s" % (dec.cname, exc_name(r.raises[0][1]) if r.raises else "?"), r.raises[0][3] if r.raises else None)
        lab.hists[key] = r
    return lab.hists[key]


# ---------------------------------------------------------------- D06
def d06(ck):
    lab = DLab(ck)
    for at in each_dec(ck, lab, 2, 3, Ts=(1, 2), Tth=(1, 2, 3)):
        for cn in FOR[at.dec.cname]:
            ck.case("%s for %s" % (at.label, cn), d06_one, ck, lab, at, cn)


def d06_one(ck, lab, at, cn):
    dec, rg, hw, T = at.dec, at.dec.regime, at.hw, at.T
    have = kinds(lab, ck, cn, rg, hw)
    for ro in ("readout_z", "readout_x", "lattice_readout_z", "lattice_readout_x"):
        K = ro[-1].upper()
        if K not in have:
            continue
        n = T if ro.startswith("lattice") else T + 1
        f = lab.flat(cn, rg, "dec:%d:%s" % (T, ro), hw, [("stabilize",)] * n + [(ro,)])
        r = parse_call(lab, dec, K)

        def mine(bits):
            ex = fresh_exec(at, r.state.heap)
            ex.ev.env[RS] = s_norm(creg_string(f, bits))
            err_raises(r, ex.ev, "%s.parse_readout on %s of %s" % (at.label, ro, cn))
            v2 = ex.ev(r.value)
            if not (isinstance(v2, tuple) and len(v2) == 2 and isinstance(v2[1], dict)):
                raise Undecided("parse_readout returns %r" % (v2,))
            return v2

        try:
            v1, _ = parse_at(lab, cn, rg, f, K)
            v2 = mine(bitvar)
            hits_of(v1, f), hits_of(v2, f)
        except Undecided:
            # not a closed form in the outcomes: refute on chosen readouts
            for on in samples(f):
                sub = lambda b: BT if b in on else BF
                v1, v2 = parse_at(lab, cn, rg, f, K, sub)[0], mine(sub)
                if v1[0] != v2[0] or hits_of(v1, f) != hits_of(v2, f):
                    raise Definite("%s and %s parse a %s differently: %r, %r" % (at.label, cn, ro, v2, v1))
            raise
        ck.ob("decoder and code parse the same value", v1[0] == v2[0], lambda: "%s: parse_readout of %s gives %r, %s gives %r" % (at.label, ro, v2[0], cn, v1[0]))
        h1, h2 = hits_of(v1, f), hits_of(v2, f)
        for ty in "XZ":
            for c in sorted(set(h1.get(ty, {})) | set(h2.get(ty, {}))):
                a, b = h1.get(ty, {}).get(c), h2.get(ty, {}).get(c)
                ck.ob("decoder and code parse the same hits", a == b, lambda: "%s, %s: the decoder reports %s hit %s when [%s], %s when [%s]" % (at.label, ro, ty, fmt(c), b, cn, a))
        for ty in sorted(have):
            if ty not in at.keys():
                continue
            g, ref = at.graph(ty)
            pos = {tuple(Fraction(y) for y in x) for x in g.nodes}
            for c in h2.get(ty, {}):
                ck.ob("every hit that can be reported is a node of the decoder", c in pos, lambda: "%s: %s hit %s of %d rounds and %s is no node of the syndrome graph" % (at.label, ty, fmt(c), n, ro), g.site)
        if T <= 3:
            d06_forms(ck, lab, at, cn, f, K, ro, v2, h2)


def d06_forms(ck, lab, at, cn, f, K, ro, parsed, hits):
    """the string form decodes exactly what parse_readout reports"""
    dec = at.dec
    g, ref = at.graph(K)
    hi = [v for v, c in crossing(ck, lab, at, K).items() if c == {True}]
    lo = [v for v, c in crossing(ck, lab, at, K).items() if c == {False}]
    allbits = [Bit((r.addr, i)) for r in f.c.order if r.kind == "ClassicalRegister" for i in range(r.size)]
    pick = [set(), {allbits[-1]}, {allbits[0], allbits[len(allbits) // 2]}, set(allbits[::2]), {allbits[len(allbits) // 3], allbits[-1]}]
    for bits in pick:
        sub = {next(iter(next(iter(bitvar(b).m)))): (BT if b in bits else BF) for b in allbits}
        rs = s_norm(creg_string(f, lambda b: BT if b in bits else BF))
        # hits in the order parse_readout lists them
        r = parse_call(lab, dec, K)
        pex = fresh_exec(at, r.state.heap)
        pex.ev.env[RS] = rs
        val, hd = pex.ev(r.value)
        nodes = [hashable(x.v if isinstance(x, G) else x) for x in hd[K] if not isinstance(x, G) or bconst(asB(x.g)) is True]
        val = as_int(val)
        if val is None:
            raise Undecided("parsed value")
        if any(n not in g.pos for n in nodes):
            return
        for p in (None, 0.1):
            for end in (hi, lo):
                ans = (lambda G: [(nodes[0], end[0])]) if nodes and end else (lambda G: [])
                a, ma, _ = decode(at, calls(lab, dec, K, "dict", p is not None), nodes, val, p=p, answer=ans)
                c = calls(lab, dec, K, "str", p is not None)
                ex = fresh_exec(at, c.r.state.heap)
                ex.ev.env[RS] = rs
                if p is not None:
                    ex.ev.env[PERR] = p
                m = ex.ev.matching = Matching(c, ans)
                err_raises(c.r, ex.ev, "%s.correct_readout on a %s string" % (at.label, ro))
                ex.run(c.r.effects)
                ex.ev.memo.clear()
                b = as_int(ex.ev(c.value))
                ck.ob("decoding a string decodes its parsed value and hits", b == as_int(a) and b is not None, lambda: "%s, %s with hits %s: correct_readout gives %r for the string and %r for the parsed hits" % (at.label, ro, nodes, b, a))
                ga = {k: [float(w) for w, s in ws] for k, ws in ma.graph.edges.items()} if ma.graph else None
                gb = {k: [float(w) for w, s in ws] for k, ws in m.graph.edges.items()} if m.graph else None
                ck.ob("decoding a string matches the same graph", ga == gb, lambda: "%s, %s with hits %s: other matching graph for the string than for the parsed hits" % (at.label, ro, nodes), m.graph.site if m.graph else None)


def as_int(v):
    from .p_circ import as_bool

    b = as_bool(v)
    if b is None:
        return None
    c = bconst(b)
    return None if c is None else int(c)


# ---------------------------------------------------------------- D07
def d07(ck):
    lab = DLab(ck)
    for cn, rg in DECS if ck.thorough else [DECS[0], DECS[3], DECS[4]]:
        ck.case("%s %s" % (cn, rg), d07_one, ck, lab, cn, rg)


def d07_one(ck, lab, cn, rg):
    dec = lab.dec(cn, rg)
    RS2 = sym("RS2", "str")
    R = [[sym("RX0", "dict"), sym("RX1", "dict")], [sym("RZ0", "dict"), sym("RZ1", "dict")]]
    OLD = sym("ROLD", "dict")
    P0, P1 = sym("prior0", "num"), sym("prior1", "num")
    from .interp import AnalysisError

    def fill(ip, order):
        for k, i, r in order:
            ip.call(ip.get_attr(dec.d, "set_look_up_table"), [const(k), const(i), r], {})

    full = [("X", 0, R[0][0]), ("Z", 1, R[1][1]), ("X", 1, R[0][1]), ("Z", 0, R[1][0])]
    again = [("Z", 0, OLD), ("X", 1, OLD)] + full
    hist = {
        "filled": lambda ip: fill(ip, full),
        "filled twice": lambda ip: fill(ip, again),
        "reset, then filled": lambda ip: (fill(ip, [("Z", 0, OLD), ("Z", 1, OLD), ("X", 0, OLD), ("X", 1, OLD)]), ip.call(ip.get_attr(dec.d, "reset_look_up_table"), [], {}), fill(ip, full)),
        "reset": lambda ip: (fill(ip, full), ip.call(ip.get_attr(dec.d, "reset_look_up_table"), [], {})),
        "only one value": lambda ip: fill(ip, full[:2]),
        "new": lambda ip: None,
    }
    tables = [
        ({"a": 3, "b": 1}, {"a": 1, "b": 2}),
        ({"a": 3, "b": 97}, {"a": 2, "c": 2}),  # rarer count, higher frequency
        ({"a": 5}, {"b": 5}),
        ({"b": 5}, {"a": 1}),
        ({"b": 4}, {"c": 4}),
        ({"a": 2, "b": 2}, {"a": 1, "c": 1}),  # tie
        ({"a": 0, "b": 4}, {"a": 1, "b": 99}),
        ({"a": 1, "b": 999}, {"a": 2, "b": 998}),
        ({}, {"a": 1}),
        ({}, {}),
        ({"a": 0}, {"a": 3}),  # nothing was ever seen for one value
        ({"a": 2, "b": 1}, {"a": 0, "b": 0}),
        ({"a": 0, "b": 0}, {"a": 0}),
        ({"a": 1, "b": 2}, {"a": 2, "b": 4}),  # tie with other counts
        ({"a": 10**9, "b": 10**9 + 3}, {"a": 10**9 + 1, "b": 10**9 + 1}),
    ]
    old = {"a": 50, "b": 1}
    for name, prep in hist.items():
        for ki, K in enumerate("XZ"):
            def f(ip):
                prep(ip)
                ask = lambda x, k: ip.freeze(ip.call(ip.get_attr(dec.d, "correct_readout_look_up_table"), [x, const(k)], {}))
                v = ask(RS, K)
                # other readouts in between
                ask(RS2, K), ask(RS2, "Z" if K == "X" else "X")
                return mk("tuple", v, ask(RS, K))

            r = dec.w.run(f, dec.state)
            if r.dead:
                raise Definite("%s: look-up decoding (%s table) always raises %s" % (cn, name, exc_name(r.raises[0][1])), r.raises[0][3])

            def g(ip):
                prep(ip)
                pr = lambda: ip.new_list([seg((), TRUE, P0), seg((), TRUE, P1)])
                ask = lambda *a: ip.freeze(ip.call(ip.get_attr(dec.d, "_run_look_up"), [RS, const(K)] + list(a), {}))
                return ip.freeze(mk("tuple", ask(), ask(pr()), ask(), ask(pr())))

            try:
                rp = dec.w.run(g, dec.state)
            except AnalysisError as e:
                rp = None  # the probability helper is private: only its effect on the answer counts
            for t0, t1 in tables:
                u0, u1 = tables[3]
                tab = {"X": [u0, u1], "Z": [u0, u1]}
                tab[K] = [t0, t1]
                env = {R[0][0]: tab["X"][0], R[0][1]: tab["X"][1], R[1][0]: tab["Z"][0], R[1][1]: tab["Z"][1], OLD: old, RS: "a", RS2: "b"}
                if name in ("reset", "new"):
                    t0, t1 = {}, {}
                if name == "only one value":
                    t0, t1 = (t0, {}) if K == "X" else ({}, t1)
                ev = Ev(r.state.heap, dict(env))
                what = "%s, table %s, %s readout seen %s" % (cn, name, K, [("%s of %s" % (t.get("a", 0), sum(t.values()))) for t in (t0, t1)])
                err_raises(r, ev, what + ": correct_readout_look_up_table")
                got, later = ev(r.value)
                like = [Fraction(t.get("a", 0), sum(t.values())) if t.get("a", 0) else Fraction(0) for t in (t0, t1)]
                want = 1 if like[1] > like[0] else 0
                ck.ob("look-up decoding returns the likelier value", got == want and not isinstance(got, (bool, float)), lambda: "%s: the answer is %r, the likelier value is %d" % (what, got, want), None)
                ck.ob("look-up decoding keeps giving the likelier value", later == got, lambda: "%s: the answer is %r at first, %r after other readouts" % (what, got, later), None)
                if rp is None or rp.dead:
                    continue
                for q0, q1 in ((Fraction(1, 2), Fraction(1, 2)), (Fraction(9, 10), Fraction(1, 10)), (Fraction(0), Fraction(1))):
                    ev = Ev(rp.state.heap, dict(env, **{}))
                    ev.env[P0], ev.env[P1] = q0, q1
                    err_raises(rp, ev, what + ": the conditional probability")
                    a, b, a2, b2 = ev(rp.value)
                    for pr, x in (((Fraction(1, 2),) * 2, a), ((q0, q1), b), ((Fraction(1, 2),) * 2, a2), ((q0, q1), b2)):
                        s = like[0] * pr[0] + like[1] * pr[1]
                        w = [l * q / s for l, q in zip(like, pr)] if s else list(pr)
                        ck.ob("conditional probabilities follow Bayes' rule", isinstance(x, (list, tuple)) and len(x) == 2 and all(abs(float(i) - float(j)) < 1e-9 for i, j in zip(x, w)), lambda: "%s, prior %s: %s instead of %s" % (what, [float(z) for z in pr], [float(z) for z in x], [float(z) for z in w]))


# ---------------------------------------------------------------- D08
def d08(ck):
    lab = DLab(ck)
    for at in each_dec(ck, lab, 2, 3, Ts=(1, 2), Tth=(1, 3)):
        ck.case(at.label, d08_one, ck, lab, at)


def d08_one(ck, lab, at):
    for K in dec_kinds(lab, ck, at):
        for p in (None, 0.1):
            d08_key(ck, lab, at, K, p)


def d08_key(ck, lab, at, K, p):
    dec = at.dec
    key = ("d08", dec.cname, dec.regime, K, p is not None)
    if key not in lab.hists:

        def f(ip):
            ns = symlist(ip, NODES)
            kw = {"err_prob": PERR} if p is not None else {}
            g = ip.call(ip.get_attr(dec.d, "_make_error_graph"), [ns, const(K)], kw)
            a = ip.call(ip.get_attr(dec.d, "_run_mwpm"), [g], {"floats": boolc(p is not None)})
            b = ip.call(ip.get_attr(dec.d, "_run_mwpm_graph"), [g], {"floats": boolc(p is not None)})
            return mk("tuple", g, ip.freeze(a), b)

        lab.hists[key] = dec.w.run(f, dec.state)
    r = lab.hists[key]
    if r.dead and r.raises and exc_name(r.raises[0][1]) == "AttributeError":
        raise Undecided("the matching helpers have been renamed")
    if r.dead:
        raise Definite("matching a syndrome graph always raises %s" % (exc_name(r.raises[0][1]) if r.raises else "?"), r.raises[0][3] if r.raises else None)
    g, ref = at.graph(K)
    virt = at.virtual(K)
    cr = crossing(ck, lab, at, K)
    hs = hits_sets(ck, g)
    for nodes in hs if ck.thorough or p is None else hs[1:4]:
        for which in range(4) if ck.thorough or p is None else (0, 2):
            if len(nodes) == 1 and which == 2:
                continue

            def ans(G):
                par = [n for n in G.nodes if not real(n) and n not in virt]
                if which == 0:
                    ps = [(nodes[0], virt[0])] + list(zip(virt[1::2], virt[2::2])) + [(x, virt[-1]) for x in par]
                    ps += list(zip(nodes[1::2], nodes[2::2]))
                elif which == 1:
                    ps = [(virt[-1], n) for n in nodes[:1]] + [(virt[0], virt[1])] + list(zip(nodes[2::2], nodes[1::2]))
                elif which == 2:
                    ps = [(nodes[1], nodes[0])] + list(zip(virt[::2], virt[1::2]))
                else:
                    ps = list(zip(virt[::2], virt[1::2])) + [(x, virt[0]) for x in par]
                return ps

            ex = fresh_exec(at, r.state.heap)
            ex.ev.env[NODES] = list(nodes)
            if p is not None:
                ex.ev.env[PERR] = p
            m = ex.ev.matching = Matching(None, ans)
            err_raises(r, ex.ev, "%s: matching %d hits" % (at.label, len(nodes)))
            ex.run(r.effects)
            ex.ev.memo.clear()
            gg, pairs, out = ex.ev(r.value)
            M, O = ex.graphs.get(gg.addr), ex.graphs.get(out.addr) if isinstance(out, Ref) else None
            if M is None or O is None:
                raise Undecided("matched graph %r" % (out,))
            who = "%s graph %s" % (at.label, K)
            ps = ans(M)
            want = {frozenset(x) for x in ps if real(x[0]) or real(x[1])}
            got = {frozenset(map(hashable, x)) for x in pairs}
            ck.ob("matches are the matching without boundary pairs", got == want and len(pairs) == len(want), lambda: "%s: matching %s gives the matches %s" % (who, ps, pairs), M.site)
            ck.ob("the matched graph holds the same matches", set(O.edges) == want, lambda: "%s: matched graph has edges %s for the matching %s" % (who, [tuple(k) for k in O.edges], ps), O.site)
            ck.ob("the matched graph holds the matched nodes once", not O.dups and set(O.nodes) == {n for k in want for n in k}, lambda: "%s: matched graph has nodes %s for the matching %s" % (who, O.nodes, ps), O.site)
            for k, ws in O.edges.items():
                w = M.edges.get(k)
                ck.ob("matched edges keep their weight", w is not None and len(ws) == 1 and ws[0][0] == w[0][0], lambda: "%s: matched edge %s weighs %s, %s in the matching graph" % (who, tuple(k), ws[0][0], w and w[0][0]), ws[0][1])


# ---------------------------------------------------------------- D09
def optimal(ns, eff, flip):
    """per parity, one maximum weight perfect matching; {parity: (weight, pairs)} of the optimum only"""
    from functools import lru_cache

    n = len(ns)
    full = (1 << n) - 1

    @lru_cache(maxsize=None)
    def go(mask):
        if mask == full:
            return {0: (0, ())}
        i = next(k for k in range(n) if not mask >> k & 1)
        best = {}
        for j in range(i + 1, n):
            if mask >> j & 1:
                continue
            k = frozenset((ns[i], ns[j]))
            if k not in eff:
                continue
            for par, (w, ps) in go(mask | 1 << i | 1 << j).items():
                q = par ^ flip(ns[i], ns[j])
                x = w + eff[k]
                if q not in best or x > best[q][0]:
                    best[q] = (x, ((ns[i], ns[j]),) + ps)
        return best

    res = go(0)
    if not res:
        return {}
    top = max(w for w, ps in res.values())
    return {q: ps for q, (w, ps) in res.items() if w == top}


def d09(ck):
    lab = DLab(ck)
    big = {"2d": [(1, 1), (1, 2), (2, 1), (2, 2)], "column": [(1, 0), (2, 0), (3, 0)], "row": [(0, 1), (0, 2), (0, 3)]}
    for cn, rg in DECS:
        d = ck.case("%s %s" % (cn, rg), lab.dec, cn, rg)
        if d is None:
            continue
        for hw in big[rg]:
            for T in (1, 2) if (ck.thorough or sum(hw) <= 2) else (1,):
                at = ck.case("%s %s %s T=%d" % (cn, rg, hw, T), d.at, hw, T)
                if at is None:
                    continue
                for code in FOR[cn]:
                    ck.case("%s for %s" % (at.label, code), d09_one, ck, lab, at, code)


def d09_one(ck, lab, at, code):
    from itertools import combinations

    rg, hw, T = at.dec.regime, at.hw, at.T
    for K in sorted(kinds(lab, ck, code, rg, hw)):
        if K not in at.keys():
            raise Undecided("no %s graph" % K)
        g, ref = at.graph(K)
        cross = crossing(ck, lab, at, K)
        virt = at.virtual(K)
        fr, ops, mech = mechanisms(ck, lab, code, rg, hw, K)
        who = "%s, %s, %s readout" % (at.label, code, K)
        dist = at.dh if K == "Z" else at.dw
        # distance of the code against the errors this graph sees: shortest undetected logical flip
        phys = code_distance(ops, mech)
        ck.ob("the code distance against these errors is its height (Z) or width (X)", phys == dist, lambda: "%s: %s errors suffice for an undetected logical flip, %d expected" % (who, phys, dist))
        side = {v: next(iter(c)) for v, c in cross.items() if len(c) == 1}
        if len(side) != len(virt):
            raise Undecided("boundary nodes are ambiguous (see D03)")
        hops = [sssp(g, v)[0].get(u) for v in virt if side[v] for u in virt if not side[u]]
        ck.ob("the decoder's boundaries are one code distance apart", min(hops) == dist, lambda: "%s: the boundaries are %s edges apart, the distance is %d" % (who, min(hops), dist), g.site)
        # error mechanisms at a time: (hits, flips logical)
        ms = {}
        for fx, fl, q, e in mech:
            if fx:
                ms.setdefault((fx, fl), (q, e))
        space = [(frozenset((Fraction(t),) + c for c in fx), fl, "%s in round %d" % (fr.show(e), t)) for t in range(T) for (fx, fl), (q, e) in ms.items()]
        tim = [(frozenset(((Fraction(t),) + c, (Fraction(t + 1),) + c)), False, "a wrong outcome of %s in round %d" % (fmt(c), t + 1)) for t in range(T - 1) for c in ops]
        lab_of = {tuple(Fraction(y) for y in n): n for n in g.nodes}
        w = (dist - 1) // 2
        todo = {}
        for k in range(1, w + 1):
            for es in combinations(space + tim, k):
                h, fl = frozenset(), False
                for a, b, nm in es:
                    h, fl = h ^ a, fl ^ b
                todo.setdefault((h, fl), [nm for a, b, nm in es])
        items = sorted(todo.items(), key=lambda x: (len(x[1]), sorted(x[0][0])))
        lim = 4000 if ck.thorough else 160
        if len(items) > lim:
            one = [x for x in items if len(x[1]) == 1]
            rest = [x for x in items if len(x[1]) > 1]
            st = max(1, len(rest) // max(1, lim - len(one)))
            items = one + rest[::st]
        for (h, fl), names in items:
            nodes = [lab_of.get(x) for x in sorted(h)]
            if None in nodes:
                raise Undecided("an error's hit is no node (see D06)")
            for p in (None, 0.05) if len(names) == 1 else (None,):
                if not nodes:
                    ck.ob("errors below half the distance are corrected", not fl, lambda: "%s: %s is undetected and flips the readout" % (who, " and ".join(names)))
                    continue
                call, m, ex = matching_graph(ck, lab, at, K, nodes, p)
                wf = weight_of(at, ex, m, call)
                eff = {k: wf(ws[0][0]) for k, ws in m.graph.edges.items() if len(k) == 2}
                opt = optimal(list(m.graph.nodes), eff, lambda a, b: sum(side.get(x, False) for x in (a, b)) % 2 if real(a) or real(b) else 0)
                if not ck.ob("hits can be matched", bool(opt), lambda: "%s: no perfect matching for the hits of %s" % (who, " and ".join(names)), m.graph.site):
                    continue
                for par, ps in opt.items():
                    v, mm, _ = decode(at, call, nodes, int(fl), p=p, answer=lambda G: list(ps))
                    ck.ob(
                        "errors below half the distance are corrected",
                        as_int(v) == 0,
                        lambda: "%s: after %s the optimal matching %s corrects the readout to %r" % (who, " and ".join(names), [x for x in ps if real(x[0]) or real(x[1])], v),
                        m.graph.site,
                    )


def code_distance(ops, mech):
    """fewest errors that flip the logical and no check: shortest odd cycle over checks + one boundary"""
    adj = {}
    for fx, fl, q, e in mech:
        if not fx:
            if fl:
                return 1
            continue
        a, b = (tuple(fx) + ("boundary",))[:2] if len(fx) <= 2 else (None, None)
        if a is None:
            raise Undecided("an error flips more than two checks of a kind")
        adj.setdefault(a, []).append((b, fl))
        adj.setdefault(b, []).append((a, fl))
    best = None
    for s in list(adj):
        seen = {(s, False): 0}
        q = deque([(s, False)])
        while q:
            x = q.popleft()
            for y, fl in adj[x[0]]:
                z = (y, x[1] ^ fl)
                if z not in seen:
                    seen[z] = seen[x] + 1
                    q.append(z)
        d = seen.get((s, True))
        if d is not None and (best is None or d < best):
            best = d
    return best


# ---------------------------------------------------------------- D10
H2, W2, T2 = sym("h2", "int", 1), sym("w2", "int", 1), sym("T2", "int", 1)
DIMS2 = {"2d": (add(mul(const(2), H2), ONE), add(mul(const(2), W2), ONE)), "column": (add(mul(const(2), H2), ONE), ONE), "row": (ONE, add(mul(const(2), W2), ONE))}


class DecIn(Dec):
    """a decoder built in a given state, from given parameters"""

    def __init__(self, world, cname, regime, state, mkparams):
        self.w, self.cname, self.regime = world, cname, regime
        self.r = world.new(cname, lambda ip: ([mkparams(ip)], {}), state)
        if self.r.dead:
            raise Definite("%s cannot be built next to another decoder: always raises %s" % (cname, exc_name(self.r.raises[0][1]) if self.r.raises else "?"), self.r.raises[0][3] if self.r.raises else None)
        self.d, self.state = self.r.value, self.r.state
        self.at_, self.frozen = {}, {}


def params_of(cname, regime, dims, t):
    def f(ip):
        items = [("d", mk("tuple", *dims)), ("T", t)]
        if cname == "RepetitionDecoder":
            items.append(("phase-flip-protected", boolc(regime == "row")))
        return mkdict(ip, items)

    return f


def d10(ck):
    lab = DLab(ck)
    for cn, cn2 in (("RotatedDecoder", "RepetitionDecoder"), ("RepetitionDecoder", "RotatedDecoder")):
        ck.case("%s and %s from one dictionary" % (cn, cn2), d10_shared, ck, lab, cn, cn2)
    for cn, rg in DECS:
        ck.case("%s %s from one dictionary" % (cn, rg), d10_same, ck, lab, cn, rg)
        for cn2, rg2 in DECS if ck.thorough else [(cn, rg)] + [x for x in DECS if x[0] != cn][:1] + [x for x in DECS if x[0] == cn and x[1] != rg][:1]:
            ck.case("%s %s next to %s %s" % (cn, rg, cn2, rg2), d10_pair, ck, lab, cn, rg, cn2, rg2)


def grid(rg, n=1):
    return (n, n + 1) if rg == "2d" else (n, 0) if rg == "column" else (0, n)


def strip(snap):
    return {k: v[1] if k.endswith("nodes") else v for k, v in snap.items()}


def d10_compare(ck, what, before, after, site=None):
    for n in before:
        ck.ob("another decoder changes nothing of this one", before[n] == after.get(n), lambda: "%s changes %s of another decoder from %s to %s" % (what, n, str(before[n])[:200], str(after.get(n))[:200]), site)


def d10_pair(ck, lab, cn, rg, cn2, rg2):
    at = lab.dec(cn, rg).at(grid(rg), 2)
    a = at.dec
    b = DecIn(a.w, cn2, rg2, a.state, params_of(cn2, rg2, DIMS2[rg2], T2))
    alone = lab.dec(cn2, rg2).at(grid(rg2, 2), 1)
    ex = fresh_exec(at, a.state.heap)
    before = snapshot_state(ex, a, a.state)
    ex.ev.env.update({H2: 2, W2: 3 if rg2 == "2d" else 2, T2: 1})
    d10_run(ex, b.r)
    site = b.r.effects[0].site if b.r.effects else None
    what = "building a %s (%s) next to a %s (%s)" % (cn2, rg2, cn, rg)
    d10_compare(ck, what, before, snapshot_state(ex, a, b.state), site)
    # the second decoder is the one it would be on its own
    sb = strip(snapshot_state(ex, b, b.state))
    sa = strip(snapshot_state(alone.ex, alone.dec, alone.dec.state))
    for n in sa:
        ck.ob("a decoder is what it is on its own", sa[n] == sb.get(n), lambda: "%s: %s of the new one is %s instead of %s" % (what, n, str(sb.get(n))[:200], str(sa[n])[:200]), site)
    d10_ops(ck, lab, ex, a, b, before, cn2)


def d10_run(ex, r):
    ex.heap = ex.ev.heap = r.state.heap
    ex.ev.memo.clear()
    err_raises(r, ex.ev, "an operation on the other decoder")
    ex.run(r.effects)
    ex.ev.memo.clear()


def d10_ops(ck, lab, ex, a, b, before, cn2):
    """every operation on the second decoder leaves the first one alone"""
    T_, K = sym("TABLE", "dict"), None
    ex.ev.env[T_] = {"0": 3}
    st = b.state
    for key, f in (
        ("set_look_up_table", lambda ip: [ip.call(ip.get_attr(b.d, "set_look_up_table"), [const(k), const(i), T_], {}) for k in "XZ" for i in (0, 1)]),
        ("reset_look_up_table", lambda ip: ip.call(ip.get_attr(b.d, "reset_look_up_table"), [], {})),
        ("set_look_up_table after a reset", lambda ip: ip.call(ip.get_attr(b.d, "set_look_up_table"), [const("X"), const(1), T_], {})),
    ):
        r = a.w.run(f, st)
        if r.dead:
            raise Definite("%s always raises" % key, r.raises[0][3] if r.raises else None)
        st = r.state
        d10_run(ex, r)
        d10_compare(ck, "%s on a %s" % (key, cn2), before, snapshot_state(ex, a, st), r.effects[0].site if r.effects else None)
    for K in [k.args[0] for k in [const(x) for x in "XZ"]]:
        if K not in ex.ev(a.w.run(lambda ip: ip.freeze(ip.get_attr(b.d, "syndrome_graph_keys")), b.state).value):
            continue
        for p in (False, True):
            dec = DecView(b)
            c = Call(dec, K, "dict", p)
            refs = a.w.run(lambda ip: ip.get_item(ip.get_attr(b.d, "S"), const(K)), b.state).value
            g = ex.graphs[ex.ev(refs).addr]
            nodes = some_nodes(g, 1)[:2] if p else list(g.nodes)[:1]
            ex.heap = ex.ev.heap = c.r.state.heap
            ex.ev.env[NODES], ex.ev.env[OTHERS], ex.ev.env[VAL], ex.ev.env[PERR] = [n for n in nodes if real(n)], [], 0, 0.1
            ex.ev.matching = Matching(c, lambda G: [])
            ex.ev.memo.clear()
            err_raises(c.r, ex.ev, "correct_readout of the other decoder")
            ex.run(c.r.effects)
            ex.ev.memo.clear()
            d10_compare(ck, "correct_readout of a %s" % cn2, before, snapshot_state(ex, a, c.r.state))


class DecView:
    def __init__(self, b):
        self.w, self.d, self.state, self.cname, self.regime = b.w, b.d, b.state, b.cname, b.regime


def d10_shared(ck, lab, cn, cn2):
    """decoders of two types built from one dictionary, which either may complete"""
    w, rg = lab.w, "column"
    w.ip.live_dicts = True
    r0 = w.run(lambda ip: mkdict(ip, [("d", mk("tuple", *REGIMES[rg])), ("T", TT)]))
    p = r0.value
    a = DecIn(w, cn, rg, r0.state, lambda ip: p)
    at = DecAt(a, grid(rg), 2)
    ex = fresh_exec(at, a.state.heap)
    before = snapshot_state(ex, a, a.state)
    b = DecIn(w, cn2, rg, a.state, lambda ip: p)
    d10_run(ex, b.r)
    what = "building a %s from the parameters of a %s" % (cn2, cn)
    d10_compare(ck, what, before, snapshot_state(ex, a, b.state), b.r.effects[0].site if b.r.effects else None)
    d10_ops(ck, lab, ex, a, b, before, cn2)


def d10_same(ck, lab, cn, rg):
    """two decoders built from one dictionary are the same decoder twice"""
    w = lab.w
    w.ip.live_dicts = True
    r0 = w.run(params_of(cn, rg, REGIMES[rg], TT))
    p = r0.value
    a = DecIn(w, cn, rg, r0.state, lambda ip: p)
    at = DecAt(a, grid(rg), 2)
    ex = fresh_exec(at, a.state.heap)
    before = snapshot_state(ex, a, a.state)
    b = DecIn(w, cn, rg, a.state, lambda ip: p)
    d10_run(ex, b.r)
    what = "building a second %s (%s) from the same parameters" % (cn, rg)
    d10_compare(ck, what, before, snapshot_state(ex, a, b.state), b.r.effects[0].site if b.r.effects else None)
    sa, sb = strip(before), strip(snapshot_state(ex, b, b.state))
    for n in sa:
        ck.ob("equal parameters give equal decoders", sa[n] == sb.get(n), lambda: "%s: %s of the second is %s instead of %s" % (what, n, str(sb.get(n))[:200], str(sa[n])[:200]))
    d10_ops(ck, lab, ex, a, b, before, cn)
