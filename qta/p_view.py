"""D11, C19: drawings and textual views, decided on summaries.

Plotting is external: its calls are recorded while the effects of a drawing are
carried out on graphs the obligation chooses."""
import re

from .p_dec import *
from .scene import flat_effects
from .p_reg import Scene, make_reg, make_circuit, std_params, types


class Ext:
    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def __repr__(self):
        return "<%s>" % self.kind


class VEv(DEv):
    def o_call(self, t):
        if t in self.env:
            return self.env[t]
        n = t.args[0]
        kw = {a.args[0]: a.args[1] for a in t.args[1:] if isinstance(a, Term) and a.op == "kw"}
        pos = [a for a in t.args[1:] if not (isinstance(a, Term) and a.op == "kw")]
        if isinstance(n, str) and n.startswith("PyGraph.") and pos and not kw:
            r = self.ev(pos[0])
            g = self.ex.graphs.get(getattr(r, "addr", None))
            if g is not None and len(pos) == 1:
                es = [(k, w) for k, ws in g.edges.items() for w, _ in ws]
                ends = lambda k: tuple(sorted((g.pos[x] for x in k))) if len(k) == 2 else (g.pos[next(iter(k))],) * 2
                if n in ("PyGraph.edge_list",):
                    return [ends(k) for k, w in es]
                if n in ("PyGraph.weighted_edge_list",):
                    return [ends(k) + (w,) for k, w in es]
                if n in ("PyGraph.edges",):
                    return [w for k, w in es]
                if n in ("PyGraph.node_indexes", "PyGraph.node_indices"):
                    return list(range(len(g.nodes)))
                if n == "PyGraph.nodes":
                    return list(g.nodes)
        if n in ("numpy.array", "numpy.asarray", "list", "tuple") and len(pos) == 1:
            v = self.ev(pos[0])
            if isinstance(v, (list, tuple)):
                return list(v)
        if isinstance(n, str) and n.split(".")[0] in ("matplotlib", "mpl_toolkits"):
            raise Undecided("value of a plotting call that was not carried out")
        if isinstance(n, str) and n.startswith("numpy.") and len(pos) == 1 and not kw and n[6:] in ("mean", "average", "sum"):
            v = self.ev(pos[0])
            if isinstance(v, list) and v and all(isinstance(x, (int, Fraction, float)) for x in v):
                return sum(v) if n == "numpy.sum" else Fraction(sum(v)) / len(v)
        return DEv.o_call(self, t)

    def o_attr(self, t):
        if t.args[0].op != "ref":
            b = self.ev(t.args[0])
            if isinstance(b, Ext):
                return Ext("mpl")
        return DEv.o_attr(self, t)

    def to_s(self, v):
        if isinstance(v, float):
            return list(str(v))
        if isinstance(v, (tuple, list)):
            v = [float(x) if isinstance(x, Fraction) and x.denominator != 1 else int(x) if isinstance(x, Fraction) else x for x in v]
            return list(str(tuple(v)))
        return DEv.to_s(self, v)


class VExec(DExec):
    """carries out a drawing and records what is drawn"""

    def __init__(self, world, state, env):
        DExec.__init__(self, state.heap, env)
        self.ev = VEv(state.heap, env, None)
        self.ev.ex = self
        self.w, self.state = world, state
        self.calls = []
        self.fresh = 0

    def x_mut(self, e):
        if e.a.get("obj") == "live":
            return DExec.x_mut(self, e)
        self.other.append(e)

    def x_call(self, e):
        n = e.name
        if n.startswith("PyGraph."):
            return
        recv = None
        if e.recv is not None:
            try:
                recv = self.ev(e.recv)
            except Undecided:
                unknown_callee(e)
                return
        mod = n.split(".")[0]
        if n.startswith(".") and isinstance(recv, Ext) or mod in ("matplotlib", "mpl_toolkits") or n.endswith("visualization.mpl_draw") or n.split(".")[-1] in ("mpl_draw", "graphviz_draw") and mod in ("retworkx", "rustworkx"):
            short = n.split(".")[-1]
            a = [self.val(x) for x in e.args]
            k = {x: self.val(y) for x, y in dict(e.kwargs).items()}
            self.calls.append((short, recv, a, k, e.site, n))
            self.ev.env[e.result] = self.answer(short, recv, a, k)
            self.ev.memo.clear()
            return
        unknown_callee(e)

    def val(self, t):
        if t.op == "ref" and t.args[0] not in self.graphs and t.args[0] not in self.live:
            t = self.w.run(lambda ip: ip.freeze(t), self.state).value
        try:
            return self.ev(t)
        except Undecided as e:
            return Opaque(t, e)

    def answer(self, n, recv, a, k):
        self.fresh += 1
        if n == "figure":
            return Ext("fig", axes=[])
        if n == "subplots" and recv is None:
            f = Ext("fig", axes=[])
            x = Ext("axes", fig=f, on=True)
            return (f, x)
        if n in ("subplots", "add_subplot", "gca", "add_axes") and isinstance(recv, Ext) and recv.kind == "fig":
            if n == "add_axes" and a and isinstance(a[0], Ext) and a[0].kind == "axes":
                if a[0].d["fig"] is not recv:
                    raise Definite("axes of one figure are added to another")
                a[0].d["on"] = True
                return a[0]
            return Ext("axes", fig=recv, on=True)
        if n == "Axes3D":
            return Ext("axes", fig=a[0] if a else None, on=k.get("auto_add_to_figure") is not False)
        if n in ("gca", "axes", "subplot"):
            return Ext("axes", fig=None, on=True)
        return Ext("mpl")


class Opaque:
    """an argument the analysis cannot evaluate; matters only if an obligation needs it"""

    def __init__(self, t, why):
        self.t, self.why = t, why


def need(v):
    if isinstance(v, Opaque):
        raise Undecided("argument of a drawing: %s" % v.why)
    if isinstance(v, (list, tuple)):
        for x in v:
            need(x)
    return v


def num_ok(v):
    return isinstance(v, (int, Fraction, float)) and not isinstance(v, bool)


def numbers(v):
    """the numbers of a label"""
    if num_ok(v):
        return [float(v)]
    if isinstance(v, (tuple, list)):
        return [float(x) for x in v] if all(map(num_ok, v)) else None
    if isinstance(v, str):
        return [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", v)]
    return None


def pts(args, dim):
    """points of a plotting call given by coordinates"""
    c = [need(x) for x in args[:dim]]
    if len(c) < dim:
        raise Undecided("points of a drawing")
    c = [list(x) if isinstance(x, (list, tuple)) else [x] for x in c]
    n = max(map(len, c))
    c = [x * n if len(x) == 1 else x for x in c]
    if any(len(x) != n for x in c) or not all(num_ok(y) for x in c for y in x):
        raise Undecided("points of a drawing")
    return [tuple(float(x[i]) for x in c) for i in range(n)]


# ---------------------------------------------------------------- D11
SIZE, DPI, FONT = sym("NODESIZE", "num"), sym("DPI", "num"), sym("FONTSIZE", "num")


def d11(ck):
    lab = DLab(ck)
    for at in each_dec(ck, lab, 1, 2, Ts=(1, 2, 3), Tth=(1, 2, 3, 5)):
        ck.case(at.label, d11_one, ck, lab, at)


def graphs_for(at, K):
    """graphs to draw: the syndrome graph, matching graphs (other order, real weights, the unpaired node), few or no nodes"""
    g = at.graph(K)[0]
    out = [("syndrome graph %s" % K, g)]
    ns = list(g.nodes)
    rn = [n for n in ns if real(n)]
    m = Graph(False, None)
    for n in rn[::-2] + at.virtual(K) + [(-1, -1, -1)]:
        if n not in m.pos:
            m.add(n, None)
    i = 0
    for a in m.nodes:
        for b in m.nodes:
            if m.pos[a] < m.pos[b]:
                i += 1
                m.edges[frozenset((a, b))] = [(-(0.25 * i + 0.0625), None) if i % 3 else (0, None)]
    out.append(("a matching graph %s" % K, m))
    one = Graph(False, None)
    one.add(rn[0], None)
    out.append(("a graph of one node", one))
    e = Graph(False, None)
    out.append(("an empty graph", e))
    return out


def d11_one(ck, lab, at):
    dec = at.dec
    if "drawref" not in dec.frozen:
        dec.frozen["drawref"] = dec.w.run(lambda ip: ip.models.k_PyGraph([], {"multigraph": FALSE}), dec.state)
    pre = dec.frozen["drawref"]
    for K in dec_kinds(lab, ck, at):
        for what, g in graphs_for(at, K):
            for meth in ("draw", "draw3D"):
                for opts in ((), ("show",), ("hide",), ("sizes",)) if meth == "draw" and at.T == 1 else ((), ("angle",)) if meth == "draw3D" else ((),):
                    ck.case("%s %s%s" % (meth, what, " with " + opts[0] if opts else ""), d11_draw, ck, at, pre, meth, what, g, opts)


def d11_draw(ck, at, pre, meth, what, g, opts):
    dec = at.dec
    kw = {"show": {"show": TRUE}, "hide": {"show": FALSE}, "sizes": {"dpi": DPI, "node_size": SIZE, "font_size": FONT}, "angle": {"angle": mk("tuple", const(30), const(40))}}.get(opts[0] if opts else None, {})
    key = ("drawing", meth, opts)
    if key not in dec.frozen:
        dec.frozen[key] = dec.w.run(lambda ip: ip.call(ip.get_attr(dec.d, meth), [pre.value], kw), pre.state)
    r = dec.frozen[key]
    who = "%s: %s(%s)" % (at.label, meth, what)
    if r.dead:
        raise Definite("%s always raises %s" % (who, exc_name(r.raises[0][1]) if r.raises else "?"), r.raises[0][3] if r.raises else None)
    ex = VExec(dec.w, r.state, dict(at.env))
    ex.graphs = {a: copygraph(x) for a, x in at.ex.graphs.items()}
    ex.live = {a: (dict(v) if isinstance(v, dict) else list(v)) for a, v in at.ex.live.items()}
    me = pre.value.args[0]
    ex.graphs[me] = copygraph(g)
    ex.ev.env.update({SIZE: 123, DPI: 77, FONT: 5})
    before = {a: (list(x.nodes), {k: list(v) for k, v in x.edges.items()}) for a, x in ex.graphs.items()}
    lives = {a: (dict(v) if isinstance(v, dict) else list(v)) for a, v in ex.live.items()}
    err_raises(r, ex.ev, who)
    ex.run(r.effects)
    ex.ev.memo.clear()
    # nothing is changed
    for a, (ns, es) in before.items():
        x = ex.graphs[a]
        ck.ob("a drawing changes no graph", x.nodes == ns and {k: list(v) for k, v in x.edges.items()} == es, "%s changes the graph" % who, x.site)
    for a, v in lives.items():
        ck.ob("a drawing does not change the decoder", ex.live[a] == v, "%s changes a table of the decoder" % who)
    for e in ex.other:
        a = e.a.get("addr")
        ck.ob("a drawing does not change the decoder", not (isinstance(a, int) and a in pre.state.heap), lambda: "%s changes %s of the decoder" % (who, show(e.a.get("key")) if isinstance(e.a.get("key"), Term) else e.a.get("key")), e.site)
    flat = meth == "draw" and at.T == 1
    val = ex.ev(dec.w.run(lambda ip: ip.freeze(r.value), r.state).value) if r.value is not None else None
    names = [c[0] for c in ex.calls]
    if flat:
        ok = isinstance(val, tuple) and len(val) == 2 and isinstance(val[0], Ext) and val[0].kind == "fig" and isinstance(val[1], Ext) and val[1].kind == "axes" and val[1].d["fig"] is val[0]
        if not ck.ob("a drawing in the plane returns its figure and axes", ok, lambda: "%s returns %r" % (who, val)):
            return
        shut = [c for c in ex.calls if c[0] == "close"]
        if opts == ("hide",):
            ck.ob("a drawing that is not to be shown is closed", any(c[2] and (c[2][0] is val[0] or c[2][0] == "all") for c in shut) and "show" not in names, "%s leaves the figure open to be shown" % who)
        else:
            ck.ob("a drawing to be shown is not closed", not shut, "%s closes the figure" % who)
    else:
        ck.ob("a drawing in space is shown", names.count("show") == 1, "%s calls show %d times" % (who, names.count("show")))
        if opts == ("angle",):
            v = [c for c in ex.calls if c[0] == "view_init"]
            ang = [need(list(c[2]) + [c[3][x] for x in ("elev", "azim") if x in c[3]]) for c in v]
            ck.ob("the given angle of view is used", len(ang) == 1 and list(map(float, ang[0])) == [40.0, 30.0], lambda: "%s: angle (30, 40) is passed on as elevation, azimuth %s" % (who, ang), v[0][4] if v else None)
    md = [c for c in ex.calls if c[0] == "mpl_draw"]
    if md:
        scene = by_mpl(ck, dec, ex, md, me, who, val, opts, g)
    else:
        scene = by_hand(ck, ex, who, 2 if flat else 3, val)
    if scene is not None:
        check_scene(ck, at, g, scene, who, 2 if flat else 3)


def by_mpl(ck, dec, ex, md, me, who, val, opts, g):
    st = md[0][4]
    if not ck.ob("the graph is drawn once", len(md) == 1, lambda: "%s draws %d graphs" % (who, len(md)), st):
        return None
    n, _, a, k, st, _ = md[0]
    gr = need(a[0] if a else k.get("graph"))
    if not ck.ob("the given graph is drawn", isinstance(gr, Ref) and gr.addr == me, "%s draws another graph" % who, st):
        return None
    ax = a[2] if len(a) > 2 else k.get("ax")
    ck.ob("the graph is drawn on the returned axes", isinstance(val, tuple) and ax is val[1], lambda: "%s draws on %r" % (who, ax), st)
    ck.ob("every node and edge is drawn", not any(k.get(x) is not None for x in ("node_list", "edge_list")), "%s draws selected nodes or edges only" % who, st)
    ck.ob("nodes are labelled", k.get("with_labels") is True and k.get("labels") is not None, "%s does not label the nodes" % who, st)
    ck.ob("edges are labelled", k.get("edge_labels") is not None, "%s does not label the edges" % who, st)
    if opts == ("sizes",):
        fs = [c for c in ex.calls if c[0] in ("figure", "subplots") and "dpi" in c[3]]
        ck.ob("given sizes are used", len(fs) == 1 and fs[0][3]["dpi"] == 77 and k.get("node_size") == 123 and k.get("font_size") == 5, lambda: "%s: dpi 77, node size 123, font size 5 become %s, %s, %s" % (who, [f[3]["dpi"] for f in fs], k.get("node_size"), k.get("font_size")), st)
    pos = need(a[1] if len(a) > 1 else k.get("pos"))
    if not isinstance(pos, dict):
        raise Undecided("positions of a drawing")
    lab = labeller(dec, ex, k.get("labels"))
    el = labeller(dec, ex, k.get("edge_labels"))
    sc = {"nodes": [], "labels": [], "edges": [], "weights": []}
    for i, nd in enumerate(g.nodes):
        if not ck.ob("every node has a place", i in pos, lambda: "%s has no position for node %s" % (who, nd), st):
            return None
        p = need(list(pos[i]))
        p = tuple(map(float, p))
        sc["nodes"].append(p)
        sc["labels"].append((p, lab(nd), st))
    for kk, ws in g.edges.items():
        e = [tuple(map(float, need(list(pos[g.pos[x]])))) for x in kk]
        for w, _ in ws:
            sc["edges"].append((e[0], e[-1], st))
            sc["weights"].append((tuple((x + y) / 2 for x, y in zip(e[0], e[-1])), el(w), st))
    return sc


def labeller(dec, ex, f):
    if isinstance(f, Opaque):
        f = f.t
    x = sym("LABELLED", "any")

    def run(v):
        if f is None:
            return None
        key = ("label", f)
        if key not in dec.frozen:
            r = dec.w.run(lambda ip: ip.freeze(ip.call(f if isinstance(f, Term) else mk("ext", f), [x], {})), ex.state)
            dec.frozen[key] = (r, r.value)
        r, t = dec.frozen[key]
        if r.dead:
            raise Definite("the label function always raises", r.raises[0][3] if r.raises else None)
        ev = VEv(r.state.heap, {x: v}, None)
        ev.ex = ex
        return ev(t)

    return run


def by_hand(ck, ex, who, dim, val):
    sc = {"nodes": [], "labels": [], "edges": [], "weights": []}
    on = set()
    texts = []
    for n, recv, a, k, st, full in ex.calls:
        if n not in ("scatter", "scatter3D", "text", "text3D", "text2D", "plot", "plot3D", "annotate"):
            continue
        if not (isinstance(recv, Ext) and recv.kind == "axes"):
            if full.startswith("matplotlib.pyplot."):
                recv = None
            else:
                raise Undecided("a drawing on %r" % (recv,))
        on.add(id(recv))
        if isinstance(recv, Ext):
            ck.ob("the axes belong to a figure", recv.d["on"], "%s draws on axes that are in no figure" % who, st)
        a = list(a) + [k[x] for x in ("x", "y", "z", "xs", "ys", "zs", "s")[len(a) :] if x in k and n not in ("scatter", "scatter3D")]
        if n in ("scatter", "scatter3D"):
            a = a + [k[x] for x in ("xs", "ys", "zs") if x in k]
            sc["nodes"] += pts(a, dim)
        elif n in ("plot", "plot3D"):
            p = pts(a, dim)
            if len(p) != 2:
                raise Undecided("a line of %d points" % len(p))
            sc["edges"].append((p[0], p[1], st))
        elif n == "text" or n == "text3D":
            p = pts(a, dim)[0]
            texts.append((p, need(a[dim]) if len(a) > dim else None, st))
        else:
            raise Undecided("%s in a drawing" % n)
    ck.ob("one drawing has one pair of axes", len(on) <= 1, "%s draws on several axes" % who)
    for p, s, st in texts:
        x = numbers(s)
        (sc["labels"] if x is not None and len(x) > 1 else sc["weights"]).append((p, s, st))
    return sc


def check_scene(ck, at, g, sc, who, dim):
    n = len(g.nodes)
    if not ck.ob("every node is drawn once", len(sc["nodes"]) == n and len(set(sc["nodes"])) == n, lambda: "%s draws %d points at %d places for %d nodes" % (who, len(sc["nodes"]), len(set(sc["nodes"])), n)):
        return
    where = {}
    for p, s, st in sc["labels"]:
        x = numbers(s)
        hit = [m for m in g.nodes if x is not None and [float(y) for y in m] == x]
        if not ck.ob("a node is labelled with its coordinates", len(hit) == 1 and hit[0] not in where, lambda: "%s: label %r" % (who, s), st):
            return
        where[hit[0]] = p
    ck.ob("every node is labelled once", len(where) == n, lambda: "%s labels %d of %d nodes" % (who, len(where), n))
    if len(where) < n:
        return
    pt = set(sc["nodes"])
    st = sc["labels"][0][2] if sc["labels"] else None
    for m, p in where.items():
        ck.ob("a label stands at its node", p in pt, lambda: "%s: the label of %s is at %s where no node is drawn" % (who, m, p), st)
    # columns from left to right, rows from top to bottom, rounds upwards
    order(ck, who, "columns run from left to right", [(m[2], p[0]) for m, p in where.items()], 1, st)
    order(ck, who, "rows run from top to bottom", [(m[1], p[1]) for m, p in where.items()], -1, st)
    if dim == 3:
        order(ck, who, "rounds run along the third axis", [(m[0], p[2]) for m, p in where.items() if real(m)], 1, st)
        lo, hi = where_range(at, where)
        for m, p in where.items():
            if not real(m):
                ck.ob("nodes outside the code stand between the first and the last round", lo <= p[2] <= hi, lambda: "%s: %s is drawn at height %s" % (who, m, p[2]), st)
    want = sorted(tuple(sorted(where[x] for x in k)) for k, ws in g.edges.items() for _ in ws)
    got = sorted(tuple(sorted(e[:2])) for e in sc["edges"])
    ck.ob("every edge is drawn between its nodes", want == got, lambda: "%s draws the lines %s instead of %s" % (who, [x for x in got if x not in want][:2], [x for x in want if x not in got][:2]), sc["edges"][0][2] if sc["edges"] else st)
    if want != got:
        return
    left = [(tuple(sum(where[x][i] for x in k) / len(k) for i in range(dim)), float(w), k) for k, ws in g.edges.items() for w, _ in ws]
    ck.ob("every edge is labelled once", len(sc["weights"]) == len(left), lambda: "%s has %d edge labels for %d edges" % (who, len(sc["weights"]), len(left)))
    for p, s, st in sc["weights"]:
        x = numbers(s)
        if x is None or len(x) != 1:
            ck.ob("an edge is labelled with its weight", False, "%s: edge label %r" % (who, s), st)
            return
        best = [c for c in left if max(abs(u - v) for u, v in zip(c[0], p)) < 1e-9]
        if not best:
            ck.ob("an edge label stands at the middle of its edge", False, "%s: label %r at %s" % (who, s, p), st)
            return
        fit = [c for c in best if abs(c[1] - x[0]) <= 0.0051]
        if not ck.ob("an edge is labelled with its weight", bool(fit), lambda: "%s: the edge %s of weight %s is labelled %r" % (who, " - ".join(map(str, map(nz, best[0][2]))), best[0][1], s), st):
            return
        left.remove(fit[0])


def where_range(at, where):
    # the height of a round follows from the drawn rounds; a lone round stands for itself
    h = {float(m[0]): p[2] for m, p in where.items() if real(m)}
    if len(h) > 1:
        a, b = sorted(h)[0], sorted(h)[-1]
        s = (h[b] - h[a]) / (b - a)
        z0 = h[a] - a * s
    elif h:
        (a, z), = h.items()
        s, z0 = 1.0, z - a
    else:
        s, z0 = 1.0, 0.0
    return z0 - 1e-9, z0 + s * (at.T - 1) + 1e-9


def order(ck, who, rule, pairs, sign, st):
    d = {}
    for a, b in pairs:
        d.setdefault(float(a), set()).add(round(b, 9))
    bad = [a for a, s in d.items() if len(s) > 1]
    ks = sorted(d)
    bad += [b for a, b in zip(ks, ks[1:]) if not bad and not sign * (next(iter(d[b])) - next(iter(d[a]))) > 0]
    ck.ob(rule, not bad, lambda: "%s: %s" % (who, {k: sorted(v) for k, v in sorted(d.items())}), st)


# ---------------------------------------------------------------- C19
def c19(ck):
    for a in sorted(types(ck)):
        ck.case("views of %s" % a, c19_one, ck, a)


def c19_one(ck, a):
    s = Scene(ck.world)
    reg = make_reg(s, [a], [std_params(a)])
    tc = make_circuit(s, reg)
    circ = s.get(reg, "circ")
    q = s.get(reg, 0)
    for step in (None, "x"):
        if step:
            s.call(step, q, step, [], {})
        for who, o in (("qubit", q), ("circuit", tc)):
            for what, kw in (("text", None), ("drawing", {}), ("drawing with options", {"output": sym("OUTPUT", "str"), "fold": sym("FOLD", "int")})):
                w, st = ck.world, s.state
                if kw is None:
                    f = lambda ip: ip.freeze(ip.models.str_(o)) if hasattr(ip.models, "str_") else ip.freeze(ip.call(ip.get_attr(o, "__str__"), [], {}))
                    g = lambda ip: ip.freeze(ip.call(ip.get_attr(circ, "__str__"), [], {}))
                else:
                    f = lambda ip: ip.freeze(ip.call(ip.get_attr(o, "draw"), [], kw))
                    g = lambda ip: ip.freeze(ip.call(ip.get_attr(circ, "draw"), [], kw))
                r, want = w.run(f, st), w.run(g, st)
                nm = "%s of the %s %s" % (what, a, who)
                if not ck.ob("the view can be made", not r.dead and not r.raises, "%s raises" % nm, r.raises[0][3] if r.raises else None):
                    continue
                ck.ob("the view is the circuit's own", r.value == want.value, lambda: "%s is %s instead of %s" % (nm, show(r.value)[:120], show(want.value)[:120]))
                bad = [e for e in flat_effects(r.effects) if e.kind in ("gate", "measure", "addreg", "newreg", "newcirc", "mut", "reset", "barrier")]
                ck.ob("the view changes nothing", not bad, lambda: "%s does %s" % (nm, [e.kind for e in bad]), bad[0].site if bad else None)
