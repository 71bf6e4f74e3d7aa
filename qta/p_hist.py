"""what an operation does must not depend on what was done before: each operation is compared
with its first use after every other operation, after several of them, and with the counters
of the qubit at arbitrary values"""
from .circ_base import *
from .p_circ import QREG, CREG, parse_at, hits_of, fmt, as_bool, creg_string
from .p_reg import havoc
from .interp import State

CIF = [("x_c_if", ["$c", const(1)]), ("z_c_if", ["$c", const(1)])]
CX = [("cx", [], {"control": "$q"}), ("cx", [], {"target": "$q"})]
GIVEN = [("readout_x", [], {"readout_creg": "$g"}), ("readout_z", [], {"readout_creg": "$g"})]
PLAIN = [(o,) for o in ("stabilize", "readout_x", "readout_z", "lattice_readout_x", "lattice_readout_z", "reset_z", "reset_x", "x", "z", "id", "id_data")]
EVERY = PLAIN + CIF + CX + GIVEN
VALUES = list(range(1, 18)) + [19, 20, 21, 25, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1023, 1024]
FEW = (1, 2, 5, 10, 50, 1000)


def show_call(c):
    if len(c) > 2 and c[2]:
        return "%s(%s)" % (c[0], ", ".join(sorted(c[2])))
    return c[0]


def prep(ip, code, extra):
    q, c, g = QREG(ip, 1, "other_q"), CREG(ip, 3, "other_c"), CREG(ip, 1, "given")
    ip.call(ip.get_attr(code.circ, "add_register"), [q, c, g], {})
    extra["q"], extra["c"], extra["g"] = ip.get_item(q, const(0)), c, g


def deep_ints(heap, root):
    """integer cells of the objects that are reachable from root"""
    seen, todo, out = set(), [root], {}
    while todo:
        v = todo.pop()
        if not isinstance(v, Term):
            continue
        if v.op == "tuple":
            todo.extend(v.args)
        if v.op != "ref" or v.args[0] in seen or v.args[0] not in heap:
            continue
        a = v.args[0]
        seen.add(a)
        o = heap[a]
        if o.kind == "obj" and isinstance(o.data, dict):
            items = list(o.data.items())
        elif o.kind == "dict" and o.label != "opaque":
            items = [(e[2], e[3]) for e in o.data if not e[0] and e[1] is TRUE]
        else:
            items = []
        for k, x in items:
            todo.append(x)
            if isinstance(x, Term) and is_const(x) and isinstance(cval(x), int) and not isinstance(cval(x), bool):
                out[a, k] = cval(x)
    return out


class Later(Hist):
    """a history whose counters are then set to arbitrary values, followed by one operation"""

    def __init__(self, code, before, call):
        pre = Hist(code, before, prep)
        self.code, self.res, self.labels, self.extra = code, list(pre.res), list(pre.labels), dict(pre.extra)
        self.pre, self.tails = pre, {}
        more = pre
        for x in before:
            more = extend(more, x)
        a, b = deep_ints(pre.state.heap, code.q), deep_ints(more.state.heap, code.q)
        keys = sorted((k for k in a if k in b and b[k] != a[k]), key=str)
        self.low = {k: a[k] for k in keys}
        st, self.syms = havoc(pre.state, keys, {k: 0 for k in keys})
        self.finish(code, st, call)

    def finish(self, code, st, call):
        ar = [self.extra[x[1:]] if isinstance(x, str) and x[:1] == "$" else x for x in (call[1] if len(call) > 1 else ())]
        kw = {n: (self.extra[x[1:]] if isinstance(x, str) and x[:1] == "$" else x) for n, x in (call[2] if len(call) > 2 else {}).items()}
        self.before = st
        o, _, m = call[0].rpartition(".")
        r = code.w.call(st, code.lat if o else code.q, m, ar, kw)
        self.res.append(r)
        self.labels.append(show_call(call))
        if r.dead:
            raise Definite("%s.%s always raises after other operations" % (code.cname, call[0]), r.raises[0][3] if r.raises else None)
        self.state = r.state

    def at(self, hw, env=None):
        return Tail(self, hw, env)

    def env(self, v):
        return {s: self.low[k] + v for k, s in self.syms.items()}


class Tail(Flat):
    """the last call of a history only; what comes before is instantiated once per size"""

    def __init__(self, h, hw, env):
        self.hist, self.hw, self.code = h, hw, h.code
        key = (h.pre, hw)
        if key not in h.tails:
            h.tails[key] = h.pre.at(hw)
        pre = h.tails[key]
        self.env = dict(pre.env, **{})
        self.env.update(env or {})
        self.ex = Expander(h.state.heap, self.env)
        self.ev = self.ex.ev
        for a, c in pre.ex.circs.items():
            n = self.ex.circs[a] = type(c)()
            n.ops, n.regs, n.addrs, n.order = list(c.ops), dict(c.regs), dict(c.addrs), list(c.order)
        self.c = self.ex.circs[self.ev(h.code.circ).addr]
        self._data = pre.data()
        r, lab = h.res[-1], h.labels[-1]
        self.check_raises(r, lab)
        a, b = len(self.c.ops), len(self.c.order)
        self.ex.run(r.effects)
        self.slices, self.regmarks = [(a, len(self.c.ops))], [(b, len(self.c.order))]
        if any(x is not self.c and len(x.ops) > len(pre.ex.circs[k].ops if k in pre.ex.circs else ()) for k, x in self.ex.circs.items()):
            raise Definite("%s.%s emits instructions into a circuit that is not the qubit's own" % (h.code.cname, lab), None)


def canon(f, i=-1):
    """the instructions of one call, bits written as (register, index); new registers by order"""
    i = len(f.slices) - 1 if i < 0 else i
    new = {r.addr: "new%d(%s,%d)" % (n, r.kind, r.size) for n, r in enumerate(f.newregs(i)) if r.kind == "ClassicalRegister"}
    data = f.data().addr

    def nm(b):
        if b[0] == data:
            return ("data", b[1])
        return (new.get(b[0]) or (f.c.addrs[b[0]].name if b[0] in f.c.addrs else "?"), b[1])

    out = []
    for o in f.ops(i):
        if o.name != "barrier":
            out.append((o.name, tuple(map(nm, o.q)), nm(o.c) if o.c else None, (tuple(map(nm, o.cond[0])), o.cond[1]) if o.cond else None))
    return out, sorted(new.values()), [o.site for o in f.ops(i) if o.name != "barrier"], nm


def meaning(f, nm, i=-1):
    """what an unconditional instruction list does: images of all Paulis, and the operators it measures"""
    i = len(f.slices) - 1 if i < 0 else i
    ops = f.ops(i)
    if any(o.cond is not None for o in ops):
        return None
    qs = {q for o in ops for q in o.q} | {Bit((f.data().addr, k)) for k in range(f.data().size)}
    key = lambda p: (frozenset(map(nm, p.x)), frozenset(map(nm, p.z)), str(p.s))
    out = {}
    try:
        for q in qs:
            for p in (Pauli((q,)), Pauli((), (q,))):
                try:
                    out["map", key(p)] = key(backward(ops, p))
                except Random:
                    out["map", key(p)] = "random"
        for k, o in enumerate(ops):
            if o.name == "measure":
                out["measure", nm(o.c)] = key(measured(ops, k))
    except Random:
        return None
    return out


def same_effect(ck, ref, g, who, what):
    a, ra, sa, na = canon(ref)
    b, rb, sb, nb = canon(g)
    site = (sb or sa or [None])[0]
    rule = "an operation does the same whatever was done before"
    if ra == rb and a == b:
        return ck.ob(rule, True, "", site)
    if ra == rb:
        x, y = meaning(ref, na), meaning(g, nb)
        if x is not None and x == y:
            return ck.ob(rule, True, "", site)
    if ra != rb:
        d = "it adds the registers %s, first %s" % (rb, ra)
    else:
        n = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
        sh = lambda l: "%s%s" % (l[n][0], list(l[n][1])) if n < len(l) else "nothing"
        if n < len(sb):
            site = sb[n]
        d = "instruction %d is %s, on first use %s" % (n, sh(b), sh(a))
    return ck.ob(rule, False, "%s %s: %s" % (who, what, d), site)


def sizes(rg, few=False):
    if rg == "2d":
        return [(1, 2)] if few else [(1, 2), (2, 1)]
    if rg == "column":
        return [(1, 0)] if few else [(1, 0), (2, 0)]
    return [(0, 1)] if few else [(0, 1), (0, 2)]


def history(ck, calls, codes=CODES, by=EVERY):
    """compare every call of `calls` with itself after other operations"""
    lab = Lab(ck)
    for cn, rg in codes:
        ck.case("%s %s, after other operations" % (cn, rg), history_one, ck, lab, cn, rg, calls, by)


def history_one(ck, lab, cn, rg, calls, by):
    code = lab.code(cn, rg)
    ref = {}
    for c in calls:
        for hw in sizes(rg):
            ref[show_call(c), hw] = lab.flat(cn, rg, "first:" + show_call(c), hw, [c], prep)
    # after one and three of every operation, and after everything
    if rg == "2d" or cn == "RepetitionQubit" or ck.thorough:
        for a in by:
            pre = Hist(code, [a], prep)
            ck.case("after " + show_call(a), history_after, ck, lab, cn, rg, calls, pre, ref, "after " + show_call(a))
            pre = extend(extend(pre, a), a)
            ck.case("after 3 " + show_call(a), history_after, ck, lab, cn, rg, calls, pre, ref, "after 3 " + show_call(a), True)
    pre = Hist(code, by, prep)
    ck.case("after everything", history_after, ck, lab, cn, rg, calls, pre, ref, "after %d operations" % len(by))
    for a in by[::-1] * 2:
        pre = extend(pre, a)
    ck.case("after everything three times", history_after, ck, lab, cn, rg, calls, pre, ref, "after %d operations" % (3 * len(by)), True)
    # with arbitrary counters
    for c in calls:
        ck.case("%s with other counters" % show_call(c), history_count, ck, lab, cn, rg, c, by, ref)


def extend(h, call):
    """a history with one more call"""
    n = Hist.__new__(Hist)
    n.code, n.res, n.labels, n.extra, n.state = h.code, list(h.res), list(h.labels), h.extra, h.state
    Later.finish(n, h.code, h.state, call)
    return n


def history_after(ck, lab, cn, rg, calls, pre, ref, what, few=False):
    code, tails = lab.code(cn, rg), {}
    for c in calls:
        h = Hist.__new__(Later)
        h.pre, h.tails = pre, tails
        h.code, h.res, h.labels, h.extra, h.low, h.syms = code, list(pre.res), list(pre.labels), dict(pre.extra), {}, {}
        h.finish(code, pre.state, c)
        for hw in sizes(rg, few):
            same_effect(ck, ref[show_call(c), hw], h.at(hw), "%s.%s d=%dx%d" % (cn, show_call(c), code.dh(hw), code.dw(hw)), what)


def history_count(ck, lab, cn, rg, c, by, ref):
    code = lab.code(cn, rg)
    h = Later(code, by, c)
    if not h.syms:
        ck.notes.append("%s: no counters" % cn)
        return
    hw = sizes(rg, True)[0]
    who = "%s.%s d=%dx%d" % (cn, show_call(c), code.dh(hw), code.dw(hw))
    for v in VALUES:
        g = h.at(hw, h.env(v))
        same_effect(ck, ref[show_call(c), hw], g, who, "with counters %s" % sorted(set(h.env(v).values())))
    for k, s in h.syms.items():
        for v in FEW:
            e = h.env(0)
            e[s] += v
            same_effect(ck, ref[show_call(c), hw], h.at(hw, e), who, "with the counter %s at %d" % (cval(k[1]) if isinstance(k[1], Term) else k[1], e[s]))


def parse_history(ck, ros, codes=CODES, by=EVERY):
    lab = Lab(ck)
    for cn, rg in codes:
        ck.case("%s %s, parsing after other operations" % (cn, rg), parse_history_one, ck, lab, cn, rg, ros, by)


def parse_history_one(ck, lab, cn, rg, ros, by):
    code = lab.code(cn, rg)
    rs = sym("READOUT", "str")
    hw = sizes(rg, True)[0]
    cnt = Later(code, by, ("id_data",))
    pre = cnt.pre
    states = [("after %d operations" % len(by), pre.state, [{}])]
    states.append(("with counters at %s", cnt.before, [cnt.env(v) for v in VALUES]))
    for x in by * 2:
        pre = extend(pre, x)
    states.append(("after %d operations" % (3 * len(by)), pre.state, [{}]))
    for ro, ty in ros:
        for n in (1, 3, 12):
            f = lab.flat(cn, rg, "r%d+%s" % (n, ro), hw, [("stabilize",)] * n + [(ro,)])
            want, _ = parse_at(lab, cn, rg, f, ty)
            wh = hits_of(want, f)
            for what, st, envs in states:
                r = code.w.call(st, code.q, "parse_readout", [rs, const(ty)])
                if r.dead:
                    raise Definite("%s.parse_readout always raises %s" % (cn, what), r.raises[0][3] if r.raises else None)
                fr = code.w.run(lambda ip: ip.freeze(r.value), r.state).value
                for env in envs:
                    w = what % sorted(set(env.values())) if "%s" in what else what
                    ev = Ev(r.state.heap, dict(f.env, **{}))
                    ev.env.update(env)
                    ev.env[rs] = s_norm(creg_string(f, bitvar))
                    for s2, name, v, site in r.raises:
                        if not any(ev.cond(p) is False for p in s2.pc[len(r.base.pc) :]):
                            raise Definite("%s.parse_readout %s raises %s" % (cn, w, exc_name(name)), site)
                    v = ev(fr)
                    if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict)):
                        raise Undecided("parse_readout returns %r" % (v,))
                    ok = as_bool(v[0]) == as_bool(want[0])
                    ck.ob("parsing does not depend on what the qubit did", ok, lambda: "%s %s: the logical value of %d rounds and %s is %r, before %r" % (cn, w, n, ro, v[0], want[0]))
                    h = hits_of(v, f)
                    for T in sorted(set(h) | set(wh)):
                        for c in sorted(set(h.get(T, {})) | set(wh.get(T, {}))):
                            ck.ob("parsing does not depend on what the qubit did", h.get(T, {}).get(c) == wh.get(T, {}).get(c), lambda: "%s %s: the %s hit %s of %d rounds and %s is reported when [%s], before when [%s]" % (cn, w, T, fmt(c), n, ro, h.get(T, {}).get(c), wh.get(T, {}).get(c)))


# ---------------------------------------------------------------- topological circuits
def cnot_history(ck, pairs):
    """the logical CNOT after everything else that can happen to the circuit"""
    for a, b in pairs:
        ck.case("CNOT of %s and %s, after other operations" % (a, b), cnot_one, ck, a, b)


def tc_prep(ck, a, b):
    from .p_reg import make_reg, make_circuit, std_params, Scene

    s = Scene(ck.world)
    reg = make_reg(s, [a, b, a], [std_params(a), std_params(b), std_params(a)])
    tc = make_circuit(s, reg)
    s.call("cx", tc, "cx", [ZERO, ONE])
    return s, reg, tc


def scene_effect(s, reg):
    """normalised instructions of the last step of a scene, and its new registers"""
    circ = s.get(reg, "circ")
    return lambda env={}: _scene_effect(s, circ, env)


def _scene_effect(s, circ, env):
    at = s.at(env)
    k = len(s.steps) - 1
    new = {}
    for r in at.newregs(k, circ):
        new[r.name] = "new%d(%s,%d)" % (len(new), r.kind, r.size)
    sub = lambda b: (new.get(b[0], b[0]), b[1])
    ops = [(n, tuple(map(sub, q)), sub(c) if c else None, (tuple(map(sub, d[0])), d[1]) if d else None) for n, q, c, d in at.norm(at.ops(k, circ), circ)]
    sites = [o.site for o in at.ops(k, circ) if o.name != "barrier"]
    return ops, sorted(new.values()), sites


def same_scene(ck, ref, got, what):
    a, ra, sa = ref
    b, rb, sb = got
    n = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
    sh = lambda l: "%s%s" % (l[n][0], list(l[n][1])) if n < len(l) else "nothing"
    site = sb[n] if n < len(sb) else (sb or sa or [None])[0]
    ck.ob("an operation does the same whatever was done before", ra == rb and a == b, lambda: "%s: instruction %d is %s, before %s%s" % (what, n, sh(b), sh(a), "" if ra == rb else " (new registers %s, before %s)" % (rb, ra)), site)


TOPS = ("stabilize", "measure_x", "measure_z", "measure_lattice_x", "measure_lattice_z", "reset_z", "reset_x", "x", "z", "id", "id_data")


def cnot_one(ck, a, b):
    from .p_reg import add_tqubit, std_params

    s0, reg, tc = tc_prep(ck, a, b)
    ref = s0.clone()
    ref.call("cx", tc, "cx", [ZERO, ONE])
    R = scene_effect(ref, reg)()

    def again(s, what, env={}):
        t = s.clone()
        t.call("cx", tc, "cx", [ZERO, ONE])
        same_scene(ck, R, scene_effect(t, reg)(env), "cx(0,1) " + what)

    anc = [3] if not s0.w.run(lambda ip: ip.get_item(reg, const(3)), s0.state).dead else []
    everything = s0.clone()
    for op in TOPS:
        for n in (1, 4):
            t = s0.clone()
            for k in range(n):
                for i in [0, 1] + anc:
                    t.call(op, tc, op, [const(i)])
            again(t, "after %d %s of every qubit" % (n, op))
        for i in [0, 1, 2] + anc:
            everything.call(op, tc, op, [const(i)])
    for c, d in ((1, 0), (0, 2), (2, 1), (0, 1)):
        t = s0.clone()
        for k in range(12 if (c, d) == (0, 1) else 2):
            t.call("cx(%d,%d)" % (c, d), tc, "cx", [const(c), const(d)])
            everything.call("cx(%d,%d)" % (c, d), tc, "cx", [const(c), const(d)])
        again(t, "after other CNOTs")
    t = s0.clone()
    for k in range(12):
        add_tqubit(t, reg, "more", b, std_params(b))
    again(t, "after adding twelve qubits")
    again(everything, "after everything else")
    # counters of the register, its qubits and the circuit at arbitrary values
    low, high = deep_ints(s0.state.heap, tc), deep_ints(everything.state.heap, tc)
    keys = sorted((k for k in low if k in high and high[k] > low[k]), key=str)
    # the number of qubits is what the register holds
    n = [k for k in keys if k[0] == reg.args[0] and k[1] == "n"]
    keys = [k for k in keys if k not in n]
    if keys:
        st, syms = havoc(s0.state, keys, {k: 0 for k in keys})
        h = s0.clone()
        h.state = st
        h.call("cx", tc, "cx", [ZERO, ONE])
        E = scene_effect(h, reg)
        for v in VALUES:
            env = {y: low[k] + v for k, y in syms.items()}
            same_scene(ck, R, E(env), "cx(0,1) with counters %s" % sorted(set(env.values())))


def circuit_history(ck, types):
    for a in types:
        ck.case("circuit operations of %s, after other operations" % a, circuit_one, ck, a)


def circuit_one(ck, a):
    from .p_reg import add_tqubit, std_params, TCOPS

    s0, reg, tc = tc_prep(ck, a, a)
    for k in range(9):
        add_tqubit(s0, reg, "more", a, std_params(a))
    for c, d in ((1, 0), (0, 1)):
        s0.call("cx", tc, "cx", [const(c), const(d)])
    low = deep_ints(s0.state.heap, tc)
    for op in TOPS:
        for i in (0, 2, 11):
            for k in range(3):
                s0.call(op, tc, op, [const(i)])
    high = deep_ints(s0.state.heap, tc)
    keys = sorted((k for k in low if k in high and high[k] > low[k]), key=str)
    st, syms = havoc(s0.state, keys, {k: 0 for k in keys})
    circ = s0.get(reg, "circ")
    for i in (0, 2, 11):
        q = s0.get(reg, i)
        for tm, qm in TCOPS:
            E = []
            for how in ("direct", "index", "object"):
                s = s0.clone()
                s.state = st
                if how == "direct":
                    s.call(qm, q, qm)
                else:
                    s.call(tm, tc, tm, [const(i) if how == "index" else q])
                E.append(scene_effect(s, reg))
            for v in (0, 3, 10, 40, 1000):
                env = {y: high[k] + v for k, y in syms.items()}
                R = E[0](env)
                for e, how in zip(E[1:], ("index", "object")):
                    same_scene(ck, R, e(env), "%s(%d) by %s in a long history, compared with the qubit's own %s" % (tm, i, how, qm))
