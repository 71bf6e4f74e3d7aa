"""C01-C07: what the encoder circuits do, decided on their instruction summaries."""
from .circ_base import *

QN, TN = 3, 5


def corners(f, row, col):
    dh, dw = f.dims()
    out = []
    for r in (row - Fraction(1, 2), row + Fraction(1, 2)):
        for c in (col - Fraction(1, 2), col + Fraction(1, 2)):
            if r == int(r) and c == int(c) and 0 <= r < dh and 0 <= c < dw:
                out.append(f.dq(int(r), int(c)))
    return frozenset(out)


def back(f, ops, p, what):
    try:
        return backward(ops, p)
    except Random as e:
        raise Definite("%s: %s is randomised by %s on %s" % (what, f.show(p), e.op.name, ", ".join(map(f.name, e.op.q))), e.op.site)


# ---------------------------------------------------------------- C01
def ext_prep(ip, code, extra):
    """a foreign qubit and a foreign classical register on the same circuit"""
    q = QREG(ip, 1, "other_q")
    c = CREG(ip, 3, "other_c")
    ip.call(ip.get_attr(code.circ, "add_register"), [q, c], {})
    extra["q"] = ip.get_item(q, const(0))
    extra["c"] = c
    extra["qreg"] = q


def c01(ck):
    lab = Lab(ck)
    for cn, rg, hw, label in each(ck, lab, QN, TN):
        ck.case(label, c01_one, ck, lab, cn, rg, hw)
    from . import p_hist as h

    h.history(ck, [("x",), ("z",), ("readout_x",), ("readout_z",)] + h.CIF + h.CX + h.GIVEN)


def c01_one(ck, lab, cn, rg, hw):
    L = {}
    for k in "xz":
        f, L[k] = lab.logical(cn, rg, hw, k)
        dh, dw = f.dims()
        want = frozenset(f.dq(r, 0) for r in range(dh)) if k == "x" else frozenset(f.dq(0, c) for c in range(dw))
        sites = [o.site for o in f.ops(1)]
        ck.ob(
            "logical %s acts on the documented edge" % k.upper(),
            L[k].support() == want,
            lambda: "%s() applies %s, documented support is the %s" % (k, f.show(L[k]), "left-most column" if k == "x" else "top-most row"),
            sites[0] if sites else None,
        )
    for k, V in [(k, V) for k in "xz" for V in (5, 0, 1, 7)]:
        f = lab.flat(cn, rg, "cif%d:%s" % (V, k), hw, [(k + "_c_if", ["$c", const(V)])], ext_prep)
        creg = f.newregs(1)[1]
        cond = (tuple(Bit((creg.addr, i)) for i in range(creg.size)), V)
        p, bad = pauli_of(f.ops(2), f, k + "_c_if", cond)
        if p is None:
            ck.ob("conditional logical %s" % k.upper(), False, "%s_c_if(creg, %d) applies %r that is not conditioned on exactly the given register and value" % (k, V, bad), bad.site)
        else:
            ck.ob(
                "conditional logical %s" % k.upper(),
                p.key() == move(p, lab, L[k], f, cn, rg, hw).key(),
                lambda: "%s_c_if applies %s but %s applies %s" % (k, f.show(p), k, f.show(move(p, lab, L[k], f, cn, rg, hw))),
                f.ops(2)[0].site if f.ops(2) else None,
            )
    # controlled versions
    f = lab.flat(cn, rg, "cx:control", hw, [("cx", [], {"control": "$q"})], ext_prep)
    q = Bit((f.newregs(1)[0].addr, 0))
    ops = f.ops(2)
    lx = move(None, lab, L["x"], f, cn, rg, hw)
    lz = move(None, lab, L["z"], f, cn, rg, hw)
    st = ops[0].site if ops else None
    p = back(f, ops, Pauli((q,)), "cx(control=q)")
    ck.ob("cx as target: X_q -> X_q X_L", p == Pauli(lx.x | {q}, lx.z), lambda: "cx(control=q) maps X_q to %s, not to X_q times the logical X %s" % (f.show(p), f.show(lx)), st)
    p = back(f, ops, Pauli((), (q,)), "cx(control=q)")
    ck.ob("cx as target: control is kept", p == Pauli((), (q,)), lambda: "cx(control=q) maps Z_q to %s" % f.show(p), st)
    dh, dw = f.dims()
    for i in range(dh * dw):
        d = Bit((f.data().addr, i))
        for a in (Pauli((d,)), Pauli((), (d,))):
            p = back(f, ops, a, "cx(control=q)")
            w = a if a.commutes(lx) else a.times(Pauli((), (q,)))
            ck.ob("cx as target: data Paulis", p == w, lambda: "cx(control=q) maps %s to %s; a controlled logical X maps it to %s" % (f.show(a), f.show(p), f.show(w)), st)
    f = lab.flat(cn, rg, "cx:target", hw, [("cx", [], {"target": "$q"})], ext_prep)
    q = Bit((f.newregs(1)[0].addr, 0))
    ops = f.ops(2)
    lx = move(None, lab, L["x"], f, cn, rg, hw)
    lz = move(None, lab, L["z"], f, cn, rg, hw)
    st = ops[0].site if ops else None
    zs = Pauli((), (q,))
    p = back(f, ops, zs, "cx(target=q)")
    ck.ob("cx as control: Z_q -> Z_L Z_q", p == Pauli(lz.x, lz.z | {q}), lambda: "cx(target=q) maps Z_q to %s, not to Z_q times the logical Z %s" % (f.show(p), f.show(lz)), st)
    p = back(f, ops, Pauli((q,)), "cx(target=q)")
    ck.ob("cx as control: X_q is kept", p == Pauli((q,)), lambda: "cx(target=q) maps X_q to %s" % f.show(p), st)
    p = back(f, ops, lx, "cx(target=q)")
    w = Pauli(lx.x | {q}, lx.z)
    ck.ob("cx as control: X_L -> X_L X_q", p == w, lambda: "cx(target=q) maps the logical X to %s instead of %s: the control is disturbed" % (f.show(p), f.show(w)), st)
    p = back(f, ops, lz, "cx(target=q)")
    ck.ob("cx as control: Z_L is kept", p == lz, lambda: "cx(target=q) maps the logical Z to %s" % f.show(p), st)
    # readout
    for k in "xz":
        for how, calls, prep in (("fresh", [("readout_" + k,)], None), ("given", [("readout_" + k, [], {"readout_creg": "$c1"})], one_bit)):
            f = lab.flat(cn, rg, "ro:%s:%s" % (k, how), hw, calls, prep)
            ops = f.ops(len(f.slices) - 1)
            ms = [(i, o) for i, o in enumerate(ops) if o.name == "measure"]
            st = ms[0][1].site if ms else None
            if not ck.ob("readout_%s measures once" % k, len(ms) == 1, "readout_%s performs %d measurements" % (k, len(ms)), st):
                continue
            i, o = ms[0]
            ck.ob("readout is unconditional", o.cond is None, "readout_%s is conditioned" % k, st)
            if how == "given":
                tgt = f.newregs(1)[0]
                ck.ob("readout uses the given register", o.c[0] == tgt.addr and not f.newregs(2), lambda: "readout_%s ignores the register it was given and writes %s" % (k, f.name(o.c)), st)
            else:
                nr = f.newregs(1)
                ck.ob("readout adds its own register", len(nr) == 1 and nr[0].kind == "ClassicalRegister" and nr[0].size == 1 and o.c[0] == nr[0].addr, lambda: "readout_%s writes %s, new registers %s" % (k, f.name(o.c), [r.name for r in nr]), st)
            try:
                p = measured(ops, i)
            except Random as e:
                ck.ob("readout measures the logical operator", False, "readout_%s measures an operator that is erased by %s" % (k, e.op.name), e.op.site)
                continue
            w = move(None, lab, L[k], f, cn, rg, hw)
            ck.ob("readout measures the logical operator", p == w, lambda: "readout_%s measures %s but the logical %s is %s" % (k, f.show(p), k.upper(), f.show(w)), st)


def one_bit(ip, code, extra):
    c = CREG(ip, 1, "given")
    ip.call(ip.get_attr(code.circ, "add_register"), [c], {})
    extra["c1"] = c


def move(_, lab, p, f, cn, rg, hw):
    """registers of a code have one identity in every history of that code"""
    return p


# ---------------------------------------------------------------- C02
def c02(ck):
    lab = Lab(ck)
    for cn, rg, hw, label in each(ck, lab, QN, TN):
        ck.case(label, c02_one, ck, lab, cn, rg, hw)
    from . import p_hist as h

    h.history(ck, [("x",), ("z",), ("stabilize",)])


def c02_one(ck, lab, cn, rg, hw):
    f, LX = lab.logical(cn, rg, hw, "x")
    fz, LZ = lab.logical(cn, rg, hw, "z")
    ck.ob("logical X and Z anticommute", not LX.commutes(LZ), lambda: "x() = %s commutes with z() = %s" % (f.show(LX), f.show(LZ)), f.ops(1)[0].site if f.ops(1) else None)
    fr, checks = lab.checks(cn, rg, hw)
    for c, p, o in checks:
        d, rx, rz = fr.restrict(p)
        for nm, L in (("X", LX), ("Z", LZ)):
            ck.ob("logical %s commutes with every check" % nm, d.commutes(L), lambda: "the check %s read into %s anticommutes with the logical %s %s" % (fr.show(d), fr.name(c), nm, fr.show(L)), o.site)


# ---------------------------------------------------------------- C03
def c03(ck):
    lab = Lab(ck)
    for cn, rg, hw, label in each(ck, lab, QN, TN):
        ck.case(label, c03_one, ck, lab, cn, rg, hw)
    from . import p_hist as h

    h.history(ck, [("stabilize",)])


def c03_one(ck, lab, cn, rg, hw):
    f, checks = lab.checks(cn, rg, hw)
    dh, dw = f.dims()
    n = dh * dw
    S = []
    for c, p, o in checks:
        d, rx, rz = f.restrict(p)
        ck.ob("outcome depends on data and cleared ancillas only", not rx, lambda: "outcome %s measures %s, which is not determined for cleared ancillas" % (f.name(c), f.show(p)), o.site)
        ck.ob("outcome sign", bconst(p.s) is False, lambda: "outcome %s measures %s" % (f.name(c), f.show(p)), o.site)
        ck.ob("the check is not trivial", bool(d.support()), lambda: "outcome %s measures nothing on the data qubits" % f.name(c), o.site)
        rs = sorted(divmod(q[1], dw) for q in d.support())
        box = rs and max(r for r, _ in rs) - min(r for r, _ in rs) <= 1 and max(c_ for _, c_ in rs) - min(c_ for _, c_ in rs) <= 1
        ck.ob("a check acts inside one plaquette", box, lambda: "outcome %s measures %s, not a plaquette of adjacent data qubits" % (f.name(c), f.show(d)), o.site)
        S.append((c, d, o))
    ck.ob("one outcome per check", len(S) == n - 1, "%d outcomes for %d data qubits, expected %d" % (len(S), n, n - 1), checks[0][2].site if checks else None)
    for i, (c, a, o) in enumerate(S):
        for c2, b, o2 in S[:i]:
            ck.ob("checks commute", a.commutes(b), lambda: "checks %s and %s anticommute" % (f.show(a), f.show(b)), o.site)
    rank, member = span([d for _, d, _ in S])
    ck.ob("checks are independent", rank == n - 1, "the checks of one round have rank %d, expected %d" % (rank, n - 1), S[0][2].site if S else None)
    # QND
    ops = f.ops(1)
    ck.ob("a round adds no conditional or foreign gate", all(o.cond is None for o in ops), "conditional gate inside a round", None)
    gens = [("check", d) for _, d, _ in S]
    for k in "xz":
        gens.append(("logical " + k.upper(), lab.logical(cn, rg, hw, k)[1]))
    for nm, d in gens:
        p = back(f, ops, d, "a stabilization round")
        e, rx, rz = f.restrict(p)
        ok = not rx and bconst(e.s) is False and member(Pauli(e.x ^ d.x, e.z ^ d.z)) and (e.key() != d.key() or True)
        ck.ob("a round does not disturb the code", ok, lambda: "a round maps the %s %s to %s" % (nm, f.show(d), f.show(p)), S[0][2].site if S else None)
    # second round measures the same operators
    f2 = lab.rounds(cn, rg, hw, 2)
    o1, o2 = [[o for o in f2.ops(i) if o.name == "measure"] for i in (1, 2)]
    second = {}
    for i, o in enumerate(f2.ops(2)):
        if o.name == "measure":
            try:
                second[o.c[1]] = (f2.restrict(measured(f2.ops(2), i)), o)
            except Random as e:
                raise Definite("second round: outcome %s is random" % f2.name(o.c), e.op.site)
    for c, d, o in S:
        x = second.get(c[1])
        ck.ob("every round measures the same checks", x is not None and x[0][0] == d and not x[0][1], lambda: "bit %d is %s in the first and %s in the second round" % (c[1], f.show(d), x and f2.show(x[0][0])), o.site)


# ---------------------------------------------------------------- C04
def c04(ck):
    lab = Lab(ck)
    for cn, rg, hw, label in each(ck, lab, QN, TN):
        ck.case(label, c04_one, ck, lab, cn, rg, hw)
    from . import p_hist as h

    h.history(ck, [("stabilize",)])


def c04_one(ck, lab, cn, rg, hw):
    n = 3
    f = lab.rounds(cn, rg, hw, n)
    seen = set()
    for t in range(1, n + 1):
        new = f.newregs(t)
        ops = f.ops(t)
        ms = [o for o in ops if o.name == "measure"]
        st = ms[0].site if ms else None
        if not ck.ob("a round adds exactly one classical register", len(new) == 1 and new[0].kind == "ClassicalRegister", "round %d adds %s" % (t, [r.name for r in new]), st):
            continue
        r = new[0]
        ck.ob("the round's register is new", r.addr not in seen, "round %d reuses a register" % t, st)
        seen.add(r.addr)
        hit = [o.c for o in ms]
        ck.ob("outcomes go to this round's register", all(c[0] == r.addr for c in hit), lambda: "round %d writes %s" % (t, [f.name(c) for c in hit if c[0] != r.addr][:3]), st)
        ck.ob("every bit is written exactly once", sorted(c[1] for c in hit) == list(range(r.size)), "round %d writes bits %s of a register of %d" % (t, sorted(c[1] for c in hit), r.size), st)
        anc = sorted({q for o in ms for q in o.q})
        ck.ob("every check has its own ancilla", len(anc) == len(ms), "round %d measures an ancilla twice" % t, st)
        for q in anc:
            ck.ob("syndrome ancillas are not data qubits", not f.isdata(q), lambda: "round %d measures %s directly" % (t, f.name(q)), st)
            p = back(f, ops, Pauli((), (q,)), "round %d" % t)
            ck.ob("ancillas are returned to |0>", p == Pauli(), lambda: "after round %d ancilla %s holds %s" % (t, f.name(q), f.show(p)), st)
    fs = lab.rounds(cn, rg, hw, n)


# ---------------------------------------------------------------- C05 / C06
def creg_string(f, bits):
    """the result string of the backend for a circuit whose classical bits hold `bits`"""
    out = []
    cr = [r for r in f.c.order if r.kind == "ClassicalRegister"]
    for k, r in enumerate(reversed(cr)):
        if k:
            out.append(" ")
        for i in reversed(range(r.size)):
            out.append(bits(Bit((r.addr, i))))
    return out


def parse_at(lab, cn, rg, f, rtype, bits=bitvar):
    """(value, {type: [G(guard, coord)]}) of parse_readout on abstract outcomes, at one size"""
    key = ("parse", cn, rg, rtype)
    if key not in lab.hists:
        code = lab.code(cn, rg)
        rs = sym("READOUT", "str")
        lab.hists[key] = (rs, code.w.call(code.state, code.q, "parse_readout", [rs] + ([const(rtype)] if rtype else [])))
    rs, r = lab.hists[key]
    if r.dead:
        raise Definite("%s.parse_readout always raises" % cn, r.raises[0][3] if r.raises else None)
    ch = creg_string(f, bits)
    ev = Ev(r.state.heap, dict(f.env, **{}))
    ev.env[rs] = s_norm(ch)
    for st, name, v, site in r.raises:
        vals = [ev.cond(p) for p in st.pc[len(r.base.pc) :]]
        if not any(x is False for x in vals):
            raise Definite("%s.parse_readout raises %s on %r rounds" % (cn, exc_name(name), f.hist.labels), site)
    fr = lab.w.run(lambda ip: ip.freeze(r.value), r.state).value
    v = ev(fr)
    if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict)):
        raise Undecided("parse_readout returns %r" % (v,))
    return v, site_of(r)


def site_of(r):
    return None


def bval(b, on):
    """value of a boolean function when the outcome bits in `on` are 1"""
    names = {next(iter(next(iter(bitvar(x).m)))) for x in on}
    return bool(sum(1 for m in b.m if m <= names) % 2)


def samples(f):
    """chosen assignments of the outcome bits of a history"""
    regs = [r for r in f.c.order if r.kind == "ClassicalRegister"]
    last = [Bit((regs[-1].addr, i)) for i in range(regs[-1].size)]
    rest = [Bit((r.addr, i)) for r in regs[:-1] for i in range(r.size)]
    yield set()
    yield set(last)
    yield set(rest)
    yield set(last) | set(rest)
    dw = f.dims()[1]
    for i, b in enumerate(last[:12]):
        yield {b}
        for j in (1, dw, dw + 1):
            if i + j < len(last):
                yield {b, last[i + j]}
    for i in range(len(rest)):
        if i < 8:
            yield {rest[i], last[i % len(last)]}


def contradicts(lab, cn, rg, f, ty, val, want):
    """compare parse_readout with its expected value and hits (functions of the outcomes) on chosen readouts; raises Definite"""
    for on in samples(f):
        txt = lambda: "".join(c if isinstance(c, str) else ("1" if bconst(c) else "0") for c in creg_string(f, lambda b: BT if b in on else BF))
        try:
            v, _ = parse_at(lab, cn, rg, f, ty, lambda b: BT if b in on else BF)
            h = hits_of(v, f)
        except Definite as e:
            raise Definite("on the readout %r: %s" % (txt(), e), e.site)
        x = as_bool(v[0])
        if val is not None and (x is None or bconst(x) is not bval(val, on)):
            if x is None and not isinstance(v[0], (int, str)):
                raise Undecided("parsed value %r" % (v[0],))
            raise Definite("the readout %r gives the logical value %r, must be %d" % (txt(), v[0] if x is None else int(bool(bconst(x))), bval(val, on)))
        got = {(T,) + c for T, d in h.items() for c, g in d.items() if bconst(g)}
        exp = {k for k, b in want.items() if bval(b, on)}
        if got != exp:
            k = sorted(got ^ exp)[0]
            raise Definite("the readout %r %s %s hit %s" % (txt(), "wrongly reports the" if k in got else "does not report the", k[0], fmt(k[1:])))


def hits_of(v, f):
    """{type: {(t,row,col): guard}}; a coordinate listed twice is definite misbehaviour"""
    out = {}
    for ty, l in v[1].items():
        d = {}
        if not isinstance(l, (list, tuple)):
            raise Undecided("hit list %r" % (l,))
        for x in l:
            g, c = (asB(x.g), x.v) if isinstance(x, G) else (BT, x)
            if not isinstance(c, tuple) or len(c) != 3:
                raise Definite("parse_readout: hit %r is not (time, row, column)" % (c,))
            if bconst(g) is False:
                continue
            c = tuple(Fraction(y) for y in c)
            if c in d:
                if bconst(band(g, d[c])) is not False:
                    raise Definite("parse_readout can report the hit %s twice" % (fmt(c),))
                g = bxor(g, d[c])
            d[c] = g
        out[ty] = d
    return out


def fmt(c):
    return "(" + ", ".join("%g" % float(x) for x in c) + ")"


def plaquette_map(ck, lab, cn, rg, hw):
    """bit -> (type, row, col) as the parser names it, from a history of two rounds"""
    n = 2
    f = lab.flat(cn, rg, "r2+roz", hw, [("stabilize",)] * n + [("readout_z",)])
    regs = [f.newregs(t)[0] for t in (1, 2)]
    name = {}
    try:
        v, _ = parse_at(lab, cn, rg, f, "Z")
        hits = hits_of(v, f)
    except Undecided:
        # not a closed form in the outcomes: find out by flipping one outcome at a time
        hits = {}
        for k in [None] + list(range(regs[0].size)):
            on = set() if k is None else {Bit((regs[1].addr, k))}
            v, _ = parse_at(lab, cn, rg, f, "Z", lambda b: BT if b in on else BF)
            h = hits_of(v, f)
            if k is None and any(h.values()):
                raise Definite("hits are reported when all outcomes are 0")
            name[k] = [(ty, c) for ty, d in h.items() for c, g in d.items() if bconst(g)]
            for ty in h:
                hits.setdefault(ty, {}).update({c: BT for c in h[ty]})
        del name[None]
        return f, hits, name
    for k in range(regs[0].size):
        g = bxor(bitvar(Bit((regs[0].addr, k))), bitvar(Bit((regs[1].addr, k))))
        where = [(ty, c) for ty, d in hits.items() for c, x in d.items() if x == g]
        name[k] = where
    return f, hits, name


def c05(ck):
    lab = Lab(ck)
    for cn, rg, hw, label in each(ck, lab, QN, TN - 1):
        ck.case(label, c05_one, ck, lab, cn, rg, hw)
    from . import p_hist as h

    h.history(ck, [("readout_x",), ("readout_z",)])
    h.parse_history(ck, [("readout_z", "Z"), ("readout_x", "X")])


def c05_one(ck, lab, cn, rg, hw):
    fr, checks = lab.checks(cn, rg, hw)
    by = {c[1]: fr.restrict(p)[0] for c, p, _ in checks}
    f2, hits, name = plaquette_map(ck, lab, cn, rg, hw)
    pos = {}
    for k in sorted(by):
        w = name.get(k, [])
        if not ck.ob("a changed outcome is reported once", len(w) == 1, lambda: "a change of outcome bit %d (check %s) is reported as %s" % (k, fr.show(by[k]), [(t, fmt(c)) for t, c in w])):
            continue
        ty, (t, r, c) = w[0]
        pos[k] = (ty, r, c)
        ck.ob("hit time", t == 0, "the change between the first two rounds is reported at time %g" % float(t))
        ck.ob("hit coordinates name the plaquette", corners(f2, r, c) == by[k].support(), lambda: "the hit %s of bit %d names other data qubits than its check %s" % (fmt((t, r, c)), k, fr.show(by[k])))
    ck.ob("no spurious hit", sum(len(d) for d in hits.values()) == len(by), lambda: "%d possible hits for %d checks" % (sum(len(d) for d in hits.values()), len(by)))
    ck.ob("hits of different checks differ", len(set(pos.values())) == len(pos), "two checks share a coordinate")
    ck.ob("hit types", set(hits) == {"X", "Z"}, "hit types %s" % sorted(hits))
    if cn != "XZZXQubit":
        for k, (ty, r, c) in pos.items():
            p = by[k]
            ck.ob("hit type names the kind of check", (ty == "X") == (not p.z) and (ty == "Z") == (not p.x), lambda: "check %s is reported as type %s" % (fr.show(p), ty))
    # longer histories, both readouts
    for n in (1, 3) + ((4,) if ck.thorough else ()) + many_rounds(ck, hw):
        for ro, ty in (("readout_z", "Z"), ("readout_x", "X"), ("readout_z", None)):
            f = lab.flat(cn, rg, "r%d+%s" % (n, ro), hw, [("stabilize",)] * n + [(ro,)])
            rb = f.newregs(n + 1)[0]
            regs = [f.newregs(t)[0] for t in range(1, n + 1)]
            want = {"X": {}, "Z": {}}
            for t in range(n - 1):
                for k in pos:
                    want[pos[k][0]][(Fraction(t), pos[k][1], pos[k][2])] = bxor(bitvar(Bit((regs[t].addr, k))), bitvar(Bit((regs[t + 1].addr, k))))
            try:
                v, _ = parse_at(lab, cn, rg, f, ty)
                h = hits_of(v, f)
            except Undecided:
                contradicts(lab, cn, rg, f, ty, bitvar(Bit((rb.addr, 0))), {(T,) + c: b for T, d in want.items() for c, b in d.items()})
                raise
            val = v[0]
            ck.ob("logical value is the readout bit", as_bool(val) == bitvar(Bit((rb.addr, 0))), lambda: "the parsed logical value after %s is %r" % (ro, val))
            for T in ("X", "Z"):
                for c in sorted(set(want.get(T, {})) | set(h.get(T, {}))):
                    a, b = want.get(T, {}).get(c), h.get(T, {}).get(c)
                    ck.ob("a hit is reported iff the outcome changed", a == b, lambda: "%d rounds: %s hit %s is reported when [%s], must be when [%s]" % (n, T, fmt(c), b, a))


def many_rounds(ck, hw):
    """long histories, on the smallest sizes only"""
    if max(hw) > 1:
        return ()
    return (10,) + tuple(sorted({n for c in literals(ck, 70)[:8] for n in (c, c + 1, c + 2)} - {10}))


def as_bool(v):
    if isinstance(v, Lin) and len(v.d) == 1 and v.c == 0 and list(v.d.values()) == [1]:
        return next(iter(v.d))
    if isinstance(v, BI):
        return v.bits[0] if len(v.bits) == 1 else (BF if not v.bits else None)
    if isinstance(v, (bool, int)) and v in (0, 1):
        return BT if v else BF
    if isinstance(v, B):
        return v
    return None


def c06(ck):
    lab = Lab(ck)
    for cn, rg, hw, label in each(ck, lab, QN, TN - 1):
        ck.case(label, c06_one, ck, lab, cn, rg, hw)
    from . import p_hist as h

    h.history(ck, [("lattice_readout_x",), ("lattice_readout_z",)])
    h.parse_history(ck, [("lattice_readout_z", "Z"), ("lattice_readout_x", "X")])


def affine(b):
    """(set of variable names, constant) or None"""
    vs, c = set(), False
    for m in b.m:
        if len(m) == 0:
            c = True
        elif len(m) == 1:
            vs |= m
        else:
            return None
    return vs, c


def c06_one(ck, lab, cn, rg, hw):
    fr, checks = lab.checks(cn, rg, hw)
    by = {c[1]: fr.restrict(p)[0] for c, p, _ in checks}
    f2, hits2, name = plaquette_map(ck, lab, cn, rg, hw)
    pos = {}
    for k, w in name.items():
        if len(w) != 1:
            raise Undecided("outcome bit %d has no unique coordinate (see C05)" % k)
        pos[k] = (w[0][0], w[0][1][1], w[0][1][2])
    for ty in "XZ":
        for n in (1, 2) + ((3,) if ck.thorough else ()) + many_rounds(ck, hw):
            ck.case("lattice readout %s after %d rounds" % (ty, n), c06_ro, ck, lab, cn, rg, hw, by, pos, ty, n)


def c06_ro(ck, lab, cn, rg, hw, by, pos, ty, n):
    ro = "lattice_readout_" + ty.lower()
    f = lab.flat(cn, rg, "r%d+%s" % (n, ro), hw, [("stabilize",)] * n + [(ro,)])
    ops = f.ops(n + 1)
    meas, idx = {}, {}
    for i, o in enumerate(ops):
        if o.name == "measure":
            try:
                meas[o.c] = (measured(ops, i), o)
            except Random as e:
                raise Definite("%s: outcome %s is random" % (ro, f.name(o.c)), e.op.site)
    new = f.newregs(n + 1)
    st = next(iter(meas.values()))[1].site if meas else None
    if not ck.ob("lattice readout adds one register", len(new) == 1 and sorted(meas) == [Bit((new[0].addr, i)) for i in range(new[0].size)], lambda: "%s writes %s" % (ro, sorted(map(f.name, meas))[:6]), st):
        return
    dh, dw = f.dims()
    ck.ob("lattice readout has one bit per data qubit", new[0].size == dh * dw and {q for p, _ in meas.values() for q in p.support()} == {Bit((f.data().addr, i)) for i in range(dh * dw)}, "%s does not read every data qubit" % ro, st)
    nm = {next(iter(next(iter(bitvar(c).m)))): c for c in meas}
    try:
        v, _ = parse_at(lab, cn, rg, f, ty)
        hits_of(v, f)
        if as_bool(v[0]) is None:
            raise Undecided("logical value %r" % (v[0],))
    except Undecided:
        # not a closed form in the outcomes: refute on chosen readouts
        def bits_of(op):
            p, b = Pauli(), BF
            for c, (m, o) in meas.items():
                if len(m.support()) == 1 and m.support() <= op.support():
                    p, b = p.times(m), bxor(b, bitvar(c))
            if p.x != op.x or p.z != op.z:
                raise Undecided("the readout does not determine %s" % f.show(op))
            return bxor(b, bxor(asB(p.s), asB(op.s)))

        regs = [f.newregs(t)[0] for t in range(1, n + 1)]
        want = {}
        for k in pos:
            at = [bitvar(Bit((r.addr, k))) for r in regs]
            if pos[k][0] == ty:
                at.append(bits_of(by[k]))
            for t, (a, b) in enumerate(zip(at, at[1:])):
                want[pos[k][0], Fraction(t), pos[k][1], pos[k][2]] = bxor(a, b)
        contradicts(lab, cn, rg, f, ty, bits_of(lab.logical(cn, rg, hw, ty.lower())[1]), want)
        raise

    def operator(b, what):
        a = affine(b)
        if a is None:
            ck.ob("reconstructed parities are affine", False, "%s is not a parity of readout bits" % what, st)
            return None
        vs, c = a
        p = Pauli((), (), BT if c else BF)
        for x in sorted(vs):
            if x not in nm:
                return None
            p = p.times(meas[nm[x]][0])
        return p

    val = as_bool(v[0])
    L = lab.logical(cn, rg, hw, ty.lower())[1]
    if val is None:
        raise Undecided("logical value %r" % (v[0],))
    p = operator(val, "the logical value")
    ck.ob("the lattice readout determines the logical value", p == L, lambda: "%s: the parsed logical value measures %s, the logical %s is %s" % (ro, p and f.show(p), ty, f.show(L)), st)
    h = hits_of(v, f)
    regs = [f.newregs(t)[0] for t in range(1, n + 1)]
    want = {}
    for t in range(n - 1):
        for k in pos:
            want[pos[k][0], Fraction(t), pos[k][1], pos[k][2]] = bxor(bitvar(Bit((regs[t].addr, k))), bitvar(Bit((regs[t + 1].addr, k))))
    got = {(T, c[0], c[1], c[2]): g for T, d in h.items() for c, g in d.items()}
    for k in sorted(pos):
        T, r, c = pos[k]
        key = (T, Fraction(n - 1), r, c)
        g = got.pop(key, BF)
        if T != ty:
            ck.ob("the other type has no final-round hit", bconst(g) is False, lambda: "%s: %s hit %s reported when [%s]" % (ro, T, fmt(key[1:]), g), st)
            continue
        fin = bxor(g, bitvar(Bit((regs[n - 1].addr, k))))
        q = operator(fin, "the final value of check %d" % k)
        ck.ob("final round is reconstructed from the data readout", q == by[k], lambda: "%s: the final outcome of check %s is computed as %s" % (ro, f.show(by[k]), f.show(q) if q else "[%s]" % fin), st)
    for key in sorted(set(want) | set(got)):
        ck.ob("earlier rounds are kept", want.get(key) == got.get(key), lambda: "%s: %s hit %s reported when [%s], must be when [%s]" % (ro, key[0], fmt(key[1:]), got.get(key), want.get(key)), st)


# ---------------------------------------------------------------- C07
def c07(ck):
    lab = Lab(ck)
    for cn, rg, hw, label in each(ck, lab, QN, TN):
        ck.case(label, c07_one, ck, lab, cn, rg, hw)
    from . import p_hist as h

    h.history(ck, [(o,) for o in ("reset_x", "reset_z", "stabilize", "readout_x", "readout_z", "lattice_readout_x", "lattice_readout_z", "x", "z")] + h.GIVEN)


def series_prep(ip, code, extra):
    q = QREG(ip, 1, "other_q")
    cs = [CREG(ip, 1, "given%d" % i) for i in range(1, 5)]
    ip.call(ip.get_attr(code.circ, "add_register"), [q] + cs, {})
    extra["q"] = ip.get_item(q, const(0))
    for i, c in enumerate(cs):
        extra["c%d" % (i + 1)] = c


def c07_series(ck, lab, cn, rg, hw, k, what, calls, want):
    R = "readout_" + k
    f = lab.flat(cn, rg, "series:%s:%s" % (k, what), hw, calls, series_prep)
    names = [c[0] + ("(given)" if len(c) > 2 and c[0] == R else "") for c in calls]
    at, got = 0, 0
    ops = f.c.ops
    base = len(ops) - sum(len(f.ops(j)) for j in range(2, len(calls) + 2))
    for j, c in enumerate(calls):
        mine = f.ops(j + 2)
        if c[0] == R:
            ms = [i for i in range(base, base + len(mine)) if ops[i].name == "measure"]
            if len(ms) != 1:
                raise Definite("%s performs %d measurements" % (R, len(ms)), mine[0].site if mine else None)
            i = ms[0]
            who = ", ".join(names[: j + 1])
            try:
                p = backward(ops[:i], Pauli((), (ops[i].q[0],)))
            except Random as e:
                ck.ob("a readout tells the logical value", False, "%s: the last readout is random (%s)" % (who, e), e.op.site)
            else:
                # a qubit on the circuit that is not part of the code is in |0>
                z = [b for b in p.z if not f.isdata(b)]
                d = [b for b in p.support() if f.isdata(b)]
                ck.ob("a readout tells the logical value", not d and not [b for b in p.x if not f.isdata(b)] and bconst(p.s) is bool(want[got]), lambda: "%s: the last readout is %s instead of %d" % (who, f.show(p), want[got]), ops[i].site)
            got += 1
        base += len(mine)


def c07_one(ck, lab, cn, rg, hw):
    fr, checks = lab.checks(cn, rg, hw)
    by = {c[1]: fr.restrict(p)[0] for c, p, _ in checks}
    f2, hits2, name = plaquette_map(ck, lab, cn, rg, hw)
    typ = {k: w[0][0] for k, w in name.items() if len(w) == 1}
    for k in "xz":
        f = lab.flat(cn, rg, "op:reset_" + k, hw, [("reset_" + k,)])
        ops = f.ops(1)
        st = ops[0].site if ops else None
        ck.ob("reset is unconditional", all(o.cond is None for o in ops), "reset_%s has a conditional gate" % k, st)
        L = lab.logical(cn, rg, hw, k)[1]
        p = back(f, ops, L, "reset_" + k)
        ck.ob("reset prepares the +1 logical state", p == Pauli(), lambda: "after reset_%s the logical %s has value %s" % (k, k.upper(), f.show(p)), st)
        for i, d in by.items():
            if typ.get(i) == k.upper():
                p = back(f, ops, d, "reset_" + k)
                ck.ob("reset prepares the +1 state of its checks", p == Pauli(), lambda: "after reset_%s the check %s has value %s" % (k, f.show(d), f.show(p)), st)
    for k in "xz":
        f = lab.flat(cn, rg, "ro:%s:fresh" % k, hw, [("readout_" + k,)])
        ops = f.ops(1)
        st = ops[0].site if ops else None
        L = lab.logical(cn, rg, hw, k)[1]
        for nm, d in [("logical " + k.upper(), L)] + [("check", d) for d in by.values()]:
            p = back(f, ops, d, "readout_" + k)
            ck.ob("logical readout is non-destructive", p == d, lambda: "readout_%s maps the %s %s to %s" % (k, nm, f.show(d), f.show(p)), st)
    # readouts one after another: each tells the value the qubit has at that moment
    for k in "xz":
        fl, R = ("z" if k == "x" else "x"), "readout_" + k
        giv = lambda c: (R, [], {"readout_creg": c})
        cnot = ("cx", [], {"control": "$q"} if k == "x" else {"target": "$q"})
        for what, calls, want in (
            ("given registers", [("reset_" + k,), giv("$c1"), (fl,), giv("$c2"), giv("$c3"), ("stabilize",), giv("$c4")], (0, 1, 1, 1)),
            ("fresh registers", [("reset_" + k,), (R,), (fl,), (R,), (R,), ("stabilize",), (R,)], (0, 1, 1, 1)),
            ("one given register", [("stabilize",), ("reset_" + k,), (fl,), giv("$c1"), giv("$c1"), (fl,), giv("$c1")], (1, 1, 0)),
            ("a reset in between", [("reset_" + k,), (fl,), (R,), ("reset_" + k,), giv("$c1"), (R,)], (1, 0, 0)),
            ("a controlled operation in between", [("reset_" + k,), (fl,), giv("$c1"), cnot, giv("$c2"), (R,)], (1, 1, 1)),
        ):
            ck.case("readouts %s, %s" % (k, what), c07_series, ck, lab, cn, rg, hw, k, what, calls, want)
    # whole experiment: reset, rounds, readout reads 0 with no hit
    for k in "xz":
        for ro in ("readout_" + k, "lattice_readout_" + k):
            f = lab.flat(cn, rg, "exp:%s:%s" % (k, ro), hw, [("reset_" + k,), ("stabilize",), ("stabilize",), (ro,)])
            v, _ = parse_at(lab, cn, rg, f, k.upper())
            val = as_bool(v[0])
            a = affine(val) if val is not None else None
            if a is None:
                raise Undecided("logical value %r" % (v[0],))
            ops = f.c.ops
            sub = {}
            for i, o in enumerate(ops):
                if o.name == "measure":
                    sub[next(iter(next(iter(bitvar(o.c).m))))] = i

            def outcome(b, what):
                af = affine(b)
                if af is None:
                    raise Undecided("%s is not affine" % what)
                vs, c = af
                # joint operator of the outcomes, pulled back to the start of the circuit
                p = Pauli((), (), BT if c else BF)
                idx = sorted((sub[x] for x in vs if x in sub), reverse=True)
                if len(idx) != len(vs):
                    raise Undecided("%s uses a bit that is never measured" % what)
                pos = len(ops)
                for i in idx:
                    p = backward(ops[i + 1 : pos], p)
                    # the measurement itself: value is Z before it
                    q = ops[i].q[0]
                    if q in p.x:
                        raise Random(ops[i], p)
                    p = p.times(Pauli((), (q,)))
                    pos = i
                return backward(ops[:pos], p)

            try:
                p = outcome(val, "the logical value")
                d, rx, rz = f.restrict(p)
                ck.ob("a noiseless experiment reads 0", not d.support() and not rx and bconst(p.s) is False, lambda: "reset_%s, 2 rounds, %s: the logical value is %s" % (k, ro, f.show(p)), None)
            except Random as e:
                ck.ob("a noiseless experiment reads 0", False, "reset_%s, 2 rounds, %s: the logical value is random (%s)" % (k, ro, e), e.op.site)
            for T, dct in hits_of(v, f).items():
                for c, g in dct.items():
                    try:
                        p = outcome(g, "hit")
                        d, rx, rz = f.restrict(p)
                        ck.ob("a noiseless experiment has no hit", not d.support() and not rx and bconst(p.s) is False, lambda: "reset_%s, 2 rounds, %s: %s hit %s has value %s" % (k, ro, T, fmt(c), f.show(p)))
                    except Random as e:
                        ck.ob("a noiseless experiment has no hit", False, "reset_%s, 2 rounds, %s: %s hit %s is random" % (k, ro, T, fmt(c)), e.op.site)
