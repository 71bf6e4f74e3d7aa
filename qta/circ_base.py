"""histories of code operations and their instantiated instruction lists"""
from .world import *
from .pauli import *
from .inst import *
from .lits import literals, rates, spare

CREG = lambda ip, size, name: ip.call(mk("ext", "qiskit.ClassicalRegister"), [const(size)], {"name": const(name)})
QREG = lambda ip, size, name: ip.call(mk("ext", "qiskit.QuantumRegister"), [const(size)], {"name": const(name)})


def exc_name(n):
    return getattr(n, "name", None) or str(n)


class Hist:
    """constructor followed by the given calls, summarised once for all sizes

    calls: list of (method, args, kwargs); an arg may be a function of the interpreter."""

    def __init__(self, code, calls, prep=None):
        self.code = code
        st = code.state
        self.res = [code.r]
        self.labels = ["constructor"]
        self.extra = {}
        if prep is not None:
            r = code.w.run(lambda ip: prep(ip, code, self.extra), st)
            self.res.append(r)
            self.labels.append("prepare")
            st = r.state
        for c in calls:
            m = c[0]
            a = [self.extra[x[1:]] if isinstance(x, str) and x[:1] == "$" else x for x in (c[1] if len(c) > 1 else ())]
            k = {n: (self.extra[x[1:]] if isinstance(x, str) and x[:1] == "$" else x) for n, x in (c[2] if len(c) > 2 else {}).items()}
            r = code.w.call(st, code.lat if m.startswith("lattice.") else code.q, m.rpartition(".")[2], a, k)
            self.res.append(r)
            self.labels.append(m)
            if r.dead:
                break
            st = r.state
        self.state = st

    def at(self, hw, env=None):
        return Flat(self, hw, env)


class Flat:
    """one size of a history: flat instruction list plus slices per call"""

    def __init__(self, hist, hw, env=None):
        self.hist, self.hw, self.code = hist, hw, hist.code
        e = dict(hist.code.env(hw))
        e.update(env or {})
        self.env = e
        self.ex = Expander(hist.state.heap, e)
        self.ev = self.ex.ev
        ca = self.ev(hist.code.circ)
        self.slices = []
        self.regmarks = []
        from .inst import Circ

        self.c = self.ex.circs.setdefault(ca.addr, Circ())
        for r, lab in zip(hist.res, hist.labels):
            self.check_raises(r, lab)
            a = len(self.c.ops)
            b = len(self.c.order)
            self.ex.run(r.effects)
            self.slices.append((a, len(self.c.ops)))
            self.regmarks.append((b, len(self.c.order)))
        others = [x for k, x in self.ex.circs.items() if x is not self.c and x.ops]
        if others:
            raise Definite("%s.%s emits instructions into a circuit that is not the qubit's own" % (self.code.cname, hist.labels[-1]), others[0].ops[0].site)

    def check_raises(self, r, lab):
        for st, name, v, site in r.raises:
            vals = []
            try:
                for p in st.pc[len(r.base.pc) :]:
                    vals.append(self.ev.cond(p))
            except Undecided:
                if any(x is False for x in vals):
                    continue
                raise
            if any(x is False for x in vals):
                continue
            if all(x is True for x in vals):
                raise Definite("%s.%s raises %s for d=%s" % (self.code.cname, lab, exc_name(name), self.dims()), site)
            raise Undecided("%s.%s may raise %s" % (self.code.cname, lab, exc_name(name)))
        if r.dead:
            raise Definite("%s.%s always raises" % (self.code.cname, lab), None)

    def dims(self):
        return (self.code.dh(self.hw), self.code.dw(self.hw))

    def ops(self, i):
        a, b = self.slices[i]
        return self.c.ops[a:b]

    def newregs(self, i):
        a, b = self.regmarks[i]
        return self.c.order[a:b]

    # ------------------------------------------------------------ qubits
    def data(self):
        if not hasattr(self, "_data"):
            v = self.ev(self.code.w.run(lambda ip: ip.call(ip.get_attr(ip.get_attr(self.code.lat, "qregisters"), "get"), [const("data")], {}), self.hist.state).value)
            if not isinstance(v, Reg):
                raise Definite("there is no data register (lattice.qregisters['data'])")
            dh, dw = self.dims()
            if v.size != dh * dw:
                raise Definite("%s: the data register has %d qubits for a %dx%d code" % (self.code.cname, v.size, dh, dw))
            self._data = v
        return self._data

    def dq(self, r, c):
        return Bit((self.data().addr, r * self.dims()[1] + c))

    def isdata(self, q):
        return q[0] == self.data().addr

    def restrict(self, p):
        """split a Pauli into its data part and the rest"""
        d = Pauli([q for q in p.x if self.isdata(q)], [q for q in p.z if self.isdata(q)], p.s)
        rx, rz = [q for q in p.x if not self.isdata(q)], [q for q in p.z if not self.isdata(q)]
        return d, rx, rz

    def name(self, b):
        for a, r in self.c.addrs.items():
            if a == b[0]:
                nm = r.name if isinstance(r.name, str) else "reg%d" % a
                if self.isdata(b):
                    return "data[%d,%d]" % divmod(b[1], self.dims()[1])
                return "%s[%d]" % (nm, b[1])
        return str(b)

    def show(self, p):
        return p.show(self.name)


def pauli_of(ops, flat, what, cond=None):
    """product of a list of Pauli gates (the operator an operation applies)"""
    p = Pauli()
    x, z = set(), set()
    for o in ops:
        if o.name in ("barrier", "id"):
            continue
        if o.name not in ("x", "y", "z"):
            return None, o
        if (o.cond is None) != (cond is None) or (cond is not None and o.cond != cond):
            return None, o
        if o.name in "xy":
            x ^= {o.q[0]}
        if o.name in "yz":
            z ^= {o.q[0]}
    return Pauli(x, z), None


# ------------------------------------------------------------ cached scenario store
class Lab:
    """per-run cache of codes, histories and their instantiations"""

    def __init__(self, ck):
        self.ck, self.w = ck, ck.world
        self.codes, self.hists, self.flats = {}, {}, {}

    def code(self, cn, rg):
        if (cn, rg) not in self.codes:
            self.codes[cn, rg] = Code(self.w, cn, rg)
        return self.codes[cn, rg]

    def hist(self, cn, rg, key, calls, prep=None):
        k = (cn, rg, key)
        if k not in self.hists:
            self.hists[k] = Hist(self.code(cn, rg), calls, prep)
        return self.hists[k]

    def flat(self, cn, rg, key, hw, calls=None, prep=None, env=None):
        k = (cn, rg, key, hw)
        if k not in self.flats:
            self.flats[k] = self.hist(cn, rg, key, calls, prep).at(hw, env)
        return self.flats[k]

    # standard pieces ------------------------------------------------
    def logical(self, cn, rg, hw, which):
        """the logical Pauli an unconditioned x()/z() applies"""
        f = self.flat(cn, rg, "op:" + which, hw, [(which,)])
        p, bad = pauli_of(f.ops(1), f, which)
        if p is None:
            raise Definite("%s.%s applies %r, which is not an unconditional Pauli" % (cn, which, bad.name), bad.site)
        d, rx, rz = f.restrict(p)
        if rx or rz:
            raise Definite("%s.%s acts on %s outside the data register" % (cn, which, ", ".join(map(f.name, rx + rz))), f.ops(1)[0].site)
        return f, d

    def rounds(self, cn, rg, hw, n):
        return self.flat(cn, rg, "round%d" % n, hw, [("stabilize",)] * n)

    def checks(self, cn, rg, hw):
        """[(outcome bit, measured operator, op)] of the first stabilization round"""
        f = self.rounds(cn, rg, hw, 1)
        ops = f.ops(1)
        out = []
        for i, o in enumerate(ops):
            if o.name == "measure":
                try:
                    p = measured(ops, i)
                except Random as e:
                    raise Definite("stabilize: outcome %s is random, its operator is erased by %s" % (f.name(o.c), e.op.name), e.op.site)
                out.append((o.c, p, o))
        return f, out


def more_sizes(rg, have, lits):
    """sizes around the numbers the source mentions (none on the unchanged tree)"""
    out = []
    for c in lits[:6]:
        if c <= 25:
            for s in (c // 2 - 1, c // 2, c // 2 + 1):
                out += [(s, 1), (1, s)] if rg == "2d" else [(s, 0)] if rg == "column" else [(0, s)]
        if rg == "2d":
            k = 1
            while (2 * k + 1) ** 2 <= c + 1:
                k += 1
            out.append((k, k))
    return [x for i, x in enumerate(out) if max(x) > 0 and x not in have and x not in out[:i]]


def each(ck, lab, n_quick, n_thorough, codes=CODES):
    n = n_thorough if ck.thorough else n_quick
    for cn, rg in codes:
        code = ck.case("%s %s" % (cn, rg), lab.code, cn, rg)
        if code is None:
            continue
        grid = code.grid(n)
        for i, hw in enumerate(grid + more_sizes(rg, grid, literals(ck, 50))):
            if i >= len(grid) and not spare(ck):
                break
            yield cn, rg, hw, "%s d=%dx%d" % (cn, code.dh(hw), code.dw(hw))
