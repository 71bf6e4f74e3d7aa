"""
Pauli operators over circuit qubits and their exact propagation (Heisenberg
picture, backwards) through Clifford instruction lists with resets,
measurements and classically conditioned Paulis.  Signs are GF(2) functions of
measurement outcomes.
"""
from .inst import *


class Pauli:
    __slots__ = ("x", "z", "s")

    def __init__(self, x=(), z=(), s=None):
        self.x, self.z = frozenset(x), frozenset(z)
        self.s = BF if s is None else s  # sign exponent (B)

    def key(self):
        return (self.x, self.z)

    def __eq__(self, o):
        return isinstance(o, Pauli) and self.x == o.x and self.z == o.z and self.s == o.s

    def __hash__(self):
        return hash((self.x, self.z))

    def commutes(self, o):
        return (len(self.x & o.z) + len(self.z & o.x)) % 2 == 0

    def times(self, o):
        """product of commuting Hermitian Paulis (Y counted as iXZ), sign exact"""
        # exponent of i: represent each Pauli as i^{|x&z|} X^x Z^z
        e = len(self.x & self.z) + len(o.x & o.z)
        # (X^a Z^b)(X^c Z^d) = (-1)^{|b&c|} X^{a^c} Z^{b^d}
        e += 2 * len(self.z & o.x)
        x, z = self.x ^ o.x, self.z ^ o.z
        e -= len(x & z)
        if e % 2:
            raise Undecided("product of anticommuting Paulis")
        s = bxor(self.s, o.s)
        if e % 4 == 2:
            s = bxor(s, BT)
        return Pauli(x, z, s)

    def support(self):
        return self.x | self.z

    def __repr__(self):
        return self.show(str)

    def show(self, nm):
        out = []
        for q in sorted(self.support(), key=lambda b: (b[0], b[1])):
            p = "Y" if q in self.x and q in self.z else "X" if q in self.x else "Z"
            out.append("%s(%s)" % (p, nm(q)))
        sg = bconst(self.s)
        pre = "-" if sg is True else "" if sg is False else "(-1)^[%r] " % (self.s,)
        return pre + ("*".join(out) or "I")


class Random(Exception):
    """the operator has no definite value (it was randomised by a reset/measurement)"""

    def __init__(self, op, p):
        Exception.__init__(self, "operator randomised by %r" % (op,))
        self.op, self.p = op, p


def back1(name, q, p):
    """U^dagger P U for one Clifford gate"""
    x, z, s = p.x, p.z, p.s
    if name in ("id", "barrier", "i"):
        return p
    a = q[0]
    if name in ("x", "y", "z"):
        anti = (name in "xy" and a in z) ^ (name in "yz" and a in x)
        return Pauli(x, z, bxor(s, BT)) if anti else p
    if name == "h":
        if a in x and a in z:
            s = bxor(s, BT)
        nx = (x - {a}) | ({a} if a in z else set())
        nz = (z - {a}) | ({a} if a in x else set())
        return Pauli(nx, nz, s)
    if name in ("s", "sdg"):
        # S^dag X S = -Y ; S X S^dag = Y
        if a in x:
            y = a in z
            flip = (not y) if name == "s" else y
            if flip:
                s = bxor(s, BT)
            z = z ^ {a}
        return Pauli(x, z, s)
    b = q[1]
    if name == "cx":
        # CX: X_a -> X_a X_b ; Z_b -> Z_a Z_b
        xa, zb = a in x, b in z
        e = len(x & z)
        nx = x ^ {b} if xa else x
        nz = z ^ {a} if zb else z
        if xa and zb and ((b in x) == (a in z)):
            s = bxor(s, BT)
        return Pauli(nx, nz, s)
    if name == "cz":
        p = back1("h", (b,), p)
        p = back1("cx", (a, b), p)
        return back1("h", (b,), p)
    if name == "cy":
        # CY = S_b CX S_b^dag  (U = S CX Sdg)
        p = back1("s", (b,), p)
        p = back1("cx", (a, b), p)
        return back1("sdg", (b,), p)
    if name == "swap":
        def sw(t):
            r = t - {a, b}
            if a in t:
                r = r | {b}
            if b in t:
                r = r | {a}
            return r
        return Pauli(sw(x), sw(z), s)
    raise Undecided("gate %s is not a modelled Clifford" % name)


def bitvar(c):
    return bvar("m%s_%s" % (c[0], c[1]))


def backward(ops, p, feed=False):
    """operator before `ops` whose value equals that of p after `ops`.

    feed=True: outcome bits that appear in the sign are replaced by the measured
    operator at the measurement that wrote them."""
    for o in reversed(ops):
        n = o.name
        if n == "barrier":
            continue
        if o.cond is not None:
            if n not in ("x", "y", "z", "id"):
                raise Undecided("conditional %s" % n)
            if n == "id":
                continue
            q = o.q[0]
            anti = (n in "xy" and q in p.z) ^ (n in "yz" and q in p.x)
            if anti:
                bits, val = o.cond
                t = BT
                for i, b in enumerate(bits):
                    v = bitvar(b)
                    t = band(t, v if val >> i & 1 else bnot(v))
                if val >> len(bits):
                    t = BF
                p = Pauli(p.x, p.z, bxor(p.s, t))
            continue
        if n == "reset":
            q = o.q[0]
            if q in p.x:
                raise Random(o, p)
            if q in p.z:
                p = Pauli(p.x, p.z - {q}, p.s)
            continue
        if n == "measure":
            q = o.q[0]
            if q in p.x:
                raise Random(o, p)
            if feed:
                v = bitvar(o.c)
                name = next(iter(next(iter(v.m))))
                lins = [m for m in p.s.m if name in m]
                if lins:
                    if lins != [frozenset([name])]:
                        raise Undecided("sign is not affine in an outcome")
                    p = Pauli(p.x, p.z, bxor(p.s, v)).times(Pauli((), (q,)))
            continue
        p = back1(n, o.q, p)
    return p


def measured(ops, i):
    """operator before ops[0] measured by the measurement ops[i]"""
    o = ops[i]
    return backward(ops[:i], Pauli((), o.q))


def span(gens):
    """GF(2) row space of unsigned Paulis; returns membership test and rank"""
    rows = []  # (pivot, set)

    def vec(p):
        return frozenset([("x", q) for q in p.x] + [("z", q) for q in p.z])

    piv = {}

    def red(v):
        v = set(v)
        while True:
            h = None
            for e in v:
                if e in piv:
                    h = e
                    break
            if h is None:
                return v
            v ^= piv[h]
        return v

    rank = 0
    for g in gens:
        v = red(vec(g))
        if v:
            h = next(iter(v))
            # keep pivots reduced so that membership terminates
            for k in list(piv):
                if h in piv[k]:
                    piv[k] = piv[k] ^ frozenset(v)
            piv[h] = frozenset(v)
            rank += 1

    return rank, (lambda p: not red(vec(p)))
