"""
Instantiation of summaries: the closed-form terms and effect summaries produced
by the abstract interpreter are evaluated over a value domain in which code
dimensions are integers while measurement outcomes stay abstract - every
outcome bit is an unknown over GF(2), every derived bit/condition its algebraic
normal form (canonical, so equal functions of the outcomes are equal objects).
"""
from fractions import Fraction
import math, struct
from .terms import *
from . import terms as T
from .interp import AnalysisError, INF


class Undecided(AnalysisError):
    pass


class Definite(Exception):
    """the analysed code certainly misbehaves here (index out of range, None used as a bit, ...)"""

    def __init__(self, msg, site=None):
        Exception.__init__(self, msg)
        self.site = site


# ---------------------------------------------------------------- GF(2)
class B:
    """boolean function of outcome bits in algebraic normal form"""

    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = hash(m)

    def __eq__(self, o):
        return isinstance(o, B) and self.m == o.m

    def __hash__(self):
        return self._h

    def __repr__(self):
        if not self.m:
            return "0"
        return " + ".join(sorted("*".join(sorted(map(str, x))) or "1" for x in self.m))


_ONE = frozenset([frozenset()])
BT, BF = B(_ONE), B(frozenset())


def bvar(name):
    return B(frozenset([frozenset([name])]))


def bxor(a, b):
    return B(a.m ^ b.m)


def bnot(a):
    return B(a.m ^ _ONE)


def band(a, b):
    if a is b or a == b:
        return a
    acc = set()
    for x in a.m:
        for y in b.m:
            acc ^= {x | y}
    if len(acc) > 4096:
        raise Undecided("boolean function too large")
    return B(frozenset(acc))


def bor(a, b):
    return bxor(bxor(a, b), band(a, b))


def bconst(b):
    """True/False if constant else None"""
    if not b.m:
        return False
    if b.m == _ONE:
        return True
    return None


def norm(b):
    c = bconst(b)
    return b if c is None else c


def asB(v):
    if isinstance(v, B):
        return v
    return BT if v else BF


class Lin:
    """integer combination of GF(2) unknowns"""

    __slots__ = ("d", "c")

    def __init__(self, d, c=0):
        self.d = {k: v for k, v in d.items() if v}
        self.c = c

    def __repr__(self):
        return "Lin(%s,%s)" % (self.d, self.c)

    def __eq__(self, o):
        return isinstance(o, Lin) and o.d == self.d and o.c == self.c

    def __hash__(self):
        return hash((frozenset(self.d.items()), self.c))


def lin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, B):
        c = bconst(v)
        return Lin({v: 1}) if c is None else Lin({}, int(c))
    if isinstance(v, bool):
        return Lin({}, int(v))
    if isinstance(v, (int, Fraction)):
        return Lin({}, v)
    if isinstance(v, BI):
        return Lin({b: 1 << i for i, b in enumerate(v.bits) if bconst(b) is None}, sum(1 << i for i, b in enumerate(v.bits) if bconst(b) is True))
    raise Undecided("not a number: %r" % (v,))


def lnorm(l):
    if not l.d:
        return l.c
    return l


def lcases(l, f):
    """value of f over all assignments of the unknowns, as ite tree -> B (f returns bool)"""
    ks = list(l.d)
    if len(ks) > 10:
        raise Undecided("condition over too many outcome bits")
    acc = BF
    for mask in range(1 << len(ks)):
        s, t = l.c, BT
        for i, k in enumerate(ks):
            if mask >> i & 1:
                s += l.d[k]
                t = band(t, k)
            else:
                t = band(t, bnot(k))
        if f(s):
            acc = bxor(acc, t)
    return norm(acc)


class BI:
    """non-negative integer whose bits are boolean functions (low bit first)"""

    __slots__ = ("bits",)

    def __init__(self, bits):
        bits = list(bits)
        while bits and bconst(bits[-1]) is False:
            bits.pop()
        self.bits = tuple(bits)

    def __repr__(self):
        return "BI%r" % (self.bits,)

    def __eq__(self, o):
        return isinstance(o, BI) and o.bits == self.bits

    def __hash__(self):
        return hash(self.bits)


def bint(v):
    if isinstance(v, BI):
        return v
    if isinstance(v, B):
        return BI([v])
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int) and v >= 0:
        return BI([BT if v >> i & 1 else BF for i in range(v.bit_length())])
    if isinstance(v, Lin):
        if not v.d:
            return bint(v.c)
        # binary expansion only for 0/1 valued or distinct powers of two
        cs = sorted(v.d.values())
        if v.c == 0 and all(c > 0 and c & (c - 1) == 0 for c in cs) and len(set(cs)) == len(cs):
            n = max(cs).bit_length()
            bits = [BF] * n
            for k, c in v.d.items():
                bits[c.bit_length() - 1] = k
            return BI(bits)
        m = lparity(v)
        if m is not None and set(cs) <= {1, -1} and len(cs) == 1:
            return BI([m])
    raise Undecided("not a bit vector: %r" % (v,))


def lparity(l):
    acc = BF
    for k, c in l.d.items():
        if c.denominator != 1:
            return None
        if int(c) % 2:
            acc = bxor(acc, k)
    if Fraction(l.c).denominator != 1:
        return None
    return bxor(acc, BT) if int(l.c) % 2 else acc


def bi_norm(b):
    if all(bconst(x) is not None for x in b.bits):
        return sum(1 << i for i, x in enumerate(b.bits) if bconst(x))
    return b


class BS:
    """string with abstract '0'/'1' characters"""

    __slots__ = ("ch",)

    def __init__(self, ch):
        self.ch = tuple(ch)

    def __repr__(self):
        return "BS(%s)" % "".join(c if isinstance(c, str) else "?" for c in self.ch)

    def __eq__(self, o):
        return isinstance(o, BS) and o.ch == self.ch

    def __hash__(self):
        return hash(self.ch)


def s_norm(ch):
    out = []
    for c in ch:
        if isinstance(c, B):
            k = bconst(c)
            out.append(c if k is None else "1" if k else "0")
        else:
            out.append(c)
    if all(isinstance(c, str) for c in out):
        return "".join(out)
    return BS(out)


def chars(v):
    if isinstance(v, str):
        return list(v)
    if isinstance(v, BS):
        return list(v.ch)
    if isinstance(v, B):
        return [v]
    raise Undecided("not a string: %r" % (v,))


class G:
    """conditionally present list element"""

    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g, self.v = g, v

    def __repr__(self):
        return "<%r if %r>" % (self.v, self.g)


class Bit(tuple):
    """(register key, index)"""

    def __repr__(self):
        return "bit%s[%d]" % (self[0], self[1])


class Reg:
    __slots__ = ("addr", "kind", "size", "name")

    def __init__(self, addr, kind, size, name):
        self.addr, self.kind, self.size, self.name = addr, kind, size, name

    def __eq__(self, o):
        return isinstance(o, Reg) and o.addr == self.addr

    def __hash__(self):
        return hash(self.addr)

    def __repr__(self):
        return "%s(%s,%s)" % (self.kind, self.size, self.name)


class Ref:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(self.addr)

    def __repr__(self):
        return "&%s" % self.addr


class Node:
    """index of a graph node, with the graph and label it belongs to"""

    __slots__ = ("g", "label", "idx")

    def __init__(self, g, label, idx=None):
        self.g, self.label, self.idx = g, label, idx

    def __eq__(self, o):
        if self.idx is not None and isinstance(o, int) and not isinstance(o, bool):
            return self.idx == o
        if not isinstance(o, Node):
            return False
        if self.idx is not None and o.idx is not None:
            return self.idx == o.idx
        return (o.g, o.label) == (self.g, self.label)

    def __hash__(self):
        return hash((self.g, self.label)) if self.idx is None else hash(self.idx)

    def __repr__(self):
        return "node%r" % (self.label,)


def _num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


MAXN = 20000


class LKey:
    """a list as part of a dictionary key, hashed once"""

    __slots__ = ("v", "h", "guarded", "bits")

    def __init__(self, v):
        self.v, self.h = v, hash(tuple(v))
        self.guarded = any(isinstance(x, G) for x in v)
        self.bits = frozenset(v) if all(type(x) is Bit for x in v) else None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, LKey) and (self.v is o.v or self.h == o.h and self.v == o.v)


class Ev:
    def __init__(self, heap, env=None, hook=None):
        self.heap = heap
        self.env = dict(env or {})
        self.hook = hook
        self.memo = {}
        self.lkeys = {}
        self.fs = {}
        self.recs = {}
        self.loc = None

    # -------------------------------------------------------- entry
    def __call__(self, t):
        return self.ev(t)

    def bad(self, msg):
        raise Definite(msg, self.loc)

    def free(self, t):
        r = self.fs.get(t)
        if r is None:
            r = tuple(sorted(free_syms(t), key=lambda x: x.uid))
            self.fs[t] = r
        return r

    def with_env(self, upd, t):
        old = {}
        for k, v in upd.items():
            old[k] = self.env.get(k, _MISS)
            self.env[k] = v
        try:
            return self.ev(t) if isinstance(t, Term) else t()
        finally:
            for k, v in old.items():
                if v is _MISS:
                    self.env.pop(k, None)
                else:
                    self.env[k] = v

    def ev(self, t):
        op = t.op
        if op == "c":
            v = t.args[0]
            return _num(v)
        if op == "s":
            v = self.env.get(t, _MISS)
            if v is _MISS:
                if self.hook:
                    v = self.hook(self, t)
                    if v is not None:
                        return v
                raise Undecided("unresolved symbol %s" % (t.args[0],))
            return v
        try:
            key = (t, tuple(self.env.get(s) for s in self.free(t)))
            r = self.memo.get(key, _MISS)
            if r is not _MISS:
                return r
        except TypeError:
            try:
                key = (t, tuple([self.lkey(v) if isinstance(v, list) else v for v in map(self.env.get, self.free(t))]))
                r = self.memo.get(key, _MISS)
                if r is not _MISS:
                    return r
            except TypeError:
                key = None
        r = self.ev1(t)
        if key is not None:
            self.memo[key] = r
        return r

    def lkey(self, v):
        """hash key of a list, which is never changed once it is a value"""
        k = self.lkeys.get(id(v))
        if k is None:
            k = self.lkeys[id(v)] = LKey(v)
        return k

    def known(self, v):
        try:
            return self.lkey(v)
        except TypeError:
            return None

    def ev1(self, t):
        if self.hook:
            v = self.hook(self, t)
            if v is not None:
                return v
        m = getattr(self, "o_" + t.op, None)
        if m is None:
            raise Undecided("cannot evaluate %s" % show(t)[:200])
        return m(t)

    def cond(self, t):
        """boolean value: True/False or B"""
        return self.tr(self.ev(t))

    def tr(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, B):
            return norm(v)
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, Lin):
            if len(v.d) == 1 and v.c == 0:
                return norm(next(iter(v.d)))
            if v.c >= 0 and all(c > 0 for c in v.d.values()):
                if v.c > 0:
                    return True
                acc = BF
                for k in v.d:
                    acc = bor(acc, k)
                return norm(acc)
            return lcases(v, lambda s: s != 0)
        if isinstance(v, BI):
            acc = BF
            for b in v.bits:
                acc = bor(acc, b)
            return norm(acc)
        if isinstance(v, (str, tuple, dict)):
            return len(v) > 0
        if isinstance(v, BS):
            return len(v.ch) > 0
        if isinstance(v, list):
            acc = BF
            for x in v:
                if isinstance(x, G):
                    acc = bor(acc, asB(x.g))
                else:
                    return True
            return norm(acc)
        return True

    def integer(self, t, what="integer"):
        v = self.ev(t) if isinstance(t, Term) else t
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, BI):
            v = bi_norm(v)
            if isinstance(v, int):
                return v
        if isinstance(v, Lin) and not v.d:
            return int(v.c)
        raise Undecided("%s expected, got %r" % (what, v))

    # -------------------------------------------------------- leaves
    def o_ref(self, t):
        o = self.heap.get(t.args[0])
        if o is None:
            return Ref(t.args[0])
        if o.kind == "ext" and o.label in ("QuantumRegister", "ClassicalRegister"):
            return Reg(t.args[0], o.label, self.integer(o.data["size"], "register size"), self.ev(o.data["name"]))
        if o.kind in ("list", "set"):
            return self.segs(o.data)
        if o.kind == "dict":
            return self.entries(o.data)
        return Ref(t.args[0])

    def o_class(self, t):
        return t

    o_func = o_ext = o_bound = o_partial = o_class

    def o_bit(self, t):
        r = self.ev(t.args[0])
        i = self.ev(t.args[1])
        if i is None:
            self.bad("None used as a qubit index")
        if isinstance(i, list):
            return [self.mkbit(r, x) for x in i]
        return self.mkbit(r, self.integer(i, "qubit index"))

    def mkbit(self, r, i):
        if not isinstance(r, Reg):
            raise Undecided("bit of %r" % (r,))
        if i is None:
            self.bad("None used as a qubit index")
        if not isinstance(i, int):
            i = self.integer(i)
        if i < 0:
            i += r.size
        if not 0 <= i < r.size:
            self.bad("index %d outside register %s of size %d" % (i, r.name, r.size))
        return Bit((r.addr, i))

    def o_node(self, t):
        return Node(self.ev(t.args[0]), hashable(self.ev(t.args[1])))

    def o_nodelabel(self, t):
        n = self.ev(t.args[1])
        if isinstance(n, Node):
            return n.label
        raise Undecided("label of %r" % (n,))

    # -------------------------------------------------------- numbers
    def o_poly(self, t):
        num, l = Fraction(0), None
        flt = False
        for m, c in t.args[0]:
            x = c
            for a in m:
                v = self.ev(a)
                if v is None:
                    self.bad("arithmetic on None")
                x = self.mul(x, v)
            if isinstance(x, Lin):
                l = x if l is None else self.ladd(l, x)
            elif isinstance(x, float):
                num = num + x if flt else float(num) + x
                flt = True
            else:
                num = num + (float(x) if flt else x)
        if l is not None:
            return lnorm(Lin(l.d, l.c + num))
        return num if flt else _num(num)

    def ladd(self, a, b):
        d = dict(a.d)
        for k, v in b.d.items():
            d[k] = d.get(k, 0) + v
        return Lin(d, a.c + b.c)

    def node_number(self, v):
        if v.idx is not None:
            return v.idx
        g = getattr(getattr(self, "ex", None), "graphs", {}).get(getattr(v.g, "addr", None))
        i = g.pos.get(v.label) if g is not None else None
        if i is None:
            raise Undecided("number of %r" % (v,))
        return i

    def mul(self, x, v):
        if isinstance(v, Node):
            v = self.node_number(v)
        if isinstance(x, Node):
            x = self.node_number(x)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(v, (int, Fraction)) and isinstance(x, (int, Fraction)):
            return x * v
        if isinstance(v, float) or isinstance(x, float):
            if isinstance(v, (int, Fraction, float)) and isinstance(x, (int, Fraction, float)):
                return float(x) * float(v)
        if isinstance(v, (B, BI, Lin)) and isinstance(x, (int, Fraction)):
            l = lin(v)
            return Lin({k: c * x for k, c in l.d.items()}, l.c * x)
        if isinstance(x, Lin) and isinstance(v, (int, Fraction)):
            return Lin({k: c * v for k, c in x.d.items()}, x.c * v)
        if isinstance(x, Lin) and isinstance(v, (B, BI, Lin)):
            l = lin(v)
            out = {}
            for k1, c1 in list(x.d.items()) + [(BT, x.c)]:
                for k2, c2 in list(l.d.items()) + [(BT, l.c)]:
                    k = band(k1, k2)
                    out[k] = out.get(k, 0) + c1 * c2
            c = out.pop(BT, 0)
            return Lin(out, c)
        if isinstance(v, (list, tuple, str)) and isinstance(x, (int, Fraction)):
            return v * int(x)
        raise Undecided("product of %r and %r" % (x, v))

    def o_inv(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, bool) or not isinstance(v, (int, Fraction, float)):
            raise Undecided("division by %r" % (v,))
        if v == 0:
            self.bad("division by zero")
        return Fraction(1) / v if not isinstance(v, float) else 1 / v

    def o_floordiv(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if b == 0:
                self.bad("integer division by zero")
            return _num(Fraction(a // b))
        if isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            x = bint(a)
            return bi_norm(BI(x.bits[b.bit_length() - 1 :]))
        raise Undecided("floordiv of %r" % (a,))

    def o_mod(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, bool):
            a = int(a)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if b == 0:
                self.bad("modulo by zero")
            return _num(Fraction(a % b))
        if b == 2 and isinstance(a, (B, Lin)):
            p = lparity(lin(a))
            if p is not None:
                return lnorm(lin(p))
        if isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            x = bint(a)
            return bi_norm(BI(x.bits[: b.bit_length() - 1]))
        raise Undecided("mod of %r" % (a,))

    def o_int(self, t):
        v = self.ev(t.args[0])
        base = self.ev(t.args[1]) if len(t.args) > 1 else None
        return self.to_int(v, base)

    def to_int(self, v, base=None):
        if isinstance(v, (str, BS)):
            ch = chars(v)
            if not ch:
                self.bad("int() of an empty string")
            if base == 2 or (len(ch) == 1 and isinstance(ch[0], B)):
                return self.int2(ch)
            if isinstance(v, str):
                try:
                    return int(v, base or 10)
                except ValueError:
                    self.bad("int() of %r" % v)
            raise Undecided("decimal int() of an outcome string")
        if isinstance(v, B):
            return lnorm(lin(v))
        if isinstance(v, (int, Fraction, float)):
            return int(v)
        if isinstance(v, (Lin, BI)):
            return v
        if v is None:
            self.bad("int(None)")
        raise Undecided("int of %r" % (v,))

    def int2(self, ch):
        if not ch:
            self.bad("int() of an empty string")
        bits = []
        for c in reversed(ch):
            if isinstance(c, B):
                bits.append(c)
            elif c in "01":
                bits.append(BT if c == "1" else BF)
            elif c == "_" or c == " ":
                raise Undecided("separator inside a binary string")
            else:
                self.bad("int(.., 2) of a string containing %r" % c)
        return bi_norm(BI(bits))

    def o_int2(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, (int, Lin, BI)) and not isinstance(v, bool):
            raise Undecided("int2 of a number")
        return self.int2(chars(v))

    def o_num(self, t):
        v = self.ev(t.args[0])
        return v

    o_float = o_num

    def o_abs(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, (int, Fraction, float)):
            return abs(v)
        raise Undecided("abs")

    def o_math(self, t):
        v = self.ev(t.args[1])
        f = {"log": math.log, "log1p": math.log1p, "log2": math.log2, "log10": math.log10, "exp": math.exp, "sqrt": math.sqrt}.get(t.args[0])
        if f and isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
            try:
                return f(v)
            except ValueError:
                self.bad("math.%s of %s" % (t.args[0], float(v)))
        raise Undecided("math")

    def o_pow(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, int) and isinstance(b, int):
            if b >= 0:
                return a ** b
        if isinstance(a, int) and a in (1, -1) and isinstance(b, int):
            return a ** abs(b)
        raise Undecided("pow")

    def _bits2(self, t, f, g):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, int) and isinstance(b, int):
            return f(int(a), int(b)) if not (isinstance(a, bool) and isinstance(b, bool)) else bool(f(int(a), int(b)))
        x, y = bint(a).bits, bint(b).bits
        n = max(len(x), len(y))
        x += (BF,) * (n - len(x))
        y += (BF,) * (n - len(y))
        return bi_norm(BI([g(p, q) for p, q in zip(x, y)]))

    def o_band(self, t):
        return self._bits2(t, lambda a, b: a & b, band)

    def o_bor(self, t):
        return self._bits2(t, lambda a, b: a | b, bor)

    def o_bxor(self, t):
        return self._bits2(t, lambda a, b: a ^ b, bxor)

    def o_shl(self, t):
        a, b = self.ev(t.args[0]), self.integer(t.args[1])
        if b < 0:
            self.bad("negative shift count")
        if isinstance(a, int):
            return a << b
        return bi_norm(BI((BF,) * b + bint(a).bits))

    def o_shr(self, t):
        a, b = self.ev(t.args[0]), self.integer(t.args[1])
        if b < 0:
            self.bad("negative shift count")
        if isinstance(a, int):
            return a >> b
        return bi_norm(BI(bint(a).bits[b:]))

    def o_sum(self, t):
        j, n, x, _ = t.args
        tot = 0
        for i in range(self.integer(n, "loop bound")):
            tot = self.addv(tot, self.with_env({j: i}, x))
        return tot

    def addv(self, a, b):
        if a is None or b is None:
            self.bad("arithmetic on None")
        if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
            return _num(a + b)
        return lnorm(self.ladd(lin(a), lin(b)))

    def o_rec(self, t):
        i, k, K, Ps, inits, posts, _ = t.args
        n = self.integer(k, "iteration count")
        if n > MAXN:
            raise Undecided("loop too long")
        fsyms = set()
        for x in tuple(inits) + tuple(posts):
            fsyms.update(self.free(x))
        fsyms -= set(Ps) | {K}
        fsyms = sorted(fsyms, key=lambda s: s.uid)
        try:
            key = (inits, posts, tuple(self.env.get(s) for s in fsyms))
            hist = self.recs.get(key)
        except TypeError:
            key, hist = None, None
        if hist is None:
            hist = [[self.ev(x) for x in inits]]
            if key is not None:
                self.recs[key] = hist
        while len(hist) <= n:
            j = len(hist) - 1
            upd = {K: j}
            upd.update(zip(Ps, hist[-1]))
            hist.append(self.with_env(upd, lambda: [self.ev(x) for x in posts]))
        return hist[n][i]

    def o_first(self, t):
        j, n, c = t.args
        hi = MAXN if n is INF else self.integer(n, "loop bound")
        for i in range(max(hi, 0)):
            v = self.with_env({j: i}, lambda: self.cond(c))
            if isinstance(v, B):
                raise Undecided("loop exit depends on measurement outcomes")
            if v:
                return i
        if n is INF:
            raise Undecided("loop without a bounded exit")
        return max(hi, 0)

    def o_exists(self, t):
        bs, c = t.args
        acc = BF
        for upd in self.binders(bs):
            v = self.with_env(upd, lambda: self.cond(c))
            if v is True:
                return True
            if v is not False:
                acc = bor(acc, v)
        return norm(acc)

    def binders(self, bs, i=0, upd=None):
        upd = upd or {}
        if i == len(bs):
            yield dict(upd)
            return
        k, n = bs[i]
        cnt = self.with_env(upd, lambda: self.integer(n, "loop bound"))
        if cnt > MAXN:
            raise Undecided("loop too long")
        for j in range(cnt):
            u = dict(upd)
            u[k] = j
            yield from self.binders(bs, i + 1, u)

    # -------------------------------------------------------- booleans
    def o_not(self, t):
        v = self.cond(t.args[0])
        return (not v) if isinstance(v, bool) else norm(bnot(v))

    def o_and(self, t):
        acc, und = True, None
        for a in t.args:
            try:
                v = self.cond(a)
            except (Undecided, Definite) as e:
                und = e
                continue
            if v is False:
                return False
            acc = v if acc is True else acc if v is True else norm(band(acc, v))
        if und is not None and acc is not False:
            raise und
        return acc

    def o_or(self, t):
        acc, und = False, None
        for a in t.args:
            try:
                v = self.cond(a)
            except (Undecided, Definite) as e:
                und = e
                continue
            if v is True:
                return True
            acc = v if acc is False else acc if v is False else norm(bor(acc, v))
        if und is not None and acc is not True:
            raise und
        return acc

    def o_truth(self, t):
        return self.cond(t.args[0])

    def _sgn(self, t, f):
        v = self.ev(t.args[0])
        if isinstance(v, (int, Fraction, float)):
            return f(v)
        return lcases(lin(v), f)

    def o_lt0(self, t):
        return self._sgn(t, lambda v: v < 0)

    def o_le0(self, t):
        return self._sgn(t, lambda v: v <= 0)

    def o_eq0(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, (int, Fraction, float)):
            return v == 0
        c = self.tr(v)
        return (not c) if isinstance(c, bool) else norm(bnot(c))

    def o_eq(self, t):
        return self.equal(self.ev(t.args[0]), self.ev(t.args[1]))

    o_is = o_eq

    def equal(self, a, b):
        if isinstance(a, (BS, B)) or isinstance(b, (BS, B)):
            sa, sb = isinstance(a, (str, BS)), isinstance(b, (str, BS))
            if sa or sb:
                if not all(isinstance(x, (str, BS, B)) for x in (a, b)):
                    return False
                x, y = chars(a), chars(b)
                if len(x) != len(y):
                    return False
                acc = BT
                for p, q in zip(x, y):
                    if isinstance(p, str) and isinstance(q, str):
                        if p != q:
                            return False
                        continue
                    if (isinstance(p, str) and p not in "01") or (isinstance(q, str) and q not in "01"):
                        return False
                    p = p if isinstance(p, B) else asB(p == "1")
                    q = q if isinstance(q, B) else asB(q == "1")
                    acc = band(acc, bnot(bxor(p, q)))
                return norm(acc)
        numt = (int, Fraction, float, B, Lin, BI)
        if isinstance(a, numt) and isinstance(b, numt):
            if not any(isinstance(x, (B, Lin, BI)) for x in (a, b)):
                return a == b
            if isinstance(a, BI) or isinstance(b, BI):
                x, y = bint(a).bits, bint(b).bits
                n = max(len(x), len(y))
                x += (BF,) * (n - len(x))
                y += (BF,) * (n - len(y))
                acc = BT
                for p, q in zip(x, y):
                    acc = band(acc, bnot(bxor(p, q)))
                return norm(acc)
            la, lb = lin(a), lin(b)
            l = self.ladd(la, Lin({k: -v for k, v in lb.d.items()}, -lb.c))
            return lcases(l, lambda s: s == 0) if l.d else l.c == 0
        if isinstance(a, (tuple, list)) and type(a) is type(b) and not isinstance(a, Bit):
            if len(a) != len(b):
                return False
            acc = BT
            for x, y in zip(a, b):
                acc = band(acc, asB(self.equal(x, y)))
            return norm(acc)
        return a == b

    def o_cmp(self, t):
        a, b = self.ev(t.args[1]), self.ev(t.args[2])
        if isinstance(a, str) and isinstance(b, str):
            return a < b if t.args[0] == "<" else a <= b
        raise Undecided("string comparison")

    def o_in(self, t):
        x, c = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(c, dict):
            return hashable(x) in c
        if isinstance(c, (str, BS)) and isinstance(x, (str, BS, B)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            acc = BF
            xs, cs = chars(x), chars(c)
            for i in range(len(cs) - len(xs) + 1):
                acc = bor(acc, asB(self.equal(s_norm(cs[i : i + len(xs)]), s_norm(xs))))
            return norm(acc)
        if type(x) is Bit and type(c) is list and len(c) > 4:
            k = self.known(c)
            if k is not None and k.bits is not None:
                return x in k.bits
        if isinstance(c, (list, tuple)):
            acc = BF
            for y in c:
                g, v = (asB(y.g), y.v) if isinstance(y, G) else (BT, y)
                acc = bor(acc, band(g, asB(self.equal(v, x))))
            return norm(acc)
        raise Undecided("membership in %r" % (c,))

    def o_isinstance(self, t):
        raise Undecided("isinstance " + show(t)[:80])

    def o_opaque(self, t):
        x = t.args[0]
        if x.op == "strm":
            s = self.ev(x.args[1])
            a = [self.ev(y) for y in x.args[2:]]
            if isinstance(s, str):
                return getattr(s, x.args[0])(*a)
        raise Undecided("opaque condition " + show(t)[:120])

    def o_ite(self, t):
        c, a, b = t.args
        v = self.cond(c)
        if v is True:
            return self.ev(a)
        if v is False:
            return self.ev(b)
        return self.join(v, self.ev(a), self.ev(b))

    def join(self, v, x, y):
        if isinstance(x, (list, tuple, dict, Ref, Reg)) or x is None or y is None:
            if x == y:
                return x
        if type(x) is type(y) and isinstance(x, tuple) and not isinstance(x, Bit) and len(x) == len(y):
            return tuple(self.join(v, p, q) for p, q in zip(x, y))
        if isinstance(x, list) and isinstance(y, list):
            # common prefix kept, rest guarded
            i = 0
            while i < min(len(x), len(y)) and same(x[i], y[i]):
                i += 1
            out = list(x[:i])
            for e in x[i:]:
                g, w = (asB(e.g), e.v) if isinstance(e, G) else (BT, e)
                out.append(self.guarded(band(g, v), w))
            for e in y[i:]:
                g, w = (asB(e.g), e.v) if isinstance(e, G) else (BT, e)
                out.append(self.guarded(band(g, bnot(v)), w))
            return [e for e in out if e is not None]
        if isinstance(x, dict) and isinstance(y, dict) and list(x) == list(y):
            return {k: self.join(v, x[k], y[k]) for k in x}
        if isinstance(x, (str, BS)) and isinstance(y, (str, BS)):
            p, q = chars(x), chars(y)
            if len(p) == len(q):
                out = []
                for c, d in zip(p, q):
                    if c == d:
                        out.append(c)
                        continue
                    if any(isinstance(z, str) and z not in "01" for z in (c, d)):
                        raise Undecided("string depends on outcomes")
                    c = c if isinstance(c, B) else asB(c == "1")
                    d = d if isinstance(d, B) else asB(d == "1")
                    out.append(bxor(d, band(v, bxor(c, d))))
                return s_norm(out)
            raise Undecided("string length depends on outcomes")
        if isinstance(x, (bool, B)) and isinstance(y, (bool, B)):
            x, y = asB(x), asB(y)
            return norm(bxor(y, band(v, bxor(x, y))))
        if isinstance(x, (int, Fraction, B, Lin)) and isinstance(y, (int, Fraction, B, Lin)):
            dlt = self.ladd(lin(x), Lin({k: -c for k, c in lin(y).d.items()}, -lin(y).c))
            return self.addv(y, lnorm(self.mul(dlt, v)) if True else 0)
        if isinstance(x, (BI, int)) and isinstance(y, (BI, int)):
            p, q = bint(x).bits, bint(y).bits
            n = max(len(p), len(q))
            p += (BF,) * (n - len(p))
            q += (BF,) * (n - len(q))
            return bi_norm(BI([bxor(d, band(v, bxor(c, d))) for c, d in zip(p, q)]))
        if same(x, y):
            return x
        raise Undecided("value depends on measurement outcomes: %r / %r" % (x, y))

    def guarded(self, g, v):
        c = bconst(g)
        if c is False:
            return None
        return v if c is True else G(g, v)

    # -------------------------------------------------------- sequences
    def o_tuple(self, t):
        return tuple(self.ev(a) for a in t.args)

    def segs(self, segs):
        out = []
        for s in segs:
            bs, g, e = s.args
            for upd in self.binders(bs):
                def one():
                    c = self.cond(g)
                    if c is False:
                        return
                    if e.op == "star":
                        for x in self.ev(e.args[0]):
                            out.append(x if c is True else G(c, x))
                        return
                    v = self.ev(e)
                    out.append(v if c is True else G(c, v))
                self.with_env(upd, one)
        return out

    def o_seq(self, t):
        return self.segs(t.args)

    def o_list(self, t):
        return [self.ev(a) for a in t.args]

    def entries(self, ents):
        d = {}
        for b, g, k, v in ents:
            for upd in self.binders(b):
                def one():
                    c = self.cond(g)
                    if c is False:
                        return
                    if c is not True:
                        raise Undecided("dict key depends on outcomes")
                    d[hashable(self.ev(k))] = self.ev(v)
                self.with_env(upd, one)
        return d

    def o_dict(self, t):
        return self.entries([e.args for e in t.args])

    def o_dlen(self, t):
        return len(self.ev(t.args[0]))

    def o_dkey(self, t):
        return list(self.ev(t.args[0]).keys())[self.integer(t.args[1])]

    def o_dval(self, t):
        return list(self.ev(t.args[0]).values())[self.integer(t.args[1])]

    def o_len(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, list):
            acc = 0
            for x in v:
                acc = self.addv(acc, asB(x.g)) if isinstance(x, G) else self.addv(acc, 1)
            return acc
        if isinstance(v, Reg):
            return v.size
        if isinstance(v, B):
            return 1
        if isinstance(v, BS):
            return len(v.ch)
        if isinstance(v, (str, tuple, dict)):
            return len(v)
        if v is None:
            self.bad("len(None)")
        raise Undecided("len of %r" % (v,))

    def o_item(self, t):
        v, k = self.ev(t.args[0]), self.ev(t.args[1])
        return self.index(v, k)

    def index(self, v, k):
        if isinstance(v, dict):
            k = hashable(k)
            if k not in v:
                self.bad("missing key %r" % (k,))
            return v[k]
        if v is None:
            self.bad("None indexed")
        if isinstance(v, (list, tuple, str, BS)):
            k2 = self.known(v) if type(v) is list and len(v) > 4 else None
            if isinstance(v, (str, BS)):
                v = chars(v)
            i = self.integer(k, "index")
            k = k2
            if k.guarded if k is not None else any(isinstance(x, G) for x in v):
                raise Undecided("index into a list whose length depends on outcomes")
            if not -len(v) <= i < len(v):
                self.bad("index %d outside a sequence of length %d" % (i, len(v)))
            return v[i]
        if isinstance(v, Reg):
            return self.mkbit(v, self.integer(k))
        raise Undecided("item of %r" % (v,))

    def o_char(self, t):
        r = self.index(self.ev(t.args[0]), self.ev(t.args[1]))
        return r if isinstance(r, (str, BS, B)) else s_norm([r])

    def o_slice(self, t):
        v = self.ev(t.args[0])
        a = [None if x is NONE else self.integer(x, "slice bound") for x in t.args[1:]]
        if isinstance(v, (str, BS)):
            return s_norm(chars(v)[slice(*a)])
        if isinstance(v, Reg):
            return [Bit((v.addr, i)) for i in range(v.size)][slice(*a)]
        if isinstance(v, list) and any(isinstance(x, G) for x in v):
            raise Undecided("slice of a guarded list")
        return v[slice(*a)]

    o_strslice = o_slice

    def o_count(self, t):
        v, x = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(v, (str, BS)):
            v = chars(v)
        acc = 0
        for y in v:
            g, w = (asB(y.g), y.v) if isinstance(y, G) else (BT, y)
            acc = self.addv(acc, norm(band(g, asB(self.equal(w, x)))))
        return acc

    # -------------------------------------------------------- strings
    def to_s(self, v):
        if isinstance(v, (str, BS)):
            return chars(v)
        if isinstance(v, bool):
            return list(str(v))
        if isinstance(v, B):
            return [v]
        if isinstance(v, int):
            return list(str(v))
        if isinstance(v, Fraction):
            return list(str(float(v)))
        if isinstance(v, Lin):
            p = None
            if len(v.d) == 1 and v.c == 0 and list(v.d.values())[0] == 1:
                return [next(iter(v.d))]
            if len(v.d) == 1 and v.c == 1 and list(v.d.values())[0] == -1:
                return [bnot(next(iter(v.d)))]
            raise Undecided("str of a number that depends on outcomes")
        if isinstance(v, BI) and len(v.bits) <= 1:
            return [v.bits[0] if v.bits else "0"]
        if v is None:
            return list("None")
        if isinstance(v, tuple):
            return list(str(v))
        raise Undecided("str of %r" % (v,))

    def o_str(self, t):
        return s_norm(self.to_s(self.ev(t.args[0])))

    def o_concat(self, t):
        out = []
        for a in t.args:
            out.extend(self.to_s(self.ev(a)))
        return s_norm(out)

    def o_strrep(self, t):
        s, n = self.ev(t.args[0]), self.integer(t.args[1])
        return s_norm(chars(s) * n)

    def o_sfold(self, t):
        kind, init, j, n, x = t.args
        cs = self.to_s(self.ev(init))
        for i in range(self.integer(n, "loop bound")):
            p = self.to_s(self.with_env({j: i}, x))
            cs = cs + p if kind == "app" else p + cs
        return s_norm(cs)

    def o_join(self, t):
        sep = self.ev(t.args[0])
        v = self.ev(t.args[1])
        if isinstance(v, (str, BS)):
            v = chars(v)
        out = []
        for i, x in enumerate(v):
            if isinstance(x, G):
                raise Undecided("join of a guarded list")
            if i:
                out.extend(chars(sep))
            out.extend(self.to_s(x) if isinstance(x, (str, BS, B)) else self.bad("join of non-strings"))
        return s_norm(out)

    def o_split(self, t):
        name, s = t.args[0], self.ev(t.args[1])
        a = [self.ev(x) for x in t.args[2:] if x.op != "kw"]
        ch = chars(s)
        if any(x.op == "kw" for x in t.args[2:]):
            raise Undecided("split with keywords")
        if isinstance(s, str):
            return getattr(s, name)(*a)
        sep = a[0] if a else None
        if len(a) > 1:
            # abstract characters are never the separator: split on a concrete stand-in
            tab = {}
            st = "".join(c if isinstance(c, str) else chr(0xE000 + tab.setdefault(i, len(tab))) for i, c in enumerate(ch))
            inv = {chr(0xE000 + j): ch[i] for i, j in tab.items()}
            return [s_norm([inv.get(c, c) for c in p]) for p in getattr(st, name)(*a)]
        if sep not in (" ", None):
            raise Undecided("split separator %r" % (sep,))
        out, cur = [], []
        for c in ch:
            if c == " ":
                out.append(cur)
                cur = []
            else:
                cur.append(c)
        out.append(cur)
        if sep is None:
            out = [x for x in out if x]
        return [s_norm(x) for x in out]

    def o_strm(self, t):
        name = t.args[0]
        if name == "bin":
            raise Undecided("bin")
        s = self.ev(t.args[1])
        a = [self.ev(x) for x in t.args[2:]]
        if isinstance(s, str):
            return getattr(s, name)(*a)
        if name in ("zfill", "rjust", "ljust") and isinstance(a[0], int):
            ch = chars(s)
            pad = [a[1] if len(a) > 1 else "0" if name == "zfill" else " "] * (a[0] - len(ch))
            return s_norm(ch + pad if name == "ljust" else pad + ch)
        if name in ("strip", "rstrip", "lstrip", "replace") :
            ch = list(chars(s))
            if name == "replace" and a == [" ", ""]:
                return s_norm([c for c in ch if c != " "])
            if name != "replace" and not a:
                while ch and name != "rstrip" and ch[0] == " ":
                    ch.pop(0)
                while ch and name != "lstrip" and ch[-1] == " ":
                    ch.pop()
                return s_norm(ch)
        raise Undecided("string method %s" % name)

    def o_strm_i(self, t):
        name, s = t.args[0], self.ev(t.args[1])
        a = [self.ev(x) for x in t.args[2:]]
        if isinstance(s, str):
            return getattr(s, name)(*a)
        if name == "count" and len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1:
            acc = 0
            for c in chars(s):
                acc = self.addv(acc, self.equal(c, a[0]))
            return acc
        if name in ("find", "index") and a == [" "]:
            ch = list(chars(s))
            if " " in ch:
                return ch.index(" ")
            return -1 if name == "find" else self.bad("substring not found")
        raise Undecided("string method %s" % name)

    def o_format(self, t):
        v, spec = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(v, (int, str)) and isinstance(spec, str):
            return format(v, spec)
        if isinstance(spec, str) and spec.endswith("b") and spec[:-1].isdigit():
            n = int(spec[:-1])
            bits = list(bint(v).bits)
            if len(bits) <= n:
                bits += [BF] * (n - len(bits))
                return s_norm(list(reversed(bits)))
        raise Undecided("format")

    def o_ord(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, str):
            return ord(v)
        if isinstance(v, B) or isinstance(v, BS) and len(v.ch) == 1:
            return Lin({v if isinstance(v, B) else v.ch[0]: 1}, 48)
        raise Undecided("ord")

    def o_chr(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, int):
            return chr(v)
        raise Undecided("chr")

    def o_attr(self, t):
        b, n = t.args[0], t.args[1]
        if b.op == "ref" and isinstance(n, str):
            o = self.heap.get(b.args[0])
            if o is not None and o.kind == "obj" and o.cls is not None and getattr(o.cls, "closed", True):
                self.bad("%s object has no attribute %r" % (o.cls.name, n))
        if n in ("name", "size"):
            r = self.ev(b)
            if isinstance(r, Reg):
                return getattr(r, n)
        raise Undecided("cannot evaluate %s" % show(t)[:200])

    def o_undef(self, t):
        self.bad("use of a name before it is bound")

    def o_call(self, t):
        n = t.args[0]
        if n in ("max", "min") and len(t.args) >= 2 and t.args[-1].op != "kw":
            vs = [self.ev(a) for a in t.args[1:]]
            if len(vs) == 1 and isinstance(vs[0], list):
                vs = vs[0]
            if all(isinstance(v, (int, Fraction, float)) for v in vs) and vs:
                return max(vs) if n == "max" else min(vs)
        if n == "sorted" and len(t.args) == 2:
            v = self.ev(t.args[1])
            if not any(isinstance(x, (G, B, Lin, BI)) for x in v):
                return sorted(v)
        if n == "unique":
            v = self.ev(t.args[1])
            if isinstance(v, (list, tuple)) and not any(isinstance(y, (G, B, Lin, BI, BS)) for x in v for y in (x if isinstance(x, tuple) else (x,))):
                return list({hashable(x): x for x in v}.values())
        if n == "argsort":
            v, r = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(v, (list, tuple)) and isinstance(r, bool) and not any(isinstance(y, (G, B, Lin, BI, BS)) for x in v for y in (x if isinstance(x, tuple) else (x,))):
                try:
                    return sorted(range(len(v)), key=lambda i: v[i], reverse=r)
                except TypeError:
                    self.bad("keys of different types are compared")
        if n == "seq.index":
            v, x = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(v, (list, tuple)) and x in v:
                return v.index(x)
        if n == "list" and len(t.args) == 2:
            v = self.ev(t.args[1])
            return chars(v) if isinstance(v, (str, BS)) else list(v)
        if n in ("numpy.float32", "numpy.single", "numpy.float16", "numpy.half", "numpy.float64", "numpy.double") and len(t.args) == 2:
            v = self.ev(t.args[1])
            if isinstance(v, (int, Fraction, float)) and not isinstance(v, bool):
                if n in ("numpy.float64", "numpy.double"):
                    return v
                f = "e" if n in ("numpy.float16", "numpy.half") else "f"
                return Fraction(struct.unpack(f, struct.pack(f, float(v)))[0])
        if n in STR_METHODS and all(a.op != "kw" for a in t.args[1:]):
            v = [self.ev(a) for a in t.args[1:]]
            if isinstance(v[0], str) and all(isinstance(x, (str, int)) or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in v[1:]):
                try:
                    return getattr(v[0], n[1:])(*v[1:])
                except (TypeError, ValueError) as e:
                    self.bad("%s of a string fails: %s" % (n[1:], e))
        if n in ("numpy.floor", "math.floor", "math.ceil", "numpy.ceil"):
            v = self.ev(t.args[1])
            if isinstance(v, (int, Fraction)):
                return math.floor(v) if "floor" in n else math.ceil(v)
        if n in ("round", "math.trunc", "numpy.round", "numpy.around", "numpy.rint", "numpy.abs", "numpy.absolute", "math.fabs", "abs") and all(a.op != "kw" for a in t.args[1:]):
            v = [self.ev(a) for a in t.args[1:]]
            if all(isinstance(x, (int, Fraction, float)) and not isinstance(x, bool) for x in v):
                if n == "math.trunc" and len(v) == 1:
                    return math.trunc(v[0])
                if ("abs" in n) and len(v) == 1:
                    return abs(v[0])
                if len(v) == 1 and n != "round" and not isinstance(v[0], int):
                    return float(round(v[0]))
                if "abs" not in n and "trunc" not in n and all(isinstance(x, int) for x in v[1:]):
                    return round(*v)
        if n == "numpy.arange" and all(a.op != "kw" for a in t.args):
            return list(range(*[self.integer(a) for a in t.args[1:]]))
        if isinstance(n, str) and n[0] == "." and len(t.args) >= 2:
            v = self.ev(t.args[1])
            r = self.method(n[1:], v, [self.ev(a) for a in t.args[2:]] if all(a.op != "kw" for a in t.args[2:]) else None)
            if r is not NotImplemented:
                return r
        raise Undecided("opaque call %s" % show(t)[:120])

    def method(self, n, v, args):
        """pure methods of evaluated containers"""
        if args is None:
            return NotImplemented
        if isinstance(v, dict):
            if n == "values" and not args:
                return list(v.values())
            if n == "keys" and not args:
                return list(v)
            if n == "items" and not args:
                return [tuple(x) for x in v.items()]
            if n == "copy" and not args:
                return dict(v)
            if n == "get" and args:
                return v.get(hashable(args[0]), args[1] if len(args) > 1 else None)
        if isinstance(v, (list, tuple)) and not any(isinstance(x, G) for x in v):
            if n == "index" and len(args) == 1 and args[0] in v:
                return list(v).index(args[0])
            if n == "count" and len(args) == 1:
                return list(v).count(args[0])
            if n == "copy" and not args:
                return list(v)
        return NotImplemented


_MISS = object()


def same(a, b):
    if isinstance(a, G) or isinstance(b, G):
        return isinstance(a, G) and isinstance(b, G) and a.g == b.g and same(a.v, b.v)
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def hashable(v):
    if isinstance(v, list):
        return tuple(hashable(x) for x in v)
    if isinstance(v, tuple) and not isinstance(v, Bit):
        return tuple(hashable(x) for x in v)
    return v


STR_METHODS = {"." + n for n in "startswith endswith upper lower strip lstrip rstrip replace zfill isdigit isnumeric isalpha find rfind index count split rsplit partition rpartition title capitalize swapcase casefold removeprefix removesuffix ljust rjust center".split()}


# ---------------------------------------------------------------- circuits
class Op:
    __slots__ = ("name", "q", "c", "cond", "site", "eid")

    def __init__(self, name, q, c=None, cond=None, site=None, eid=None):
        self.name, self.q, self.c, self.cond, self.site, self.eid = name, q, c, cond, site, eid

    def __repr__(self):
        return "%s%r%s%s" % (self.name, self.q, "->%r" % (self.c,) if self.c else "", " if %r" % (self.cond,) if self.cond else "")


class Circ:
    """instruction list of one circuit"""

    def __init__(self):
        self.ops = []
        self.regs = {}  # name -> Reg
        self.addrs = {}
        self.order = []


def unknown_callee(e):
    """a call whose callee the analysis does not know may do anything"""
    x = e.recv
    while isinstance(x, Term) and e.name.startswith("."):
        if x.op == "call" and x.args[0] == "<callable>":
            raise Undecided("call of something the analysis does not know: %s" % show(x)[:200])
        x = x.args[0] if x.op in ("call", "attr", "item") and x.args and isinstance(x.args[0], Term) else None
    if e.name == "<callable>":
        raise Undecided("call of something the analysis does not know: %s" % show(e.recv)[:200])


class Expander:
    """effect summary -> instruction lists, with qiskit's broadcasting rules"""

    def __init__(self, heap, env, hook=None):
        self.ev = Ev(heap, env, hook)
        self.circs = {}
        self.last = {}
        self.newregs = []
        self.other = []
        self.notes = []

    def circ(self, ref):
        r = self.ev(ref)
        if not isinstance(r, Ref):
            raise Undecided("circuit %r" % (r,))
        return self.circs.setdefault(r.addr, Circ())

    def run(self, effs):
        for e in effs:
            self.ev.loc = e.site
            m = getattr(self, "x_" + e.kind, None)
            if m:
                m(e)
            else:
                self.other.append(e)
        return self

    def x_call(self, e):
        unknown_callee(e)
        self.other.append(e)

    def x_for(self, e):
        n = self.ev.integer(e.n, "loop bound")
        for i in range(n):
            self.ev.with_env({e.k: i}, lambda: self.run(e.body))

    def x_if(self, e):
        c = self.ev.cond(e.cond)
        if isinstance(c, B):
            raise Undecided("circuit construction depends on outcomes")
        self.run(e.then if c else e.els)

    def x_bound(self, e):
        try:
            k, n = self.ev(e.index), self.ev(e.n)
        except Undecided:
            return
        if isinstance(k, int) and isinstance(n, int) and not isinstance(k, bool) and not -n <= k < n:
            raise Definite("index %d outside a list of %d elements" % (k, n), e.site)

    def x_newcirc(self, e):
        self.circ(e.circ)

    def x_snapcirc(self, e):
        """the registers or bits of the circuit at this moment"""
        c = self.circ(e.circ)
        kind = "Q" if e.what[0] == "q" else "C"
        regs = [r for r in c.order if r.kind[0] == kind]
        self.ev.env[e.sid] = regs if e.what.endswith("regs") else [Bit((r.addr, i)) for r in regs for i in range(r.size)]
        self.ev.memo.clear()

    def x_newreg(self, e):
        self.newregs.append((self.ev(e.reg), e.site))

    def x_addreg(self, e):
        r = self.ev(e.reg)
        c = self.circ(e.circ)
        if not isinstance(r, Reg):
            raise Undecided("add_register(%r)" % (r,))
        if r.name is not None and r.name in c.regs:
            raise Definite("register name %r is added to the circuit twice" % (r.name,), e.site)
        if r.size < 0:
            raise Definite("register %r has negative size" % (r.name,), e.site)
        c.regs[r.name if r.name is not None else ("anon", r.addr)] = r
        c.addrs[r.addr] = r
        c.order.append(r)

    def bits(self, v, e):
        if isinstance(v, Bit):
            return [v]
        if isinstance(v, Reg):
            return [Bit((v.addr, i)) for i in range(v.size)]
        if isinstance(v, (list, tuple)):
            out = []
            for x in v:
                if isinstance(x, G):
                    raise Undecided("gate on a guarded list")
                out.extend(self.bits(x, e))
            return out
        if v is None:
            raise Definite("None passed to gate %s" % e.name, e.site)
        raise Undecided("gate argument %r" % (v,))

    def x_gate(self, e):
        c = self.circ(e.circ)
        args = [self.bits(self.ev(a), e) for a in e.args]
        for a in args:
            for b in a:
                if c.addrs and b[0] not in c.addrs:
                    raise Definite("gate %s acts on a register that is not part of the circuit" % e.name, e.site)
        start = len(c.ops)
        if e.name == "measure":
            if len(args) != 2:
                raise Undecided("measure arguments")
            q, cl = args
            if len(q) != len(cl):
                raise Definite("measure: %d qubits into %d bits" % (len(q), len(cl)), e.site)
            for x, y in zip(q, cl):
                c.ops.append(Op("measure", (x,), y, None, e.site, e.eid))
        elif len(args) == 1:
            if e.name in ("cx", "cz", "swap", "cy", "ch"):
                raise Definite("%s needs two qubits" % e.name, e.site)
            for x in args[0]:
                c.ops.append(Op(e.name, (x,), None, None, e.site, e.eid))
        elif len(args) == 2 and e.name in ("cx", "cz", "swap", "cy", "ch"):
            a, b = args
            if len(a) == len(b):
                prs = list(zip(a, b))
            elif len(a) == 1:
                prs = [(a[0], y) for y in b]
            elif len(b) == 1:
                prs = [(x, b[0]) for x in a]
            else:
                raise Definite("%s: %d and %d qubits" % (e.name, len(a), len(b)), e.site)
            for x, y in prs:
                if x == y:
                    raise Definite("%s with control equal to target" % e.name, e.site)
                c.ops.append(Op(e.name, (x, y), None, None, e.site, e.eid))
        else:
            raise Undecided("gate %s with %d arguments" % (e.name, len(args)))
        self.last[e.eid] = (c, start, len(c.ops))

    def x_c_if(self, e):
        c, a, b = self.last[e.eid]
        r = self.ev(e.creg)
        v = self.ev(e.val)
        if v is None or isinstance(v, (Bit, Reg, str, tuple, list, dict)):
            raise Definite("c_if compares with %s, which is no number" % (v.name if isinstance(v, Reg) else repr(v)), e.site)
        if isinstance(r, (int, Fraction)) and not isinstance(r, bool) and r == int(r):
            cb = [Bit((x.addr, i)) for x in c.order if x.kind == "ClassicalRegister" for i in range(x.size)]
            if not 0 <= r < len(cb):
                raise Definite("c_if on the classical bit %d of %d" % (r, len(cb)), e.site)
            r = cb[int(r)]
        if r is None or isinstance(r, (str, float)):
            raise Definite("c_if on %r" % (r,), e.site)
        if isinstance(r, Bit):
            cond = ((r,), int(v))
        elif isinstance(r, Reg):
            cond = (tuple(Bit((r.addr, i)) for i in range(r.size)), int(v))
        elif isinstance(r, Ref) or isinstance(r, tuple):
            cond = (r, v)
        else:
            raise Undecided("c_if on %r" % (r,))
        for i in range(a, b):
            c.ops[i].cond = cond

    def x_barrier(self, e):
        c = self.circ(e.circ)
        c.ops.append(Op("barrier", tuple(b for x in e.args for b in self.bits(self.ev(x), e)), None, None, e.site))

    def x_circ_other(self, e):
        raise Undecided("circuit operation %s is not modelled" % e.name)

    def x_copycirc(self, e):
        c = self.circ(e.circ)
        n = self.circs.setdefault(self.ev(e.result).addr, Circ())
        n.ops, n.regs, n.addrs, n.order = list(c.ops), dict(c.regs), dict(c.addrs), list(c.order)
