"""
Scenarios: summaries of public operations of the analysed code from a symbolic
starting state, and their instantiation for given code dimensions.
"""
import sys
from .interp import Interp, State, AnalysisError, Dead, HObj, Restart
from .terms import *
from . import terms as T
from .inst import Ev, Expander, Undecided, Definite, Reg, Bit, Ref

sys.setrecursionlimit(40000)

H, W = sym("h", "int", 1), sym("w", "int", 1)
ODDH, ODDW = add(mul(const(2), H), ONE), add(mul(const(2), W), ONE)
RR = sym("rr", "int", 0)

# regime -> (height, width) terms
REGIMES = {
    "2d": (ODDH, ODDW),
    "column": (ODDH, ONE),
    "row": (ONE, ODDW),
}


class Res:
    def __init__(self, value, state, effects, raises, base):
        self.value, self.state, self.effects, self.raises, self.base = value, state, effects, raises, base

    @property
    def dead(self):
        return self.state is None


class World:
    def __init__(self, root="/repo", package="qtcodes"):
        self.ip = Interp(root, package)
        self.modules = self.ip.load_all()
        self.base = self.ip.st
        self.load_notes = list(self.ip.imprecise)

    # ------------------------------------------------------------ lookup
    def cls(self, name):
        """class by simple name, wherever it is defined in the package"""
        for m, fa in self.ip.modules.items():
            v = self.base.heap[fa].data.get(name)
            if v is not None and v.op == "class" and v.args[0].name == name:
                return v
        raise AnalysisError("class %s has vanished" % name)

    def var(self, name):
        for m, fa in self.ip.modules.items():
            v = self.base.heap[fa].data.get(name)
            if v is not None:
                return v
        raise AnalysisError("module variable %s has vanished" % name)

    def classes(self):
        seen = {}
        for m, fa in self.ip.modules.items():
            for n, v in self.base.heap[fa].data.items():
                if v.op == "class":
                    seen[v.args[0].qual] = v
        return seen

    # ------------------------------------------------------------ running
    def at(self, state):
        ip = self.ip
        ip.st = State(dict(state.heap), (), ())
        ip.raises = [[]]
        ip.rets, ip.breaks, ip.conts, ip.frames, ip.callstack = [], [], [], [], []
        ip.recstack, ip.recbody = [], None
        ip.imprecise = []
        ip.site = None

    def run(self, f, state=None):
        """summarise f() from `state`; the effects are those of f alone"""
        st = state or self.base
        ip = self.ip
        for _ in range(40):
            self.at(st)
            v = None
            try:
                v = f(ip)
            except Dead:
                ip.st = None
            except Restart:
                continue
            break
        else:
            raise AnalysisError("the analysis does not settle on the containers to track")
        r = Res(v, ip.st, ip.st.effects if ip.st is not None else (), ip.raises[0], st)
        r.imprecise = list(ip.imprecise)
        return r

    def call(self, state, obj, meth, args=(), kwargs=None):
        def f(ip):
            return ip.call(ip.get_attr(obj, meth), [a(ip) if callable(a) else a for a in args], dict(kwargs or {}))

        return self.run(f, state)

    def new(self, cname, mkargs, state=None):
        c = self.cls(cname) if isinstance(cname, str) else cname

        def f(ip):
            a, k = mkargs(ip)
            return ip.call(c, a, k)

        return self.run(f, state)


def mkdict(ip, items):
    d = ip.new_dict()
    for k, v in items:
        ip.dict_store(d, const(k) if isinstance(k, (str, int)) else k, v, log=False)
    return d


FOREIGN = "foreign_q"


class Code:
    """one code class in one size regime, built on a fresh circuit named 'tq' """

    def __init__(self, world, cname, regime, name=None):
        self.w, self.cname, self.regime = world, cname, regime
        dh, dw = REGIMES[regime]
        self.dims = (dh, dw)
        items = [("d", mk("tuple", dh, dw))]
        if cname == "RepetitionQubit":
            items.append(("phase-flip-protected", boolc(regime == "row")))


        def args(ip):
            # a caller's circuit that already holds other qubits
            circ = ip.call(mk("ext", "qiskit.QuantumCircuit"), [], {})
            ip.call(ip.get_attr(circ, "add_register"), [ip.call(mk("ext", "qiskit.QuantumRegister"), [const(2), const(FOREIGN)], {})], {})
            return [mkdict(ip, items)], {"circ": circ, **({"name": const(name)} if name else {})}

        r = world.new(cname, args)
        if r.dead:
            raise Definite("%s cannot be built in regime %s: always raises %s" % (cname, regime, [str(x[1]) for x in r.raises]))
        self.r = r
        self.q = r.value
        self.state = r.state
        self.effects = r.effects
        self.lat = self.field(self.q, "lattice")
        self.circ = self.field(self.q, "circ")

    def field(self, ref, name, state=None):
        def f(ip):
            return ip.get_attr(ref, name)

        return self.w.run(f, state or self.state).value

    def op(self, meth, args=(), kwargs=None, state=None):
        return self.w.call(state or self.state, self.q, meth, args, kwargs)

    def seq(self, calls, state=None, effects=None):
        """run a list of (method, args, kwargs); returns (state, [effects...])"""
        st = state or self.state
        effs = []
        for c in calls:
            m, a, k = (c + ((), {}))[:3] if isinstance(c, tuple) else (c, (), {})
            if len(c) == 2 and isinstance(c, tuple):
                m, a, k = c[0], c[1], {}
            r = self.w.call(st, self.q, m, a, k)
            if r.dead:
                raise Definite("%s.%s always raises %s" % (self.cname, m, [str(getattr(x[1], "name", x[1])) for x in r.raises]), r.raises[0][3] if r.raises else None)
            st = r.state
            effs.append(r)
        return st, effs

    def grid(self, n=3, m=None):
        m = m or n
        if self.regime == "2d":
            return [(h, w) for h in range(1, n + 1) for w in range(1, m + 1)]
        if self.regime == "column":
            return [(h, 0) for h in range(1, n + m)]
        return [(0, w) for w in range(1, n + m)]

    @staticmethod
    def env(hw):
        return {H: hw[0], W: hw[1]}

    def dh(self, hw):
        return 2 * hw[0] + 1 if self.regime != "row" else 1

    def dw(self, hw):
        return 2 * hw[1] + 1 if self.regime != "column" else 1


CODES = [
    ("XXZZQubit", "2d"),
    ("XXZZQubit", "column"),
    ("XXZZQubit", "row"),
    ("XZZXQubit", "2d"),
    ("XZZXQubit", "column"),
    ("XZZXQubit", "row"),
    ("RepetitionQubit", "column"),
    ("RepetitionQubit", "row"),
]
