"""B01-B06: benchmarking, decided on summaries of the benchmark and analysis classes.

Simulator, decoder, file system, worker pool and plotting are external: they are
replaced by models (a result per noise level, an arbitrary decoder, a table of
files, ...) that the obligations vary."""
from .world import *
from .terms import *
from .inst import *
from .interp import AnalysisError
from .circ_base import exc_name
from .scene import flat_effects
from .lits import literals

SUP = {
    "FileNotFoundError": ("OSError", "IOError", "EnvironmentError", "Exception", "BaseException"),
    "PermissionError": ("OSError", "IOError", "EnvironmentError", "Exception", "BaseException"),
    "ValueError": ("Exception", "BaseException"),
    "KeyError": ("LookupError", "Exception", "BaseException"),
    "OSError": ("IOError", "EnvironmentError", "Exception", "BaseException"),
}


class PyExc(Exception):
    def __init__(self, name, site):
        Exception.__init__(self, name)
        self.name, self.site = name, site


class Arr(list):
    """a one-dimensional numpy array"""


class Ext:
    """an external object: kind and data"""

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.d)


def arr(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (list, tuple)):
        return Arr(v)
    return v


def stable_argsort(v):
    return Arr(sorted(range(len(v)), key=lambda i: v[i]))


class FS:
    def __init__(self, files=None):
        self.files = dict(files or {})
        self.log = []  # (what, name, worker)


MUTATORS = {"." + x for x in "sort append extend insert remove pop clear reverse update popitem setdefault".split()}


class BEv(Ev):
    bx = None

    def o_opaque(self, t):
        if t in self.env:
            return self.env[t]
        return Ev.o_opaque(self, t)

    def o_attr(self, t):
        b = self.ev(t.args[0]) if t.args[0].op != "ref" else None
        if isinstance(b, Ext):
            return self.bx.attr(b, t.args[1], self)
        if isinstance(b, Arr) and t.args[1] == "size":
            return len(b)
        return Ev.o_attr(self, t)

    def to_s(self, v):
        if isinstance(v, list) and all(isinstance(x, (int, str)) for x in v):
            # a list or a tuple: tuple(...) of a computed sequence is not told apart
            return Ev.to_s(self, tuple(v))
        return Ev.to_s(self, v)

    def index(self, v, k):
        if isinstance(v, Arr) and isinstance(k, (Arr, list)):
            if k and all(isinstance(x, bool) for x in k):
                return Arr(x for x, y in zip(v, k) if y)
            return Arr(v[self.integer(i, "index")] for i in k)
        if isinstance(v, Ext) and v.kind == "npz":
            if k not in v.d["data"]:
                raise PyExc("KeyError", self.loc)
            return v.d["data"][k]
        return Ev.index(self, v, k)

    def mul(self, x, v):
        if isinstance(v, Arr) and isinstance(x, (int, Fraction, float)):
            return Arr(Ev.mul(self, x, y) for y in v)
        if isinstance(x, Arr):
            if isinstance(v, Arr):
                return Arr(Ev.mul(self, a, b) for a, b in zip(x, v))
            return Arr(Ev.mul(self, v, y) for y in x)
        return Ev.mul(self, x, v)

    def o_poly(self, t):
        ms = t.args[0]
        if len(ms) == 1 and ms[0][0]:
            x = ms[0][1]
            for a in ms[0][0]:
                x = self.mul(x, self.ev(a))
            if isinstance(x, Arr):
                return x
        return Ev.o_poly(self, t)

    def o_call(self, t):
        if t in self.env:
            return self.env[t]
        if self.bx.past:
            ks = {s: const(self.env[s]) for s in free_syms(t) if s not in self.bx.given and isinstance(self.env.get(s), int) and not isinstance(self.env.get(s), bool)}
            g = rewrite(t, ks) if ks else t
            if g in self.bx.past:
                return self.bx.past[g]
        kw = {a.args[0]: a.args[1] for a in t.args[1:] if isinstance(a, Term) and a.op == "kw"}
        pos = [a for a in t.args[1:] if not (isinstance(a, Term) and a.op == "kw")]
        r = self.bx.callv(t.args[0], pos, kw, self, pure=True)
        if r is not NotImplemented:
            return r
        return Ev.o_call(self, t)

    def o_len(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, (Arr, list, dict)):
            return len(v)
        return Ev.o_len(self, t)

    def o_callv(self, t):
        return self.o_call(t)


class Bench(Expander):
    """carries out the effects of benchmark operations on the models"""

    def __init__(self, world, heap, env, fs, predict, counts, params, worker=False, state=None):
        Expander.__init__(self, heap, env)
        self.ev = BEv(heap, env)
        self.ev.bx = self
        self.w, self.fs, self.predict, self.counts, self.params = world, fs, predict, counts, params
        self.worker, self.state = worker, state
        self.jobs, self.decoded, self.calls = [], [], []
        self.globs = {}
        self.past, self.given = {}, set(env)
        self.fresh = 0

    # ------------------------------------------------------------ effects
    def forget(self):
        self.ev.memo.clear()
        self.ev.recs.clear()

    def x_if(self, e):
        os_, neg = guards(e.cond)
        if not os_:
            return Expander.x_if(self, e)
        if any(o in self.ev.env for o in os_) and getattr(self, "handling", 0):
            return Expander.x_if(self, e)
        body, hand = (e.then, e.els) if neg else (e.els, e.then)
        try:
            self.run(body)
        except PyExc as x:
            hit = None
            for o in os_:
                if catches(o.args[2], x.name):
                    hit = o
                    break
            if hit is None:
                raise
            for o in os_:
                self.ev.env[o] = o is hit
            self.forget()
            self.handling = getattr(self, "handling", 0) + 1
            try:
                self.run(hand)
            finally:
                self.handling -= 1
            return
        for o in os_:
            self.ev.env[o] = False
        self.forget()

    def x_call(self, e):
        n = e.name
        kw = dict(e.kwargs)
        pos = ([e.recv] if e.recv is not None else []) + list(e.args)
        r = self.callv(n, pos, kw, self.ev, pure=False, eff=e)
        if r is not NotImplemented:
            try:
                self.ev.env[e.result] = r
            except TypeError:
                pass
            self.forget()
        else:
            self.inplace(n, pos, kw, e)
            unknown_callee(e)

    def inplace(self, n, pos, kw, e):
        """in-place method of a list or dict the analysis does not own"""
        if n not in MUTATORS:
            return
        r = self.ev(pos[0])
        if not isinstance(r, (list, dict)) or isinstance(r, Arr):
            return
        if not any(r is v for v in self.ev.env.values()):
            raise Undecided("in-place %s of a computed value" % n)
        c = r.copy()
        getattr(c, n[1:])(*[self.fv(x, self.ev) for x in pos[1:]], **self.kwv(kw, self.ev))
        if list(c) != list(r) or c != r:
            raise Definite("the caller's %s %s becomes %s" % (type(r).__name__, nums(r) if isinstance(r, list) else r, nums(c) if isinstance(c, list) else c), e.site)

    def x_mut(self, e):
        pass

    def x_for(self, e):
        n = self.ev.integer(e.n, "loop bound")
        env = self.ev.env
        for i in range(n):
            before = set(env)
            self.ev.with_env({e.k: i}, lambda: self.run(e.body))
            # a result of this iteration is not the result of another one
            for t in [t for t in env if t not in before and isinstance(t, Term) and t.op == "call" and occurs(e.k, t)]:
                # it is found again by its number of iteration
                self.past[subst(t, e.k, const(i))] = env.pop(t)
            for t in [t for t in self.past if occurs(e.k, t)]:
                self.past[subst(t, e.k, const(i))] = self.past.pop(t)
            self.forget()

    # ------------------------------------------------------------ models
    def attr(self, b, name, ev):
        if b.kind == "decoder" and name == "params":
            return self.params
        if b.kind in b.d.get("attrs", {}) and name in b.d["attrs"]:
            return b.d["attrs"][name]
        if b.kind in ("pyobj", "fig", "axes"):
            return Ext("bound", obj=b, name=name)
        raise Undecided("attribute %s of %r" % (name, b))

    def fv(self, t, ev):
        """evaluate an argument; heap containers are frozen first"""
        if isinstance(t, Term) and t.op == "ref":
            f = self.w.run(lambda ip: ip.freeze(t), self.state_now()).value
            return ev(f)
        return ev(t)

    def state_now(self):
        return self.state

    def callv(self, n, pos, kw, ev, pure, eff=None):
        if not isinstance(n, str):
            return NotImplemented
        n = n.replace("qiskit_aer.", "qiskit.").replace("qiskit.providers.aer.", "qiskit.")
        m = getattr(self, "c_" + n.replace(".", "_").replace("<", "").replace(">", ""), None)
        if m is None and n.startswith("numpy."):
            m = getattr(self, "n_" + n[6:].replace(".", "_"), None)
        if m is None:
            if n.startswith(".") and pos:
                try:
                    recv = self.fv(pos[0], ev)
                except Undecided:
                    if not pure:
                        return NotImplemented
                    raise
                return self.method(n[1:], recv, pos[1:], kw, ev, pure, eff)
            if not pure and n.split(".")[0] in ("matplotlib", "mpl_toolkits"):
                return self.plotcall(n, pos, kw, ev)
            if pure and n.split(".")[0] in ("matplotlib", "mpl_toolkits"):
                raise Undecided("value of a plotting call that was not executed")
            return NotImplemented
        self.pure, self.eff = pure, eff
        return m(pos, kw, ev)

    def kwv(self, kw, ev):
        return {k: self.fv(v, ev) for k, v in kw.items()}

    def c_callable(self, pos, kw, ev):
        f = self.fv(pos[0], ev)
        if isinstance(f, Ext) and f.kind == "noise_model_func":
            a = [self.fv(x, ev) for x in pos[1:]] + list(self.kwv(kw, ev).values())
            if len(a) != 1:
                raise Definite("the noise model function is called with %d arguments" % len(a), ev.loc)
            return Ext("noise", p=a[0])
        return NotImplemented

    def c_qiskit_Aer_get_backend(self, pos, kw, ev):
        return Ext("backend", name=self.fv(pos[0], ev))

    def c_qiskit_AerSimulator(self, pos, kw, ev):
        return Ext("backend", name="aer_simulator", **{"opts": self.kwv(kw, ev)})

    def c_qiskit_execute(self, pos, kw, ev):
        k = self.kwv(kw, ev)
        p = [self.fv(x, ev) for x in pos]
        for i, nme in ((0, "experiments"), (1, "backend")):
            if len(p) > i:
                k[nme] = p[i]
        return self.job(k, "execute")

    def job(self, k, how):
        j = Ext("job", how=how, **k)
        if not self.pure:
            self.jobs.append(j)
        return j

    def c_qiskit_transpile(self, pos, kw, ev):
        k = self.kwv(kw, ev)
        c = self.fv(pos[0], ev)
        if k.get("optimization_level") != 0:
            return Ext("optimised", circ=c)
        return c

    def c_tqdm_tqdm(self, pos, kw, ev):
        return self.fv(pos[0], ev)

    c_tqdm_auto_tqdm = c_tqdm_tqdm
    c_tqdm_std_tqdm = c_tqdm_tqdm

    def c_multiprocessing_Pool(self, pos, kw, ev):
        return Ext("pool")

    c_multiprocessing_pool_Pool = c_multiprocessing_Pool
    c_concurrent_futures_ProcessPoolExecutor = c_multiprocessing_Pool

    def c_sorted(self, pos, kw, ev):
        v = self.fv(pos[0], ev)
        if "key" in kw:
            return NotImplemented
        rev = bool(self.fv(kw["reverse"], ev)) if "reverse" in kw else False
        if isinstance(v, (list, tuple)) and not any(isinstance(x, (G, B, Lin, BI)) for x in v):
            return sorted(v, reverse=rev)
        return NotImplemented

    def c_list(self, pos, kw, ev):
        v = self.fv(pos[0], ev) if pos else []
        if isinstance(v, (list, tuple)):
            return list(v)
        return NotImplemented

    def c_print(self, pos, kw, ev):
        return None

    def c_glob_glob(self, pos, kw, ev):
        import fnmatch

        pat = self.fv(pos[0], ev)
        if not isinstance(pat, str):
            raise Undecided("glob pattern")
        return [f for f in self.fs.files if fnmatch.fnmatch(f, pat) and f.count("/") == pat.count("/")]

    def c_os_path_exists(self, pos, kw, ev):
        return self.fv(pos[0], ev) in self.fs.files

    c_os_path_isfile = c_os_path_exists

    def c_os_replace(self, pos, kw, ev):
        a, b = self.fv(pos[0], ev), self.fv(pos[1], ev)
        if not self.pure:
            self.fs.files[b] = self.fs.files.pop(a)
            self.fs.log.append(("write", b, self.worker))

    c_os_rename = c_os_replace

    def c_os_path_join(self, pos, kw, ev):
        import posixpath

        return posixpath.join(*[self.fv(x, ev) for x in pos])

    # numpy
    def n_array(self, pos, kw, ev):
        return arr(self.fv(pos[0], ev))

    n_asarray = n_array

    def n_append(self, pos, kw, ev):
        a, b = arr(self.fv(pos[0], ev)), arr(self.fv(pos[1], ev))
        return Arr(list(a) + (list(b) if isinstance(b, Arr) else [b]))

    def n_concatenate(self, pos, kw, ev):
        out = Arr()
        for x in self.fv(pos[0], ev):
            out.extend(arr(x))
        return out

    def n_argsort(self, pos, kw, ev):
        return stable_argsort(self.fv(pos[0], ev))

    def n_unique(self, pos, kw, ev):
        v = list(self.fv(pos[0], ev))
        u = sorted(set(v))
        out = [Arr(u)]
        for name, f in (("return_index", v.index), ("return_inverse", None), ("return_counts", v.count)):
            i = ("return_index", "return_inverse", "return_counts").index(name) + 1
            flag = self.fv(kw[name], ev) if name in kw else self.fv(pos[i], ev) if len(pos) > i else False
            if flag:
                out.append(Arr(f(x) for x in u) if f else Arr(u.index(x) for x in v))
        return tuple(out) if len(out) > 1 else out[0]

    def n_sort(self, pos, kw, ev):
        return Arr(sorted(self.fv(pos[0], ev)))

    def n_load(self, pos, kw, ev):
        f = self.fv(pos[0], ev)
        if not isinstance(f, str):
            raise Undecided("file name %r" % (f,))
        if self.pure:
            # a value used after the load was carried out
            if any(x[0] == "write" and x[1] == f for x in self.fs.log) or not isinstance(self.fs.files.get(f), dict):
                raise Undecided("contents of a file at another time")
            return Ext("npz", data=dict(self.fs.files[f]))
        if f not in self.fs.files:
            raise PyExc("FileNotFoundError", ev.loc)
        d = self.fs.files[f]
        if isinstance(d, PyExc):
            raise PyExc(d.name, ev.loc)
        self.fs.log.append(("read", f, self.worker))
        return Ext("npz", data=dict(d))

    def n_savez(self, pos, kw, ev):
        f = self.fv(pos[0], ev)
        if not isinstance(f, str):
            raise Undecided("file name %r" % (f,))
        if self.pure:
            return None
        if len(pos) > 1:
            raise Undecided("positional arrays in savez")
        if not f.endswith(".npz"):
            f += ".npz"
        self.fs.files[f] = {k: arr(v) for k, v in self.kwv(kw, ev).items()}
        self.fs.log.append(("write", f, self.worker))
        self.fs.site = ev.loc

    n_savez_compressed = n_savez

    # methods of external objects
    def method(self, n, r, args, kw, ev, pure, eff):
        if isinstance(r, Ext):
            if r.kind == "decoder" and n == "correct_readout":
                a = [self.fv(x, ev) for x in args]
                k = self.kwv(kw, ev)
                names = ["syndromes", "logical_readout_type", "logical_qubit_value", "err_prob"]
                for nm, x in zip(names, a):
                    k[nm] = x
                for x in k:
                    if x not in names:
                        raise Definite("correct_readout has no argument %s" % x, ev.loc)
                rec = (k.get("syndromes"), k.get("logical_readout_type"), k.get("logical_qubit_value"), k.get("err_prob"))
                self.decoded.append(rec)
                return self.predict(*rec)
            if r.kind == "decoder":
                raise Undecided("decoder.%s" % n)
            if r.kind == "job" and n == "result":
                return Ext("result", job=r)
            if r.kind == "result" and n == "get_counts":
                nm = r.d["job"].d.get("noise_model")
                return self.counts(nm.d["p"] if isinstance(nm, Ext) and nm.kind == "noise" else None)
            if r.kind == "backend" and n == "run":
                k = self.kwv(kw, ev)
                k["experiments"] = self.fv(args[0], ev) if args else k.get("circuits")
                k["backend"] = r
                self.pure = pure
                k.setdefault("optimization_level", 0)
                return self.job(k, "run")
            if r.kind == "backend" and n in ("set_options", "set_option"):
                raise Undecided("options set on the backend")
            if r.kind == "pool" and n in ("map", "imap", "imap_unordered", "starmap", "map_async", "starmap_async", "apply", "apply_async", "submit"):
                if pure:
                    raise Undecided("results of workers")
                v = self.pmap(args, kw, ev, n)
                return Ext("async", value=v) if n.endswith("_async") or n == "submit" else v
            if r.kind == "async" and n in ("get", "result"):
                return r.d["value"]
            if r.kind == "async" and n in ("wait", "ready", "successful", "done"):
                return True
            if r.kind == "pool" and n in ("close", "join", "terminate", "shutdown"):
                return None
            if r.kind == "npz" and n in ("close", "__exit__"):
                return None
            if r.kind == "npz" and n == "get":
                return self.ev.index(r, self.fv(args[0], ev))
            if r.kind in ("fig", "axes", "pyobj"):
                return self.plotmethod(r, n, args, kw, ev, pure)
            raise Undecided("%s.%s" % (r.kind, n))
        if n in ("set_description", "update", "write", "close", "set_postfix", "refresh"):
            return None
        if isinstance(r, Arr):
            if n == "argsort":
                return stable_argsort(r)
            if n == "tolist":
                return list(r)
            if n == "copy":
                return Arr(r)
        if isinstance(r, (dict, list, tuple)):
            v = ev.method(n, r, [self.fv(x, ev) for x in args] if not kw else None)
            if v is not NotImplemented:
                return v
        return NotImplemented

    # workers
    def pmap(self, args, kw, ev, how="map"):
        f = args[0]
        kwa = {}
        if how in ("apply", "apply_async"):
            ps = self.seqterm(args[1] if len(args) > 1 else kw.get("args"))
            kd = kw.get("kwds") or (args[2] if len(args) > 2 else None)
            if kd is not None:
                raise Undecided("keyword arguments of a worker call")
            P = [sym("WORKITEM", "num")] * 0 + [sym("WORKITEM%d" % i, "num") for i in range(len(ps))]
            rows = [[self.fv(x, ev) for x in ps]]
        elif how == "submit":
            ps, kwa = list(args[1:]), dict(kw)
            P = [sym("WORKITEM%d" % i, "num") for i in range(len(ps))]
            rows = [[self.fv(x, ev) for x in ps]]
        elif how.startswith("starmap"):
            rows = [list(x) for x in self.fv(args[1], ev)]
            if len({len(x) for x in rows}) > 1:
                raise Undecided("rows of different lengths")
            P = [sym("WORKITEM%d" % i, "num") for i in range(len(rows[0]) if rows else 0)]
        else:
            rows = [[x] for x in self.fv(args[1], ev)]
            P = [sym("WORKITEM", "num")]
        check_picklable(f, ev.loc)
        if not rows:
            return []
        # booleans and numbers of known value are passed as they are
        vals = [P[i] if not all(isinstance(x[i], bool) or x[i] is None for x in rows) or len({x[i] for x in rows}) > 1 else (NONE if rows[0][i] is None else boolc(rows[0][i])) for i in range(len(P))]
        r = self.w.run(lambda ip: ip.freeze(ip.call(f, vals, kwa)), self.state)
        out = []
        if r.dead:
            raise Definite("the worker function always raises", r.raises[0][3] if r.raises else ev.loc)
        for x in rows:
            env = dict(self.ev.env)
            env.update(zip(P, x))
            b = Bench(self.w, r.state.heap, env, self.fs, self.predict, self.counts, self.params, worker=True, state=self.state)
            b.run(r.effects)
            b.forget()
            v = b.ev(r.value)
            self.jobs += b.jobs
            self.decoded += b.decoded
            out.append(v)
        if how == "imap_unordered":
            out.reverse()  # in any order
        return out[0] if how in ("apply", "apply_async", "submit") else out

    def seqterm(self, t):
        if t is None:
            return []
        if t.op == "tuple":
            return list(t.args)
        if t.op == "seq" and all(not s.args[0] and s.args[1] is TRUE for s in t.args):
            return [s.args[2] for s in t.args]
        raise Undecided("arguments of a worker call")

    # plotting
    def plotcall(self, n, pos, kw, ev):
        short = n.split(".")[-1]
        self.fresh += 1
        a, k = [self.pv(x, ev) for x in pos], {x: self.pv(y, ev) for x, y in kw.items()}
        self.calls.append((short, None, a, k, ev.loc))
        if short == "figure":
            return Ext("fig", id=("fig", self.fresh))
        if short == "subplots":
            f = Ext("fig", id=("fig", self.fresh))
            return (f, Ext("axes", id=("axes", self.fresh), fig=f))
        if short in ("gca", "subplot", "axes"):
            return Ext("axes", id=("current", 0), fig=None)
        return None

    def pv(self, x, ev):
        return self.fv(x, ev)

    def plotmethod(self, r, n, args, kw, ev, pure):
        if pure:
            if (r.d.get("id"), n) in getattr(self, "pres", {}):
                return self.pres[r.d.get("id"), n]
            raise Undecided("plotting call")
        a, k = [self.pv(x, ev) for x in args], {x: self.pv(y, ev) for x, y in kw.items()}
        self.calls.append((n, r, a, k, ev.loc))
        if r.kind == "fig" and n in ("subplots", "add_subplot", "gca", "add_axes"):
            self.fresh += 1
            return Ext("axes", id=("axes", self.fresh), fig=r)
        return None


def guards(c):
    """exception guards in an effect condition: (opaque terms, condition means 'no exception')"""
    if c.op == "opaque" and len(c.args) > 1 and c.args[1] == "except":
        return [c], False
    if c.op == "not":
        o, neg = guards(c.args[0])
        return o, (not neg if o else neg)
    if c.op in ("and", "or"):
        out, ns = [], set()
        for a in c.args:
            o, neg = guards(a)
            if not o:
                return [], False
            out += o
            ns.add(neg)
        return (out, ns.pop()) if len(ns) == 1 else ([], False)
    return [], False


def catches(types, name):
    if types == "*":
        return True
    for t in str(types).split(","):
        t = t.split(".")[-1]
        if t == name or t in SUP.get(name, ("Exception", "BaseException")):
            return True
    return False


def check_picklable(f, site):
    if f.op == "partial":
        check_picklable(f.args[0], site)
        return
    if f.op == "bound":
        return
    if f.op == "func":
        fi = f.args[0]
        q = getattr(fi, "qual", None) or getattr(fi, "name", "")
        if "<lambda>" in str(q) or "<locals>" in str(q) or getattr(fi, "name", "") == "<lambda>" or getattr(fi, "frame", None) is not None:
            raise Definite("a lambda or local function is sent to worker processes, which cannot be pickled", site)
        return
    raise Undecided("function sent to workers: %s" % show(f)[:80])


# ---------------------------------------------------------------- scenarios
D, C, NF = sym("DECODER", "ext"), sym("CIRCUIT", "ext"), sym("NOISEFUNC", "ext")
CV = sym("CORRECT", "int", 0)
RATES, COUNTS, PE, SHOTS = sym("RATES", "seq"), sym("COUNTS", "dict"), sym("PE", "num"), sym("SHOTS", "int", 0)
A_, B_ = sym("PHYS", "num"), sym("LOGI", "num")


class Rig:
    def __init__(self, ck):
        self.ck, self.w = ck, ck.world
        r = self.w.new("TopologicalBenchmark", lambda ip: ([], {"decoder": D, "circ": C, "noise_model_func": NF, "correct_logical_value": CV}))
        if r.dead:
            raise Definite("TopologicalBenchmark cannot be built", r.raises[0][3] if r.raises else None)
        self.b, self.state = r.value, r.state
        self.sums = {}

    def op(self, key, meth, args, kwargs=None, prev=None):
        """summary of one call (or a sequence of calls)"""
        if key not in self.sums:
            r = self.w.call(prev.state if prev is not None else self.state, self.b, meth, args, kwargs)
            if r.dead:
                raise Definite("%s always raises %s" % (meth, exc_name(r.raises[0][1]) if r.raises else "?"), r.raises[0][3] if r.raises else None)
            self.sums[key] = r
        return self.sums[key]

    def bench(self, fs, predict, counts, cv=0, params=None, **env):
        e = {D: Ext("decoder"), C: Ext("circuit"), NF: Ext("noise_model_func"), CV: cv}
        e.update(env.get("env", {}))
        b = Bench(self.w, self.state.heap, e, fs, predict, counts, params or {"d": (3, 5), "T": 2}, state=self.state)
        return b

    def do(self, b, r):
        b.ev.heap = b.heap = r.state.heap
        b.state = r.base
        b.run(r.effects)
        b.forget()
        for st, name, v, site in r.raises:
            vals = [b.ev.cond(p) for p in st.pc[len(r.base.pc) :]]
            if not any(x is False for x in vals):
                raise Definite("raises %s" % exc_name(name), site)
        return b.ev(self.w.run(lambda ip: ip.freeze(r.value), r.state).value) if r.value is not None else None

    def data(self, b, r):
        f = self.w.run(lambda ip: ip.freeze(ip.get_attr(self.b, "data")), r.state).value
        return b.ev(f)


def nums(v):
    return [x if not isinstance(x, float) else Fraction(str(x)) for x in v]


def close(a, b):
    return len(a) == len(b) and all(isinstance(x, (int, float, Fraction)) and abs(float(x) - float(y)) < 1e-12 for x, y in zip(a, b))


STR = ["1 0000 0010", "0 0000 0000", "0 0110 0000", "1 0000 0000"]


def predict(s, ty, val, p):
    k = STR.index(s) if s in STR else int(s.replace(" ", ""), 2) % 7
    return (k + (1 if p is not None else 0)) % 2


def table(p):
    """counts for a noise level: every level has its own logical error rate"""
    if p is None:
        raise Undecided("results of a run without the noise model")
    n = int(round(float(p) * 100000))
    return {STR[0]: n, STR[1]: 700000 - 2 * n, STR[2]: n + 3, STR[3]: 1}


def rate(cs, p, cv):
    return Fraction(sum(c for s, c in cs.items() if predict(s, "Z", None, p) != cv), sum(cs.values()))


# ---------------------------------------------------------------- B01
def b01(ck):
    rig = Rig(ck)
    for cv in (0, 1):
        for p in (None, Fraction(1, 10), 0):
            ck.case("correct value %d, err_prob %s" % (cv, p), b01_one, ck, rig, cv, p)
    ck.case("default err_prob", b01_default, ck, rig)
    for p, q in ((None, Fraction(1, 10)), (Fraction(1, 10), None), (Fraction(1, 10), Fraction(1, 10)), (Fraction(1, 10), Fraction(2, 10))):
        ck.case("err_prob %s after err_prob %s" % (q, p), b01_again, ck, rig, p, q)


def b01_one(ck, rig, cv, p):
    r = rig.op(("ler", p is None), "logical_error_rate", [COUNTS], {"err_prob": NONE if p is None else PE})
    for cs in ({STR[0]: 5}, {STR[1]: 5}, {STR[0]: 3, STR[1]: 9}, {STR[1]: 9, STR[2]: 1, STR[0]: 4, STR[3]: 2}, {STR[3]: 1, STR[0]: 1000}, {STR[1]: 2, STR[2]: 0, STR[0]: 4, STR[3]: 1}, {STR[0]: 0, STR[1]: 6, STR[2]: 5}, {"%d %s" % (i % 2, format(i, "08b")): (i * i) % 97 for i in range(60)}, {STR[0]: 10**7, STR[1]: 3, STR[2]: 10**6 + 1}):
        b = rig.bench(FS(), predict, table, cv, env={COUNTS: cs, PE: p})
        v = rig.do(b, r)
        want = rate(cs, p, cv)
        ck.ob("logical error rate = wrongly decoded shots / shots", isinstance(v, (int, float, Fraction)) and abs(float(v) - float(want)) < 1e-12, lambda: "counts %s: %s, expected %s" % (cs, v, want))
        got = set(b.decoded)
        ck.ob("every readout string is decoded as a Z readout with the given err_prob", got == {(s, "Z", None, p) for s in cs}, lambda: "decoder was asked %s for the strings %s with err_prob %s" % (sorted(map(str, got)), sorted(cs), p))
        ck.ob("a pure query", not b.fs.log and not b.jobs, lambda: "files or simulations: %s %s" % (b.fs.log, b.jobs))


def b01_again(ck, rig, p, q):
    """what was counted before has no say in a rate"""
    C2, P2 = sym("COUNTS2", "dict"), sym("PE2", "num")
    r1 = rig.op(("ler", p is None), "logical_error_rate", [COUNTS], {"err_prob": NONE if p is None else PE})
    r2 = rig.op(("ler2", p is None, q is None), "logical_error_rate", [C2], {"err_prob": NONE if q is None else P2}, prev=r1)
    for c1, c2 in (({STR[0]: 5, STR[1]: 9}, {STR[0]: 3, STR[1]: 2}), ({STR[1]: 9, STR[2]: 1, STR[0]: 4}, {STR[2]: 1000, STR[3]: 1}), ({STR[3]: 7}, {STR[0]: 1, STR[1]: 1, STR[2]: 1, STR[3]: 1})):
        b = rig.bench(FS(), lambda s, ty, val, e: (predict(s, ty, val, e) + (e == Fraction(2, 10))) % 2, table, 0, env={COUNTS: c1, PE: p, C2: c2, P2: q})
        rig.do(b, r1)
        b.decoded = []
        v = rig.do(b, r2)
        want = Fraction(sum(c for s, c in c2.items() if b.predict(s, "Z", None, q) != 0), sum(c2.values()))
        ck.ob("a logical error rate does not depend on earlier ones", isinstance(v, (int, float, Fraction)) and abs(float(v) - float(want)) < 1e-12, lambda: "counts %s with err_prob %s after counts %s with err_prob %s: %s, expected %s" % (c2, q, c1, p, v, want))
        got = set(b.decoded)
        ck.ob("every readout string is decoded with the given err_prob", got == {(s, "Z", None, q) for s in c2} or got <= {(s, "Z", None, q) for s in c2} and isinstance(v, (int, float, Fraction)), lambda: "decoder was asked %s" % sorted(map(str, got)))


def b01_default(ck, rig):
    r = rig.op("ler0", "logical_error_rate", [COUNTS])
    b = rig.bench(FS(), predict, table, 0, env={COUNTS: {STR[0]: 3, STR[1]: 4}})
    rig.do(b, r)
    ck.ob("no degeneracy weighting unless asked for", all(x[3] is None for x in b.decoded), "err_prob defaults to %s" % [x[3] for x in b.decoded])


# ---------------------------------------------------------------- B02
LISTS = [[Fraction(1, 10)], [Fraction(4, 100), Fraction(16, 100), Fraction(7, 100)], [Fraction(16, 100), Fraction(7, 100), Fraction(4, 100)], [Fraction(1, 10), Fraction(2, 10), Fraction(1, 10)], [], [Fraction(412, 10000), Fraction(41, 1000), Fraction(411, 10000), Fraction(1, 10000), Fraction(2, 10000)]]
WIDE = [Fraction(9, 10), Fraction(1, 100000), Fraction(1, 1000), Fraction(3, 10), Fraction(1, 100), Fraction(45, 100), Fraction(6, 10)]
MANY = [Fraction((7 * i) % 23 + 1, 1000) for i in range(23)]


def lists(ck):
    """short lists, a long one, and one longer than any number the source mentions"""
    big = [c for c in literals(ck, 300) if c >= len(MANY)]
    return LISTS + [MANY, WIDE] + ([[Fraction((7 * i) % (big[-1] + 3) + 1, 10000) for i in range(big[-1] + 2)]] if big and (big[-1] + 3) % 7 else [])



def run_point(ck, b, p, shots, cv, what, jobs):
    js = [j for j in jobs if isinstance(j.d.get("noise_model"), Ext) and j.d["noise_model"].kind == "noise" and j.d["noise_model"].d["p"] == p]
    for j in js:
        d = j.d
        ck.ob("the benchmarked circuit is run", isinstance(d.get("experiments"), Ext) and d["experiments"].kind == "circuit", lambda: "%s runs %s" % (what, d.get("experiments")))
        ck.ob("the circuit is run as it was built", d.get("optimization_level") == 0, lambda: "%s: optimization_level is %s, noise identities may be optimised away" % (what, d.get("optimization_level")))
        ck.ob("the requested number of shots is run", d.get("shots") == shots, lambda: "%s: %s shots instead of %s" % (what, d.get("shots"), shots))
    return js


def b02(ck):
    rig = Rig(ck)
    for deg in (True, False):
        for rates in lists(ck):
            for save in (False, True):
                for cv in (0, 1):
                    ck.case("sweep %s deg_weight=%s save_data=%s correct=%d" % ([float(x) for x in rates], deg, save, cv), b02_one, ck, rig, rates, deg, save, cv)
    for n in (1, 100, 8193, 10 ** 5 + 1, 10 ** 7):
        for deg in (True, False):
            ck.case("sweep with %d shots deg_weight=%s" % (n, deg), b02_one, ck, rig, LISTS[1], deg, False, 0, n)
        ck.case("single point with %d shots" % n, b02_shots, ck, rig, n)
    ck.case("default sweep", b02_default, ck, rig)
    ck.case("second sweep", b02_again, ck, rig)
    ck.case("another benchmark", b02_other, ck, rig)
    ck.case("single point", b02_single, ck, rig)
    ck.case("single point after others", b02_single_again, ck, rig)


def b02_one(ck, rig, rates, deg, save, cv, shots=777):
    r = rig.op(("sweep", deg, save), "sweep", [RATES], {"save_data": boolc(save), "shots": SHOTS, "deg_weight": boolc(deg)})
    given = list(rates)
    b = rig.bench(FS(), predict, table, cv, env={RATES: given, SHOTS: shots})
    rig.do(b, r)
    check_sweep(ck, rig, b, r, rates, deg, cv, shots, "sweep")
    ck.ob("the caller's list is left alone", given == list(rates) and not writes_to(r.effects), "sweep changes the list it was given")
    ck.ob("files are written exactly if asked for", bool([x for x in b.fs.log if x[0] == "write"]) == (save and bool(rates)), lambda: "save_data=%s: %s" % (save, b.fs.log))


def writes_to(effs):
    return [e for e in flat_effects(effs) if e.kind == "mut" and isinstance(e.a.get("addr"), Term)]


def check_sweep(ck, rig, b, r, rates, deg, cv, shots, what):
    jobs = list(b.jobs)
    want = sorted(rates)
    for p in sorted(set(rates)):
        js = run_point(ck, b, p, shots, cv, what, jobs)
        ck.ob("every error rate is simulated with its own noise model", len(js) >= rates.count(p), lambda: "%s: %s is simulated %d times" % (what, float(p), len(js)))
    ck.ob("nothing else is simulated", all(isinstance(j.d.get("noise_model"), Ext) and j.d["noise_model"].d.get("p") in rates for j in jobs), lambda: "%s runs %s" % (what, [j.d.get("noise_model") for j in jobs]))
    d = rig.data(b, r)
    if not isinstance(d, dict) or not {"physical_error_rates", "logical_error_rates"} <= set(d):
        raise Definite("%s leaves the data keys %s" % (what, sorted(d) if isinstance(d, dict) else d))
    x, y = list(d["physical_error_rates"]), list(d["logical_error_rates"])
    ck.ob("physical error rates are the requested ones, ascending", close(x, want), lambda: "%s: %s for the rates %s" % (what, [float(v) for v in x], [float(v) for v in rates]))
    exp = [rate(table(p), p if deg else None, cv) for p in want]
    ck.ob("each logical error rate belongs to its physical error rate", close(y, exp), lambda: "%s: logical rates %s at %s, expected %s" % (what, [float(v) for v in y], [float(v) for v in x], [float(v) for v in exp]))
    asked = {q[3] for q in b.decoded}
    if rates:
        ck.ob("degeneracy weighting uses the simulated rate, or is off", asked == (set(rates) if deg else {None}), lambda: "%s: decoded with err_prob %s" % (what, asked))


def b02_default(ck, rig):
    r = rig.op("sweep0", "sweep", [], {"save_data": FALSE})
    b = rig.bench(FS(), predict, table, 0)
    rig.do(b, r)
    d = rig.data(b, r)
    x = list(d["physical_error_rates"])
    ck.ob("default rates are swept in ascending order", len(x) > 1 and x == sorted(x) and len({float(j.d["noise_model"].d["p"]) for j in b.jobs}) == len(x), lambda: "default sweep: %s" % [float(v) for v in x])
    ck.ob("each logical error rate belongs to its physical error rate", close(list(d["logical_error_rates"]), [rate(table(p), p, 0) for p in x]), lambda: "default sweep: %s" % d)
    ck.ob("degeneracy weighting is on by default", {q[3] for q in b.decoded} == set(x), lambda: "default sweep decodes with err_prob %s" % {q[3] for q in b.decoded})


def kinds(rig, R, S, n=""):
    """the ways to measure a list of rates"""
    kw = {"save_data": FALSE, "shots": S}
    return (("sweep", kw, R, True), ("sweep", dict(kw, deg_weight=FALSE), R, False), ("sweep_mp", kw, R, True))


def b02_again(ck, rig, last=("sweep",)):
    """nothing is left over from what was measured before"""
    R2, S2 = sym("RATES2", "seq"), sym("SHOTS2", "int", 0)
    for m1, k1, x1, d1 in kinds(rig, RATES, SHOTS):
        r1 = rig.op((m1, d1, "first"), m1, [x1], k1)
        for m2, k2, x2, d2 in kinds(rig, R2, S2):
            if m2 not in last:
                continue
            r2 = rig.op((m1, d1, m2, d2), m2, [x2], k2, prev=r1)
            for l1, l2 in ((LISTS[1], LISTS[0]), (LISTS[1], [Fraction(3, 100), Fraction(2, 100), Fraction(5, 100)]), (LISTS[1], LISTS[2]), (LISTS[0], LISTS[0]), (LISTS[1], [])):
                b = rig.bench(FS(), predict, table, 0, env={RATES: l1, SHOTS: 5, R2: l2, S2: 8})
                rig.do(b, r1)
                b.jobs, b.decoded = [], []
                rig.do(b, r2)
                check_sweep(ck, rig, b, r2, l2, d2, 0, 8, "%s after %s" % (m2, m1))


def b02_other(ck, rig, last=("sweep",)):
    """nothing is shared with another benchmark"""
    w = rig.w
    D2, C2, NF2 = sym("DECODER2", "ext"), sym("CIRCUIT2", "ext"), sym("NOISEFUNC2", "ext")
    R2, S2 = sym("RATES2", "seq"), sym("SHOTS2", "int", 0)
    for m1, k1, x1, d1 in kinds(rig, RATES, SHOTS):
        if ("other", m1, d1) not in rig.sums:
            n = w.new("TopologicalBenchmark", lambda ip: ([], {"decoder": D2, "circ": C2, "noise_model_func": NF2}), rig.state)
            rig.sums["other", m1, d1] = n, w.call(n.state, n.value, m1, [x1], k1)
        n, r1 = rig.sums["other", m1, d1]
        for m2, k2, x2, d2 in kinds(rig, R2, S2):
            if m2 not in last:
                continue
            r2 = rig.op(("other", m1, d1, m2, d2), m2, [x2], k2, prev=r1)
            for l1, l2 in ((LISTS[1], LISTS[0]), (LISTS[1], LISTS[2])):
                b = rig.bench(FS(), predict, table, 0, env={RATES: l1, SHOTS: 5, R2: l2, S2: 8, D2: Ext("decoder"), C2: Ext("other circuit"), NF2: Ext("noise_model_func")})
                rig.do(b, n)
                rig.do(b, r1)
                b.jobs, b.decoded = [], []
                rig.do(b, r2)
                check_sweep(ck, rig, b, r2, l2, d2, 0, 8, "%s after %s of another benchmark" % (m2, m1))


def b02_single(ck, rig):
    for p in (Fraction(1, 10), Fraction(3, 100)) + tuple(WIDE):
        for save in (True, False):
            r = rig.op(("single", save), "single", [PE], {"save_data": boolc(save), "shots": SHOTS})
            b = rig.bench(FS(), predict, table, 0, env={PE: p, SHOTS: 99})
            v = rig.do(b, r)
            js = run_point(ck, b, p, 99, 0, "single", b.jobs)
            ck.ob("a single point is simulated once", len(js) == 1 == len(b.jobs), lambda: "single(%s) runs %s" % (float(p), b.jobs))
            w = rate(table(p), p, 0)
            ck.ob("a single point returns the logical error rate a sweep records", isinstance(v, (int, float, Fraction)) and abs(float(v) - float(w)) < 1e-12, lambda: "single(%s) returns %s, expected %s" % (float(p), v, w))
            f = [d for d in b.fs.files.values()]
            ck.ob("a single point is saved exactly if asked for", (len(f) == 1 and close(list(f[0].get("physical_error_rates", [])), [p]) and close(list(f[0].get("logical_error_rates", [])), [w])) if save else not b.fs.log, lambda: "single(%s, save_data=%s) leaves the files %s" % (float(p), save, b.fs.files))


def b02_shots(ck, rig, n):
    for save in (True, False):
        r = rig.op(("single", save), "single", [PE], {"save_data": boolc(save), "shots": SHOTS})
        b = rig.bench(FS(), predict, table, 0, env={PE: Fraction(1, 10), SHOTS: n})
        rig.do(b, r)
        js = run_point(ck, b, Fraction(1, 10), n, 0, "single", b.jobs)
        ck.ob("a single point is simulated once", len(js) == 1 == len(b.jobs), lambda: "single with %d shots runs %s" % (n, b.jobs))


def b02_single_again(ck, rig):
    """a point does not depend on the points and sweeps measured before"""
    P2, S2 = sym("PE2", "num"), sym("SHOTS2", "int", 0)
    r0 = rig.op(("single", False), "single", [PE], {"save_data": FALSE, "shots": SHOTS})
    r1 = rig.op(("sweep", True, False), "sweep", [RATES], {"save_data": FALSE, "shots": SHOTS, "deg_weight": TRUE})
    for nm, prev in (("a single point", r0), ("a sweep", r1)):
        r = rig.op(("single after", nm), "single", [P2], {"save_data": FALSE, "shots": S2}, prev=prev)
        for p, q in ((Fraction(1, 10), Fraction(3, 100)), (Fraction(3, 100), Fraction(1, 10)), (Fraction(1, 10), Fraction(1, 10))):
            b = rig.bench(FS(), predict, table, 0, env={PE: p, RATES: [p, Fraction(2, 10)], SHOTS: 99, P2: q, S2: 55})
            rig.do(b, prev)
            b.jobs, b.decoded = [], []
            v = rig.do(b, r)
            run_point(ck, b, q, 55, 0, "a single point after %s" % nm, b.jobs)
            ck.ob("a single point is simulated once", len(b.jobs) == 1, lambda: "single(%s) after %s runs %s" % (float(q), nm, b.jobs))
            w = rate(table(q), q, 0)
            ck.ob("a single point does not depend on what was measured before", isinstance(v, (int, float, Fraction)) and abs(float(v) - float(w)) < 1e-12, lambda: "single(%s) after %s at %s returns %s, expected %s" % (float(q), nm, float(p), v, w))


# ---------------------------------------------------------------- B03
def fname(ck, rig, params):
    r = rig.op("append", "append_data", [A_, B_])
    b = rig.bench(FS(), predict, table, 0, params=params, env={A_: Fraction(1, 10), B_: Fraction(1, 100)})
    rig.do(b, r)
    ks = list(b.fs.files)
    if len(ks) != 1:
        raise Definite("saving a point leaves the files %s" % ks)
    return ks[0], b


def b03(ck):
    rig = Rig(ck)
    ck.case("file names", b03_names, ck, rig)
    for old in [[], [(Fraction(5, 100), Fraction(2, 1000))], [(Fraction(3, 100), Fraction(1, 1000)), (Fraction(12, 100), Fraction(7, 100))], [(Fraction(1, 10), Fraction(5, 10)), (Fraction(2, 10), Fraction(5, 10))]] + [[(x, x / 7) for x in sorted(l)] for l in lists(ck)[len(LISTS) :]]:
        for new in ((Fraction(1, 10), Fraction(4, 100)), (Fraction(1, 100), Fraction(1, 2)), (Fraction(7, 1000), Fraction(0)), (Fraction(0), Fraction(0)), (Fraction(9, 10), Fraction(1)), (Fraction(1, 10 ** 6), Fraction(1, 10 ** 5))):
            ck.case("append %s to %d points" % (float(new[0]), len(old)), b03_append, ck, rig, old, new)
    ck.case("unreadable file", b03_bad, ck, rig)
    ck.case("load", b03_load, ck, rig)
    ck.case("load two", b03_load2, ck, rig)
    ck.case("saved sweeps", b03_sweep, ck, rig)


def b03_names(ck, rig):
    seen = {}
    odd = (1, 3, 5, 11, 13, 15, 21, 31, 111, 113)
    for d in [(a, b) for a in odd for b in odd if a * b > 1]:
        for T in (1, 2, 3, 5, 11, 12, 13, 21, 31, 101, 111, 113):
            n, b = fname(ck, rig, {"d": d, "T": T})
            ck.ob("every size and number of rounds has its own file", n not in seen, lambda: "d=%s T=%s and %s share the file %s" % (d, T, seen.get(n), n))
            seen[n] = (d, T)
            ck.ob("data files end in .npz", n.endswith(".npz"), "file %s" % n)


def b03_append(ck, rig, old, new):
    P = {"d": (3, 5), "T": 2}
    n, _ = fname(ck, rig, P)
    files = {}
    if old:
        files[n] = {"d": Arr(P["d"]), "T": P["T"], "physical_error_rates": Arr(x for x, y in old), "logical_error_rates": Arr(y for x, y in old)}
    other = {"physical_error_rates": Arr([1])}
    files["other.npz"] = dict(other)
    b = rig.bench(FS(files), predict, table, 0, params=P, env={A_: new[0], B_: new[1]})
    rig.do(b, rig.op("append", "append_data", [A_, B_]))
    d = b.fs.files.get(n, {})
    want = sorted(old + [new], key=lambda x: x[0])
    got = list(zip(d.get("physical_error_rates", []), d.get("logical_error_rates", [])))
    ck.ob("no measured point is lost", sorted(got) == sorted(want), lambda: "saved points %s, expected %s" % (pts(got), pts(want)), getattr(b.fs, "site", None))
    ck.ob("saved points are ordered and paired", [x for x, y in got] == [x for x, y in want], lambda: "saved points %s" % pts(got), getattr(b.fs, "site", None))
    ck.ob("the file names its size and rounds", list(d.get("d", [])) == list(P["d"]) and d.get("T") == P["T"], lambda: "saved d=%s T=%s for %s" % (d.get("d"), d.get("T"), P), getattr(b.fs, "site", None))
    ck.ob("other files are left alone", b.fs.files.get("other.npz") == other and len(b.fs.files) == 2, lambda: "files %s" % sorted(b.fs.files))


def pts(v):
    return [(float(x), float(y)) for x, y in v]


def b03_bad(ck, rig):
    P = {"d": (3, 5), "T": 2}
    n, _ = fname(ck, rig, P)
    broken = {"ValueError": PyExc("ValueError", None), "PermissionError": PyExc("PermissionError", None), "missing array": {"d": Arr((3, 5)), "T": 2, "physical_error_rates": Arr([1, 2])}}
    for what, c in broken.items():
        b = rig.bench(FS({n: c}), predict, table, 0, params=P, env={A_: Fraction(1, 10), B_: Fraction(1, 100)})
        try:
            rig.do(b, rig.op("append", "append_data", [A_, B_]))
        except PyExc:
            pass
        ck.ob("a file that cannot be read is not overwritten", b.fs.files.get(n) is c and not [x for x in b.fs.log if x[0] == "write" and x[1] == n], lambda: "reading %s fails with %s: it is replaced by %s" % (n, what, b.fs.files.get(n)), getattr(b.fs, "site", None))


def analysis(rig, files, name):
    w = rig.w
    F = sym("FILENAME", "str")
    if "an" not in rig.sums:
        r = w.new("TopologicalAnalysis", lambda ip: ([F], {}))
        if r.dead:
            raise Definite("TopologicalAnalysis cannot be built", None)
        r2 = w.call(r.state, r.value, "load_data")
        if r2.dead:
            raise Definite("load_data always raises", r2.raises[0][3] if r2.raises else None)
        rig.sums["an"] = (r.value, r2)
    a, r2 = rig.sums["an"]
    b = rig.bench(FS(files), predict, table, 0, env={F: name})
    b.state = r2.state
    rig.do(b, r2)
    get = lambda f: b.ev(w.run(lambda ip: ip.freeze(ip.get_attr(a, f)), r2.state).value)
    return get("params"), get("data"), b


def b03_load(ck, rig):
    for P in ({"d": (3, 5), "T": 2}, {"d": (7, 1), "T": 1}, {"d": (1, 9), "T": 10}, {"d": (13, 25), "T": 0}, {"d": (5, 5), "T": 200}):
        n, b0 = fname(ck, rig, P)
        b = rig.bench(FS(b0.fs.files), predict, table, 0, params=P, env={A_: Fraction(1, 100), B_: Fraction(1, 1000)})
        rig.do(b, rig.op("append", "append_data", [A_, B_]))
        p, d, bb = analysis(rig, b.fs.files, n)
        ck.ob("loading returns the saved size and rounds", isinstance(p, dict) and tuple(p.get("d", ())) == P["d"] and p.get("T") == P["T"], lambda: "saved for %s, loaded as %s" % (P, p))
        ck.ob("loading returns the saved points", isinstance(d, dict) and close(list(d.get("physical_error_rates", [])), [Fraction(1, 100), Fraction(1, 10)]) and close(list(d.get("logical_error_rates", [])), [Fraction(1, 1000), Fraction(1, 100)]), lambda: "loaded %s" % d)
        ck.ob("loading writes nothing", not [x for x in bb.fs.log if x[0] == "write"], "load_data writes")


def b03_load2(ck, rig):
    """every analysis keeps its own file's data"""
    w = rig.w
    F1, F2 = sym("FILENAME1", "str"), sym("FILENAME2", "str")
    files = {
        "a.npz": {"d": Arr((3, 5)), "T": 2, "physical_error_rates": Arr([Fraction(1, 10)]), "logical_error_rates": Arr([Fraction(1, 20)])},
        "b.npz": {"d": Arr((7, 1)), "T": 4, "physical_error_rates": Arr([Fraction(1, 50), Fraction(1, 5)]), "logical_error_rates": Arr([Fraction(1, 70), Fraction(1, 9)])},
    }
    for early in (True, False):
        key = ("load2", early)
        if key not in rig.sums:
            a1 = w.new("TopologicalAnalysis", lambda ip: ([F1], {}))
            if early:
                a2 = w.new("TopologicalAnalysis", lambda ip: ([F2], {}), a1.state)
                l1 = w.call(a2.state, a1.value, "load_data")
                l2 = w.call(l1.state, a2.value, "load_data")
                rs = [a1, a2, l1, l2]
            else:
                l1 = w.call(a1.state, a1.value, "load_data")
                a2 = w.new("TopologicalAnalysis", lambda ip: ([F2], {}), l1.state)
                l2 = w.call(a2.state, a2.value, "load_data")
                rs = [a1, l1, a2, l2]
            rig.sums[key] = rs, a1.value, a2.value
        rs, o1, o2 = rig.sums[key]
        b = rig.bench(FS(files), predict, table, 0, env={F1: "a.npz", F2: "b.npz"})
        for r in rs:
            b.state = r.state
            if r.dead:
                raise Definite("loading a second file always raises", r.raises[0][3] if r.raises else None)
            rig.do(b, r)
        get = lambda o, f: b.ev(w.run(lambda ip: ip.freeze(ip.get_attr(o, f)), rs[-1].state).value)
        for o, n in ((o1, "a.npz"), (o2, "b.npz")):
            p, d = get(o, "params"), get(o, "data")
            f = files[n]
            ck.ob("an analysis keeps the size and rounds of its own file", isinstance(p, dict) and tuple(p.get("d", ())) == tuple(f["d"]) and p.get("T") == f["T"], lambda: "after loading a.npz and b.npz, the analysis of %s has %s" % (n, p))
            ck.ob("an analysis keeps the points of its own file", isinstance(d, dict) and all(close(list(d.get(k, [])), list(f[k])) for k in ("physical_error_rates", "logical_error_rates")), lambda: "after loading a.npz and b.npz, the analysis of %s has %s" % (n, d))


def b03_sweep(ck, rig):
    P = {"d": (3, 5), "T": 2}
    n, _ = fname(ck, rig, P)
    old = (Fraction(5, 100), Fraction(2, 1000))
    for rates in LISTS[:4] + lists(ck)[len(LISTS) :]:
        r = rig.op(("sweep", True, True), "sweep", [RATES], {"save_data": TRUE, "shots": SHOTS, "deg_weight": TRUE})
        files = {n: {"d": Arr(P["d"]), "T": P["T"], "physical_error_rates": Arr([old[0]]), "logical_error_rates": Arr([old[1]])}}
        b = rig.bench(FS(files), predict, table, 0, params=P, env={RATES: rates, SHOTS: 5})
        rig.do(b, r)
        d = b.fs.files.get(n, {})
        got = list(zip(d.get("physical_error_rates", []), d.get("logical_error_rates", [])))
        want = [old] + [(p, rate(table(p), p, 0)) for p in rates]
        ck.ob("a saved sweep adds exactly its points", sorted(got) == sorted(want), lambda: "file after sweeping %s: %s, expected %s" % ([float(x) for x in rates], pts(got), pts(sorted(want))), getattr(b.fs, "site", None))


# ---------------------------------------------------------------- B04
def b04(ck):
    rig = Rig(ck)
    for rates in lists(ck):
        for save in (False, True):
            ck.case("sweep_mp %s save_data=%s" % ([float(x) for x in rates], save), b04_one, ck, rig, rates, save)
    ck.case("default rates", b04_default, ck, rig)
    ck.case("after other sweeps", b02_again, ck, rig, ("sweep_mp",))
    ck.case("another benchmark", b02_other, ck, rig, ("sweep_mp",))


def b04_one(ck, rig, rates, save):
    r = rig.op(("mp", save), "sweep_mp", [RATES], {"save_data": boolc(save), "shots": SHOTS})
    P = {"d": (3, 5), "T": 2}
    n, _ = fname(ck, rig, P)
    old = (Fraction(5, 100), Fraction(2, 1000))
    files = {n: {"d": Arr(P["d"]), "T": P["T"], "physical_error_rates": Arr([old[0]]), "logical_error_rates": Arr([old[1]])}}
    for cv in (0, 1):
        given = list(rates)
        b = rig.bench(FS(files), predict, table, cv, params=P, env={RATES: given, SHOTS: 777})
        rig.do(b, r)
        check_sweep(ck, rig, b, r, rates, True, cv, 777, "sweep_mp")
        ck.ob("the caller's list is left alone", given == list(rates), "sweep_mp changes the list it was given")
        ck.ob("worker processes write no file", not [x for x in b.fs.log if x[2] and x[0] == "write"], "the workers write the data file concurrently, points can get lost", getattr(b.fs, "site", None))
        d = b.fs.files.get(n, {})
        got = sorted(zip(d.get("physical_error_rates", []), d.get("logical_error_rates", [])))
        want = sorted([old] + ([(p, rate(table(p), p, cv)) for p in rates] if save else []))
        ck.ob("a saved sweep adds exactly its points", got == want, lambda: "file after sweep_mp of %s, save_data=%s: %s, expected %s" % ([float(x) for x in rates], save, pts(got), pts(want)), getattr(b.fs, "site", None))


def b04_default(ck, rig):
    r1 = rig.op("mp0", "sweep_mp", [], {"save_data": FALSE})
    r2 = rig.op("sweep0", "sweep", [], {"save_data": FALSE})
    out = []
    for r in (r1, r2):
        b = rig.bench(FS(), predict, table, 0)
        rig.do(b, r)
        d = rig.data(b, r)
        out.append((list(d["physical_error_rates"]), list(d["logical_error_rates"]), sorted({j.d.get("shots") for j in b.jobs})))
    ck.ob("both sweeps measure the same by default", close(out[0][0], out[1][0]) and close(out[0][1], out[1][1]) and out[0][2] == out[1][2], lambda: "sweep_mp: %s, sweep: %s" % (out[0], out[1]))


# ---------------------------------------------------------------- B05 / B06
FIG, AX = sym("FIG", "ext"), sym("AX", "ext")


def loaded(rig):
    """an analysis with data"""
    if "loaded" not in rig.sums:
        w = rig.w
        r = w.new("TopologicalAnalysis", lambda ip: ([], {}))
        if r.dead:
            raise Definite("TopologicalAnalysis cannot be built without a file", None)
        X, Y, TT_ = sym("XS", "seq"), sym("YS", "seq"), sym("TROUNDS", "int", 1)

        def f(ip):
            d = ip.get_attr(r.value, "data")
            ip.dict_store(d, const("physical_error_rates"), X)
            ip.dict_store(d, const("logical_error_rates"), Y)
            p = ip.get_attr(r.value, "params")
            ip.dict_store(p, const("d"), mk("tuple", const(3), const(5)))
            ip.dict_store(p, const("T"), TT_)

        r2 = w.run(f, r.state)
        rig.sums["loaded"] = (r.value, r2.state, X, Y, TT_)
    return rig.sums["loaded"]


def b05(ck):
    rig = Rig(ck)
    for have in ("axes", "figure", "both", "nothing"):
        for log in (True, False, None):
            for per in (True, False, None):
                ck.case("plot on %s, log=%s, per_round=%s" % (have, log, per), b05_one, ck, rig, have, log, per)


def b05_one(ck, rig, have, log, per):
    a, st, X, Y, TR = loaded(rig)
    kw = {}
    if have in ("axes", "both"):
        kw["ax"] = AX
    if have in ("figure", "both"):
        kw["fig"] = FIG
    if log is not None:
        kw["log"] = boolc(log)
    if per is not None:
        kw["per_round"] = boolc(per)
    lab, col = sym("LABEL", "str"), sym("COLOR", "str")
    kw["label"], kw["color"] = lab, col
    key = ("plot", have, log, per)
    if key not in rig.sums:
        r = rig.w.call(st, a, "plot", [], kw)
        if r.dead:
            raise Definite("plot always raises %s" % (exc_name(r.raises[0][1]) if r.raises else "?"), r.raises[0][3] if r.raises else None)
        rig.sums[key] = r
    r = rig.sums[key]
    fig = Ext("fig", id=("given", 0))
    ax = Ext("axes", id=("given", 1), fig=Ext("fig", id=("given", 2)))
    xs, ys = Arr([Fraction(1, 10), Fraction(2, 10), Fraction(2, 10), Fraction(5, 10)]), Arr([Fraction(9, 100), Fraction(3, 100), Fraction(7, 100), Fraction(1, 100)])
    for T in (3, 1, 7, 40) + tuple(x for c in literals(ck) for x in (c, c + 1)):
        b05_at(ck, rig, r, {X: xs, Y: ys, TR: T, lab: "L", col: "red", FIG: fig, AX: ax}, ax, xs, ys, T, have, log, per)
    many = [Fraction(i + 1, 1000) for i in range(40)]
    falls = [Fraction((i * 17) % 41, 500) for i in range(40)]
    b05_at(ck, rig, r, {X: Arr(many), Y: Arr(falls), TR: 2, lab: "L", col: "red", FIG: fig, AX: ax}, ax, many, falls, 2, have, log, per)


def b05_at(ck, rig, r, env, ax, xs, ys, T, have, log, per):
    b = rig.bench(FS(), predict, table, 0, env=dict(env))
    b.state = r.state
    rig.do(b, r)
    drawn = [c for c in b.calls if c[0] in ("plot", "loglog", "semilogy", "semilogx", "errorbar", "scatter")]
    if not ck.ob("one curve is drawn", len(drawn) == 1, lambda: "%d curves" % len(drawn)):
        return
    n, on, args, k, site = drawn[0]
    if have in ("axes", "both"):
        ck.ob("the curve is drawn on the axes that were passed", on is ax or (isinstance(on, Ext) and on.d.get("id") == ("given", 1)), lambda: "drawn on %r" % (on,), site)
        ck.ob("nothing is added to a figure when axes are passed", not [c for c in b.calls if c[0] in ("subplots", "add_subplot", "figure", "add_axes")], lambda: "calls %s" % [c[0] for c in b.calls], site)
    elif have == "figure":
        ck.ob("the curve is drawn on the figure that was passed", isinstance(on, Ext) and isinstance(on.d.get("fig"), Ext) and on.d["fig"].d.get("id") == ("given", 0), lambda: "drawn on %r" % (on,), site)
        ck.ob("no second figure is opened", not [c for c in b.calls if c[0] == "figure"], "a new figure is opened", site)
    else:
        ck.ob("a new figure is opened", isinstance(on, Ext) and on.kind == "axes" and on.d.get("id", (0,))[0] == "axes", lambda: "drawn on %r" % (on,), site)
    w = [y / T for y in ys] if per else list(ys)
    ck.ob("the curve shows logical over physical error rates", len(args) >= 2 and close(list(args[0]), list(xs)) and close(list(args[1]), w), lambda: "per_round=%s: curve %s" % (per, args), site)
    ck.ob("style arguments are passed on", k.get("label") == "L" and k.get("color") == "red", lambda: "style arguments %s" % k, site)
    sc = {}
    for c in b.calls:
        if c[0] in ("set_xscale", "set_yscale"):
            sc[c[0][4]] = c[2][0] if c[2] else None
            ck.ob("scales are set on the curve's axes", isinstance(c[1], Ext) and c[1].d.get("id") == on.d.get("id"), lambda: "scale set on %r" % (c[1],), c[4])
    if n == "loglog":
        sc = {"x": "log", "y": "log"}
    ck.ob("both axes are logarithmic exactly if asked for", (sc.get("x") == "log" and sc.get("y") == "log") == (log is not False) and (log is not False or "log" not in sc.values()), lambda: "log=%s: scales %s" % (log, sc), site)


def b06(ck):
    rig = Rig(ck)
    ck.case("batch", b06_one, ck, rig)


def b06_one(ck, rig):
    w = rig.w
    DIR = sym("DIRNAME", "str")
    r = w.new("TopologicalBatchAnalysis", lambda ip: ([DIR], {}))
    if r.dead:
        raise Definite("TopologicalBatchAnalysis cannot be built", r.raises[0][3] if r.raises else None)

    def mk_(d, T, s):
        return {"d": Arr(d), "T": T, "physical_error_rates": Arr([Fraction(1, 10), Fraction(s, 100)]), "logical_error_rates": Arr([Fraction(1, s), Fraction(1, 2 * s)])}

    sets = [
        {"data/a.npz": mk_((7, 7), 1, 3)},
        {"data/a.npz": mk_((7, 7), 1, 3), "data/b.npz": mk_((3, 3), 1, 5), "data/c.npz": mk_((5, 5), 2, 4)},
        {"data/c.npz": mk_((11, 11), 1, 3), "data/b.npz": mk_((9, 9), 4, 5), "other/b.npz": mk_((3, 3), 1, 7)},
    ]
    for n in [11] + [c + 1 for c in literals(ck, 100) if c > 10][:3]:
        sets.append({"data/%s.npz" % "".join(chr(97 + (i * 7 + j) % 26) for j in (0, 3 * i)): mk_((2 * ((i * 5) % n) + 3,) * 2, 1 + i % 3, 3 + i) for i in range(n)})
    for files in sets:
        b = rig.bench(FS(files), predict, table, 0, env={DIR: "data/"})
        b.state = r.state
        rig.do(b, r)
        order = lambda: [(tuple(f["d"]), f["T"], list(f["physical_error_rates"]), list(f["logical_error_rates"])) for n, f in sorted(files.items(), key=lambda x: x[1]["d"][0]) if n.startswith("data/")]
        want = order()

        def f(ip):
            l = ip.get_attr(r.value, "analyses")
            return ip.freeze(l)

        if "batchplot" not in rig.sums:
            rp = w.call(r.state, r.value, "plot")
            if rp.dead:
                raise Definite("TopologicalBatchAnalysis.plot always raises", rp.raises[0][3] if rp.raises else None)
            rig.sums["batchplot"] = rp
        rp = rig.sums["batchplot"]
        ck.ob("loading writes nothing", not [x for x in b.fs.log if x[0] == "write"], "files are written while loading")
        b.state = rp.state
        rig.do(b, rp)
        figs, cur = [], None
        for n, on, args, k, site in b.calls:
            if n in ("figure",) or (n == "subplots" and on is None):
                cur = {"curves": [], "scale": {}, "saved": [], "site": site}
                figs.append(cur)
            elif cur is None:
                continue
            elif n in ("plot", "loglog") and isinstance(on, Ext) and k.get("label") != "breakeven":
                cur["curves"].append((list(args[0]), list(args[1]), k.get("label"), site))
            elif n in ("plot", "loglog") and len(args) > 1:
                x, y = ([float(v) for v in z] for z in args[:2])
                ck.ob("the break-even line is where logical and physical error rates agree", len(x) > 1 and x == y, lambda: "the line labelled breakeven goes through %s" % list(zip(x, y)), site)
            elif n in ("set_xscale", "set_yscale"):
                cur["scale"].setdefault(n, set()).add(args[0])
            elif n == "savefig":
                cur["saved"].append(args[0])
        ck.ob("a logarithmic and a linear comparison are drawn", len(figs) == 2 and sorted(bool(x["scale"]) for x in figs) == [False, True], lambda: "figures with scales %s" % [x["scale"] for x in figs])
        names = [s for x in figs for s in x["saved"]]
        ck.ob("both comparisons are saved under their own name", len(set(names)) == len(names) == 2 and all(isinstance(x, str) and x.startswith("data/") for x in names), lambda: "saved as %s" % names)
        for x in figs:
            ck.ob("every data file of the directory is one curve, by increasing size", [(c[0], c[1]) for c in x["curves"]] == [(a[2], a[3]) for a in want], lambda: "curves %s, expected those of %s" % ([c[2] for c in x["curves"]], [(a[0], a[1]) for a in want]), x["site"])
            for c, a in zip(x["curves"], want):
                ck.ob("curves are labelled with their size and rounds", isinstance(c[2], str) and str(a[0]) in c[2] and str(a[1]) in c[2].replace(str(a[0]), ""), lambda: "the curve of d=%s T=%s is labelled %r" % (a[0], a[1], c[2]), c[3])
