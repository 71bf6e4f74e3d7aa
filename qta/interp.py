"""
Abstract interpreter over the syntax trees of /repo/qtcodes.

Every statement is visited a bounded number of times per calling context:
branches are joined (conditional terms / conditional effects), loops over
symbolic ranges are summarised (induction variables, appended segments,
recurrences), recursion is cut into a `rec` effect.  Nothing of /repo is
imported or executed.
"""
import ast
import itertools
import os
from fractions import Fraction
from .terms import *
from . import terms as T


class AnalysisError(Exception):
    """the analysis cannot decide (analysis broken / undecided): error exit"""


class Dead(Exception):
    """current abstract path has ended"""


class Summ(dict):
    """summary of a recursive function (opaque to term rewriting)"""

    def items(self):
        raise TypeError

    __hash__ = object.__hash__


class Restart(Exception):
    """a container must be tracked through effects instead of closed forms: analyse again"""


# ---------------------------------------------------------------- infos
class ClassInfo:
    def __init__(self, name, module, node, bases, meta=None):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.attrs = {}
        self.addr = None
        self.mro = [self]
        for b in self._lin():
            self.mro.append(b)

    def _lin(self):
        # C3 over analysed bases; external bases are opaque leaves
        seqs = [list(b.args[0].mro) for b in self.bases if b.op == "class"]
        seqs.append([b.args[0] for b in self.bases if b.op == "class"])
        out = []
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in q[1:] for q in seqs):
                    break
            else:
                raise AnalysisError("inconsistent MRO for " + self.name)
            out.append(c)
            seqs = [[x for x in q if x is not c] for q in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1 :]
        for c in mro:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    @property
    def qual(self):
        return self.module + "." + self.name

    def term(self):
        return mk("class", self)


class FuncInfo:
    def __init__(self, name, node, module, frame, cls=None):
        self.name, self.node, self.module, self.frame, self.cls = name, node, module, frame, cls
        self.kind = "function"
        self.abstract = False
        self.defaults = []
        self.kwdefaults = {}
        self.is_gen = False

    @property
    def qual(self):
        return self.module + "." + (self.cls.name + "." if self.cls else "") + self.name

    @property
    def loc(self):
        return "%s:%s" % (self.module.replace(".", "/") + ".py", getattr(self.node, "lineno", 0))


class HObj:
    __slots__ = ("kind", "cls", "data", "label", "site")

    def __init__(self, kind, cls=None, data=None, label=None, site=None):
        self.kind, self.cls, self.data, self.label, self.site = kind, cls, data, label, site

    def with_data(self, data):
        return HObj(self.kind, self.cls, data, self.label, self.site)


class Eff:
    __slots__ = ("kind", "a", "site")

    def __init__(self, kind, site=None, **a):
        self.kind, self.a, self.site = kind, a, site

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "<%s %s>" % (self.kind, {k: v for k, v in self.a.items()})


class State:
    __slots__ = ("heap", "effects", "pc")

    def __init__(self, heap, effects, pc):
        self.heap, self.effects, self.pc = heap, effects, pc

    def clone(self):
        return State(dict(self.heap), self.effects, self.pc)


def subst_eff(effs, mp):
    memo = {}

    def tv(x):
        if isinstance(x, Term):
            return rewrite(x, mp, memo)
        if isinstance(x, tuple):
            return tuple(tv(y) for y in x)
        if isinstance(x, list):
            return [tv(y) for y in x]
        if isinstance(x, Summ):
            return x
        if isinstance(x, dict):
            return {k: tv(v) for k, v in x.items()}
        if isinstance(x, Eff):
            return one(x)
        return x

    def one(e):
        return Eff(e.kind, e.site, **{k: tv(v) for k, v in e.a.items()})

    return tuple(one(e) for e in effs)


# ---------------------------------------------------------------- interpreter
class Interp:
    MAX_DEPTH = 70

    def __init__(self, root="/repo", package="qtcodes", parsed=None):
        self.root, self.package = root, package
        self.addr = itertools.count(1)
        self.eid = itertools.count(1)
        self.st = State({}, (), ())
        self.modules = {}  # name -> frame addr
        self.sources = parsed if parsed is not None else {}
        self.callstack = []
        self.frames = []  # frame addr stack
        self.raises = [[]]  # collectors
        self.rets, self.breaks, self.conts = [], [], []
        self.site = None
        self.curmod = None
        self.visited_funcs = set()
        self.call_sites = 0
        self.loops = 0
        self.imprecise = []
        from . import models

        self.models = models.Models(self)
        self.overlay = []
        self.live_sites = set()  # allocation sites of containers tracked through effects
        self.recfuncs = {}  # functions found to be recursive -> list of summaries
        self.recstack = []

    # ------------------------------------------------------------ loading
    def load_all(self):
        pkg = os.path.join(self.root, self.package)
        names = []
        for top, dirs, files in os.walk(pkg):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.relpath(os.path.join(top, f), self.root)[:-3].replace(os.sep, ".")
                    if p.endswith(".__init__"):
                        p = p[: -len(".__init__")]
                    names.append(p)
        for n in names:
            self.load(n)
        return names

    def path_of(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.path_of(name)
        if path is None and not ispkg:
            return None
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        a = self.alloc(HObj("frame", None, {"__name__": const(name), "__file__": const(path)}, label="module " + name))
        self.modules[name] = a
        if path is None:
            return a
        if name not in self.sources:
            with open(path, "r", encoding="utf-8") as f:
                src = f.read()
            try:
                self.sources[name] = ast.parse(src, path)
            except SyntaxError as e:
                raise AnalysisError("cannot parse %s: %s" % (path, e))
        tree = self.sources[name]
        saved = (self.frames, self.curmod, self.callstack)
        self.frames, self.curmod = [a], name
        self.modpkg = None
        self.callstack = []
        try:
            self.exec_block(tree.body)
        finally:
            self.frames, self.curmod, self.callstack = saved
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            if par in self.modules:
                self.set_field(self.modules[par], leaf, mk("module", name), log=False)
        return a

    # ------------------------------------------------------------ heap
    def alloc(self, obj):
        a = next(self.addr)
        if obj.site is None:
            obj.site = self.site
        if obj.kind in ("list", "set", "dict") and obj.label is None and (obj.site, obj.kind) in self.live_sites:
            init = seq(*obj.data) if obj.kind != "dict" else mk("dict", *[mk("ent", tuple(b), g, k, v) for b, g, k, v in obj.data])
            obj = HObj(obj.kind, obj.cls, (), "live", obj.site)
            self.st.heap[a] = obj
            self.effect("newobj", addr=a, what=obj.kind, init=self.freeze(init))
            return a
        self.st.heap[a] = obj
        return a

    def live_term(self, ref):
        """current contents of a live container"""
        sid = sym("v%d" % next(self.eid), "any")
        self.effect("snapobj", ref=ref, sid=sid)
        return mk("live", ref, sid)

    def live_view(self, ref, o):
        L = self.live_term(ref)
        k = fresh("i", "int", 0)
        if o.kind == "dict":
            return HObj("dict", o.cls, (((((k, mk("len", L)),), TRUE, mk("lkey", L, k), mk("lval", L, k))),), "live", o.site)
        return HObj(o.kind, o.cls, (seg([(k, mk("len", L))], TRUE, mk("item", L, k)),), "live", o.site)

    def new_list(self, segs=(), kind="list", label=None):
        return mk("ref", self.alloc(HObj(kind, None, tuple(segs), label)))

    def new_dict(self, entries=(), label=None):
        return mk("ref", self.alloc(HObj("dict", None, tuple(entries), label)))

    def h(self, ref):
        o = self.st.heap[ref.args[0]]
        if o.label == "live":
            return self.live_view(ref, o)
        return o

    live_dicts = False

    def can_live(self, addr):
        o = self.st.heap.get(addr)
        return o is not None and o.kind in ("list", "set", "dict") and o.site is not None and (o.site, o.kind) not in self.live_sites

    def make_live(self, addr):
        o = self.st.heap.get(addr)
        if o is None or o.kind not in ("list", "set", "dict") or o.site is None or (o.site, o.kind) in self.live_sites:
            raise AnalysisError("a recursive function changes an object the analysis cannot follow")
        self.live_sites.add((o.site, o.kind))
        raise Restart()

    def put(self, addr, data, what=None, key=None, val=None, log=True):
        o = self.st.heap[addr]
        if o.label == "live":
            if o.kind == "dict":
                if what == "setitem":
                    self.effect("mut", addr=addr, what="setitem", key=self.freeze(key), val=val, obj="live")
                elif what == "clear":
                    self.effect("mut", addr=addr, what="assign", key=None, val=mk("dict"), obj="live")
                elif what == "del":
                    self.effect("mut", addr=addr, what="del", key=self.freeze(key), val=None, obj="live")
                else:
                    raise AnalysisError("dict operation %s on a container tracked through effects" % what)
            else:
                self.effect("mut", addr=addr, what="assign", key=None, val=self.freeze(seq(*data)), obj="live")
            return
        self.st.heap[addr] = self.st.heap[addr].with_data(data)
        if log and what:
            self.effect("mut", addr=addr, what=what, key=key, val=val, obj=self.st.heap[addr].label)

    def set_field(self, addr, name, val, log=True):
        o = self.st.heap[addr]
        d = dict(o.data)
        d[name] = val
        self.put(addr, d, "field" if log and o.kind == "obj" else None, name, val)

    def effect(self, kind, **a):
        e = Eff(kind, self.site, **a)
        self.st.effects = self.st.effects + (e,)
        return e

    def note(self, msg):
        self.imprecise.append("%s: %s" % (self.site, msg))

    def unknown(self, why, sort_="any"):
        self.note(why)
        return fresh("unk:" + why, sort_)

    # ------------------------------------------------------------ freeze
    def freeze(self, v, depth=0, st=None):
        st = st or self.st
        if depth > 8:
            return v
        op = v.op
        if op == "ref":
            o = st.heap.get(v.args[0])
            if o is None:
                return v
            if o.label == "live":
                if st is not self.st:
                    raise AnalysisError("container tracked through effects observed in another state")
                return self.live_term(v)
            if o.kind in ("list", "set"):
                return seq(*[self.freeze(s, depth + 1, st) for s in o.data])
            if o.kind == "dict":
                return mk(
                    "dict",
                    *[
                        mk("ent", tuple(b), g, self.freeze(k, depth + 1, st), self.freeze(x, depth + 1, st))
                        for b, g, k, x in o.data
                    ]
                )
            return v
        if op in ("c", "s", "poly", "func", "class", "ext", "bound", "module"):
            if op == "poly" and not contains_op(v, ("ref",)):
                return v
            if op != "poly":
                return v
        if op in ("tuple", "seq", "seg", "ite"):
            args = tuple(self._fz(a, depth, st) for a in v.args)
            if args == v.args:
                return v
            return rebuild(op, args)
        return v

    def _fz(self, x, depth, st):
        if isinstance(x, Term):
            return self.freeze(x, depth + 1, st)
        if isinstance(x, tuple):
            return tuple(self._fz(y, depth, st) for y in x)
        return x

    # ------------------------------------------------------------ sequences
    def to_segs(self, v):
        """segments of an iterable value"""
        op = v.op
        if op == "seq":
            return v.args
        if op == "tuple":
            return tuple(seg1(x) for x in v.args)
        if op == "ref":
            o = self.h(v)
            if o.kind in ("list", "set"):
                return o.data
            if o.kind == "dict":
                return tuple(mk("seg", tuple(b), g, k) for b, g, k, x in o.data)
            if o.kind == "ext":
                s = self.models.iter_ext(v, o)
                if s is not None:
                    return s
            if o.kind == "obj":
                c = o.cls.lookup("__iter__")[0]
                if c is not None:
                    return self.to_segs(self.call(self.get_attr(v, "__iter__"), [], {}))
        if op == "c" and isinstance(cval(v), str):
            return tuple(seg1(const(ch)) for ch in cval(v))
        if op == "ite":
            c, a, b = v.args
            sa, sb = self.to_segs(a), self.to_segs(b)
            out = [mk("seg", s.args[0], and_(c, s.args[1]), s.args[2]) for s in sa]
            out += [mk("seg", s.args[0], and_(not_(c), s.args[1]), s.args[2]) for s in sb]
            return tuple(out)
        k = fresh("i", "int", 0)
        n = T.length(v)
        SYMINFO[k] = SymInfo(0, sub(n, ONE))
        return (seg([(k, n)], TRUE, self.item(v, k)),)

    def item(self, v, k):
        return T.item(v, k)

    def inst_seg(self, s):
        """instantiate binders with fresh symbols -> (binders, guard, elem)"""
        b, g, e = s.args
        mp = {}
        nb = []
        for k, n in b:
            nn = rewrite(n, mp)
            k2 = fresh(k.args[0].split("#")[0], "int", 0, sub(nn, ONE))
            mp[k] = k2
            nb.append((k2, nn))
        if mp:
            g, e = rewrite(g, mp), rewrite(e, mp)
        return nb, g, e

    def seq_get(self, segs, idx):
        """element at (symbolic) index; None if not resolvable"""
        return T.seq_index(tuple(segs), idx)

    def seq_slice(self, segs, lo, hi, step):
        """python slice with None or Term bounds; returns segs or None"""
        st = 1
        if step is not None and step is not NONE:
            if not is_const(step):
                return None
            st = int(cval(step))
        lens = [seg_len(s) for s in segs]
        if st == -1 and (lo is None or lo is NONE) and (hi is None or hi is NONE):
            out = []
            for s, n in zip(reversed(segs), reversed(lens)):
                b, g, e = s.args
                if not b:
                    out.append(s)
                    continue
                if n is None or len(b) != 1:
                    return None
                k = fresh("r", "int", 0, sub(n, ONE))
                out.append(seg([(k, n)], TRUE, subst(e, b[0][0], sub(sub(n, ONE), k))))
            return tuple(out)
        if st < 1 or any(n is None for n in lens):
            return None
        total = ZERO
        for n in lens:
            total = add(total, n)

        def norm(x, dflt):
            if x is None or x is NONE:
                return dflt
            if lower(x) is not None and lower(x) >= 0:
                return x
            if is_const(x) and cval(x) < 0:
                return add(total, x)
            l = lower(x)
            if l is None:
                return x
            return x

        lo, hi = norm(lo, ZERO), norm(hi, total)
        out = []
        off = ZERO
        nseg = len([n for n in lens if n is not ZERO])
        for s, n in zip(segs, lens):
            b, g, e = s.args
            # local window [a, z)
            a = sub(lo, off)
            z = sub(hi, off)
            a = ZERO if cmp_("<=", a, ZERO) is TRUE else a if cmp_("<=", n, a) is not TRUE else n
            z = n if cmp_("<=", n, z) is TRUE else ZERO if cmp_("<=", z, ZERO) is TRUE else z
            off = add(off, n)
            if cmp_("<=", z, a) is TRUE:
                continue
            if a is ZERO and z is n and st == 1:
                out.append(s)
                continue
            if not b:
                if not (is_const(a) and is_const(z)):
                    cond = and_(cmp_("<=", a, ZERO), cmp_("<", ZERO, z))
                    out.append(mk("seg", (), cond, e))
                continue
            if len(b) != 1:
                return None
            if st != 1 and nseg > 1:
                return None
            if z is not n:
                z = self._min(z, n)
            cnt = sub(z, a)
            if st != 1:
                cnt = floordiv(add(cnt, const(st - 1)), const(st))
            k = fresh("s", "int", 0, sub(cnt, ONE))
            out.append(seg([(k, cnt)], TRUE, subst(e, b[0][0], add(a, mul(const(st), k)))))
        if st != 1 and all(not s.args[0] for s in segs):
            out = out[::st]
        return tuple(out)

    def _min(self, a, b):
        c = cmp_("<=", a, b)
        return a if c is TRUE else b if c is FALSE else ite(c, a, b)

    def _max(self, a, b):
        c = cmp_("<=", b, a)
        return a if c is TRUE else b if c is FALSE else ite(c, a, b)

    def iter_range(self, args):
        if len(args) == 1:
            a, b, s = ZERO, args[0], ONE
        elif len(args) == 2:
            a, b, s = args[0], args[1], ONE
        else:
            a, b, s = args
        if is_const(a) and is_const(b) and is_const(s):
            r = range(int(cval(a)), int(cval(b)), int(cval(s)))
            if len(r) <= 64:
                return seq(*[seg1(const(x)) for x in r])
        d = sub(b, a)
        if is_const(s):
            sv = int(cval(s))
            if sv > 0:
                n = d if sv == 1 else floordiv(add(d, const(sv - 1)), s)
            else:
                n = floordiv(add(neg(d), const(-sv - 1)), const(-sv))
        else:
            n = floordiv(add(d, sub(s, ONE)), s)
        c = cmp_("<=", ZERO, n)
        if c is FALSE:
            n = ZERO
        elif c is not TRUE:
            n = ite(c, n, ZERO)
        if n is ZERO:
            return seq()
        k = fresh("i", "int", 0, sub(n, ONE))
        return seq(seg([(k, n)], TRUE, add(a, mul(s, k))))

    def zip_(self, seqs):
        segss = [self.to_segs(s) for s in seqs]
        if not segss:
            return seq()
        if all(all(not s.args[0] and s.args[1] is TRUE for s in ss) for ss in segss):
            return seq(*[seg1(mk("tuple", *[s.args[2] for s in row])) for row in zip(*segss)])
        # align on a driver sequence: find min length
        lens = []
        for ss in segss:
            n = ZERO
            for s in ss:
                l = seg_len(s)
                n = None if l is None or n is None else add(n, l)
            lens.append(n)
        if any(n is None for n in lens):
            # all identical binder structure?
            return None
        # use segment boundaries of the first sequence when all lengths agree
        n = lens[0]
        di = 0
        for i, m in enumerate(lens[1:], 1):
            if cmp_("<", m, n) is TRUE:
                n, di = m, i
            elif cmp_("<=", n, m) is TRUE:
                pass
            elif m is not n:
                n, di = self._min(n, m), None
        if di is not None and all(
            len(s.args[0]) <= 1 and s.args[1] is TRUE for s in segss[di]
        ):
            out, off = [], ZERO
            for s in segss[di]:
                nb, g, e = self.inst_seg(s)
                pos = add(off, nb[0][0]) if nb else off
                row = []
                for j, ss in enumerate(segss):
                    if j == di:
                        row.append(e)
                    else:
                        x = self.seq_get(ss, pos)
                        if x is None:
                            return None
                        row.append(x)
                out.append(seg(nb, g, mk("tuple", *row)))
                off = add(off, seg_len(s))
            return seq(*out)
        k = fresh("z", "int", 0, sub(n, ONE))
        row = [self.seq_get(ss, k) for ss in segss]
        if any(x is None for x in row):
            return None
        return seq(seg([(k, n)], TRUE, mk("tuple", *row)))

    def enumerate_(self, v, start=ZERO):
        segs = self.to_segs(v)
        off = start
        out = []
        for s in segs:
            nb, g, e = self.inst_seg(s)
            l = seg_len(s)
            if l is None or len(nb) > 1:
                return None
            pos = add(off, nb[0][0]) if nb else off
            out.append(seg(nb, g, mk("tuple", pos, e)))
            off = add(off, l)
        return seq(*out)

    # ------------------------------------------------------------ completions
    def merge2(self, c, s1, s2, base):
        """join two states that forked at `base` (State before the fork) on condition c"""
        if s1 is None:
            return self._restrict(s2, base)
        if s2 is None:
            return self._restrict(s1, base)
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for a in h1.keys() | h2.keys():
            o1, o2 = h1.get(a), h2.get(a)
            if o1 is o2 or o2 is None:
                heap[a] = o1
            elif o1 is None:
                heap[a] = o2
            else:
                heap[a] = self.merge_obj(c, o1, o2, a)
        e1, e2 = s1.effects, s2.effects
        n = 0
        m = min(len(e1), len(e2))
        while n < m and e1[n] is e2[n]:
            n += 1
        t1, t2 = e1[n:], e2[n:]
        eff = e1[:n]
        if t1 or t2:
            eff = eff + (Eff("if", self.site, cond=c, then=t1, els=t2),)
        nb = len(base.pc)
        x1, x2 = self._suffix(s1, nb, c), self._suffix(s2, nb, not_(c))
        pc = base.pc
        if x1 or x2:
            g = or_(and_(c, *x1), and_(not_(c), *x2))
            if g is not TRUE:
                pc = pc + (g,)
        return State(heap, eff, pc)

    def _suffix(self, s, nb, c):
        return [x for x in s.pc[nb:] if x is not c]

    def _restrict(self, s, base):
        return s  # keeps the literal: the other side ended

    def merge_obj(self, c, o1, o2, addr):
        if o1.kind in ("frame", "obj", "ext"):
            d = {}
            for k in list(o1.data) + [k for k in o2.data if k not in o1.data]:
                if k not in o1.data:
                    d[k] = ite(c, UNDEF, o2.data[k])
                elif k not in o2.data:
                    d[k] = ite(c, o1.data[k], UNDEF)
                else:
                    d[k] = self.join(c, o1.data[k], o2.data[k])
            return o1.with_data(d)
        if o1.kind in ("list", "set"):
            a, b = o1.data, o2.data
            n = 0
            while n < min(len(a), len(b)) and a[n] is b[n]:
                n += 1
            out = list(a[:n])
            ta, tb = a[n:], b[n:]
            if len(ta) == len(tb) and all(not x.args[0] and not y.args[0] and x.args[1] is y.args[1] for x, y in zip(ta, tb)):
                out += [mk("seg", (), x.args[1], ite(c, x.args[2], y.args[2])) for x, y in zip(ta, tb)]
            else:
                out += [mk("seg", s.args[0], and_(c, s.args[1]), s.args[2]) for s in ta]
                out += [mk("seg", s.args[0], and_(not_(c), s.args[1]), s.args[2]) for s in tb]
            return o1.with_data(tuple(out))
        if o1.kind == "dict":
            a, b = o1.data, o2.data
            out = []
            bused = set()
            for e in a:
                bb, g, k, v = e
                match = [i for i, f in enumerate(b) if f[0] == bb and f[2] is k and i not in bused]
                if match:
                    i = match[0]
                    bused.add(i)
                    f = b[i]
                    out.append((bb, ite(c, g, f[1]), k, v if v is f[3] else self.join(c, v, f[3])))
                else:
                    out.append((bb, and_(c, g), k, v))
            for i, f in enumerate(b):
                if i not in bused:
                    out.append((f[0], and_(not_(c), f[1]), f[2], f[3]))
            return o1.with_data(tuple(out))
        return o1

    def join(self, c, a, b):
        if a is b:
            return a
        return ite(c, a, b)

    def merge_many(self, comps, base):
        """comps: list of (state, value) with mutually exclusive path conditions"""
        comps = [x for x in comps if x[0] is not None]
        if not comps:
            return None, None
        nb = len(base.pc)
        acc, val = comps[-1]
        if len(comps) == 1:
            return acc, val
        if len(comps) > 2:
            # states that forked one inside the other are joined inside out
            i = nb
            while all(len(s.pc) > i for s, _ in comps) and all(s.pc[i] is comps[0][0].pc[i] for s, _ in comps):
                i += 1
            if all(len(s.pc) > i for s, _ in comps):
                c = comps[0][0].pc[i]
                yes = [x for x in comps if x[0].pc[i] is c]
                no = [x for x in comps if x[0].pc[i] is not_(c)]
                if no and len(yes) + len(no) == len(comps):
                    b = State({}, (), comps[0][0].pc[: i])
                    (s1, v1), (s2, v2) = self.merge_many(yes, b), self.merge_many(no, b)
                    m = self.merge2(c, s1, s2, b)
                    x1, x2 = s1.pc[i:], s2.pc[i:]
                    tot = or_(and_(*x1) if x1 else TRUE, and_(*x2) if x2 else TRUE)
                    m.pc = b.pc + ((tot,) if tot is not TRUE else ())
                    return m, self.join(c, v1, v2)
        for s, v in reversed(comps[:-1]):
            cond = and_(*s.pc[nb:]) if s.pc[nb:] else TRUE
            accc = and_(*acc.pc[nb:]) if acc.pc[nb:] else TRUE
            # choose the shorter discriminator
            i = nb
            while i < min(len(s.pc), len(acc.pc)) and s.pc[i] is acc.pc[i]:
                i += 1
            d = None
            if i < len(s.pc) and i < len(acc.pc) and not_(s.pc[i]) is acc.pc[i]:
                d = s.pc[i]
            else:
                d = and_(*s.pc[i:]) if s.pc[i:] else TRUE
                if d is TRUE:
                    d = not_(and_(*acc.pc[i:])) if acc.pc[i:] else TRUE
            m = self.merge2(d, s, acc, State({}, (), s.pc[:i]))
            # path condition of the union
            tot = or_(and_(*s.pc[i:]) if s.pc[i:] else TRUE, and_(*acc.pc[i:]) if acc.pc[i:] else TRUE)
            m.pc = s.pc[:i] + ((tot,) if tot is not TRUE else ())
            val = self.join(d, v, val)
            acc = m
        return acc, val

    def decide(self, c):
        if is_const(c):
            return bool(cval(c))
        pc = self.st.pc
        if c in pc:
            return True
        if not_(c) in pc:
            return False
        if pc:
            mp = {}
            for l in pc:
                mp[l] = TRUE
                mp[not_(l)] = FALSE
            c2 = rewrite(c, mp)
            if is_const(c2):
                return bool(cval(c2))
        return None

    def fork(self, c, f1, f2):
        """run f1 under c and f2 under not c, join; f* run with self.st set"""
        d = self.decide(c)
        if d is True:
            return f1()
        if d is False:
            return f2()
        base = self.st
        s1 = base.clone()
        s1.pc = base.pc + (c,)
        self.st = s1
        v1 = self.guarded(f1)
        s1 = self.st
        s2 = base.clone()
        s2.pc = base.pc + (not_(c),)
        self.st = s2
        v2 = self.guarded(f2)
        s2 = self.st
        self.st = self.merge2(c, s1, s2, base)
        if self.st is None:
            raise Dead()
        if s1 is None:
            return v2
        if s2 is None:
            return v1
        if v1 is None or v2 is None:
            return None
        return self.join(c, v1, v2)

    def guarded(self, f):
        try:
            return f()
        except Dead:
            self.st = None
            return None

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            if self.st is None:
                return
            try:
                self.exec_stmt(s)
            except Dead:
                self.st = None
                return

    def exec_stmt(self, s):
        self.site = "%s:%d" % (self.curmod, s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("statement %s not modelled" % type(s).__name__)
            return
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Global(self, s):
        pass

    def s_Nonlocal(self, s):
        d = self.frame_obj()
        self.st.heap[self.frames[-1]] = d.with_data(dict(d.data, **{"__nonlocal__": mk("names", tuple(s.names))}))

    def s_Import(self, s):
        for a in s.names:
            if a.name.split(".")[0] == self.package:
                self.load(a.name)
                v = mk("module", a.name if a.asname else a.name.split(".")[0])
            else:
                v = mk("ext", a.name if a.asname else a.name.split(".")[0])
            self.bind(a.asname or a.name.split(".")[0], v)

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            base = self.curmod
            path, ispkg = self.path_of(base)
            if not ispkg:
                base = base.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                base = base.rsplit(".", 1)[0]
            mod = base + ("." + mod if mod else "")
        if mod.split(".")[0] == self.package:
            a = self.load(mod)
            for al in s.names:
                if al.name == "*":
                    d = self.st.heap[a].data
                    names = [n for n in d if not n.startswith("_")]
                    if "__all__" in d:
                        names = [cval(x.args[2]) for x in self.to_segs(d["__all__"])]
                    for n in names:
                        self.bind(n, d[n])
                else:
                    d = self.st.heap[a].data
                    if al.name in d:
                        v = d[al.name]
                    else:
                        sub_ = mod + "." + al.name
                        if self.load(sub_) is not None:
                            v = mk("module", sub_)
                        else:
                            v = mk("missing", mod, al.name)
                            self.note("import of missing name %s.%s" % (mod, al.name))
                    self.bind(al.asname or al.name, v)
        else:
            for al in s.names:
                if al.name == "*":
                    self.note("star import of external " + mod)
                    continue
                self.bind(al.asname or al.name, mk("ext", mod + "." + al.name))

    def frame_obj(self):
        return self.st.heap[self.frames[-1]]

    def bind(self, name, v):
        fa = self.frames[-1]
        o = self.st.heap[fa]
        nl = o.data.get("__nonlocal__")
        if nl is not None and name in nl.args[0]:
            p = o.cls
            while p is not None:
                if name in self.st.heap[p].data:
                    fa, o = p, self.st.heap[p]
                    break
                p = self.st.heap[p].cls
        d = dict(o.data)
        d[name] = v
        self.st.heap[fa] = o.with_data(d)

    def s_FunctionDef(self, s):
        cls = getattr(self, "_defcls", None)
        f = FuncInfo(s.name, s, self.curmod, self.frames[-1], None)
        self._mk_func(f, s)
        val = mk("func", f)
        for d in reversed(s.decorator_list):
            n = self._dotted(d)
            if n == "staticmethod":
                f.kind = "static"
            elif n == "classmethod":
                f.kind = "classmethod"
            elif n in ("property", "functools.cached_property", "cached_property"):
                f.kind = "property"
            elif n in ("abstractmethod", "abc.abstractmethod"):
                f.abstract = True
            elif n and (n.endswith(".setter") or n.endswith(".deleter")):
                return
            elif n in ("functools.wraps", "functools.lru_cache", "lru_cache", "functools.cache", "cache"):
                pass
            else:
                dv = self.ev(d)
                if dv.op in ("func", "bound"):
                    val = self.call(dv, [val], {})
                else:
                    self.note("decorator %s not modelled" % (n,))
        self.bind(s.name, val)

    s_AsyncFunctionDef = s_FunctionDef

    def _mk_func(self, f, s):
        a = s.args
        f.defaults = [self.ev(x) for x in a.defaults]
        f.kwdefaults = {k.arg: self.ev(v) for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        if not isinstance(s, ast.Lambda):

            class G(ast.NodeVisitor):
                gen = False

                def visit_FunctionDef(self, n):
                    pass

                visit_Lambda = visit_FunctionDef
                visit_AsyncFunctionDef = visit_FunctionDef

                def visit_Yield(self, n):
                    self.gen = True

                visit_YieldFrom = visit_Yield

            g = G()
            for b in s.body:
                g.visit(b)
            f.is_gen = g.gen

    def _dotted(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Name):
            return d.id
        if isinstance(d, ast.Attribute):
            b = self._dotted(d.value)
            return (b + "." if b else "") + d.attr
        return None

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            bases.append(self.ev(b))
        meta = None
        for kw in s.keywords:
            if kw.arg == "metaclass":
                meta = self.ev(kw.value)
        ci = ClassInfo(s.name, self.curmod, s, bases, meta)
        ci.meta = meta
        fa = self.alloc(HObj("frame", self.frames[-1], {"__name__": const(self.curmod)}, label="class " + s.name))
        self.frames.append(fa)
        self.exec_block(s.body)
        self.frames.pop()
        for k, v in self.st.heap[fa].data.items():
            ci.attrs[k] = v
            if v.op == "func" and v.args[0].cls is None and v.args[0].node in s.body:
                v.args[0].cls = ci
                v.args[0].frame = self.frames[-1]
        ci.attrs.pop("__name__", None)
        ci.addr = fa
        self.bind(s.name, mk("class", ci))

    def s_Return(self, s):
        v = NONE if s.value is None else self.ev(s.value)
        self.rets[-1].append((self.st, v))
        self.st = None

    def s_Raise(self, s):
        v = None
        if s.exc is not None:
            v = self.ev(s.exc)
        self.do_raise(v)

    def do_raise(self, v):
        name = None
        if v is not None:
            if v.op == "ref" and self.h(v).kind == "obj":
                name = self.h(v).cls
            elif v.op == "class":
                name = v.args[0]
            elif v.op == "call":
                name = v.args[0]
            elif v.op == "ext":
                name = v.args[0]
        self.raises[-1].append((self.st, name, v, self.site))
        self.st = None
        raise Dead()

    def s_Assert(self, s):
        c = truth_of(self, self.ev(s.test))

        def bad():
            self.do_raise(mk("ext", "AssertionError"))

        self.fork(c, lambda: NONE, bad)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                if o.op == "ref" and self.h(o).kind == "dict":
                    d = self.h(o).data
                    self.put(o.args[0], tuple(e for e in d if e[2] is not k), "del", k)
                    continue
                self.unknown_mut(o, "del")
            elif isinstance(t, ast.Name):
                pass
            elif isinstance(t, ast.Attribute):
                self.note("del attribute")

    def unknown_mut(self, o, why):
        if o.op == "ref" and self.h(o).kind in ("list", "set"):
            u = self.unknown("list after " + why)
            k = fresh("i", "int", 0)
            self.put(o.args[0], (seg([(k, mk("len", u))], TRUE, mk("item", u, k)),), why)
        elif o.op == "ref" and self.h(o).kind == "dict":
            self.put(o.args[0], self.h(o).data, why)
            self.note("dict mutated by " + why)
        else:
            self.effect("mut", addr=None, what=why, key=o, val=None, obj=None)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, n if not star else None)
            if star:
                i = star[0]
                after = n - i - 1
                if items is None:
                    self.note("starred unpack")
                    items = [mk("item", v, const(j)) for j in range(n)]
                    for e, x in zip(t.elts, items):
                        self.assign(e.value if isinstance(e, ast.Starred) else e, x)
                    return
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.new_list([seg1(x) for x in items[i : len(items) - after]]))
                for e, x in zip(t.elts[i + 1 :], items[len(items) - after :]):
                    self.assign(e, x)
            else:
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.set_attr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.set_item(o, t.slice, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.note("assign target")

    def unpack(self, v, n):
        if v.op == "tuple":
            if n is not None and len(v.args) != n:
                self.do_raise(mk("ext", "ValueError"))
            return list(v.args)
        if v.op == "ite":
            a = self.unpack(v.args[1], n)
            b = self.unpack(v.args[2], n)
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        if v.op in ("ref", "seq"):
            segs = self.to_segs(v)
            if all(not s.args[0] and s.args[1] is TRUE for s in segs):
                return [s.args[2] for s in segs]
            if n is not None:
                out = [self.seq_get(segs, const(i)) for i in range(n)]
                if all(x is not None for x in out):
                    return out
        if n is None:
            return None
        return [self.item(v, const(i)) for i in range(n)]

    def set_attr(self, o, name, v):
        if o.op == "ref":
            ob = self.h(o)
            if ob.kind in ("obj", "ext", "frame"):
                d = dict(ob.data)
                d[name] = v
                self.put(o.args[0], d, "field", name, v)
                return
        if o.op == "class" and o.args[0].addr in self.st.heap:
            d = dict(self.st.heap[o.args[0].addr].data)
            d[name] = v
            self.put(o.args[0].addr, d, "field", name, v)
            return
        if o.op == "ite":
            c, a, b = o.args
            self.fork(c, lambda: self.set_attr(a, name, v), lambda: self.set_attr(b, name, v))
            return
        self.effect("mut", addr=None, what="field", key=mk("attr", o, name), val=v, obj=None)

    def set_item(self, o, sl, v):
        if o.op == "ite":
            c, a, b = o.args
            self.fork(c, lambda: self.set_item(a, sl, v), lambda: self.set_item(b, sl, v))
            return
        if o.op == "ref":
            ob = self.h(o)
            if isinstance(sl, ast.Slice):
                self.unknown_mut(o, "slice store")
                return
            k = sl if isinstance(sl, Term) else self.ev(sl)
            if ob.kind == "dict":
                self.dict_store(o, k, v)
                return
            if ob.kind == "list":
                if is_const(k) and all(not s.args[0] and s.args[1] is TRUE for s in ob.data):
                    i = int(cval(k))
                    d = list(ob.data)
                    if -len(d) <= i < len(d):
                        d[i] = seg1(v)
                        self.put(o.args[0], tuple(d), "setitem", k, v)
                        return
                # generic indexed store on a known-length list
                if all(not s.args[0] and s.args[1] is TRUE for s in ob.data) and len(ob.data) <= 16:
                    d = [seg1(ite(eq(k, const(i)), v, s.args[2])) for i, s in enumerate(ob.data)]
                    self.put(o.args[0], tuple(d), "setitem", k, v)
                    return
                self.unknown_mut(o, "item store")
                return
            if ob.kind == "obj":
                m = ob.cls.lookup("__setitem__")[0]
                if m is not None:
                    self.call(self.get_attr(o, "__setitem__"), [k, v], {})
                    return
        self.effect("mut", addr=None, what="setitem", key=o, val=v, obj=None)

    def dict_store(self, o, k, v, log=True):
        ob = self.h(o)
        if ob.label == "live":
            self.put(o.args[0], None, "setitem", k, v)
            return
        d = list(ob.data)
        for i, (b, g, kk, vv) in enumerate(d):
            if not b and kk is k:
                d[i] = ((), TRUE, k, v)
                break
        else:
            d.append(((), TRUE, k, v))
        self.put(o.args[0], tuple(d), "setitem" if log else None, k, v)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            new = self.augop(s.op, old, self.ev(s.value))
            if new is not None:
                self.bind(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.get_attr(o, t.attr)
            new = self.augop(s.op, old, self.ev(s.value))
            if new is not None:
                self.set_attr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            old = self.get_item(o, k)
            new = self.augop(s.op, old, self.ev(s.value))
            if new is not None:
                self.set_item(o, k, new)

    def augop(self, op, old, val):
        if old.op == "ref" and self.h(old).kind in ("list", "set") and isinstance(op, (ast.Add, ast.BitOr)):
            self.put(old.args[0], self.h(old).data + tuple(self.to_segs(val)), "extend", None, self.freeze(val))
            return old
        if old.op == "ite" and isinstance(op, ast.Add) and any(
            x.op == "ref" and self.h(x).kind == "list" for x in old.args[1:]
        ):
            c, a, b = old.args
            self.fork(c, lambda: self.augop(op, a, val), lambda: self.augop(op, b, val))
            return old
        return self.binop(op, old, val)

    def s_If(self, s):
        c = truth_of(self, self.ev(s.test))
        here = self.site
        self.fork_stmt(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def fork_stmt(self, c, f1, f2):
        d = self.decide(c)
        if d is True:
            f1()
            return
        if d is False:
            f2()
            return
        base = self.st
        s1 = base.clone()
        s1.pc = base.pc + (c,)
        self.st = s1
        self.guarded(f1)
        s1 = self.st
        s2 = base.clone()
        s2.pc = base.pc + (not_(c),)
        self.st = s2
        self.guarded(f2)
        s2 = self.st
        self.st = self.merge2(c, s1, s2, base)

    def s_Break(self, s):
        self.breaks[-1].append((self.st, NONE))
        self.st = None

    def s_Continue(self, s):
        self.conts[-1].append((self.st, NONE))
        self.st = None

    def s_For(self, s):
        it = self.ev(s.iter)
        segs = self.to_segs(it)
        self.breaks.append([])
        self.run_segs(segs, lambda e: (self.assign(s.target, e), self.exec_block(s.body)))
        if s.orelse and self.st is not None:
            self.exec_block(s.orelse)
        brk = self.breaks.pop()
        if brk:
            comps = ([(self.st, NONE)] if self.st is not None else []) + brk
            base = State({}, (), self._common_pc([c[0] for c in comps]))
            self.st, _ = self.merge_many(comps, base)

    def _common_pc(self, states):
        pcs = [s.pc for s in states]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        return pcs[0][:n]

    def run_body(self, f):
        """run one iteration body, folding `continue` completions into normal"""
        self.conts.append([])
        base = self.st
        basepc = base.pc
        self.guarded(f)
        cs = self.conts.pop()
        if cs:
            comps = cs + ([(self.st, NONE)] if self.st is not None else [])
            self.st, _ = self.merge_many(comps, State({}, (), basepc))

    def run_segs(self, segs, body):
        segs = list(segs)
        for s in segs:
            if self.st is None:
                return
            if not s.args[0]:
                g, e = s.args[1], s.args[2]
                if g is TRUE:
                    self.run_body(lambda: body(e))
                else:
                    self.fork_stmt(g, lambda: self.run_body(lambda: body(e)), lambda: None)
            else:
                nb, g, e = self.inst_seg(s)
                self.nest(nb, g, e, body)

    def nest(self, nb, g, e, body):
        if not nb:
            if g is TRUE:
                self.run_body(lambda: body(e))
            else:
                self.fork_stmt(g, lambda: self.run_body(lambda: body(e)), lambda: None)
            return
        (k, n), rest = nb[0], nb[1:]
        self.sym_loop(k, n, lambda: self.nest(rest, g, e, body))

    def s_While(self, s):
        self.breaks.append([])
        k = fresh("w", "int", 0)

        def body():
            c = truth_of(self, self.ev(s.test))

            def stop():
                self.breaks[-1].append((self.st, NONE))
                self.st = None

            self.fork_stmt(c, lambda: None, stop)
            if self.st is not None:
                self.exec_block(s.body)

        c0 = truth_of(self, self.ev(s.test))
        if self.decide(c0) is not False and not (c0 is TRUE and self.unroll_while(s)):
            self.sym_loop(k, INF, lambda: self.run_body(body))
        brk = self.breaks.pop()
        if brk:
            comps = ([(self.st, NONE)] if self.st is not None else []) + brk
            base = State({}, (), self._common_pc([c[0] for c in comps]))
            self.st, _ = self.merge_many(comps, base)

    def unroll_while(self, s):
        """run a loop whose test is a constant every time it is evaluated, step by step"""
        before = self.st
        tops = [x[-1] for x in (self.breaks, self.rets, self.raises, self.conts) if x] + [self.imprecise]
        sizes = [len(x) for x in tops]
        self.st = before.clone()
        for _ in range(64):
            self.run_body(lambda: self.exec_block(s.body))
            if self.st is None:
                return True
            if isinstance(s.test, ast.Constant):
                if any(len(x) > n for x, n in zip(tops[:2], sizes)):
                    break
                continue
            c = truth_of(self, self.ev(s.test))
            if c is FALSE:
                return True
            if c is not TRUE:
                break
        for x, n in zip(tops, sizes):
            del x[n:]
        self.st = before
        return False

    # --- symbolic loop summary
    def sym_loop(self, k, n, body):
        from .loops import summarise

        self.loops += 1
        summarise(self, k, n, body)

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if v.op == "ref" and self.h(v).kind == "obj" and self.h(v).cls.lookup("__enter__")[0] is not None:
                v = self.call(self.get_attr(v, "__enter__"), [], {})
            else:
                v = mk("enter", v) if False else v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)

    def s_Try(self, s):
        base = self.st
        self.raises.append([])
        lists = [x[-1] for x in (self.rets, self.breaks, self.conts) if x]
        marks = [len(x) for x in lists]
        self.st = base.clone()
        self.exec_block(s.body)
        left = any(len(x) > m for x, m in zip(lists, marks))  # return, break or continue in the body
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        norm = self.st
        excs = self.raises.pop()
        comps = []
        if norm is not None:
            comps.append((norm, NONE))
        unhandled = []
        handled_any = False
        for st, name, v, site in excs:
            hd = None
            for h in s.handlers:
                if self.handler_matches(h, name):
                    hd = h
                    break
            if hd is None:
                unhandled.append((st, name, v, site))
                continue
            self.st = st
            if hd.name:
                self.bind(hd.name, v if v is not None else self.unknown("exception"))
            self.exec_block(hd.body)
            if self.st is not None:
                comps.append((self.st, NONE))
        # an external call in the body may raise: every handler may run from the entry state
        body_calls = any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute)) for b in s.body for x in ast.walk(b))
        if s.handlers and body_calls and (norm is not None or left):
            cs = []
            ends = [len(x) for x in lists]
            for h in s.handlers:
                o = fresh("exc:" + (self._dotted(h.type) if h.type is not None else "any") if not isinstance(h.type, ast.Tuple) else "exc:multi", "bool")
                o = mk("opaque", o, "except", self._dotted(h.type) if h.type is not None and not isinstance(h.type, ast.Tuple) else ("*" if h.type is None else ",".join(str(self._dotted(e)) for e in h.type.elts)))
                st = base.clone()
                st.pc = base.pc + (o,)
                self.st = st
                if h.name:
                    self.bind(h.name, fresh("exc"))
                self.effect("handler", cond=o, node=Hole(h), type=o.args[2])
                self.exec_block(h.body)
                if self.st is not None:
                    cs.append((self.st, o))
                for i, (st2, _) in enumerate(comps):
                    st2 = st2.clone()
                    st2.pc = base.pc + (not_(o),) + st2.pc[len(base.pc) :]
                    comps[i] = (st2, NONE)
                for x, m, z in zip(lists, marks, ends):
                    for i in range(m, z):
                        st2 = x[i][0].clone()
                        st2.pc = base.pc + (not_(o),) + st2.pc[len(base.pc) :]
                        x[i] = (st2,) + tuple(x[i][1:])
            for st, o in cs:
                comps.append((st, NONE))
        self.raises[-1].extend(unhandled)
        if comps:
            self.st, _ = self.merge_many(comps, State({}, (), base.pc))
        else:
            self.st = None
        if s.finalbody:
            if self.st is not None:
                self.exec_block(s.finalbody)

    def handler_matches(self, h, name):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            v = self.ev(t)
            nm = v.args[0] if v.op in ("ext",) else None
            if nm in ("Exception", "BaseException"):
                return True
            if v.op == "class" and isinstance(name, ClassInfo) and v.args[0] in name.mro:
                return True
            if v.op == "ext" and isinstance(name, str) and name.split(".")[-1] == nm.split(".")[-1]:
                return True
            if v.op == "ext" and isinstance(name, ClassInfo):
                if any(b.op == "ext" and b.args[0].split(".")[-1] == nm.split(".")[-1] for c in name.mro for b in c.bases):
                    return True
            sup = {"LookupError": ("KeyError", "IndexError"), "ArithmeticError": ("ZeroDivisionError",)}
            if isinstance(name, str) and nm in sup and name in sup[nm]:
                return True
        return False

    def s_Match(self, s):
        self.note("match statement not modelled")
        raise AnalysisError("match statement at %s is not modelled" % self.site)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown("expression " + type(e).__name__)
        v = m(e)
        if v is None:
            raise AnalysisError("no value for %s at %s" % (ast.dump(e)[:80], self.site))
        return v

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis or isinstance(v, (bytes, complex)):
            return mk("ext", repr(v))
        return const(v)

    def lookup(self, name):
        fa = self.frames[-1]
        first = True
        while fa is not None:
            o = self.st.heap[fa]
            if name in o.data and (first or not str(o.label).startswith("class ")):
                return o.data[name]
            first = False
            fa = o.cls
        if name in self.models.builtins:
            return mk("ext", name)
        if hasattr(__import__("builtins"), name):
            return mk("ext", name)
        self.note("undefined name " + name)
        return mk("undef", name)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.get_attr(o, e.attr)

    def get_attr(self, o, name):
        op = o.op
        if op == "ite":
            c, a, b = o.args
            return self.fork(c, lambda: self.get_attr(a, name), lambda: self.get_attr(b, name))
        if op == "ref":
            ob = self.h(o)
            if ob.kind == "obj":
                if name == "__class__":
                    return mk("class", ob.cls)
                if name == "__dict__":
                    return self.unknown("__dict__")
                v, c = self.class_attr(ob.cls, name)
                if v is not None and v.op == "func" and v.args[0].kind == "property":
                    return self.call_func(v.args[0], [o], {})
                if name in ob.data:
                    return ob.data[name]
                if v is not None:
                    return self.bind_attr(v, o, ob.cls)
                if name == "__getattribute__":
                    return mk("bound", mk("ext", "getattr"), o)
                ga = ob.cls.lookup("__getattr__")[0]
                if ga is not None:
                    return self.call(mk("bound", ga, o), [const(name)], {})
                self.effect("undefined", what="attribute %s of %s" % (name, ob.cls.name))
                return mk("attr", o, name)
            if ob.kind == "ext":
                r = self.models.ext_attr(o, ob, name)
                if r is not None:
                    return r
                if name in ob.data:
                    return ob.data[name]
            return mk("meth", o, name)
        if op == "class":
            ci = o.args[0]
            if name == "__name__":
                return const(ci.name)
            if name == "__mro__":
                return mk("tuple", *[c.term() for c in ci.mro])
            v, c = self.class_attr(ci, name)
            if v is not None:
                if v.op == "func" and v.args[0].kind == "classmethod":
                    return mk("bound", v, o)
                return v
            return mk("attr", o, name)
        if op == "module":
            fa = self.modules.get(o.args[0])
            d = self.st.heap[fa].data
            if name in d:
                return d[name]
            subn = o.args[0] + "." + name
            if subn in self.modules or self.load(subn) is not None:
                return mk("module", subn)
            return mk("missing", o.args[0], name)
        if op == "ext":
            if name == "__name__":
                return const(o.args[0].split(".")[-1])
            return mk("ext", o.args[0] + "." + name)
        if op == "super":
            ci, obj = o.args
            v, c = self.class_attr(self.h(obj).cls, name, ci) if obj.op == "ref" else self.class_attr(ci, name, ci)
            if v is None:
                return mk("ext", "object." + name)
            if v.op == "func" and v.args[0].kind == "property":
                return self.call_func(v.args[0], [obj], {})
            return self.bind_attr(v, obj, None)
        if op == "func":
            if name == "__name__":
                return const(o.args[0].name)
        if op in ("seq", "tuple", "list", "c", "concat", "str", "dict"):
            return mk("meth", o, name)
        if sort(o) == "str":
            return mk("meth", o, name)
        r = self.models.term_attr(o, name)
        if r is not None:
            return r
        return mk("attr", o, name)

    def class_attr(self, ci, name, after=None):
        """lookup along the MRO, seeing what was stored on a class since it was created"""
        for c in ci.mro[ci.mro.index(after) + 1 :] if after is not None else ci.mro:
            if self.st is not None and c.addr in self.st.heap:
                d = self.st.heap[c.addr].data
                if name in d and name != "__name__":
                    return d[name], c
            elif name in c.attrs:
                return c.attrs[name], c
        return None, None

    def bind_attr(self, v, o, cls):
        if v.op == "func":
            f = v.args[0]
            if f.kind == "static":
                return v
            if f.kind == "classmethod":
                return mk("bound", v, mk("class", self.h(o).cls if o.op == "ref" else o.args[0]))
            if f.cls is None and f.name == "<lambda>":
                return mk("bound", v, o)
            return mk("bound", v, o)
        return v

    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower is not None else None
            hi = self.ev(e.slice.upper) if e.slice.upper is not None else None
            stp = self.ev(e.slice.step) if e.slice.step is not None else None
            return self.get_slice(o, lo, hi, stp)
        k = self.ev(e.slice)
        return self.get_item(o, k)

    def get_slice(self, o, lo, hi, stp):
        if o.op == "ite":
            c, a, b = o.args
            return self.fork(c, lambda: self.get_slice(a, lo, hi, stp), lambda: self.get_slice(b, lo, hi, stp))
        if sort(o) == "str":
            if is_const(o) and all(x is None or is_const(x) for x in (lo, hi, stp)):
                f = lambda x: None if x is None or cval(x) is None else int(cval(x))
                return const(cval(o)[f(lo) : f(hi) : f(stp)])
            return mk("strslice", o, lo or NONE, hi or NONE, stp or NONE)
        islist = o.op == "ref" and self.h(o).kind == "list"
        if o.op in ("seq", "tuple") or o.op == "ref":
            segs = self.to_segs(o)
            if o.op == "tuple" and all(x is None or is_const(x) for x in (lo, hi, stp)):
                f = lambda x: None if x is None or cval(x) is None else int(cval(x))
                return mk("tuple", *o.args[f(lo) : f(hi) : f(stp)])
            if all(not s.args[0] and s.args[1] is TRUE for s in segs) and all(
                x is None or is_const(x) for x in (lo, hi, stp)
            ):
                f = lambda x: None if x is None or cval(x) is None else int(cval(x))
                r = tuple(segs)[f(lo) : f(hi) : f(stp)]
            else:
                r = self.seq_slice(tuple(segs), lo, hi, stp)
            if r is not None:
                return self.new_list(r) if islist else seq(*r)
        else:
            # opaque sequence: expand into an indexed view
            segs = self.to_segs(o)
            r = self.seq_slice(tuple(segs), lo, hi, stp)
            if r is not None:
                return seq(*r)
        return mk("slice", self.freeze(o), lo or NONE, hi or NONE, stp or NONE)

    def get_item(self, o, k):
        op = o.op
        if op == "ite":
            c, a, b = o.args
            return self.fork(c, lambda: self.get_item(a, k), lambda: self.get_item(b, k))
        if op == "ref":
            ob = self.h(o)
            if ob.kind == "dict":
                return self.dict_get(o, k)
            if ob.kind in ("list",):
                if k.op == "tuple" or sort(k) in ("seq",):
                    return mk("item", self.freeze(o), k)
                x = self.seq_get(ob.data, k)
                if x is not None:
                    self.in_bounds(ob.data, k)
                    return x
                return mk("item", self.freeze(o), k)
            if ob.kind == "ext":
                return self.models.ext_item(o, ob, k)
            if ob.kind == "obj":
                if ob.cls.lookup("__getitem__")[0] is not None:
                    return self.call(self.get_attr(o, "__getitem__"), [k], {})
                if any(b.op == "ext" for c in ob.cls.mro for b in c.bases):
                    return mk("item", o, k)
        if op == "tuple":
            if is_const(k) and isinstance(cval(k), int):
                i = int(cval(k))
                if -len(o.args) <= i < len(o.args):
                    return o.args[i]
                self.do_raise(mk("ext", "IndexError"))
            if len(o.args) <= 16 and sort(k) == "int":
                r = o.args[-1]
                for i in range(len(o.args) - 2, -1, -1):
                    r = ite(eq(k, const(i)), o.args[i], r)
                return r
            if sort(k) == "bool" and len(o.args) == 2:
                return ite(k, o.args[1], o.args[0])
        if op == "seq":
            x = self.seq_get(o.args, k)
            if x is not None:
                return x
        if op == "ext" or op == "class":
            return mk("ext", (o.args[0] if op == "ext" else o.args[0].name) + "[...]") if op == "ext" else o
        if op == "dict":
            for ent in o.args:
                if ent.args[2] is k:
                    return ent.args[3]
        if sort(o) == "str":
            if is_const(o) and is_const(k):
                return const(cval(o)[int(cval(k))])
            return mk("char", o, k)
        if k.op == "ref":
            k = self.freeze(k)
        return mk("item", o, k)

    def in_bounds(self, segs, k):
        """record that a list index must be smaller than the length, unless that is certain"""
        if len(segs) != 1 or len(segs[0].args[0]) != 1 or sort(k) != "int":
            return
        n = seg_len(segs[0])
        if n is None or cmp_("<", k, n) is TRUE or contains_op(n, ("len", "call")):
            return
        self.effect("bound", index=k, n=n)

    def dict_get(self, o, k, default=None):
        ob = self.h(o)
        if ob.label == "live":
            L, k = self.live_term(o), self.freeze(k)
            v = mk("lget", L, k)
            return v if default is None else ite(mk("in", k, L), v, default)
        missing = default
        cands = []
        for b, g, kk, v in ob.data:
            if not b and kk is k:
                if g is TRUE:
                    cands = [(TRUE, v)]
                else:
                    cands.append((g, v))
                continue
            if not b:
                e = eq(kk, k)
                if e is FALSE:
                    continue
                cands.append((and_(g, e), v))
            else:
                cands.append(None)
        if all(c is not None for c in cands) and cands:
            exact = [c for c in cands if c[0] is TRUE]
            if exact and len(cands) == 1:
                return exact[0][1]
            if not is_const(k) and len(cands) > 1 or (cands and not is_const(k) and cands[0][0] is not TRUE):
                g = self.generalise(ob.data, k)
                if g is not None:
                    return g
            # conditional presence
            r = None
            if default is None:
                # KeyError possible: treat the lookup as defined (obligation of definedness)
                r = cands[-1][1]
                rest = cands[:-1]
                if len(cands) == 1 and cands[0][0] is not TRUE:
                    self.effect("partial", what="dict lookup", key=k, guard=cands[0][0])
                    return cands[0][1]
            else:
                r = default
                rest = cands
            for g, v in reversed(rest):
                r = ite(g, v, r)
            return r
        if not cands:
            if default is not None:
                if not ob.data and ob.label is None or is_const(k) or not ob.data:
                    return default
                return default
            if is_const(k) and not any(e[0] for e in ob.data) and ob.label != "opaque":
                self.do_raise(mk("ext", "KeyError"))
            return mk("item", self.freeze(o), k)
        g = self.generalise(ob.data, k)
        if g is not None:
            return g
        if default is not None:
            return ite(mk("in", k, self.freeze(o)), mk("item", self.freeze(o), k), default)
        return mk("item", self.freeze(o), k)

    def generalise(self, entries, k):
        """all entries have the form key -> F(key): return F(k)"""
        fn = None
        hole = sym("<hole>")
        for b, g, kk, v in entries:
            if v.op == "ref" or is_const(kk) and not contains_op(v, ("tuple",)):
                return None
            f = rewrite(v, {kk: hole})
            ks = {x for x, _ in b}
            if f is v or (free_syms(f) & ks) or (fn is not None and f is not fn):
                return None
            fn = f
        if fn is None:
            return None
        return rewrite(fn, {hole: k})

    def e_Tuple(self, e):
        items = self.ev_items(e.elts)
        if all(x.op == "seg" and not x.args[0] and x.args[1] is TRUE for x in items):
            return mk("tuple", *[x.args[2] for x in items])
        return seq(*items)

    def ev_items(self, elts):
        """segments of a display, flattening starred expressions"""
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_segs(self.ev(x.value)))
            else:
                out.append(seg1(self.ev(x)))
        return out

    def e_List(self, e):
        return self.new_list(self.ev_items(e.elts))

    def e_Set(self, e):
        return self.new_list(self.ev_items(e.elts), kind="set")

    def e_Dict(self, e):
        ref = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(ref, self.ev(v), log=False)
            else:
                kv = self.ev(k)
                self.dict_store(ref, kv, self.ev(v), log=False)
        return ref

    def dict_update(self, ref, other, log=True):
        if other.op == "ref" and self.h(other).kind == "dict":
            for b, g, k, v in self.h(other).data:
                if not b and g is TRUE:
                    self.dict_store(ref, k, v, log)
                else:
                    self.put(ref.args[0], self.h(ref).data + ((b, g, k, v),), "update" if log else None)
        elif other.op == "dict":
            for en in other.args:
                b, g, k, v = en.args
                if not b and g is TRUE:
                    self.dict_store(ref, k, v, log)
                else:
                    self.put(ref.args[0], self.h(ref).data + ((b, g, k, v),), "update" if log else None)
        else:
            self.put(ref.args[0], self.h(ref).data, "update" if log else None, None, other)
            self.note("dict.update with opaque mapping")

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def is_seq(self, v):
        return v.op in ("seq", "tuple") or v.op == "ref" and self.h(v).kind in ("list", "set")

    def binop(self, op, a, b):
        if (a.op == "ite" and self._structural(a)) or (b.op == "ite" and self._structural(b)):
            x = a if a.op == "ite" and self._structural(a) else b
            c = x.args[0]
            f = lambda v, val: v.args[1 if val else 2] if v is x else v
            return self.fork(
                c, lambda: self.binop(op, f(a, True), f(b, True)), lambda: self.binop(op, f(a, False), f(b, False))
            )
        if isinstance(op, ast.Add):
            sa, sb = sort(a), sort(b)
            if sa == "str" or sb == "str":
                return strcat(a, b)
            if self.is_seq(a) or self.is_seq(b):
                if a.op == "tuple" and b.op == "tuple":
                    return mk("tuple", *(a.args + b.args))
                segs = tuple(self.to_segs(a)) + tuple(self.to_segs(b))
                if a.op == "ref" or b.op == "ref":
                    return self.new_list(segs)
                return seq(*segs)
            return add(a, b)
        if isinstance(op, ast.Sub):
            if self.is_seq(a):
                r = self.set_op("difference", a, b)
                return r if r is not None else mk("call", "set.sub", self.freeze(a), self.freeze(b))
            return sub(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if sort(x) == "str":
                    if is_const(x) and is_const(y):
                        return const(cval(x) * int(cval(y)))
                    return mk("strrep", x, y)
                if self.is_seq(x):
                    segs = self.to_segs(x)
                    if is_const(y):
                        segs = tuple(segs) * int(cval(y))
                        if x.op == "tuple":
                            return mk("tuple", *[s.args[2] for s in segs])
                        return self.new_list(segs)
                    if len(segs) == 1 and not segs[0].args[0]:
                        k = fresh("i", "int", 0, sub(y, ONE))
                        return self.new_list((seg([(k, y)], TRUE, segs[0].args[2]),))
                    return self.unknown("list repetition")
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            return floordiv(a, b)
        if isinstance(op, ast.Mod):
            if sort(a) == "str":
                return self.percent_format(a, b)
            return mod(a, b)
        if isinstance(op, ast.Pow):
            if is_const(a) and is_const(b) and nval(a) is not None and nval(b) is not None and abs(nval(b)) < 64:
                try:
                    return const(Fraction(nval(a)) ** int(nval(b)) if nval(b).denominator == 1 else float(nval(a)) ** float(nval(b)))
                except Exception:
                    pass
            v = nval(b)
            if v is not None and v.denominator == 1 and 0 <= v <= 6:
                r = ONE
                for _ in range(int(v)):
                    r = mul(r, a)
                return r
            if nval(a) == 2 and sort(b) == "int":
                return mk("shl", ONE, b)
            return mk("pow", a, b)
        name = {ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor", ast.LShift: "shl", ast.RShift: "shr"}.get(type(op))
        if name:
            va, vb = nval(a), nval(b)
            if va is not None and vb is not None:
                x, y = int(va), int(vb)
                r = {"band": x & y, "bor": x | y, "bxor": x ^ y, "shl": x << y if y >= 0 else 0, "shr": x >> y if y >= 0 else 0}[name]
                if sort(a) == "bool" and sort(b) == "bool":
                    return boolc(bool(r))
                return const(r)
            if sort(a) == "bool" and sort(b) == "bool":
                if name == "band":
                    return and_(a, b)
                if name == "bor":
                    return or_(a, b)
                if name == "bxor":
                    return or_(and_(a, not_(b)), and_(not_(a), b))
            if name == "band" and self.is_seq(a) and self.is_seq(b):
                r = self.set_op("intersection", a, b)
                return r if r is not None else mk(name, self.freeze(a), self.freeze(b))
            if name == "bor" and a.op in ("ref", "dict") and b.op in ("ref", "dict"):
                if a.op == "ref" and self.h(a).kind == "dict":
                    r = self.new_dict(self.h(a).data)
                    self.dict_update(r, b, log=False)
                    return r
                return self.new_list(tuple(self.to_segs(a)) + tuple(self.to_segs(b)), kind="set")
            if name == "band" and vb is not None and vb == 1 and sort(a) == "int" and not contains_op(a, ("int2", "bxor", "shr", "band", "bor", "char")):
                return mod(a, const(2))
            if name == "shr" and vb is not None and vb < 32 and sort(a) == "int" and not contains_op(a, ("int2", "bxor", "band", "bor")):
                return floordiv(a, const(2 ** int(vb)))
            if a.op == "ext" or b.op == "ext":
                return mk("ext", "typing.Union")
            return mk(name, a, b)
        if isinstance(op, ast.MatMult):
            return mk("call", "matmul", a, b)
        return self.unknown("binop")

    def _structural(self, v):
        return v.op == "ite" and any(
            x.op in ("ref", "tuple", "seq", "ite") and (x.op != "ite" or self._structural(x)) for x in v.args[1:]
        )

    def percent_format(self, a, b):
        if not is_const(a):
            return mk("format", a, b)
        args = list(b.args) if b.op == "tuple" else [b]
        import re

        parts = re.split(r"(%[sdrif]|%%)", cval(a))
        out = []
        for p in parts:
            if p == "%%":
                out.append(const("%"))
            elif re.fullmatch(r"%[sdri]", p):
                out.append(self.models.text(args.pop(0)))
            elif p:
                out.append(const(p))
        return strcat(*out) if out else const("")

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(truth_of(self, v))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return mk("call", "invert", v)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            t = truth_of(self, v)
            if isand:
                return self.fork_val(t, lambda: go(i + 1), lambda: v)
            return self.fork_val(t, lambda: v, lambda: go(i + 1))

        return go(0)

    def fork_val(self, c, f1, f2):
        return self.fork(c, f1, f2)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            res = and_(res, self.compare(op, left, right))
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if a.op == "ref" and b.op == "ref" and a is not b and not isinstance(op, (ast.Is, ast.IsNot)):
                fa, fb = self.freeze(a), self.freeze(b)
                if fa.op == "seq" and fb.op == "seq" and all(not s.args[0] for s in fa.args + fb.args):
                    r = boolc(fa is fb) if fa is fb or len(fa.args) != len(fb.args) else mk("eq", fa, fb)
                elif self.h(a).kind in ("list", "dict", "set") and self.h(b).kind in ("list", "dict", "set"):
                    r = TRUE if fa is fb else mk("eq", fa, fb)
                else:
                    r = eq(a, b)
            elif a.op in ("ext", "class") or b.op in ("ext", "class"):
                if a.op in ("ext", "class") and b.op in ("ext", "class"):
                    r = boolc(a is b or (a.op == "ext" and b.op == "ext" and a.args[0].split(".")[-1] == b.args[0].split(".")[-1]))
                else:
                    r = eq(a, b)
            else:
                if isinstance(op, (ast.Is, ast.IsNot)) and (a is NONE or b is NONE):
                    x = b if a is NONE else a
                    if x.op == "ref" or x.op in ("bound", "func", "instr"):
                        r = FALSE
                    else:
                        r = eq(a, b)
                else:
                    if self.is_seq(a) and is_const(b) and nval(b) is not None:
                        r = FALSE
                    elif (a.op == "ref" and self.h(a).kind == "list") and (b.op == "seq" or b.op == "tuple"):
                        r = mk("eq", self.freeze(a), b)
                    else:
                        r = eq(a, b)
            return not_(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return not_(r) if isinstance(op, ast.NotIn) else r
        o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        if any(x.op == "ref" and self.h(x).kind == "set" for x in (a, b)):
            r = self.set_op({"<=": "issubset", ">=": "issuperset"}.get(o), a, b)
            return r if r is not None else mk("call", "set." + o, self.freeze(a), self.freeze(b))
        return cmp_(o, a, b)

    def set_op(self, name, a, b):
        """set operations on collections whose elements are listed one by one"""

        def listed(v):
            if v.op == "ref" and self.h(v).label == "opaque" or v.op not in ("ref", "seq", "tuple", "dict"):
                return None
            if v.op == "ref" and self.h(v).kind not in ("list", "set", "dict"):
                return None
            s = v.args if v.op in ("seq", "tuple") else self.to_segs(v)
            if v.op == "tuple":
                s = tuple(seg1(x) for x in s)
            if any(x.op != "seg" or x.args[0] for x in s):
                return None
            return s

        if name == "issuperset":
            return self.set_op("issubset", b, a)
        sa, sb = listed(a), listed(b)
        if sa is None or sb is None:
            return None
        isin = lambda x: or_(*[and_(y.args[1], eq(y.args[2], x)) for y in sb]) if sb else FALSE
        if name == "issubset":
            return and_(*[or_(not_(x.args[1]), isin(x.args[2])) for x in sa]) if sa else TRUE
        if name == "isdisjoint":
            return and_(*[not_(and_(x.args[1], isin(x.args[2]))) for x in sa]) if sa else TRUE
        if name in ("difference", "intersection"):
            out = []
            for x in sa:
                g = and_(x.args[1], isin(x.args[2]) if name == "intersection" else not_(isin(x.args[2])))
                if g is not FALSE:
                    out.append(mk("seg", (), g, x.args[2]))
            return self.new_list(tuple(out), kind="set")
        return None


    def contains(self, coll, x):
        if coll.op == "ite":
            c, a, b = coll.args
            return ite(c, self.contains(a, x), self.contains(b, x))
        if coll.op == "ref":
            o = self.h(coll)
            if o.label == "live":
                return mk("in", self.freeze(x), self.live_term(coll))
            if o.kind == "dict":
                if o.label != "opaque" and all(not e[0] for e in o.data):
                    return or_(*[and_(g, eq(k, x)) for b, g, k, v in o.data]) if o.data else FALSE
                return mk("in", x, self.freeze(coll))
            if o.kind in ("list", "set"):
                if all(not s.args[0] for s in o.data) and o.label != "opaque":
                    return or_(*[and_(s.args[1], eq(s.args[2], x)) for s in o.data]) if o.data else FALSE
                return mk("in", x, self.freeze(coll))
            if o.kind == "obj" and o.cls.lookup("__contains__")[0] is not None:
                return truth_of(self, self.call(self.get_attr(coll, "__contains__"), [x], {}))
        if coll.op == "tuple":
            return or_(*[eq(y, x) for y in coll.args]) if coll.args else FALSE
        if coll.op == "seq" and all(not s.args[0] for s in coll.args):
            return or_(*[and_(s.args[1], eq(s.args[2], x)) for s in coll.args]) if coll.args else FALSE
        if is_const(coll) and is_const(x) and isinstance(cval(coll), str):
            return boolc(cval(x) in cval(coll))
        return mk("in", self.freeze(x), self.freeze(coll))

    def e_IfExp(self, e):
        c = truth_of(self, self.ev(e.test))
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Lambda(self, e):
        f = FuncInfo("<lambda>", e, self.curmod, self.frames[-1])
        self._mk_func(f, e)
        return mk("func", f)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                if v.format_spec is not None:
                    parts.append(mk("format", self.freeze(x), self.ev(v.format_spec)))
                else:
                    parts.append(mk("call", "repr", x) if v.conversion in (114, 97) and x.op == "ref" and self.h(x).kind == "ext" else self.models.text(x))
        return strcat(*parts) if parts else const("")

    def e_FormattedValue(self, e):
        return self.models.text(self.ev(e.value))

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Slice(self, e):
        return mk("sliceobj", *[NONE if x is None else self.ev(x) for x in (e.lower, e.upper, e.step)])

    def e_Yield(self, e):
        v = NONE if e.value is None else self.ev(e.value)
        y = self.lookup("__yields__")
        self.put(y.args[0], self.h(y).data + (seg1(v),), None)
        return NONE

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        y = self.lookup("__yields__")
        self.put(y.args[0], self.h(y).data + tuple(self.to_segs(v)), None)
        return NONE

    def e_Await(self, e):
        return self.ev(e.value)

    # comprehensions: executed as loops appending to a fresh list
    def comp(self, gens, emit):
        fa = self.alloc(HObj("frame", self.frames[-1], {}, label="comp"))
        first_iter = self.ev(gens[0].iter)
        self.frames.append(fa)
        self.breaks.append([])

        def level(i):
            if i == len(gens):
                emit()
                return
            g = gens[i]
            it = first_iter if i == 0 else self.ev(g.iter)
            segs = self.to_segs(it)

            def body(el):
                self.assign(g.target, el)

                def conds(j):
                    if j == len(g.ifs):
                        level(i + 1)
                        return
                    c = truth_of(self, self.ev(g.ifs[j]))
                    self.fork_stmt(c, lambda: conds(j + 1), lambda: None)

                conds(0)

            self.run_segs(segs, body)

        try:
            level(0)
        finally:
            self.breaks.pop()
            self.frames.pop()
        if self.st is None:
            raise Dead()
        self.st.heap.pop(fa, None)

    def e_ListComp(self, e):
        ref = self.new_list()

        def emit():
            v = self.ev(e.elt)
            self.put(ref.args[0], self.h(ref).data + (seg1(v),), None)

        self.comp(e.generators, emit)
        return ref

    def e_GeneratorExp(self, e):
        ref = self.e_ListComp(e)
        return ref

    def e_SetComp(self, e):
        ref = self.e_ListComp(e)
        return self.new_list(self.h(ref).data, kind="set")

    def e_DictComp(self, e):
        ref = self.new_dict()

        def emit():
            k = self.ev(e.key)
            v = self.ev(e.value)
            self.dict_store(ref, k, v, log=False)

        self.comp(e.generators, emit)
        return ref

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.lookup("super").op == "ext":
            fi = self.callstack[-1] if self.callstack else None
            if e.args:
                a = [self.ev(x) for x in e.args]
                return mk("super", a[0].args[0], a[1])
            f = fi
            selfname = f.node.args.args[0].arg
            return mk("super", f.cls, self.lookup(selfname))
        fn = self.ev(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                segs = self.to_segs(v)
                if all(not s.args[0] and s.args[1] is TRUE for s in segs):
                    args.extend(s.args[2] for s in segs)
                else:
                    args.append(mk("star", seq(*segs)))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if v.op == "ref" and self.h(v).kind == "dict" and all(not en[0] and is_const(en[2]) for en in self.h(v).data):
                    for b, g, kk, vv in self.h(v).data:
                        kwargs[cval(kk)] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.site = "%s:%d" % (self.curmod, e.lineno)
        self.call_sites += 1
        return self.call(fn, args, kwargs)

    def call(self, fn, args, kwargs):
        op = fn.op
        if op == "ite":
            c, a, b = fn.args
            return self.fork(c, lambda: self.call(a, args, kwargs), lambda: self.call(b, args, kwargs))
        if op == "func":
            return self.call_func(fn.args[0], args, kwargs)
        if op == "bound":
            return self.call(fn.args[0], [fn.args[1]] + list(args), kwargs)
        if op == "class":
            return self.instantiate(fn.args[0], args, kwargs)
        if op == "partial":
            f, pa, pk = fn.args
            kw = {k: v for k, v in pk}
            kw.update(kwargs)
            return self.call(f, list(pa) + list(args), kw)
        if op == "ref" and self.h(fn).kind == "obj":
            return self.call(self.get_attr(fn, "__call__"), args, kwargs)
        v = self.models.call(fn, args, kwargs)
        if self.st is None:
            raise Dead()
        return v

    def instantiate(self, ci, args, kwargs):
        ab = self.abstract_missing(ci)
        if ab:
            self.effect("abstract", cls=ci.qual, missing=tuple(ab))
        ref = mk("ref", self.alloc(HObj("obj", ci, {}, label=None)))
        init, c = ci.lookup("__init__")
        if init is not None:
            self.call(mk("bound", init, ref), args, kwargs)
        elif any(b.op == "ext" for k in ci.mro for b in k.bases):
            self.set_field(ref.args[0], "args", mk("tuple", *[self.freeze(a) for a in args]), log=False)
        return ref

    def abstract_missing(self, ci):
        out = []
        seen = set()
        for c in ci.mro:
            for n, v in c.attrs.items():
                if n in seen:
                    continue
                seen.add(n)
                if v.op == "func" and v.args[0].abstract:
                    out.append(n)
        return out

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        nd = len(f.defaults)
        args = list(args)
        rest = []
        for i, v in enumerate(args):
            if v.op == "star":
                self.note("opaque *args")
                continue
            if i < len(names):
                d[names[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            self.do_raise(mk("ext", "TypeError"))
        if a.vararg:
            d[a.vararg.arg] = mk("tuple", *rest)
        kwextra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in konly:
                if k in d:
                    self.do_raise(mk("ext", "TypeError"))
                d[k] = v
            elif a.kwarg:
                kwextra[k] = v
            else:
                self.do_raise(mk("ext", "TypeError"))
        for i, n in enumerate(names):
            if n not in d:
                j = i - (len(names) - nd)
                if j >= 0:
                    d[n] = f.defaults[j]
                else:
                    self.do_raise(mk("ext", "TypeError"))
        for n in konly:
            if n not in d:
                if n in f.kwdefaults:
                    d[n] = f.kwdefaults[n]
                else:
                    self.do_raise(mk("ext", "TypeError"))
        if a.kwarg:
            ref = self.new_dict()
            for k, v in kwextra.items():
                self.dict_store(ref, const(k), v, log=False)
            d[a.kwarg.arg] = ref
        return d

    # recursion: one summary of the body, generic in its scalar arguments; a call is a `rec` effect
    recbody = None
    byvalue = ()

    def pattern(self, v, site):
        """-> (shape, generic value, [(symbol, actual)], [(param ref, actual ref)])"""
        if is_const(v) and not isinstance(cval(v), (int, float, Fraction)) or is_const(v) and isinstance(cval(v), bool):
            return ("c", v), v, [], []
        if v.op == "tuple":
            ps = [self.pattern(x, site) for x in v.args]
            return (
                ("t",) + tuple(p[0] for p in ps),
                mk("tuple", *[p[1] for p in ps]),
                [y for p in ps for y in p[2]],
                [y for p in ps for y in p[3]],
            )
        if v.op == "ref":
            o = self.st.heap[v.args[0]]
            if o.kind in ("list", "set", "dict"):
                if o.label == "live":
                    a = next(self.addr)
                    self.st.heap[a] = HObj(o.kind, o.cls, (), "live", o.site)
                    return ("l", o.kind), mk("ref", a), [], [(mk("ref", a), v)]
                if o.kind == "dict":
                    return ("r", v), v, [], []
                fz = self.freeze(v)
                s = fresh("a", "seq")
                k = fresh("i", "int", 0)
                a = next(self.addr)
                self.st.heap[a] = HObj(o.kind, o.cls, (seg([(k, mk("len", s))], TRUE, mk("item", s, k)),), None, None)
                self.byvalue.append((a, v.args[0]))
                return ("v", o.kind), mk("ref", a), [(s, fz)], []
            return ("r", v), v, [], []
        if v.op in ("class", "func", "ext", "bound", "partial", "module"):
            return ("c", v), v, [], []
        so = sort(v)
        s = fresh("a", "num" if so in ("int", "num") else so)
        return ("s", "num" if so in ("int", "num") else so), s, [(s, v)], []

    def rec_call(self, f, d):
        saved_heap = self.st
        names = sorted(d)
        # containers passed as arguments and changed by the function have to be live
        shape, gen, sy, rf = [], {}, [], []
        self.byvalue = []
        self.st = self.st.clone()
        for n in names:
            s, g, y, r = self.pattern(d[n], self.site)
            shape.append((n, s))
            gen[n] = g
            sy += y
            rf += r
        gst, self.st = self.st, saved_heap
        byvalue = list(self.byvalue)
        shape = tuple(shape)
        for fr in reversed(self.recstack):
            if fr["f"] is f and fr["shape"] == shape:
                summ = fr
                break
        else:
            if sum(fr["f"] is f for fr in self.recstack) > 3:
                raise AnalysisError("recursion with ever changing argument shapes")
            summ = Summ(f=f, shape=shape, gen=gen, syms=[s for s, _ in sy], refs=[r for r, _ in rf], effects=None, value=None, raises=())
            self.recstack.append(summ)
            outer = (self.st, self.rets, self.breaks, self.conts, self.raises, self.callstack, self.site)
            st = gst.clone()
            st.effects, st.pc = (), ()
            before = dict(st.heap)
            self.st, self.rets, self.breaks, self.conts, self.raises, self.callstack = st, [], [], [], [[]], []
            try:
                self.recbody = f
                a = {n: gen[n] for n in names}
                va = f.node.args.vararg
                if va is not None or f.node.args.kwarg is not None:
                    raise AnalysisError("recursive function with *args")
                try:
                    v = self.call_func(f, [], a)
                except Dead:
                    v = None
                end = self.st
                raises = tuple(self.raises[0])
            finally:
                self.recbody = None
                self.st, self.rets, self.breaks, self.conts, self.raises, self.callstack, self.site = outer
                self.recstack.pop()
            if end is None:
                raise AnalysisError("recursive function never returns")
            for ph, ad in byvalue:
                if end.heap.get(ph) is not before[ph]:
                    self.make_live(ad)
            for ad, o in before.items():
                o2 = end.heap.get(ad)
                if o2 is not o and o2 is not None and o.kind != "frame" and o.label != "live":
                    self.make_live(ad)
            summ["effects"], summ["raises"] = end.effects, raises
            summ["value"] = v
            if v is not None and v.op == "ref" and v.args[0] not in before:
                raise AnalysisError("a recursive function returns a fresh container")
        r = fresh("rec", "any")
        ga = {k: v for k, v in zip(summ["syms"], [v for _, v in sy])}
        self.effect("rec", summ=summ, syms=tuple(summ["syms"]), vals=tuple(self.freeze(v) for _, v in sy), prefs=tuple(summ["refs"]), arefs=tuple(v for _, v in rf), result=r)
        if summ["value"] is not None and summ["effects"] is not None and (is_const(summ["value"]) or summ["value"].op == "ref"):
            v = summ["value"]
            for p, q in zip(summ["refs"], [v for _, v in rf]):
                if v is p:
                    v = q
            return v
        return r

    def call_func(self, f, args, kwargs):
        self.visited_funcs.add(f.qual)
        if len(self.callstack) > self.MAX_DEPTH:
            raise AnalysisError("call depth")
        d = self.bind_args(f, args, kwargs)
        if f in self.recfuncs and f is not self.recbody:
            return self.rec_call(f, d)
        self.recbody = None
        if self.callstack.count(f) >= 1 and not isinstance(f.node, ast.Lambda):
            self.recfuncs[f] = True
            raise Restart()
        fa = self.alloc(HObj("frame", f.frame, d, label="frame " + f.name))
        saved = (self.frames, self.curmod, self.site, self.breaks, self.conts)
        self.frames = [fa]
        self.curmod = f.module
        self.breaks, self.conts = [], []
        self.callstack.append(f)
        self.rets.append([])
        base = self.st
        basepc = base.pc
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                self.rets.pop()
                return v
            if f.is_gen:
                y = self.new_list()
                self.bind("__yields__", y)
            try:
                self.exec_block(f.node.body)
            except Dead:
                self.st = None
            comps = self.rets.pop()
            if self.st is not None:
                comps = comps + [(self.st, NONE)]
            if not comps:
                self.st = None
                raise Dead()
            self.st, v = self.merge_many(comps, State({}, (), basepc))
            if f.is_gen:
                v = y
            return v
        finally:
            self.callstack.pop()
            self.frames, self.curmod, self.site, self.breaks, self.conts = saved


UNDEF = mk("undef", "<unbound>")
INF = mk("s", "<inf>", "int")
SYMINFO[INF] = SymInfo(1, None)


def truth_of(ip, v):
    """python truthiness including heap objects"""
    if v.op == "ite":
        return ite(v.args[0], truth_of(ip, v.args[1]), truth_of(ip, v.args[2]))
    if v.op == "ref":
        o = ip.h(v)
        if o.kind in ("list", "set"):
            if o.label == "opaque":
                return mk("truth", ip.freeze(v))
            n = ZERO
            for s in o.data:
                l = seg_len(s)
                if l is None:
                    return or_(*[exists_of(s) for s in o.data])
                n = add(n, l)
            return cmp_("<", ZERO, n)
        if o.kind == "dict":
            if any(e[0] for e in o.data) or o.label == "opaque":
                return mk("truth", ip.freeze(v))
            return or_(*[e[1] for e in o.data]) if o.data else FALSE
        if o.kind == "ext":
            r = ip.models.truth_ext(v, o)
            if r is not None:
                return r
            return TRUE
        if o.kind == "obj":
            for nm in ("__bool__", "__len__"):
                if o.cls.lookup(nm)[0] is not None:
                    return truth_of(ip, ip.call(ip.get_attr(v, nm), [], {}))
            return TRUE
    return truth(v)


def exists_of(s):
    b, g, e = s.args
    if not b:
        return g
    n = seg_len(s)
    if n is not None:
        return cmp_("<", ZERO, n)
    return mk("exists", tuple(b), g)
