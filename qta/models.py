"""
Models of everything outside /repo/qtcodes: Python builtins, qiskit circuits and
registers, retworkx graphs; any other library call is an opaque pure term plus a
`call` effect.
"""
import ast
from .terms import *
from . import terms as T
from .loops import freeze_new

GATES1 = {"h", "x", "y", "z", "s", "sdg", "t", "tdg", "id", "i", "sx", "reset"}
GATES2 = {"cx", "cnot", "cz", "cy", "swap", "ch"}

OBJ_CTORS = {
    "qiskit.QuantumCircuit": "QuantumCircuit",
    "qiskit.QuantumRegister": "QuantumRegister",
    "qiskit.ClassicalRegister": "ClassicalRegister",
}


def leaf(name):
    return name.split(".")[-1]


class Models:
    def __init__(self, ip):
        self.ip = ip
        self.builtins = {n[2:] for n in dir(self) if n.startswith("b_")}

    # ------------------------------------------------------------ helpers
    def fz(self, v):
        return self.ip.freeze(v)

    def opaque(self, name, args, kwargs, recv=None):
        ip = self.ip
        if name.startswith("np."):
            name = "numpy." + name[3:]
        fa = tuple(self.fz(a) for a in args)
        kw = tuple((k, self.fz(v)) for k, v in sorted(kwargs.items()))
        r = mk("call", name, *(((recv,) if recv is not None else ()) + fa + tuple(mk("kw", k, v) for k, v in kw)))
        ip.effect("call", name=name, recv=recv, args=fa, kwargs=kw, result=r, raw=tuple(args), rawkw=tuple(sorted(kwargs.items())))
        return r

    def ext(self, label, **data):
        return mk("ref", self.ip.alloc(_hobj("ext", label, data)))

    # ------------------------------------------------------------ attribute hooks
    def iter_ext(self, v, o):
        if o.label in ("QuantumRegister", "ClassicalRegister"):
            n = o.data["size"]
            k = fresh("q", "int", 0, sub(n, ONE))
            if is_const(n) and isinstance(cval(n), int) and cval(n) <= 8:
                return tuple(seg1(mk("bit", v, const(i))) for i in range(cval(n)))
            return (seg([(k, n)], TRUE, mk("bit", v, k)),)
        if "iter" in o.data:
            return tuple(self.ip.to_segs(o.data["iter"]))
        return None

    def ext_attr(self, ref, o, name):
        if o.label in ("QuantumRegister", "ClassicalRegister"):
            if name in ("name", "size"):
                return o.data[name]
        if o.label == "QuantumCircuit" and name in ("qregs", "cregs", "qubits", "clbits"):
            sid = sym("v%d" % next(self.ip.eid), "any")
            self.ip.effect("snapcirc", circ=ref, what=name, sid=sid)
            return sid
        if o.label == "QuantumCircuit" and name in ("num_qubits", "data", "num_clbits"):
            return mk("attr", ref, name)
        return None

    def ext_item(self, ref, o, k):
        if o.label in ("QuantumRegister", "ClassicalRegister"):
            return self.reg_item(ref, k)
        if o.label == "PyGraph":
            if k.op == "node" and k.args[0] is ref:
                return k.args[1]
            return nodelabel(ref, k)
        return mk("item", ref, k)

    def reg_item(self, ref, k):
        ip = self.ip
        if k.op == "ite":
            return ite(k.args[0], self.reg_item(ref, k.args[1]), self.reg_item(ref, k.args[2]))
        if k.op == "sliceobj":
            segs = self.iter_ext(ref, ip.h(ref))
            r = ip.seq_slice(tuple(segs), *k.args)
            return seq(*r) if r is not None else mk("slice", ref, *k.args)
        if ip.is_seq(k) or (k.op == "ref" and ip.h(k).kind == "list"):
            return seq(*[seg(s.args[0], s.args[1], mk("bit", ref, s.args[2])) for s in ip.to_segs(k)])
        if nval(k) is not None and nval(k) < 0:
            return mk("bit", ref, add(ip.h(ref).data["size"], k))
        return mk("bit", ref, k)

    def term_attr(self, o, name):
        if o.op == "fobj":
            for f in o.args[1:]:
                if f.args[0] == name:
                    return f.args[1]
            v, c = o.args[0].args[0].lookup(name)
            if v is not None:
                if v.op == "func" and v.args[0].kind == "property":
                    return self.ip.call_func(v.args[0], [o], {})
                return mk("bound", v, o) if v.op == "func" and v.args[0].kind not in ("static",) else v
        if o.op == "bit":
            if name == "register":
                return o.args[0]
            if name == "index":
                return o.args[1]
        return None

    def truth_ext(self, v, o):
        if o.label in ("QuantumRegister", "ClassicalRegister"):
            return cmp_("<", ZERO, o.data["size"])
        if o.label == "QuantumCircuit":
            return mk("truth", v)  # len(circ.data)
        return TRUE

    # ------------------------------------------------------------ call dispatch
    def call(self, fn, args, kwargs):
        ip = self.ip
        op = fn.op
        if op == "ext":
            name = fn.args[0]
            if leaf(name) in ("QuantumCircuit", "QuantumRegister", "ClassicalRegister") and not name.startswith("object"):
                return getattr(self, "k_" + leaf(name))(args, kwargs)
            if leaf(name) == "PyGraph":
                return self.k_PyGraph(args, kwargs)
            if "." not in name and hasattr(self, "b_" + name):
                r = getattr(self, "b_" + name)(args, kwargs)
                if r is not None:
                    return r
                return self.opaque(name, args, kwargs)
            m = getattr(self, "f_" + name.replace(".", "_"), None)
            if m is not None:
                r = m(args, kwargs)
                if r is not None:
                    return r
            if name.startswith("object."):
                return NONE
            # exception classes
            b = getattr(__import__("builtins"), name, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return mk("call", name, *[self.fz(a) for a in args])
            return self.opaque(name, args, kwargs)
        if op == "meth":
            return self.method(fn.args[0], fn.args[1], args, kwargs)
        if op == "attr":
            recv, name = fn.args
            if sort(recv) == "str":
                return self.method(recv, name, args, kwargs)
            if recv.op == "instr":
                if name == "c_if":
                    c = self._arg(args, kwargs, 0, "classical")
                    v = self._arg(args, kwargs, 1, "val")
                    ip.effect("c_if", circ=recv.args[0], eid=recv.args[1], creg=self.fz(c), val=self.fz(v))
                    return recv
                ip.effect("circ_other", circ=recv.args[0], name="<instruction>." + str(name), args=())
            return self.opaque("." + str(name), args, kwargs, recv=recv)
        if op in ("s", "item", "call"):
            return self.opaque("<callable>", args, kwargs, recv=fn)
        if op in ("undef", "missing"):
            ip.effect("undefined", what=str(fn.args))
            return ip.unknown("call of undefined %s" % (fn.args,))
        ip.note("call of %s" % op)
        return self.opaque("<%s>" % op, args, kwargs, recv=fn)

    # ------------------------------------------------------------ constructors
    def _arg(self, args, kwargs, i, name, dflt=NONE):
        if len(args) > i:
            return args[i]
        return kwargs.get(name, dflt)

    def k_QuantumCircuit(self, args, kwargs):
        r = self.ext("QuantumCircuit")
        regs = [a for a in args if a.op == "ref"]
        self.ip.effect("newcirc", circ=r, args=tuple(self.fz(a) for a in args))
        if regs:
            self.add_register(r, args)
        return r

    def _reg(self, kind, args, kwargs):
        size = self._arg(args, kwargs, 0, "size")
        name = self._arg(args, kwargs, 1, "name")
        bits = self._arg(args, kwargs, 2, "bits")
        if size is NONE and bits is not NONE:
            size = T.length(self.fz(bits))
        r = self.ext(kind, size=size, name=name)
        self.ip.effect("newreg", reg=r, cls=kind, size=size, name=name)
        return r

    def k_QuantumRegister(self, args, kwargs):
        return self._reg("QuantumRegister", args, kwargs)

    def k_ClassicalRegister(self, args, kwargs):
        return self._reg("ClassicalRegister", args, kwargs)

    def k_PyGraph(self, args, kwargs):
        mg = self._arg(args, kwargs, 0, "multigraph", TRUE)
        r = self.ext("PyGraph", multigraph=mg)
        self.ip.effect("newgraph", graph=r, multigraph=mg)
        return r

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kwargs):
        ip = self.ip
        if o.op == "ref":
            ob = ip.h(o)
            if ob.kind in ("list", "set", "dict") and args and name in ("__contains__", "__getitem__", "__setitem__"):
                if name == "__contains__":
                    return ip.contains(o, args[0])
                if name == "__getitem__":
                    return ip.get_item(o, args[0])
                ip.set_item(o, args[0], args[1])
                return NONE
            if ob.kind in ("list", "set"):
                r = self.list_method(o, ob, name, args, kwargs)
            elif ob.kind == "dict":
                r = self.dict_method(o, ob, name, args, kwargs)
            elif ob.kind == "ext":
                r = self.ext_method(o, ob, name, args, kwargs)
            elif ob.kind == "obj":
                return self.opaque("." + name, args, kwargs, recv=o)
            else:
                r = None
            if r is not None:
                return r
            return self.opaque("." + name, args, kwargs, recv=o)
        if sort(o) == "str":
            r = self.str_method(o, name, args, kwargs)
            if r is not None:
                return r
        if o.op in ("seq", "tuple"):
            if name == "index" and args:
                return mk("call", "seq.index", o, self.fz(args[0]))
            if name == "count":
                return mk("count", o, self.fz(args[0]))
            if name == "copy":
                return ip.new_list(ip.to_segs(o))
        if o.op == "dict":
            d = ip.new_dict([e.args for e in o.args])
            return self.dict_method(d, ip.h(d), name, args, kwargs)
        return self.opaque("." + name, args, kwargs, recv=o)

    def list_method(self, o, ob, name, args, kwargs):
        ip = self.ip
        a = o.args[0]
        if name in ("append", "add"):
            ip.put(a, ob.data + (seg1(args[0]),), "append", None, args[0])
            return NONE
        if name in ("extend", "update"):
            ip.put(a, ob.data + tuple(ip.to_segs(args[0])), "extend", None, self.fz(args[0]))
            return NONE
        if name == "insert":
            k, v = args
            if k is ZERO:
                ip.put(a, (seg1(v),) + ob.data, "insert", k, v)
                return NONE
            if is_const(k) and all(not s.args[0] and s.args[1] is TRUE for s in ob.data):
                d = list(ob.data)
                d.insert(int(cval(k)), seg1(v))
                ip.put(a, tuple(d), "insert", k, v)
                return NONE
            ip.unknown_mut(o, "insert")
            return NONE
        if name == "pop":
            k = args[0] if args else const(-1)
            x = ip.seq_get(ob.data, k)
            cur = self.fz(o)
            if x is None:
                x = T.item(cur, k)
            if is_const(k) and cval(k) == -1 and ob.data and not ob.data[-1].args[0] and ob.data[-1].args[1] is TRUE:
                ip.put(a, ob.data[:-1], "pop", k)
            elif is_const(k) and cval(k) == 0 and ob.data and not ob.data[0].args[0] and ob.data[0].args[1] is TRUE:
                ip.put(a, ob.data[1:], "pop", k)
            else:
                n = T.length(cur)
                if is_const(k) and cval(k) in (0, -1):
                    j = fresh("i", "int", 0)
                    off = 1 if cval(k) == 0 else 0
                    SYMINFO[j] = T.SymInfo(0, sub(n, const(2)))
                    ip.put(a, (seg([(j, sub(n, ONE))], TRUE, T.item(cur, add(j, const(off)))),), "pop", k)
                else:
                    ip.unknown_mut(o, "pop")
            return x
        if name == "clear":
            ip.put(a, (), "clear")
            return NONE
        if name == "copy":
            return mk("ref", ip.alloc(_copyobj(ip, ob)))
        if name == "reverse":
            r = ip.seq_slice(ob.data, None, None, const(-1))
            if r is None:
                ip.unknown_mut(o, "reverse")
            else:
                ip.put(a, r, "reverse")
            return NONE
        if name == "sort" and kwargs.get("key", NONE) is not NONE:
            ip.put(a, ip.h(self._bykey(o, kwargs)).data, "sort")
            return NONE
        if name == "sort":
            s = mk("call", "sorted", self.fz(o), *[mk("kw", k, self.fz(v)) for k, v in sorted(kwargs.items())])
            k = fresh("i", "int", 0)
            ip.put(a, (seg([(k, T.length(s))], TRUE, T.item(s, k)),), "sort")
            return NONE
        if name == "remove":
            ip.unknown_mut(o, "remove")
            return NONE
        if name == "index":
            return mk("call", "seq.index", self.fz(o), self.fz(args[0]))
        if name == "count":
            return mk("count", self.fz(o), self.fz(args[0]))
        if name in ("issubset", "issuperset", "isdisjoint", "difference", "intersection") and len(args) == 1:
            r = ip.set_op(name, o, args[0])
            if r is not None:
                return r
        if name in ("union", "difference", "intersection"):
            return mk("call", "set." + name, self.fz(o), *[self.fz(x) for x in args])
        return None

    def dict_method(self, o, ob, name, args, kwargs):
        ip = self.ip
        a = o.args[0]
        if name == "items":
            return seq(*[mk("seg", tuple(b), g, mk("tuple", k, v)) for b, g, k, v in ob.data])
        if name == "keys":
            return seq(*[mk("seg", tuple(b), g, k) for b, g, k, v in ob.data])
        if name == "values":
            return seq(*[mk("seg", tuple(b), g, v) for b, g, k, v in ob.data])
        if name == "get":
            return ip.dict_get(o, args[0], args[1] if len(args) > 1 else NONE)
        if name == "copy":
            return mk("ref", ip.alloc(_copyobj(ip, ob)))
        if name == "update":
            if args:
                ip.dict_update(o, args[0])
            for k, v in kwargs.items():
                ip.dict_store(o, const(k), v)
            return NONE
        if name == "setdefault":
            k = args[0]
            v = args[1] if len(args) > 1 else NONE
            c = ip.contains(o, k)

            def put():
                ip.dict_store(o, k, v)
                return v

            return ip.fork(c, lambda: ip.dict_get(o, k), put)
        if name == "pop":
            k = args[0]
            v = ip.dict_get(o, k, args[1] if len(args) > 1 else None)
            ip.put(a, tuple(e for e in ip.h(o).data if e[2] is not k), "del", k)
            return v
        if name == "clear":
            ip.put(a, (), "clear")
            return NONE
        return None

    def str_method(self, o, name, args, kwargs):
        ip = self.ip
        fa = [self.fz(a) for a in args]
        if is_const(o) and all(is_const(a) for a in fa) and not kwargs and name in (
            "replace", "upper", "lower", "strip", "lstrip", "rstrip", "startswith", "endswith", "title", "zfill", "rjust", "ljust",
            "count", "find", "isdigit", "removesuffix", "removeprefix", "capitalize",
        ):
            return const(getattr(cval(o), name)(*[cval(a) for a in fa]))
        if is_const(o) and name == "format":
            return self.str_format(cval(o), args, kwargs)
        if name == "join":
            s = args[0]
            segs = ip.to_segs(s)
            if all(not x.args[0] and x.args[1] is TRUE for x in segs):
                parts = []
                for i, x in enumerate(segs):
                    if i:
                        parts.append(o)
                    parts.append(self.fz(x.args[2]))
                return T.strcat(*parts) if parts else const("")
            return mk("join", o, self.fz(s) if s.op in ("ref",) else seq(*segs))
        if name in ("split", "rsplit"):
            if is_const(o) and all(is_const(a) for a in fa):
                return ip.new_list([seg1(const(x)) for x in getattr(cval(o), name)(*[cval(a) for a in fa])])
            return mk("split", name, o, *fa, *[mk("kw", k, self.fz(v)) for k, v in sorted(kwargs.items())])
        if name in ("startswith", "endswith", "isdigit"):
            return mk("opaque", mk("strm", name, o, *fa), "str")
        if name in ("count", "find", "index"):
            return mk("strm_i", name, o, *fa)
        return mk("strm", name, o, *fa)

    def str_format(self, fmt, args, kwargs):
        import string

        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                v = self.ip.unknown("format field")
            v = self.fz(v)
            if spec:
                out.append(mk("format", v, const(spec)))
            else:
                out.append(self.text(v))
        return T.strcat(*out) if out else const("")

    # ------------------------------------------------------------ qiskit / retworkx objects
    def add_register(self, circ, args):
        ip = self.ip
        for a in args:
            segs = a.args[0].args if a.op == "star" else (seg1(a),)
            for s in segs:
                b, g, e = s.args

                def one(e=e):
                    ip.effect("addreg", circ=circ, reg=e)
                    return NONE

                if g is TRUE and not b:
                    one()
                elif not b:
                    ip.fork(g, one, lambda: NONE)
                else:
                    ip.effect("addreg", circ=circ, reg=mk("any", s))

    def ext_method(self, o, ob, name, args, kwargs):
        ip = self.ip
        lab = ob.label
        if lab == "QuantumCircuit":
            if name == "add_register":
                self.add_register(o, args)
                return NONE
            if name in GATES1 or name in GATES2 or name == "measure":
                order = {"cx": ("control_qubit", "target_qubit"), "cz": ("control_qubit", "target_qubit"), "measure": ("qubit", "cbit")}.get(name, ("qubit",))
                qs = list(args)
                for k in order[len(qs) :]:
                    if k in kwargs:
                        qs.append(kwargs.pop(k))
                eid = next(ip.eid)
                ip.effect("gate", circ=o, name={"cnot": "cx", "i": "id"}.get(name, name), args=tuple(self.fz(q) for q in qs), eid=eid)
                return mk("instr", o, eid)
            if name == "barrier":
                ip.effect("barrier", circ=o, args=tuple(self.fz(q) for q in args))
                return mk("instr", o, 0)
            if name == "copy":
                r = self.ext("QuantumCircuit")
                ip.effect("copycirc", circ=o, result=r)
                return r
            if name in ("draw", "__str__", "depth", "size", "width", "count_ops", "qasm", "num_connected_components", "__len__"):
                return self.opaque("QuantumCircuit." + name, args, kwargs, recv=o)
            ip.effect("circ_other", circ=o, name=name, args=tuple(self.fz(a) for a in args))
            return mk("call", "QuantumCircuit." + name, o, *[self.fz(a) for a in args])
        if lab == "PyGraph":
            if name == "add_node":
                lb = self.fz(args[0])
                r = mk("node", o, lb)
                ip.effect("addnode", graph=o, label=lb)
                return r
            if name == "add_edge":
                ip.effect("addedge", graph=o, a=self.fz(args[0]), b=self.fz(args[1]), w=self.fz(args[2]) if len(args) > 2 else NONE)
                return mk("call", "edgeidx", o)
            if name == "nodes":
                sid = sym("v%d" % next(ip.eid), "any")
                ip.effect("snapshot", graph=o, sid=sid)
                return mk("gnodes", o, sid)
            if name in ("add_nodes_from", "add_edges_from", "extend_from_weighted_edge_list", "add_edges_from_no_data"):
                segs = ip.to_segs(args[0])
                out = []

                def body(e):
                    if name == "add_nodes_from":
                        out.append(self.ext_method(o, ob, "add_node", [e], {}))
                    else:
                        t = ip.unpack(e, 3 if "no_data" not in name else 2)
                        self.ext_method(o, ob, "add_edge", t, {})

                if all(not s.args[0] for s in segs):
                    ip.run_segs(segs, body)
                    return ip.new_list([seg1(x) for x in out]) if name == "add_nodes_from" else NONE
                ip.breaks.append([])
                ip.run_segs(segs, body)
                ip.breaks.pop()
                if name == "add_nodes_from":
                    return seq(*[mk("seg", s.args[0], s.args[1], mk("node", o, self.fz(s.args[2]))) for s in segs])
                return NONE
            if name in ("get_edge_data", "has_edge", "num_nodes", "num_edges", "edge_list", "weighted_edge_list", "node_indexes", "node_indices", "get_node_data", "edges", "neighbors", "degree", "copy", "__len__"):
                if name == "get_node_data":
                    return self.ext_item(o, ob, args[0])
                return self.opaque("PyGraph." + name, args, kwargs, recv=o)
            ip.effect("graph_other", graph=o, name=name, args=tuple(self.fz(a) for a in args))
            return mk("call", "PyGraph." + name, o, *[self.fz(a) for a in args])
        if lab in ("QuantumRegister", "ClassicalRegister"):
            if name == "__len__":
                return ob.data["size"]
            if name == "index":
                return mk("attr", args[0], "index")
        return None

    # ------------------------------------------------------------ builtins
    def b_len(self, args, kwargs):
        ip = self.ip
        v = args[0]
        if v.op == "ref":
            o = ip.h(v)
            if o.kind in ("list", "set"):
                return T.length(self.fz(v))
            if o.kind == "dict":
                n = ZERO
                for b, g, k, x in o.data:
                    if b:
                        return mk("len", self.fz(v))
                    n = add(n, ite(g, ONE, ZERO))
                return n
            if o.kind == "ext" and "size" in o.data:
                return o.data["size"]
            if o.kind == "obj" and o.cls.lookup("__len__")[0] is not None:
                return ip.call(ip.get_attr(v, "__len__"), [], {})
        if v.op == "ite":
            return ip.fork(v.args[0], lambda: self.b_len([v.args[1]], {}), lambda: self.b_len([v.args[2]], {}))
        if v.op == "dict":
            return mk("len", v)
        return T.length(v)

    def b_range(self, args, kwargs):
        return self.ip.iter_range(args)

    def b_enumerate(self, args, kwargs):
        return self.ip.enumerate_(args[0], self._arg(args, kwargs, 1, "start", ZERO)) or self._lazyenum(args)

    def _lazyenum(self, args):
        fv = self.fz(args[0])
        s = fv if fv.op != "ref" else fv
        k = fresh("i", "int", 0)
        n = T.length(s)
        SYMINFO[k] = T.SymInfo(0, sub(n, ONE))
        off = args[1] if len(args) > 1 else ZERO
        return seq(seg([(k, n)], TRUE, mk("tuple", add(k, off), T.item(s, k))))

    def b_zip(self, args, kwargs):
        r = self.ip.zip_(args)
        if r is not None:
            return r
        fs = [self.fz(a) for a in args]
        k = fresh("z", "int", 0)
        n = T.length(fs[0])
        for f in fs[1:]:
            n = self.ip._min(n, T.length(f))
        SYMINFO[k] = T.SymInfo(0, sub(n, ONE))
        return seq(seg([(k, n)], TRUE, mk("tuple", *[T.item(f, k) for f in fs])))

    def b_reversed(self, args, kwargs):
        return self.ip.get_slice(seq(*self.ip.to_segs(args[0])), None, None, const(-1))

    def b_map(self, args, kwargs):
        ip = self.ip
        f, its = args[0], args[1:]
        it = seq(*ip.to_segs(its[0])) if len(its) == 1 else self.b_zip(its, {})
        ref = ip.new_list()
        ip.breaks.append([])

        def body(e):
            v = ip.call(f, [e] if len(its) == 1 else ip.unpack(e, len(its)), {})
            ip.put(ref.args[0], ip.h(ref).data + (seg1(v),), None)

        ip.run_segs(ip.to_segs(it), body)
        ip.breaks.pop()
        return ref

    def b_filter(self, args, kwargs):
        from .interp import truth_of

        ip = self.ip
        ref = ip.new_list()
        ip.breaks.append([])

        def body(e):
            c = truth_of(ip, e if args[0] is NONE else ip.call(args[0], [e], {}))
            ip.fork_stmt(c, lambda: ip.put(ref.args[0], ip.h(ref).data + (seg1(e),), None), lambda: None)

        ip.run_segs(ip.to_segs(args[1]), body)
        ip.breaks.pop()
        return ref

    def b_list(self, args, kwargs):
        if not args:
            return self.ip.new_list()
        return self.ip.new_list(self.ip.to_segs(args[0]))

    def b_tuple(self, args, kwargs):
        if not args:
            return mk("tuple")
        v = args[0]
        if v.op == "tuple":
            return v
        if v.op == "ite":
            return self.ip.fork(v.args[0], lambda: self.b_tuple([v.args[1]], {}), lambda: self.b_tuple([v.args[2]], {}))
        segs = self.ip.to_segs(v)
        if all(not s.args[0] and s.args[1] is TRUE for s in segs):
            return mk("tuple", *[s.args[2] for s in segs])
        return mk("astuple", seq(*segs)) if False else seq(*segs)

    def b_set(self, args, kwargs):
        return self.ip.new_list(self.ip.to_segs(args[0]) if args else (), kind="set")

    b_frozenset = b_set

    def b_dict(self, args, kwargs):
        ip = self.ip
        r = ip.new_dict()
        if args:
            v = args[0]
            if v.op == "ref" and ip.h(v).kind == "dict" or v.op == "dict":
                ip.dict_update(r, v, log=False)
            elif ip.is_seq(v):
                for s in ip.to_segs(v):
                    b, g, e = s.args
                    kv = ip.unpack(e, 2)
                    if not b and g is TRUE:
                        ip.dict_store(r, kv[0], kv[1], log=False)
                    else:
                        ip.put(r.args[0], ip.h(r).data + ((tuple(b), g, kv[0], kv[1]),), None)
            else:
                o = ip.h(r)
                x = mk("call", "dict", self.fz(v))
                return x
        for k, v in kwargs.items():
            ip.dict_store(r, const(k), v, log=False)
        return r

    def b_int(self, args, kwargs):
        if not args:
            return ZERO
        v = args[0]
        base = self._arg(args, kwargs, 1, "base", None)
        if base is not None:
            if is_const(v) and isinstance(cval(v), str) and is_const(base):
                try:
                    return const(int(cval(v), int(cval(base))))
                except ValueError:
                    self.ip.do_raise(mk("ext", "ValueError"))
            if is_const(base) and cval(base) == 2:
                return mk("int2", self.fz(v))
            return mk("int", self.fz(v), base)
        if v.op == "ite":
            return ite(v.args[0], self.b_int([v.args[1]], {}), self.b_int([v.args[2]], {}))
        if sort(v) == "int":
            return v
        if sort(v) == "bool":
            return ite(v, ONE, ZERO)
        if is_const(v):
            if isinstance(cval(v), str):
                try:
                    return const(int(cval(v)))
                except ValueError:
                    self.ip.do_raise(mk("ext", "ValueError"))
            try:
                return const(int(cval(v)))
            except Exception:
                pass
        return mk("int", self.fz(v))

    def b_float(self, args, kwargs):
        v = args[0] if args else ZERO
        if sort(v) in ("int", "num"):
            return v
        return mk("num", self.fz(v))

    def b_str(self, args, kwargs):
        if not args:
            return const("")
        return self.text(args[0])

    def text(self, v):
        if v.op == "ref":
            o = self.ip.h(v)
            if o.kind == "obj" and o.cls.lookup("__str__")[0] is not None:
                return self.ip.call(self.ip.get_attr(v, "__str__"), [], {})
            if o.kind == "ext" and o.label == "QuantumCircuit":
                return self.opaque("QuantumCircuit.__str__", [], {}, recv=v)
        return T.to_str(self.fz(v))

    def b_repr(self, args, kwargs):
        v = args[0]
        if v.op == "ref" and self.ip.h(v).kind == "ext":
            return mk("call", "repr", v)
        return self.b_str(args, kwargs)

    def b_bool(self, args, kwargs):
        from .interp import truth_of

        return truth_of(self.ip, args[0]) if args else FALSE

    def b_abs(self, args, kwargs):
        v = args[0]
        if nval(v) is not None:
            return const(abs(nval(v)))
        l = lower(v)
        if l is not None and l >= 0:
            return v
        return mk("abs", v)

    def b_round(self, args, kwargs):
        return mk("call", "round", *[self.fz(a) for a in args])

    def b_divmod(self, args, kwargs):
        return mk("tuple", floordiv(args[0], args[1]), mod(args[0], args[1]))

    def b_pow(self, args, kwargs):
        if len(args) == 2:
            return self.ip.binop(ast.Pow(), args[0], args[1])
        return None

    def b_sum(self, args, kwargs):
        from .loops import sum_

        ip = self.ip
        tot = self._arg(args, kwargs, 1, "start", ZERO)
        segs = ip.to_segs(args[0])
        for s in segs:
            b, g, e = s.args
            if ip.is_seq(e) or sort(e) == "str" or e.op == "item" and False:
                # sum of sequences: concatenation
                return self._sum_seq(segs, tot)
            x = e
            if sort(e) == "bool":
                x = ite(e, ONE, ZERO)
            x = ite(g, x, ZERO)
            for k, n in reversed(b):
                x = sum_(k, n, x)
            tot = add(tot, x)
        return tot

    def _sum_seq(self, segs, tot):
        ip = self.ip
        out = list(ip.to_segs(tot)) if ip.is_seq(tot) else []
        for s in segs:
            b, g, e = s.args
            for t in ip.to_segs(e):
                out.append(mk("seg", tuple(b) + tuple(t.args[0]), and_(g, t.args[1]), t.args[2]))
        return ip.new_list(out)

    def _perm(self, v, kwargs, reverse=None):
        """the permutation that sorts by a key function (a stable sort)"""
        keys = self.fz(self.b_map([kwargs["key"], v], {}))
        r = kwargs.get("reverse", FALSE) if reverse is None else reverse
        return mk("call", "argsort", keys, self.fz(r))

    def _bykey(self, v, kwargs):
        """[v[i] for i in argsort(key(x) for x in v)]"""
        ip = self.ip
        v = ip.new_list(ip.to_segs(v))
        n = self.b_len([v], {})
        p = self._perm(v, kwargs)
        k = fresh("i", "int", 0)
        SYMINFO[k] = T.SymInfo(0, sub(n, ONE))
        ref = ip.new_list()
        ip.breaks.append([])

        def body(e):
            ip.put(ref.args[0], ip.h(ref).data + (seg1(ip.get_item(v, T.item(p, e))),), None)

        ip.run_segs([seg([(k, n)], TRUE, k)], body)
        ip.breaks.pop()
        return ref

    def _minmax(self, args, kwargs, mx):
        ip = self.ip
        if kwargs.get("key", NONE) is not NONE:
            v = ip.new_list(ip.to_segs(args[0]) if len(args) == 1 else [seg1(x) for x in args])
            r = ip.get_item(v, T.item(self._perm(v, kwargs, boolc(mx)), ZERO))
            if "default" in kwargs:
                return ip.fork(T.eq(self.b_len([v], {}), ZERO), lambda: kwargs["default"], lambda: r)
            return r
        if len(args) == 1 and "key" not in kwargs:
            segs = ip.to_segs(args[0])
            if not all(not s.args[0] and s.args[1] is TRUE for s in segs):
                return mk("call", "max" if mx else "min", seq(*segs))
            args = [s.args[2] for s in segs]
        if "key" in kwargs:
            return mk("call", "max" if mx else "min", *[self.fz(a) for a in args], mk("kw", "key", self.fz(kwargs["key"])))
        r = args[0]
        for x in args[1:]:
            if sort(x) in ("int", "num") and sort(r) in ("int", "num"):
                r = ip._max(r, x) if mx else ip._min(r, x)
            else:
                r = mk("call", "max" if mx else "min", *[self.fz(a) for a in args])
                break
        return r

    def b_max(self, args, kwargs):
        return self._minmax(args, kwargs, True)

    def b_min(self, args, kwargs):
        return self._minmax(args, kwargs, False)

    def _anyall(self, args, is_any):
        from .interp import truth_of
        from .loops import exists

        ip = self.ip
        out = []
        for s in ip.to_segs(args[0]):
            b, g, e = s.args
            c = truth_of(ip, e)
            if is_any:
                out.append(and_(g, c) if not b else exists(b, g, c))
            else:
                out.append(or_(not_(g), c) if not b else not_(exists(b, g, not_(c))))
        if not out:
            return boolc(not is_any)
        return or_(*out) if is_any else and_(*out)

    def b_any(self, args, kwargs):
        return self._anyall(args, True)

    def b_all(self, args, kwargs):
        return self._anyall(args, False)

    def b_sorted(self, args, kwargs):
        if kwargs.get("key", NONE) is not NONE:
            return self._bykey(args[0], kwargs)
        v = self.fz(args[0])
        if v.op == "ref":
            v = seq(*self.ip.to_segs(args[0]))
        kw = []
        for k, x in sorted(kwargs.items()):
            kw.append(mk("kw", k, self.fz(x)))
        return mk("call", "sorted", v, *kw)

    def b_print(self, args, kwargs):
        self.ip.effect("print")
        return NONE

    def b_isinstance(self, args, kwargs):
        v, t = args
        return self.isinst(v, t)

    def isinst(self, v, t):
        ip = self.ip
        if t.op == "tuple":
            return or_(*[self.isinst(v, x) for x in t.args])
        if v.op == "ite":
            return ite(v.args[0], self.isinst(v.args[1], t), self.isinst(v.args[2], t))
        if t.op == "class":
            if v.op == "ref" and ip.h(v).kind == "obj":
                return boolc(t.args[0] in ip.h(v).cls.mro)
            if v.op == "fobj":
                return boolc(t.args[0] in v.args[0].args[0].mro)
            if sort(v) in ("int", "num", "bool", "str", "tuple", "none", "seq", "bit", "node") or v.op == "ref":
                return FALSE
            return mk("isinstance", v, t)
        if t.op == "ext":
            n = leaf(t.args[0]).replace("[...]", "")
            s = sort(v)
            groups = {
                "int": ("int", "bool"), "Integral": ("int", "bool"), "float": ("num",), "Number": ("int", "num", "bool"), "Real": ("int", "num", "bool"),
                "str": ("str",), "tuple": ("tuple",), "Tuple": ("tuple",), "bool": ("bool",), "complex": (),
                "integer": (), "number": (), "floating": (), "Qubit": ("bit",), "Clbit": ("bit",), "Bit": ("bit",),
            }
            kind = None
            if v.op == "ref":
                o = ip.h(v)
                kind = o.kind if o.kind != "ext" else o.label
                if n in ("list", "List", "Sequence", "Iterable", "set", "dict", "Dict", "Mapping", "QuantumRegister", "ClassicalRegister", "QuantumCircuit", "Register", "PyGraph"):
                    m = {"list": ("list", "List", "Sequence", "Iterable"), "set": ("set", "Iterable"), "dict": ("dict", "Dict", "Mapping", "Iterable"),
                         "QuantumRegister": ("QuantumRegister", "Register"), "ClassicalRegister": ("ClassicalRegister", "Register")}
                    return boolc(n in m.get(kind, (kind,)))
                return FALSE if n in groups else mk("isinstance", v, t)
            if n in groups:
                if s in groups[n]:
                    return TRUE
                if s == "num" and n in ("int", "Integral"):
                    return mk("isinstance", v, t) if not is_const(v) else FALSE
                if s != "any":
                    return FALSE
            if n in ("list", "List", "Sequence", "Iterable"):
                if s == "seq":
                    return TRUE
                if s == "tuple":
                    return boolc(n in ("Sequence", "Iterable"))
                if s in ("int", "num", "bool", "none"):
                    return FALSE
                if s == "str":
                    return boolc(n in ("Sequence", "Iterable"))
            if s in ("int", "num", "bool", "str", "none", "tuple"):
                return FALSE
        return mk("isinstance", v, t)

    def b_issubclass(self, args, kwargs):
        a, b = args
        if a.op == "class" and b.op == "class":
            return boolc(b.args[0] in a.args[0].mro)
        return mk("opaque", self.fz(a), "issubclass")

    def b_type(self, args, kwargs):
        v = args[0]
        if len(args) == 1:
            if v.op == "ref":
                o = self.ip.h(v)
                if o.kind == "obj":
                    return o.cls.term()
                return mk("ext", {"list": "list", "dict": "dict", "set": "set"}.get(o.kind, o.label or "?"))
            if v.op == "fobj":
                return v.args[0]
            if v.op == "ite":
                return ite(v.args[0], self.b_type([v.args[1]], {}), self.b_type([v.args[2]], {}))
            n = {"str": "str", "int": "int", "num": "float", "bool": "bool", "tuple": "tuple", "none": "NoneType", "seq": "list"}.get(sort(v))
            if n:
                return mk("ext", n)
            return mk("type", v)
        return None

    def b_getattr(self, args, kwargs):
        if len(args) >= 2 and is_const(args[1]) and isinstance(cval(args[1]), str):
            r = self.ip.get_attr(args[0], cval(args[1]))
            return r
        if len(args) >= 2 and args[1].op == "ite":
            c, a, b = args[1].args
            return self.ip.fork(c, lambda: self.b_getattr([args[0], a], {}), lambda: self.b_getattr([args[0], b], {}))
        return None

    def b_setattr(self, args, kwargs):
        if is_const(args[1]):
            self.ip.set_attr(args[0], cval(args[1]), args[2])
            return NONE
        return None

    def b_hasattr(self, args, kwargs):
        o, n = args
        if o.op == "ref" and self.ip.h(o).kind == "obj" and is_const(n):
            ob = self.ip.h(o)
            return boolc(cval(n) in ob.data or ob.cls.lookup(cval(n))[0] is not None)
        if sort(o) in ("int", "num", "bool", "none") and is_const(n) and cval(n) in ("__iter__", "__len__", "__getitem__"):
            return FALSE
        if sort(o) in ("tuple", "seq", "str") and is_const(n) and cval(n) in ("__iter__", "__len__", "__getitem__"):
            return TRUE
        return mk("opaque", self.fz(o), "hasattr", self.fz(n))

    def b_callable(self, args, kwargs):
        if args[0].op in ("func", "bound", "class", "ext", "meth", "partial"):
            return TRUE
        if args[0] is NONE or sort(args[0]) in ("int", "num", "str"):
            return FALSE
        return mk("opaque", self.fz(args[0]), "callable")

    def b_iter(self, args, kwargs):
        # iterator object with a cursor over a frozen sequence
        v = self.fz(args[0])
        if v.op == "ref":
            v = seq(*self.ip.to_segs(args[0]))
        return self.ext("iterator", src=v, pos=ZERO)

    def b_next(self, args, kwargs):
        ip = self.ip
        it = args[0]
        if it.op == "ref" and ip.h(it).kind == "ext" and ip.h(it).label == "iterator":
            o = ip.h(it)
            pos = o.data["pos"]
            ip.set_field(it.args[0], "pos", add(pos, ONE), log=False)
            return T.item(o.data["src"], pos)
        if ip.is_seq(it):
            segs = ip.to_segs(it)
            if len(args) > 1 or any(s.args[1] is not TRUE for s in segs):
                # first element satisfying the guards
                r = args[1] if len(args) > 1 else mk("undef", "StopIteration")
                for s in reversed(segs):
                    b, g, e = s.args
                    if not b:
                        r = ite(g, e, r)
                    elif len(b) == 1:
                        from .loops import first

                        k, n = b[0]
                        m = first(k, n, g)
                        r = ite(cmp_("<", m, n), subst(e, k, m), r)
                    else:
                        return None
                return r
            x = ip.seq_get(segs, ZERO)
            if x is not None:
                return x
        return None

    def b_slice(self, args, kwargs):
        if len(args) == 1:
            return mk("sliceobj", NONE, args[0], NONE)
        if len(args) == 2:
            return mk("sliceobj", args[0], args[1], NONE)
        return mk("sliceobj", *args)

    def b_id(self, args, kwargs):
        return mk("call", "id", self.fz(args[0]))

    def b_bin(self, args, kwargs):
        return mk("strm", "bin", args[0])

    def b_format(self, args, kwargs):
        if len(args) == 1 or args[1] == const(""):
            return self.text(args[0])
        return mk("format", self.fz(args[0]), args[1])

    def b_chr(self, args, kwargs):
        return mk("chr", args[0])

    def b_ord(self, args, kwargs):
        return mk("ord", args[0])

    def b_object(self, args, kwargs):
        return self.ext("object")

    # ------------------------------------------------------------ library functions
    def f_typing_cast(self, args, kwargs):
        return args[1]

    def f_functools_partial(self, args, kwargs):
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))

    def f_functools_reduce(self, args, kwargs):
        ip = self.ip
        f, s = args[0], args[1]
        segs = list(ip.to_segs(s))
        if len(args) > 2:
            acc = args[2]
        else:
            if not segs or segs[0].args[0] or segs[0].args[1] is not TRUE:
                return None
            acc = segs.pop(0).args[2]
        fa = ip.alloc(_hobj("frame", "reduce", {"acc": acc}))
        ip.breaks.append([])

        def body(e):
            cur = ip.st.heap[fa].data["acc"]
            v = ip.call(f, [cur, e], {})
            ip.set_field(fa, "acc", v, log=False)

        ip.run_segs(segs, body)
        ip.breaks.pop()
        return ip.st.heap[fa].data["acc"]

    def f_itertools_combinations(self, args, kwargs):
        if len(args) == 2 and is_const(args[1]) and cval(args[1]) == 2:
            ip = self.ip
            segs = ip.to_segs(args[0])
            if all(not s.args[0] and s.args[1] is TRUE for s in segs):
                els = [s.args[2] for s in segs]
                return seq(*[seg1(mk("tuple", els[i], els[j])) for i in range(len(els)) for j in range(i + 1, len(els))])
            s = seq(*segs)
            n = T.length(s)
            i = fresh("ci", "int", 0)
            j = fresh("cj", "int", 0)
            SYMINFO[i] = T.SymInfo(0, sub(n, ONE))
            m = sub(sub(n, ONE), i)
            SYMINFO[j] = T.SymInfo(0, sub(m, ONE))
            return seq(seg([(i, n), (j, m)], TRUE, mk("tuple", T.item(s, i), T.item(s, add(add(i, j), ONE)))))
        return None

    def f_itertools_product(self, args, kwargs):
        ip = self.ip
        if kwargs:
            return None
        rows = [((), TRUE, ())]
        for a in args:
            nr = []
            for b, g, t in rows:
                for s in ip.to_segs(a):
                    nb, g2, e = ip.inst_seg(s)
                    nr.append((b + tuple(nb), and_(g, g2), t + (e,)))
            rows = nr
        return seq(*[mk("seg", b, g, mk("tuple", *t)) for b, g, t in rows])

    def f_itertools_chain(self, args, kwargs):
        out = []
        for a in args:
            out.extend(self.ip.to_segs(a))
        return seq(*out)

    def f_itertools_chain_from_iterable(self, args, kwargs):
        ip = self.ip
        out = []
        for s in ip.to_segs(args[0]):
            b, g, e = s.args
            for t in ip.to_segs(e):
                out.append(mk("seg", tuple(b) + tuple(t.args[0]), and_(g, t.args[1]), t.args[2]))
        return seq(*out)

    def f_itertools_islice(self, args, kwargs):
        ip = self.ip
        s = seq(*ip.to_segs(args[0]))
        if len(args) == 2:
            return ip.get_slice(s, None, args[1], None)
        return ip.get_slice(s, *(list(args[1:]) + [NONE])[:3])

    def f_operator_xor(self, args, kwargs):
        return self.ip.binop(ast.BitXor(), args[0], args[1])

    def f_operator_itemgetter(self, args, kwargs):
        return mk("itemgetter", args[0]) if False else None

    def f_copy_copy(self, args, kwargs):
        return self._copy(args[0], False)

    def f_copy_deepcopy(self, args, kwargs):
        return self._copy(args[0], True)

    def _copy(self, v, deep):
        ip = self.ip
        if v.op == "ref":
            o = ip.h(v)
            if o.kind in ("list", "set", "dict", "obj"):
                d = o.data
                if deep and o.kind == "dict":
                    d = tuple((b, g, k, self._copy(x, True)) for b, g, k, x in d)
                return mk("ref", ip.alloc(o.with_data(d)))
        return v

    def f_collections_defaultdict(self, args, kwargs):
        return self.ip.new_dict()

    f_collections_OrderedDict = lambda self, args, kwargs: self.b_dict(args, kwargs)

    def f_typing_TypeVar(self, args, kwargs):
        return mk("ext", "typing.TypeVar")

    def f_math_floor(self, args, kwargs):
        if sort(args[0]) == "int":
            return args[0]
        return floordiv(args[0], ONE) if sort(args[0]) == "num" else None

    def f_math_log(self, args, kwargs):
        if len(args) == 1:
            return mk("math", "log", args[0])
        return div(mk("math", "log", args[0]), mk("math", "log", args[1]))

    def f_math_log1p(self, args, kwargs):
        return mk("math", "log", add(ONE, args[0]))

    def f_dict_fromkeys(self, args, kwargs):
        ip = self.ip
        segs = ip.to_segs(args[0])
        v = self._arg(args, kwargs, 1, "value")
        if all(not s.args[0] and s.args[1] is TRUE and is_const(s.args[2]) for s in segs) or v is not NONE:
            r = ip.new_dict()
            for s in segs:
                b, g, e = s.args
                if not b and g is TRUE:
                    ip.dict_store(r, e, v, log=False)
                else:
                    ip.put(r.args[0], ip.h(r).data + ((tuple(b), g, e, v),), None)
            return r
        # used as an ordered set: the keys
        return mk("call", "unique", self.fz(args[0]))

    def f_numpy_log(self, args, kwargs):
        return mk("math", "log", args[0]) if len(args) == 1 else None

    def f_numpy_log1p(self, args, kwargs):
        return mk("math", "log", add(ONE, args[0]))


def _hobj(kind, label, data):
    from .interp import HObj

    return HObj(kind, None, data, label)


def _copyobj(ip, ob):
    from .interp import HObj

    return HObj(ob.kind, ob.cls, ob.data, None if ob.label == "live" else ob.label, ip.site)
