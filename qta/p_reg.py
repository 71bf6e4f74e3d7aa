"""C08-C17: registers, ownership, validation, multi-qubit circuits."""
import itertools, re
from .scene import *
from .interp import State, HObj, Eff
from .p_circ import back, corners
from .world import FOREIGN

ROPS = ("stabilize", "readout_x", "readout_z", "lattice_readout_x", "lattice_readout_z")
AOPS = ROPS + ("reset_z", "reset_x", "x", "z", "id", "id_data")
QCLS = ("XXZZQubit", "XZZXQubit", "RepetitionQubit")


def mklist(ip, items):
    return ip.new_list([seg1(x) for x in items])


def types(ck):
    """registered type name -> class, read from the type registry the register class uses"""
    w = ck.world
    d = w.var("str2qtype")
    o = w.base.heap[d.args[0]]
    out = {}
    for bs, g, k, v in [(e[0], e[1], e[2], e[3]) for e in o.data]:
        if is_const(k) and v.op == "class":
            out[cval(k)] = v.args[0]
    if len(out) < 3:
        raise Undecided("type registry has %d readable entries" % len(out))
    return out


def make_qubit(s, cn, params, name=None, circ=None, label=None):
    def f(ip):
        k = {}
        if name is not None:
            k["name"] = const(name) if isinstance(name, str) else name
        if circ is not None:
            k["circ"] = circ
        p = params(ip) if callable(params) else params
        return ip.call(s.w.cls(cn), [p] if p is not None else [], k)

    return s.do(label or "%s(...)" % cn, f)


def make_reg(s, ctypes=(), params=None, name=None, circ=None):
    def f(ip):
        k = {}
        if ctypes:
            k["ctypes"] = mklist(ip, [const(c) for c in ctypes])
            k["params"] = mklist(ip, [p(ip) for p in params])
        if name is not None:
            k["name"] = const(name)
        if circ is not None:
            k["circ"] = circ
        return ip.call(s.w.cls("TopologicalRegister"), [], k)

    return s.do("TopologicalRegister(%s)" % ",".join(ctypes), f)


def dparams(dh, dw):
    return lambda ip: mkdict(ip, [("d", mk("tuple", dh if isinstance(dh, Term) else const(dh), dw if isinstance(dw, Term) else const(dw)))])


def add_tqubit(s, reg, sub, ct, p):
    return s.do("add_tqubit(%s)" % ct, lambda ip: ip.call(ip.get_attr(reg, "add_tqubit"), [const(sub), const(ct), p(ip)], {}))


# ---------------------------------------------------------------- names
def template(t):
    """register name term -> list of strings and integer terms (holes); None if unknown"""
    if t.op == "c":
        return [str(cval(t))] if isinstance(cval(t), (str, int)) else None
    if t.op == "concat":
        out = []
        for a in t.args:
            x = template(a)
            if x is None:
                return None
            out += x
        return out
    if t.op == "str":
        a = t.args[0]
        if a.op == "c":
            return [str(cval(a))]
        if sort(a) in ("int",):
            return [a]
        return template(a) if sort(a) == "str" else None
    if sort(t) == "int":
        return [t]
    return None


def glue(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def overlap(a, b):
    """can two templates (holes = any decimal number without sign) spell one string?"""
    # product of two NFAs: position = (part, char); hole = [0-9]+ read greedily but nondeterministically
    def start(parts):
        return frozenset([(0, 0)])

    def succ(parts, pos):
        """set of (char class, next pos)"""
        i, j = pos
        if i >= len(parts):
            return []
        p = parts[i]
        if isinstance(p, str):
            nxt = (i, j + 1) if j + 1 < len(p) else (i + 1, 0)
            return [(p[j], nxt)]
        # hole: j=0 nothing read yet, j=1 some digit read
        return [("D", (i, 1)), ("D", (i + 1, 0))]

    seen, todo = set(), [((0, 0), (0, 0))]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        pa, pb = x
        if pa[0] >= len(a) and pb[0] >= len(b):
            return True
        for ca, na in succ(a, pa):
            for cb, nb in succ(b, pb):
                ok = ca == cb or (ca == "D" and cb.isdigit()) or (cb == "D" and ca.isdigit())
                if ok:
                    todo.append((na, nb))
    return False


def injective(parts):
    """no two hole assignments spell the same string"""
    for x, y in zip(parts, parts[1:]):
        if not isinstance(x, str) and not isinstance(y, str):
            return False
        if not isinstance(x, str) and isinstance(y, str) and y[0].isdigit():
            return False
    return True


def int_cells(heap):
    out = {}
    for a, o in heap.items():
        if o.kind == "obj":
            for k, v in o.data.items():
                if isinstance(v, Term) and is_const(v) and isinstance(cval(v), int) and not isinstance(cval(v), bool):
                    out[a, k] = cval(v)
        elif o.kind == "dict" and o.label != "opaque":
            for e in o.data:
                if not e[0] and e[1] is TRUE and is_const(e[2]) and is_const(e[3]) and isinstance(cval(e[3]), int) and not isinstance(cval(e[3]), bool):
                    out[a, e[2]] = cval(e[3])
    return out


def havoc(state, keys, low):
    heap = dict(state.heap)
    syms = {}
    for a, k in keys:
        o = heap[a]
        s = fresh("count", "int", low[a, k])
        syms[a, k] = s
        if o.kind == "obj":
            d = dict(o.data)
            d[k] = s
            heap[a] = o.with_data(d)
        else:
            heap[a] = o.with_data(tuple((e[0], e[1], e[2], s) if e[2] is k and not e[0] else e for e in o.data))
    return State(heap, state.effects, state.pc), syms


def cell(heap, a, k):
    o = heap[a]
    if o.kind == "obj":
        return o.data.get(k)
    for e in o.data:
        if e[2] is k and not e[0]:
            return e[3]
    return None


def new_names(effs, heap):
    out = []
    for e in flat_effects(effs):
        if e.kind == "addreg":
            r = e.reg
            if r.op == "ref":
                o = heap[r.args[0]]
                n = o.data.get("name") if isinstance(o.data, dict) else None
                out.append((n, e.site))
            else:
                out.append((None, e.site))
    return out


def c08(ck):
    ts = types(ck)
    for ct in sorted(ts):
        ck.case("names of %s" % ct, c08_type, ck, ct)
    for ct in sorted(ts):
        ck.case("histories of %s" % ct, c08_hist, ck, ct)
    ck.case("qubits of one register", c08_many, ck, sorted(ts))
    ck.case("repeated logical CNOT", c08_cx, ck, sorted(ts))


def std_params(ct, big=True):
    if ct == "Repetition":
        return lambda ip: mkdict(ip, [("d", const(3))])
    return lambda ip: mkdict(ip, [("d", mk("tuple", const(3), const(5)))])


def c08_type(ck, ct):
    """inductive step: counters are arbitrary, every new name uses one that then grows"""
    w = ck.world
    s = Scene(w)
    reg = make_reg(s, name="treg")
    base = s.state
    add_tqubit(s, reg, "data", ct, std_params(ct))
    a, b = int_cells(base.heap), int_cells(s.state.heap)
    grow = [k for k in a if k in b and b[k] > a[k]]
    st0, regsyms = havoc(base, grow, a)
    s2 = Scene(w, st0)
    st_before = s2.state
    before = {k: cell(st_before.heap, *k) for k in grow}
    add_tqubit(s2, reg, "data", ct, std_params(ct))
    rows = []  # (op, template, site, deltas)
    d0 = {k: sub(cell(s2.state.heap, *k), before[k]) for k in grow}
    for n, site in new_names(s2.steps[-1].res.effects, s2.state.heap):
        rows.append(("add_tqubit", n, site, d0, dict(regsyms)))
    # the qubit just added
    def last(ip):
        subs = ip.get_attr(reg, "tqubits")
        d = ip.get_item(subs, const("data"))
        o = ip.st.heap[d.args[0]]
        return o.data[-1][3]

    q = s2.do("added qubit", last)
    qst = s2.state
    # counters of the qubit: int cells any operation increases
    ic = int_cells(qst.heap)
    qkeys = set()
    for op in AOPS:
        t = Scene(w, qst)
        t.call(op, q, op)
        after = int_cells(t.state.heap)
        for k in ic:
            if k in after and after[k] > ic[k]:
                qkeys.add(k)
    qkeys = sorted(qkeys, key=str)
    st1, qs = havoc(qst, qkeys, ic)
    drops = {}
    for op in AOPS:
        t = Scene(w, st1)
        t.call(op, q, op)
        dl = {k: sub(cell(t.state.heap, *k), cell(st1.heap, *k)) for k in qkeys}
        for n, site in new_names(t.steps[-1].res.effects, t.state.heap):
            rows.append((op, n, site, dl, qs))
        for k in qkeys:
            v = dl[k]
            # the change of the counter, for several values of the counters
            vs = [rewrite(v, {sy: const(ic[k2] + x) for k2, sy in qs.items()}) for x in (0, 1, 2, 5)]
            if any(is_const(x) and cval(x) < 0 for x in vs):
                drops.setdefault(k, []).append((op, t.steps[-1].res.effects[0].site if t.steps[-1].res.effects else None))
            elif not all(is_const(x) for x in vs):
                ck.notes.append("%s %s: change of a counter is not known (bounded histories only)" % (ct, op))
    owner = {}
    for k, sy in list(regsyms.items()) + list(qs.items()):
        owner[sy] = k
    done, odd = [], []
    for op, n, site, dl, syms in rows:
        if n is None:
            continue
        parts = template(n)
        if parts is None:
            odd.append((op, n))
            continue
        parts = glue(parts)
        holes = [p for p in parts if not isinstance(p, str)]
        mine = []
        for h in holes:
            fs = [x for x in free_syms(h) if x in owner]
            if len(fs) == 1 and is_const(sub(h, fs[0])):
                mine.append((fs[0], cval(sub(h, fs[0]))))
            else:
                mine = None
                break
        if mine is None:
            odd.append((op, n))
            continue
        # if no hole belongs to a counter this operation advances, a repetition spells the same name
        adv = [(sy, c) for sy, c in mine if owner[sy] in dl and is_const(dl[owner[sy]]) and cval(dl[owner[sy]]) >= 1]
        if not adv:
            # maybe the name depends on something other than an int counter: decided by bounded histories
            odd.append((op, n))
            continue
        ck.ob("a repeated operation gets a new name", injective(parts), lambda: "%s: names of the form %s are ambiguous" % (op, show(n)), site)
        for sy, c in mine:
            lo = ic.get(owner[sy], a.get(owner[sy], 0))
            ck.ob("numbers in names are never negative", lo + c >= 0 or True, "")
        done.append((op, parts, adv, site, mine))
        for k in {owner[sy] for sy, c in adv}:
            ck.ob("operations never decrease a name counter", k not in drops, lambda: "%s decreases the counter that the register names of %s use, which then occur twice" % (drops[k][0][0], op), drops[k][0][1] if k in drops else None)
    for (o1, p1, a1, s1, m1), (o2, p2, a2, s2_, m2) in itertools.combinations(done, 2):
        same = [x if isinstance(x, str) else "#" for x in p1] == [x if isinstance(x, str) else "#" for x in p2]
        if same and [owner[x] for x, _ in m1] == [owner[x] for x, _ in m2]:
            ck.ob("operations sharing a name pattern share its counter step", [c for _, c in m1] == [c for _, c in m2], lambda: "%s and %s use the same counter with different offsets" % (o1, o2), s1)
        else:
            ck.ob("names of different operations never coincide", not overlap(p1, p2), lambda: "%s and %s can both create the register name pattern %s / %s" % (o1, o2, show_t(p1), show_t(p2)), s1)


    if odd:
        c08_odd(ck, ct, rows, odd, owner)


def c08_odd(ck, ct, rows, odd, owner):
    """names that are no plain text with counters: compared value by value of the counters"""
    tabs = []
    for op, n, site, dl, syms in rows:
        if n is None:
            continue
        cs = sorted({x for x in free_syms(n) if x in owner}, key=str)
        adv = {c for c in cs if owner[c] in dl and is_const(dl[owner[c]]) and cval(dl[owner[c]]) >= 1}
        vals, tab = set(), {}
        for long in cs or [None]:
            for rest in itertools.product((0, 1, 9, 10, 11), repeat=max(len(cs) - 1, 0)):
                for v in range(1030 if len(cs) < 2 else 131):
                    r = list(rest)
                    vals.add(tuple(v if c is long else r.pop(0) for c in cs))
        for v in sorted(vals):
            x = rewrite(n, dict(zip(cs, map(const, v))))
            if not is_const(x):
                tab = None
                break
            tab.setdefault(cval(x), []).append(dict(zip(cs, v)))
        if tab is None or not adv:
            for o, m in odd:
                if m is n:
                    ck.notes.append("%s %s: name %s does not follow a counter (bounded histories only)" % (ct, op, show(n)[:80]))
                    c08_long(ck, ct, op)
            continue
        tabs.append((op, n, site, adv, tab))

    def excluded(v1, v2, a1, a2):
        # the same value of the same counter is never used up twice
        return any(c in a2 for c in a1) and all(v1[c] == v2[c] for c in v1 if c in v2)

    for i, (op, n, site, adv, tab) in enumerate(tabs):
        for x, vs in tab.items():
            ck.ob("a repeated operation gets a new name", len(vs) == 1, lambda: "%s creates the register name %r for the counters %s" % (op, x, " and ".join(str(sorted(v.values())) for v in vs[:2])), site)
        for op2, n2, site2, adv2, tab2 in tabs[:i]:
            for x in set(tab) & set(tab2):
                ok = op != op2 and all(excluded(v1, v2, adv, adv2) for v1 in tab[x] for v2 in tab2[x])
                ck.ob("names of different operations never coincide", ok, lambda: "%s and %s can both create the register name %r" % (op2, op, x), site)


def c08_long(ck, ct, op):
    """one operation many times"""
    w = ck.world
    s = Scene(w)
    reg = make_reg(s, [ct], [std_params(ct)], name="treg")
    seen = {}
    for i in range(40):
        if op == "add_tqubit":
            add_tqubit(s, reg, "data", ct, std_params(ct))
        else:
            s.call(op, s.get(reg, 0), op)
        for n, site in new_names(s.steps[-1].res.effects, s.state.heap):
            if n is None or not is_const(n):
                return
            ck.ob("a repeated operation gets a new name", cval(n) not in seen, lambda: "%s creates the register name %r in repetitions %d and %d" % (op, cval(n), seen[cval(n)], i), site)
            seen.setdefault(cval(n), i)


def show_t(p):
    return "".join(x if isinstance(x, str) else "<n>" for x in p)


def c08_hist(ck, ct):
    """every short history of one qubit on a shared circuit, names concretely compared"""
    w = ck.world
    s = Scene(w)
    reg = make_reg(s, [ct, ct], [std_params(ct)] * 2, name="treg")
    q0, q1 = s.get(reg, 0), s.get(reg, 1)

    def names(t):
        return [n for st in t.steps for n in new_names(st.res.effects, t.state.heap)]

    def go(t, d, ops):
        if d == 0:
            return
        for op in ops:
            u = t.clone()
            u.call(op, q0, op)
            ns = [(cval(n) if n is not None and is_const(n) else None, site) for n, site in names(u)]
            if any(n is None for n, _ in ns):
                ck.undecided("register name of %s is not known" % op)
                return
            known = {}
            hist = [x.label for x in u.steps[1:]]
            for n, site in ns:
                ck.ob("all register names of a history differ", n not in known, lambda: "after %s the register name %r is created twice" % (hist, n), site)
                known[n] = site
            go(u, d - 1, ops)

    go(s, 4 if ck.thorough else 3, ROPS)
    go(s, 3, AOPS)
    # both qubits, same operation several times
    u = s.clone()
    for op in AOPS + ROPS:
        for q in (q0, q1, q0, q1):
            u.call(op, q, op)
    seen = {}
    for n, site in names(u):
        n = cval(n) if n is not None and is_const(n) else None
        if n is None:
            ck.undecided("register name is not known")
            return
        ck.ob("all register names of two qubits differ", n not in seen, lambda: "two qubits of one register create the register name %r twice" % n, site)
        seen[n] = site
    u.at({})


def c08_many(ck, ts):
    w = ck.world
    s = Scene(w)
    reg = make_reg(s, name="t")
    for i in range(13):
        add_tqubit(s, reg, "data" if i % 3 else "other", ts[i % len(ts)], std_params(ts[i % len(ts)]))
    for i in (0, 1, 10, 11, 12):
        q = s.get(reg, i)
        for op in ROPS:
            s.call(op, q, op)
    seen = {}
    for st in s.steps:
        for n, site in new_names(st.res.effects, s.state.heap):
            n = cval(n) if n is not None and is_const(n) else None
            ck.ob("all register names of a register's qubits differ", n is not None and n not in seen, lambda: "the register name %r is created twice" % n, site)
            seen[n] = site


def make_circuit(s, reg):
    return s.do("TopologicalCircuit(treg)", lambda ip: ip.call(s.w.cls("TopologicalCircuit"), [reg], {}))


def c08_cx(ck, ts):
    w = ck.world
    for a in ts:
        s = Scene(w)
        reg = make_reg(s, [a, a], [std_params(a)] * 2)
        tc = make_circuit(s, reg)
        for c, t in ((0, 1), (1, 0), (0, 1)):
            s.call("cx(%d,%d)" % (c, t), tc, "cx", [const(c), const(t)])
        ck.case("%s: three logical CNOTs" % a, lambda: (s.at({}), ck.ob("repeated CNOTs reuse or rename their registers", True)))


# ---------------------------------------------------------------- C09
def c09(ck):
    w = ck.world
    A_, B_ = sym("da", "int"), sym("db", "int")
    R = range(-5, 8)
    subjects = [("XXZZQubit", None), ("XZZXQubit", None), ("RepetitionQubit", False), ("RepetitionQubit", True), ("RotatedDecoder", None), ("RepetitionDecoder", False), ("RepetitionDecoder", True)]
    for cn, pf in subjects:
        ck.case("%s%s" % (cn, "" if pf is None else " phase-flip-protected=%s" % pf), c09_one, ck, cn, pf, A_, B_, R)
    for cn in ("RepetitionQubit", "RepetitionDecoder"):
        ck.case("%s, default protection" % cn, c09_one, ck, cn, False, A_, B_, R, False)


def consts(t):
    """numbers that occur in a condition, with both signs"""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "poly":
            out |= {abs(c) for m, c in x.args[0] if not m}
        elif is_const(x) and isinstance(cval(x), (int, Fraction)) and not isinstance(cval(x), bool):
            out.add(abs(cval(x)))
        todo.extend(subterms1(x))
    return {c for c in out} | {-c for c in out}


def c09_one(ck, cn, pf, A_, B_, R, say=True):
    w = ck.world
    dec = cn.endswith("Decoder")

    def params(ip, d):
        items = [("d", d)]
        if pf is not None and say:
            items.append(("phase-flip-protected", boolc(pf)))
        if dec:
            items.append(("T", const(2)))
        return mkdict(ip, items)

    def outcome(r, env):
        """'ok' or (exception, raised state, site)"""
        ev = Ev((r.state or r.raises[0][0]).heap, env)
        for st, name, v, site in r.raises:
            ok = True
            for p in st.pc[len(r.base.pc) :]:
                x = ev.cond(p)
                if isinstance(x, B):
                    raise Undecided("validation depends on an unknown")
                if not x:
                    ok = False
                    break
            if ok:
                return exc_name(name), st, site
        if r.dead:
            raise Undecided("no path")
        return "ok", r.state, None

    def touched(st, base):
        return [e for e in flat_effects(st.effects[len(base.effects) :]) if e.kind in ("addreg", "gate", "barrier")]

    r = w.new(cn, lambda ip: ([params(ip, mk("tuple", A_, B_))], {}))
    # every threshold that occurs in a condition is inside the window
    far = set()
    for st, name, v, site in r.raises:
        for p in st.pc[len(r.base.pc) :]:
            far |= {int(c) + k for c in consts(p) for k in (-2, -1, 0, 1, 2) if abs(c) < 10 ** 6}
    far = sorted(c for c in far if c not in R)
    pairs = [(a, b) for a in R for b in R] + [(a, b) for a in far[:24] for b in (1, 3)] + [(b, a) for a in far[:24] for b in (1, 3)]
    for a, b in pairs:
        if True:
            if (a, b) == (1, 1):
                continue
            good = a > 0 and b > 0 and a % 2 and b % 2
            if pf is False and b != 1 or pf is True and a != 1:
                good = False
            if dec and good and a * b > 15 and a not in far and b not in far:
                continue  # building the graph is not the subject here
            o, st, site = outcome(r, {A_: a, B_: b})
            if good:
                ck.ob("an odd positive size is accepted", o == "ok", lambda: "d=(%d,%d) is rejected with %s" % (a, b, o), site)
            else:
                ok = o == "LatticeError"
                ck.ob("a bad size is rejected with LatticeError", ok, lambda: "d=(%d,%d) %s" % (a, b, "is accepted" if o == "ok" else "raises " + o), site)
                if ok:
                    t = touched(st, r.base)
                    ck.ob("a rejected size leaves the circuit untouched", not t, lambda: "d=(%d,%d): the circuit is changed before the size is rejected" % (a, b), t[0].site if t else site)
    # scalar d
    r = w.new(cn, lambda ip: ([params(ip, A_)], {}))
    for a in R:
        if a == 1:
            continue
        if dec and a > 3:
            continue
        good = a > 0 and a % 2
        o, st, site = outcome(r, {A_: a})
        ck.ob("a scalar size is validated like a tuple", (o == "ok") if good else (o == "LatticeError"), lambda: "d=%d: %s" % (a, o), site)
    # incomplete parameters of a decoder
    if dec:
        for what, items in (("no rounds", [("d", mk("tuple", ONE, const(3)) if pf else mk("tuple", const(3), ONE))]), ("no size", [("T", const(2))]), ("nothing", [])):
            its = items + ([("phase-flip-protected", boolc(pf))] if pf is not None and say else [])
            r = w.new(cn, lambda ip: ([mkdict(ip, its)], {}))
            o, st, site = outcome(r, {})
            want = "ok" if what == "no size" and pf is not None else "ValueError"
            ck.ob("a decoder needs a size and a number of rounds", o == want, lambda: "parameters with %s: %s" % (what, "accepted" if o == "ok" else o), site)
    # wrong number of dimensions
    if pf is None:
        for d in ((3,), (3, 3, 3), ()):
            r = w.new(cn, lambda ip: ([params(ip, mk("tuple", *[const(x) for x in d]))], {}))
            o, st, site = outcome(r, {})
            ck.ob("a size that is not two-dimensional is rejected", o == "LatticeError", lambda: "d=%s: %s" % (d, o), site)
    else:
        for d in (const("3"), ):
            r = w.new(cn, lambda ip: ([params(ip, d)], {}))
            o, st, site = outcome(r, {})
            ck.ob("a size that is neither number nor tuple is rejected", o == "LatticeError", lambda: "d=%s: %s" % (show(d), o), site)


# ---------------------------------------------------------------- C10
def c10(ck):
    w = ck.world
    N_ = sym("n", "int")
    for label, items, want in (
        ("no parameters", None, (3, 1)),
        ("empty parameters", [], (3, 1)),
        ("phase-flip-protected only", [("phase-flip-protected", TRUE)], (1, 3)),
        ("not phase-flip-protected", [("phase-flip-protected", FALSE)], (3, 1)),
        ("scalar distance", [("d", N_)], ("n", 1)),
        ("scalar distance, bit-flip", [("d", N_), ("phase-flip-protected", FALSE)], ("n", 1)),
        ("scalar distance, phase-flip", [("d", N_), ("phase-flip-protected", TRUE)], (1, "n")),
        ("column tuple", [("d", mk("tuple", N_, ONE))], ("n", 1)),
        ("row tuple, phase-flip", [("d", mk("tuple", ONE, N_)), ("phase-flip-protected", TRUE)], (1, "n")),
    ):
        for n in (3, 5, 7) + ((9, 11) if ck.thorough else ()):
            if "n" not in want and n != 3:
                continue
            wd = tuple(n if x == "n" else x for x in want)
            ck.case("%s n=%d" % (label, n), c10_one, ck, items, N_, n, wd)


def c10_one(ck, items, N_, n, want):
    w = ck.world
    s = Scene(w)
    # repetition qubits of every kind were built before
    for i, before in enumerate(([("d", const(5)), ("phase-flip-protected", boolc(want[1] == 1))], None, [("phase-flip-protected", TRUE)])):
        make_qubit(s, "RepetitionQubit", (lambda ip: mkdict(ip, before)) if before is not None else None, name="before%d" % i)
    q = make_qubit(s, "RepetitionQubit", (lambda ip: mkdict(ip, items)) if items is not None else None, name="tq")
    circ = s.get(q, "circ")
    k0 = len(s.steps)
    s.call("stabilize", q, "stabilize")
    s.call("x", q, "x")
    s.call("z", q, "z")
    at = s.at({N_: n})
    nm = at.namer(circ)
    ops = at.ops(k0, circ)
    ms = [(i, o) for i, o in enumerate(ops) if o.name == "measure"]
    paulis = []
    for i, o in ms:
        p = measured(ops, i)
        anc = o.q[0]
        paulis.append((Pauli([x for x in p.x if x != anc], [x for x in p.z if x != anc], p.s), o))
    bit = want[1] == 1
    st = ms[0][1].site if ms else None
    k = max(want)
    ck.ob("number of checks", len(ms) == k - 1, "%d checks for a distance-%d repetition code" % (len(ms), k), st)
    for p, o in paulis:
        sup, other = (p.z, p.x) if bit else (p.x, p.z)
        ck.ob("checks of a %s-flip code" % ("bit" if bit else "phase"), len(sup) == 2 and not other, lambda: "a %s-flip protected repetition code measures %s" % ("bit" if bit else "phase", p.show(nm)), o.site)
    wx, wz = len([o for o in at.ops(k0 + 1, circ) if o.name != "barrier"]), len([o for o in at.ops(k0 + 2, circ) if o.name != "barrier"])
    ck.ob("logical operator weights", (wx, wz) == ((k, 1) if bit else (1, k)), "logical X has weight %d and logical Z weight %d" % (wx, wz), None)


# ---------------------------------------------------------------- C11
def c11(ck):
    w = ck.world
    for cn in QCLS:
        ck.case(cn, c11_qubit, ck, cn)
    ck.case("TopologicalRegister", c11_reg, ck)


def same_circ(s, a, b):
    return a is b or (a.op == "ref" and b.op == "ref" and a.args[0] == b.args[0])


def c11_qubit(ck, cn):
    w = ck.world
    for state in ("empty", "in use"):
        s = Scene(w)
        circ = s.do("QuantumCircuit()", lambda ip: ip.call(mk("ext", "qiskit.QuantumCircuit"), [], {}))
        if state == "in use":
            def use(ip):
                r = QREG(ip, 1, "mine")
                ip.call(ip.get_attr(circ, "add_register"), [r], {})
                ip.call(ip.get_attr(circ, "x"), [ip.get_item(r, const(0))], {})
            s.do("use it", use)
        n0 = len(s.steps)
        q = make_qubit(s, cn, lambda ip: mkdict(ip, [("d", const(3))]), name="a", circ=circ)
        q2 = make_qubit(s, cn, lambda ip: mkdict(ip, [("d", const(3))]), name="b", circ=circ)
        for x in (q, q2):
            ck.ob("the caller's circuit is used (%s)" % state, same_circ(s, s.get(x, "circ"), circ), lambda: "%s was given %s circuit but holds another one" % (cn, "an empty" if state == "empty" else "a"))
        for op in ROPS + ("x", "z", "reset_x", "reset_z", "id", "id_data"):
            s.call(op, q, op)
            s.call(op, q2, op)
        at = s.at({})
        me = at.ev(circ).addr
        for i in range(n0, len(s.steps)):
            for a in at.touched(i):
                ck.ob("every operation acts on the caller's circuit (%s)" % state, a == me, lambda: "%s of %s acts on a circuit other than the one passed in" % (s.steps[i].label, cn))
    s = Scene(w)
    q = make_qubit(s, cn, lambda ip: mkdict(ip, [("d", const(3))]))
    q2 = make_qubit(s, cn, lambda ip: mkdict(ip, [("d", const(3))]))
    ck.ob("qubits without a circuit get private ones", not same_circ(s, s.get(q, "circ"), s.get(q2, "circ")), "two %s built without a circuit share one" % cn)
    s.at({})


def c11_reg(ck):
    w = ck.world
    s = Scene(w)
    circ = s.do("QuantumCircuit()", lambda ip: ip.call(mk("ext", "qiskit.QuantumCircuit"), [], {}))
    reg = make_reg(s, ["XXZZ", "XZZX"], [std_params("XXZZ")] * 2, circ=circ)
    tc = make_circuit(s, reg)
    ck.ob("a register uses the caller's circuit", same_circ(s, s.get(reg, "circ"), circ), "TopologicalRegister was given an empty circuit but holds another one")
    ck.ob("a topological circuit shares its register's circuit", same_circ(s, s.get(tc, "circ"), s.get(reg, "circ")), "TopologicalCircuit holds another circuit")
    for i in (0, 1):
        ck.ob("a register's qubits share its circuit", same_circ(s, s.get(s.get(reg, i), "circ"), s.get(reg, "circ")), "qubit %d of the register has another circuit" % i)
        s.call("stabilize", tc, "stabilize", [const(i)])
    s.call("cx", tc, "cx", [const(0), const(1)])
    at = s.at({})
    me = at.ev(circ).addr
    for i in range(len(s.steps)):
        for a in at.touched(i):
            ck.ob("all register operations act on one circuit", a == me, "%s acts on another circuit" % s.steps[i].label)
    s = Scene(w)
    r1, r2 = make_reg(s), make_reg(s)
    ck.ob("registers without a circuit get private ones", not same_circ(s, s.get(r1, "circ"), s.get(r2, "circ")), "two registers built without a circuit share one")
    t1, t2 = s.get(r1, "tqubits"), s.get(r2, "tqubits")
    add_tqubit(s, r1, "data", "XXZZ", std_params("XXZZ"))
    ck.ob("registers do not share their qubits", is_const(s.get(r2, "n")) and cval(s.get(r2, "n")) == 0 and not s.state.heap[s.get(r2, "params").args[0]].data, "adding a qubit to one register changes another")


# ---------------------------------------------------------------- C12
OBS = ("lattice.params", "lattice.qregisters", "lattice.cregisters", "lattice.geometry", "lattice.qubit_indices", "lattice.name", "name")


def c12(ck):
    ts = types(ck)
    for ct in sorted(ts):
        ck.case("qubits of type %s" % ct, c12_pair, ck, ts[ct].name, ct)
    ck.case("register of many qubits", c12_many, ck, sorted(ts))
    for ct in sorted(ts):
        ck.case("register of %s with one params dict" % ct, c12_reg, ck, ct)
        ck.case("CNOT ancilla of %s" % ct, c12_cx, ck, ct)


def obs(s, q):
    out = {}
    for n in OBS:
        try:
            out[n] = observe(s, q, [n])[n]
        except AnalysisError:
            out[n] = None
    return out


def c12_pair(ck, cn, ct):
    w = ck.world
    for kind in ("scalar", "tuple", "extra"):
        s = Scene(w)
        items = {"scalar": [("d", const(3))], "tuple": [("d", mk("tuple", const(3), ONE if ct == "Repetition" else const(5)))], "extra": [("mine", const(7))]}[kind]
        p = s.do("params", lambda ip: mkdict(ip, items))
        f0 = s.frozen(p)
        circ = s.do("QuantumCircuit()", lambda ip: ip.call(mk("ext", "qiskit.QuantumCircuit"), [], {}))
        a = make_qubit(s, cn, p, name="a", circ=circ)
        ck.ob("building a qubit leaves the caller's params alone", s.frozen(p) is f0, lambda: "%s(params) changes the dict it was given from %s to %s" % (cn, show(f0), show(s.frozen(p))))
        oa = obs(s, a)
        p2 = s.do("other params", lambda ip: mkdict(ip, [("d", const(7))]))
        make_qubit(s, cn, p2, name="other", circ=circ)
        for n in OBS:
            ck.ob("building a qubit of another size leaves the first alone", obs(s, a)[n] is oa[n], lambda: "building a %s of another size changes an existing one's %s" % (cn, n))
        b = make_qubit(s, cn, p, name="b", circ=circ)
        for n in OBS:
            ck.ob("building a second qubit leaves the first alone", obs(s, a)[n] is oa[n], lambda: "building a second %s changes the first one's %s" % (cn, n))
        for op in ROPS + ("x", "z", "reset_x", "reset_z"):
            ob_, oa_ = obs(s, b), obs(s, a)
            s.call(op, a, op)
            o2 = obs(s, b)
            for n in OBS:
                ck.ob("operating on one qubit leaves another alone", o2[n] is ob_[n], lambda: "%s on one %s changes %s of another built from the same params" % (op, cn, n), s.steps[-1].res.effects[0].site if s.steps[-1].res.effects else None)
            ck.ob("operations leave the caller's params alone", s.frozen(p) is f0, lambda: "%s changes the params dict the caller passed" % op)


def c12_reg(ck, ct):
    w = ck.world
    s = Scene(w)
    p = s.do("params", lambda ip: mkdict(ip, [("d", const(3))]))
    f0 = s.frozen(p)
    reg = make_reg(s, [ct, ct], [lambda ip: p, lambda ip: p])
    ck.ob("a register leaves the caller's params alone", s.frozen(p) is f0, "TopologicalRegister changes the params dict it was given")
    tc = make_circuit(s, reg)
    a, b = s.get(reg, 0), s.get(reg, 1)
    for m in ("stabilize", "measure_x", "measure_z", "measure_lattice_x", "measure_lattice_z", "x", "z", "reset_x", "reset_z", "id", "id_data"):
        o1 = obs(s, b)
        s.call(m, tc, m, [ZERO])
        o2 = obs(s, b)
        for n in OBS:
            ck.ob("operating on one register qubit leaves the other alone", o1[n] is o2[n], lambda: "%s(0) changes %s of qubit 1" % (m, n))
    ck.ob("register operations leave the caller's params alone", s.frozen(p) is f0, "operations change the caller's params dict")


def c12_many(ck, ts):
    """every dictionary stays as it is, however many qubits there are"""
    s = Scene(ck.world)
    reg = make_reg(s)
    tc = make_circuit(s, reg)
    ps = []
    for i in range(24):
        ct = ts[i % len(ts)]
        p = s.do("params", std_params(ct) if i % 2 else lambda ip: mkdict(ip, [("d", const(3))]))
        ps.append((p, s.frozen(p)))
        before = len(ps) > 1 and obs(s, s.get(reg, 0))
        add_tqubit(s, reg, "data" if i % 5 else "more", ct, lambda ip: p)
        if i:
            after = obs(s, s.get(reg, 0))
            for n in OBS:
                ck.ob("adding a qubit leaves the others alone", after[n] is before[n], lambda: "adding the qubit %d changes %s of qubit 0" % (i, n))
    for i in (0, 9, 23):
        s.call("stabilize", tc, "stabilize", [const(i)])
    for i, (p, f) in enumerate(ps):
        ck.ob("a register leaves the caller's params alone", s.frozen(p) is f, lambda: "the params of qubit %d of %d are %s, passed as %s" % (i, len(ps), show(s.frozen(p)), show(f)))


def c12_cx(ck, ct):
    w = ck.world
    s = Scene(w)
    reg = make_reg(s, [ct, ct], [std_params(ct)] * 2)
    tc = make_circuit(s, reg)
    a, b = s.get(reg, 0), s.get(reg, 1)
    s.call("stabilize", tc, "stabilize", [ZERO])
    o1 = (obs(s, a), obs(s, b))
    s.call("cx", tc, "cx", [ZERO, ONE])
    anc = s.do("ancilla", lambda ip: ip.st.heap[ip.get_item(ip.get_attr(reg, "tqubits"), const("ancilla")).args[0]].data[-1][3])
    for m in ROPS:
        s.call(m, anc, m)
    o2 = (obs(s, a), obs(s, b))
    for who, x, y in (("control", o1[0], o2[0]), ("target", o1[1], o2[1])):
        for n in OBS:
            ck.ob("a CNOT ancilla does not share bookkeeping with %s" % who, x[n] is y[n], lambda: "using the CNOT ancilla changes %s of the %s qubit" % (n, who))
    s.at({})


# ---------------------------------------------------------------- C13
def reg_data(s, at, q):
    """data register and logical operators of a qubit, from its own x()/z()"""
    qr = at.ev(s.frozen(s.get(q, "lattice", "qregisters")))
    return qr["data"] if isinstance(qr, dict) else None


def c13(ck):
    ts = sorted(types(ck))
    dims = [((3, 3), (3, 3), None), ((3, 5), (5, 3), (3, 3)), ((5, 3), (3, 5), None), ((5, 7), (7, 5), (5, 5))]
    if ck.thorough:
        dims += [((5, 5), (3, 3), (1, 3)), ((1, 3), (5, 1), (3, 1)), ((7, 3), (3, 7), (5, 5))]
    n = 0
    for c in ts:
        for t in ts:
            for dc, dt, da in dims if not (c == "Repetition" and t == "Repetition") else dims[:2]:
                for anc in [None] + ([x for x in ts] if da else []):
                    if anc is not None and n % 3 and not ck.thorough:
                        n += 1
                        continue
                    n += 1
                    ck.case("control %s%s, target %s%s, ancilla %s" % (c, dc, t, dt, "default" if anc is None else "%s%s" % (anc, da)), c13_one, ck, c, dc, t, dt, anc, da)
    from . import p_hist as h

    h.cnot_history(ck, [(c, t) for c in ts for t in ts] if ck.thorough else list(zip(ts, ts[1:] + ts[:1])))


def rp(ct, d):
    if ct == "Repetition":
        m = max(d)
        pf = d[0] == 1 or d[0] < d[1]
        return lambda ip: mkdict(ip, [("d", const(m)), ("phase-flip-protected", boolc(pf))])
    return dparams(*d)


def c13_one(ck, c, dc, t, dt, anc, da):
    w = ck.world
    s = Scene(w)
    reg = make_reg(s, [c, t, t], [rp(c, dc), rp(t, dt), rp(t, dt)])
    tc = make_circuit(s, reg)
    qc, qt, qo = s.get(reg, 0), s.get(reg, 1), s.get(reg, 2)
    circ = s.get(reg, "circ")
    mark = {}
    for nm, q in (("c", qc), ("t", qt), ("o", qo)):
        for op in ("x", "z", "stabilize"):
            s.call(op, q, op)
            mark[nm, op] = len(s.steps) - 1
    kw = {} if anc is None else {"ancilla_ctype": const(anc)}
    cxs = []
    for k in range(3):
        if k == 2:
            # everything was used in other ways in between
            s.call("cx", tc, "cx", [ONE, ZERO])
            qa = [s.get(reg, 3)] if not s.w.run(lambda ip: ip.get_item(reg, const(3)), s.state).dead else []
            for q in qa + [qc, qt]:
                for op in ("readout_z", "readout_x", "x", "stabilize", "lattice_readout_x", "reset_z"):
                    s.call(op, q, op)
        if anc is not None:
            def f(ip):
                return ip.call(ip.get_attr(tc, "cx"), [ZERO, ONE], {"ancilla_ctype": const(anc), "ancilla_params": rp(anc, da)(ip)})
            s.do("cx", f)
        else:
            s.call("cx", tc, "cx", [ZERO, ONE])
        cxs.append(len(s.steps) - 1)
        if k == 0:
            s.call("stabilize", tc, "stabilize", [ZERO])
    at = s.at({})
    nm = at.namer(circ)
    L = {}
    for k in "cto":
        for op in "xz":
            x, z = set(), set()
            for o in at.ops(mark[k, op], circ):
                if o.name in "xy":
                    x ^= {o.q[0]}
                if o.name in "yz":
                    z ^= {o.q[0]}
            L[k, op] = Pauli(x, z)
    checks = {}
    for k in "cto":
        ops = at.ops(mark[k, "stabilize"], circ)
        datareg = {q[0] for q in L[k, "x"].support() | L[k, "z"].support()}
        for i, o in enumerate(ops):
            if o.name == "measure":
                p = measured(ops, i)
                checks.setdefault(k, []).append(Pauli([q for q in p.x if q[0] in datareg], [q for q in p.z if q[0] in datareg]))
    for which, step in zip(("first", "second", "third"), cxs):
        ops = at.ops(step, circ)
        site = next((o.site for o in ops if o.name != "barrier"), None)

        def img(p, what):
            try:
                return backward(ops, p, feed=True)
            except Random as e:
                ck.ob("logical CNOT: %s" % what, False, "%s CNOT: %s is randomised by %s on %s" % (which, what, e.op.name, ", ".join(map(nm, e.op.q))), e.op.site)
                return None

        for what, p, want in (
            ("X of the control", L["c", "x"], L["c", "x"].times(L["t", "x"])),
            ("Z of the control", L["c", "z"], L["c", "z"]),
            ("X of the target", L["t", "x"], L["t", "x"]),
            ("Z of the target", L["t", "z"], L["t", "z"].times(L["c", "z"])),
            ("X of a bystander", L["o", "x"], L["o", "x"]),
            ("Z of a bystander", L["o", "z"], L["o", "z"]),
        ):
            r = img(p, what)
            if r is not None:
                ck.ob("logical CNOT: %s" % what, r == want, lambda: "%s CNOT maps %s to %s instead of %s" % (which, what, r.show(nm), want.show(nm)), site)
        for k, nmq in (("c", "control"), ("t", "target"), ("o", "bystander")):
            for p in checks[k]:
                r = img(p, "a check of the %s" % nmq)
                if r is not None:
                    ck.ob("logical CNOT keeps the checks of the %s" % nmq, r == p, lambda: "%s CNOT maps the check %s of the %s to %s" % (which, p.show(nm), nmq, r.show(nm)), site)


# ---------------------------------------------------------------- C14
def c14(ck):
    ts = types(ck)
    w = ck.world
    NAMES = ("n", "params", "tqubits", "name")

    def attempt(label, s, reg, f, want):
        before = observe(s, reg, NAMES)
        circ = s.get(reg, "circ")
        r = w.run(f, s.state)
        if not ck.ob("the bad request is rejected", r.dead and len(r.raises) >= 1, "%s is accepted" % label):
            return
        for st, name, v, site in r.raises:
            ck.ob("the bad request is rejected with %s" % want, exc_name(name) == want, lambda: "%s raises %s" % (label, exc_name(name)), site)
            after = observe(s, reg, NAMES, State(st.heap, (), ()))
            for n in NAMES:
                ck.ob("a rejected request leaves the register unchanged", after[n] is before[n], lambda: "%s: %s of the register changes although the request is rejected" % (label, n), site)
            eff = [e for e in flat_effects(st.effects[len(r.base.effects) :]) if e.kind in ("addreg", "gate", "barrier")]
            ck.ob("a rejected request leaves the circuit unchanged", not eff, lambda: "%s: the circuit is changed although the request is rejected" % label, eff[0].site if eff else site)

    def go(pre):
        for ct in sorted(ts):
            for sub in ("data", "fresh"):
                for bad in (4, 0, -3):
                    s = Scene(w)
                    reg = make_reg(s, [ct] * pre, [std_params(ct)] * pre)
                    attempt("add_tqubit(%r, %r, d=%d)" % (sub, ct, bad), s, reg, lambda ip: ip.call(ip.get_attr(reg, "add_tqubit"), [const(sub), const(ct), mkdict(ip, [("d", const(bad))])], {}), "LatticeError")
                s = Scene(w)
                reg = make_reg(s, [ct] * pre, [std_params(ct)] * pre)
                P_ = lambda ip, n: mklist(ip, [std_params(ct)(ip) for _ in range(n)])
                C_ = lambda ip, l: mklist(ip, [const(x) for x in l])
                attempt("add_tqubits with an unknown type", s, reg, lambda ip: ip.call(ip.get_attr(reg, "add_tqubits"), [const(sub), C_(ip, [ct, "nope"]), P_(ip, 2)], {}), "ValueError")
                for nc, np_ in ((2, 1), (1, 2), (0, 1), (1, 0)):
                    attempt("add_tqubits with %d types and %d params" % (nc, np_), s, reg, lambda ip: ip.call(ip.get_attr(reg, "add_tqubits"), [const(sub), C_(ip, [ct] * nc), P_(ip, np_)], {}), "ValueError")

    ck.case("empty register", go, 0)
    ck.case("register in use", go, 2)


# ---------------------------------------------------------------- C15
def c15(ck):
    ts = types(ck)
    w = ck.world
    for want in ("XXZZ", "XZZX", "Repetition"):
        ck.ob("every code type can be requested by name", want in ts, "no code type is registered under %r" % want)
    for ct in sorted(ts):
        ck.case("type %s" % ct, c15_one, ck, ct, ts[ct])
        for d in ((3, 1), (7, 1), (1, 3), (1, 5)) if ct == "Repetition" else ((3, 7), (5, 3), (1, 3), (9, 9), (21, 3)):
            ck.case("default ancilla of a %s of size %s" % (ct, d), c15_ancilla, ck, ct, d)
    ck.case("indexing", c15_index, ck, sorted(ts))
    ck.case("unknown index", c16_unknown, ck, sorted(ts)[0])


def cls_of(s, v):
    return s.state.heap[v.args[0]].cls if v.op == "ref" else None


def c15_one(ck, ct, cls):
    w = ck.world
    ck.ob("a type name means its class", cls.name == ct + "Qubit", "%r builds a %s" % (ct, cls.name))
    s = Scene(w)
    reg = make_reg(s, [ct, ct], [std_params(ct)] * 2)
    for i in (0, 1):
        q = s.get(reg, i)
        ck.ob("the register builds the requested type", cls_of(s, q) is cls, lambda: "asked for %s, got %s" % (ct, getattr(cls_of(s, q), "name", None)))
    tc = make_circuit(s, reg)
    s.call("cx with default ancilla", tc, "cx", [ZERO, ONE])
    anc = s.do("ancilla", lambda ip: ip.st.heap[ip.get_item(ip.get_attr(reg, "tqubits"), const("ancilla")).args[0]].data[-1][3])
    ck.ob("the default CNOT ancilla has the control's type", cls_of(s, anc) is cls, lambda: "the default ancilla of a %s is a %s" % (ct, getattr(cls_of(s, anc), "name", None)))
    da, dc = (s.frozen(s.get(x, "lattice", "params", "[d]")) for x in (anc, s.get(reg, 0)))
    ck.ob("the default CNOT ancilla has the control's size", da is dc, lambda: "ancilla size %s, control size %s" % (show(da), show(dc)))
    s.at({})


def c15_ancilla(ck, ct, d):
    """the default ancilla for every shape of the control, also when it is not the first qubit"""
    s = Scene(ck.world)
    other = "XXZZ" if ct != "XXZZ" else "XZZX"
    reg = make_reg(s, [other, ct], [std_params(other), rp(ct, d)])
    tc = make_circuit(s, reg)
    s.call("stabilize", tc, "stabilize", [ONE])
    s.call("cx with default ancilla", tc, "cx", [ONE, ZERO])
    anc = s.do("ancilla", lambda ip: ip.st.heap[ip.get_item(ip.get_attr(reg, "tqubits"), const("ancilla")).args[0]].data[-1][3])
    q = s.get(reg, 1)
    ck.ob("the default CNOT ancilla has the control's type", cls_of(s, anc) is cls_of(s, q), lambda: "the default ancilla of a %s is a %s" % (ct, getattr(cls_of(s, anc), "name", None)))
    for k, what in (("d", "size"), ("num_data", "number of data qubits"), ("num_syn", "numbers of checks")):
        da, dc = (s.frozen(s.get(x, "lattice", "params", "[%s]" % k)) for x in (anc, q))
        ck.ob("the default CNOT ancilla has the control's size", da is dc, lambda: "the ancilla's %s is %s, the control's %s" % (what, show(da), show(dc)))
    s.at({})


def size_of(s, q):
    d = s.frozen(s.get(q, "lattice", "params", "[d]"))
    return tuple(cval(x) if is_const(x) else x for x in d.args) if d.op == "tuple" else d


def c15_index(ck, ts):
    w = ck.world
    s = Scene(w)
    reg = make_reg(s)
    order = []
    for i, (sub, ct) in enumerate((("data", ts[0]), ("anc", ts[1]), ("data", ts[2]), ("anc", ts[0]), ("third", ts[1]))):
        before = s.state
        add_tqubit(s, reg, sub, ct, std_params(ct))
        order.append((sub, ct))
        n = s.get(reg, "n")
        ck.ob("the register counts its qubits", is_const(n) and cval(n) == i + 1, lambda: "n is %s after %d additions" % (show(n), i + 1))
    seen = []
    for i, (sub, ct) in enumerate(order):
        q = s.get(reg, i)
        ck.ob("index i returns the i-th added qubit", q.op == "ref" and cls_of(s, q).name == ct + "Qubit" and all(q is not x for x in seen), lambda: "register[%d] is %s" % (i, show(q)))
        nm = s.get(q, "name")
        seen.append(q)
        d = s.do("sub-register", lambda ip: ip.call(ip.get_attr(reg, "__getitem__"), [const(sub)], {}))
        v = s.do("member", lambda ip: ip.get_item(d, const(i)))
        ck.ob("a sub-register holds its qubits under their index", v is q, lambda: "register[%r][%d] is not register[%d]" % (sub, i, i))
    for k in (5, 77, -1):
        r = w.run(lambda ip: ip.call(ip.get_attr(reg, "__getitem__"), [const(k)], {}), s.state)
        ck.ob("an unknown index is an error", r.dead and r.raises, "register[%d] returns %s" % (k, "" if r.dead else show(r.value)))
    # many qubits in many sub-registers
    for names in (["data"], ["data", "anc"], ["s%d" % i for i in range(7)]):
        s = Scene(w)
        reg = make_reg(s)
        added = []
        for i in range(35):
            ct, sub = ts[i % 3], names[(i * 3) % len(names)]
            add_tqubit(s, reg, sub, ct, std_params(ct))

            def last(ip):
                o = ip.st.heap[ip.get_item(ip.get_attr(reg, "tqubits"), const(sub)).args[0]]
                return o.data[-1][3]

            added.append((sub, ct, s.do("the qubit just added", last)))
        for i, (sub, ct, q) in enumerate(added):
            ck.ob("index i returns the i-th added qubit", s.get(reg, i) is q and cls_of(s, q).name == ct + "Qubit", lambda: "register[%d] of %d qubits in %d sub-registers is %s" % (i, len(added), len(names), show(s.get(reg, i))))
            d = s.do("sub-register", lambda ip: ip.call(ip.get_attr(reg, "__getitem__"), [const(sub)], {}))
            v = s.do("member", lambda ip: ip.get_item(d, const(i)))
            ck.ob("a sub-register holds its qubits under their index", v is q, lambda: "register[%r][%d] is not register[%d]" % (sub, i, i))
    # ctypes given to the constructor arrive in order
    s = Scene(w)
    reg = make_reg(s, ts, [std_params(t) for t in ts])
    for i, t in enumerate(ts):
        q = s.get(reg, i)
        ck.ob("constructor qubits keep their order", cls_of(s, q).name == t + "Qubit", "qubit %d is not a %s" % (i, t))
    n = 26
    want = [(ts[i % len(ts)], (2 * i + 3, 1) if ts[i % len(ts)] == "Repetition" else (2 * i + 3, 2 * (n - i) + 1)) for i in range(n)]
    ps = [rp(t, d) for t, d in want]
    for how in ("constructor", "add_tqubits"):
        s = Scene(w)
        if how == "constructor":
            reg = make_reg(s, [t for t, d in want], ps)
        else:
            reg = make_reg(s)
            s.do("add_tqubits", lambda ip: ip.call(ip.get_attr(reg, "add_tqubits"), [const("many"), mklist(ip, [const(t) for t, d in want]), mklist(ip, [p(ip) for p in ps])], {}))
        for i, (t, d) in enumerate(want):
            q = s.get(reg, i)
            ck.ob("qubits given as a list keep their order and size", cls_of(s, q).name == t + "Qubit" and size_of(s, q) == d, lambda: "%s of %d types: qubit %d is not the %s of size %s" % (how, n, i, t, d))


# ---------------------------------------------------------------- C16
TCOPS = (
    ("stabilize", "stabilize"), ("id", "id"), ("id_data", "id_data"), ("reset_x", "reset_x"), ("reset_z", "reset_z"), ("x", "x"), ("z", "z"),
    ("measure_x", "readout_x"), ("measure_z", "readout_z"), ("measure_lattice_x", "lattice_readout_x"), ("measure_lattice_z", "lattice_readout_z"),
)


def c16(ck):
    ts = sorted(types(ck))
    for a in ts:
        for b in ts:
            if ck.thorough or a != b:
                ck.case("register of %s and %s" % (a, b), c16_pair, ck, a, b)
    for a in ts:
        ck.case("parse_readout of %s" % a, c16_parse, ck, a)
        ck.case("unknown index, %s" % a, c16_unknown, ck, a)
    from . import p_hist as h

    h.circuit_history(ck, ts)


def c16_pair(ck, a, b):
    w = ck.world
    s0 = Scene(w)
    reg = make_reg(s0, [a, b], [std_params(a), std_params(b)])
    tc = make_circuit(s0, reg)
    circ = s0.get(reg, "circ")
    extra = s0.do("creg", lambda ip: CREG(ip, 1, "given"))
    s0.do("add it", lambda ip: ip.call(ip.get_attr(circ, "add_register"), [extra], {}))
    for i in (0, 1):
        q = s0.get(reg, i)
        for tm, qm in TCOPS:
            variants = [("", [], {})]
            if tm in ("measure_x", "measure_z"):
                variants.append((" into a given register", [], {"readout_creg": extra}))
            for lab, ar, kw in variants:
                got = []
                for how in ("index", "object", "direct"):
                    s = s0.clone()
                    if how == "direct":
                        s.call(qm, q, qm, ar, kw)
                    else:
                        s.call(tm, tc, tm, [const(i) if how == "index" else q] + ar, kw)
                    at = s.at({})
                    k = len(s.steps) - 1
                    got.append((at.norm(at.ops(k, circ), circ), [(r.kind, r.name, r.size) for r in at.newregs(k, circ)], obs(s, q)["lattice.params"], [x for x in at.touched(k) if x != at.ev(circ).addr]))
                site = next((e.site for e in flat_effects(s.steps[-1].res.effects) if e.kind == "gate"), None)
                for j, how in ((0, "by index"), (1, "by object")):
                    ck.ob("circuit operation = qubit operation", got[j] == got[2], lambda: "%s%s of qubit %d %s differs from the qubit's own %s" % (tm, lab, i, how, qm), site)
                nonempty = got[2][0]
                ck.ob("the operation does something", bool(nonempty), lambda: "%s emits nothing" % qm, site)


def c16_unknown(ck, ct):
    """operations on an index that no qubit has"""
    w = ck.world
    s0 = Scene(w)
    reg = make_reg(s0, [ct, ct], [std_params(ct)] * 2)
    tc = make_circuit(s0, reg)
    for k in (2, 7, -1, -2):
        for tm, qm in TCOPS:
            r = w.run(lambda ip: ip.call(ip.get_attr(tc, tm), [const(k)], {}), s0.state)
            ck.ob("an operation on an unknown index is an error", r.dead and r.raises, lambda: "%s(%d) of a circuit of two qubits is carried out" % (tm, k))


def c16_parse(ck, a):
    w = ck.world
    s = Scene(w)
    reg = make_reg(s, [a], [std_params(a)])
    tc = make_circuit(s, reg)
    q = s.get(reg, 0)
    for rs, shape in (("LATTICE", "lattice"), ("LOGICAL", "logical")):
        for ty in ("X", "Z"):
            rd = sym(rs, "str")
            r1 = w.run(lambda ip: ip.freeze(ip.call(ip.get_attr(q, "parse_readout"), [rd, const(ty)], {})), s.state)
            r2 = w.run(lambda ip: ip.freeze(ip.call(ip.get_attr(tc, "parse_readout"), [ZERO, rd, const(ty)], {})), s.state)
            r3 = w.run(lambda ip: ip.freeze(ip.call(ip.get_attr(tc, "parse_readout"), [q, rd, const(ty)], {})), s.state)
            for r in (r2, r3):
                ck.ob("circuit parsing = qubit parsing", r.dead == r1.dead and (r.dead or same_term(r.value, r1.value)), lambda: "TopologicalCircuit.parse_readout differs from the qubit's own for type %s" % ty)


def same_term(a, b):
    """equal up to renaming of bound symbols"""
    return canon(a) == canon(b)


def canon(t):
    names = {}

    def go(x):
        if isinstance(x, Term):
            if x.op == "s" and "#" in str(x.args[0]):
                return ("s", names.setdefault(x, len(names)))
            return (x.op,) + tuple(go(a) for a in x.args)
        if isinstance(x, (tuple, list)):
            return tuple(go(a) for a in x)
        return x

    return go(t)


# ---------------------------------------------------------------- C17
def c17(ck):
    from .circ_base import Lab, each

    lab = Lab(ck)
    for cn, rg, hw, label in each(ck, lab, 2, 4):
        ck.case(label, c17_one, ck, lab, cn, rg, hw)
    from . import p_hist as h

    h.history(ck, [("id",), ("id_data",)])


def c17_one(ck, lab, cn, rg, hw):
    for op in ("id", "id_data"):
        f = lab.flat(cn, rg, "noise:" + op, hw, [("stabilize",), (op,)])
        ops = [o for o in f.ops(2) if o.name != "barrier"]
        st = ops[0].site if ops else None
        ck.ob("only identities are inserted", all(o.name in ("id", "i") and o.cond is None for o in ops), lambda: "%s inserts %s" % (op, sorted({o.name for o in ops})), st)
        got = sorted(o.q[0] for o in ops)
        if op == "id_data":
            want = sorted(Bit((f.data().addr, i)) for i in range(f.data().size))
        else:
            want = sorted(Bit((r.addr, i)) for r in f.c.order if r.kind == "QuantumRegister" and r.name != FOREIGN for i in range(r.size))
        ck.ob("one identity per %s" % ("data qubit" if op == "id_data" else "qubit"), got == want, lambda: "%s inserts identities on %d qubits, expected one on each of %d" % (op, len(got), len(want)), st)


# ---------------------------------------------------------------- C18
def c18(ck):
    from .p_circ import plaquette_map
    from .circ_base import Lab, each

    lab = Lab(ck)
    for cn, rg, hw, label in each(ck, lab, 2, 4):
        ck.case(label, c18_one, ck, lab, cn, rg, hw, plaquette_map)
    from . import p_hist as h

    h.history(ck, [("lattice." + e,) for e in ("entangle", "entangle_x", "entangle_z")])


def c18_one(ck, lab, cn, rg, hw, plaquette_map):
    fr, checks = lab.checks(cn, rg, hw)
    f2, hits, name = plaquette_map(ck, lab, cn, rg, hw)
    code = lab.code(cn, rg)
    typ = {k: w[0][0] for k, w in name.items() if len(w) == 1}
    anc = {}
    for c, p, o in checks:
        anc[o.q[0]] = (typ.get(c[1]), fr.restrict(p)[0])
    for which in ("x", "z", ""):
        meth = "entangle" + ("_" + which if which else "")
        key = ("ent", cn, rg, meth)
        if key not in lab.hists:
            s = Scene(lab.w, code.state)
            s.call(meth, code.lat, meth)
            lab.hists[key] = s
        s = lab.hists[key]
        at = s.at(code.env(hw))
        ops = [o for o in at.ops(0, code.circ) if o.name != "barrier"]
        st = ops[0].site if ops else None
        ck.ob("entangling neither measures nor resets", all(o.name not in ("measure", "reset") and o.cond is None for o in ops), "%s measures or resets" % meth, st)
        for q, (ty, d) in sorted(anc.items()):
            p = back(fr, ops, Pauli((), (q,)), meth)
            mine = not which or ty == which.upper()
            want = Pauli(d.x, d.z | {q}, d.s) if mine else Pauli((), (q,))
            ck.ob("entangling a type maps exactly its checks onto their ancillas", p == want, lambda: "%s: ancilla %s of a %s check receives %s, expected %s" % (meth, fr.name(q), ty, fr.show(p), fr.show(want)), st)
        if which:
            used = {q for o in ops for q in o.q}
            for q, (ty, d) in anc.items():
                if ty != which.upper():
                    ck.ob("the other type's ancillas are not used", q not in used, lambda: "%s acts on %s, the ancilla of a %s check" % (meth, fr.name(q), ty), st)


# ---------------------------------------------------------------- C20
def c20(ck):
    ts = sorted(types(ck))
    for kind in ("creg", "qreg"):
        for sizes in ((1, 2, 5), (3, 1, 1)):
            for style in ("keywords", "positions"):
                ck.case("%s of sizes %s by %s" % (kind, sizes, style), c20_one, ck, ts[0], kind, sizes, style)
    ck.case("both kinds", c20_both, ck, ts[0])


def c20_add(s, tc, kind, size, name, style, **kw):
    args, k = ([const(size), const(name)], {}) if style == "positions" else ([], {"size": const(size), "name": const(name)})
    k.update(kw)
    s.call("add_%s(%d, %r)" % (kind, size, name), tc, "add_" + kind, args, k)
    return len(s.steps) - 1


def c20_look(s, tc, names):
    """the registers a topological circuit knows: {(kind, name): register address}"""
    out = {}
    for kind in ("creg", "qreg"):
        d = s.at({}).ev(s.frozen(s.get(tc, kind)))
        out.update({(kind, n): d[n].addr for n in d})
    return out


def c20_one(ck, ct, kind, sizes, style):
    w = ck.world
    s = Scene(w)
    reg = make_reg(s, [ct], [std_params(ct)])
    tc = make_circuit(s, reg)
    circ = s.get(tc, "circ")
    cls = "ClassicalRegister" if kind == "creg" else "QuantumRegister"
    for other in (False, True):
        if other:
            # a second topological circuit has registers of its own
            reg2 = make_reg(s, [ct], [std_params(ct)], name="second")
            tc2 = make_circuit(s, reg2)
            ck.ob("topological circuits do not share their extra registers", not c20_look(s, tc2, ()), lambda: "a new topological circuit already knows the registers %s" % sorted(c20_look(s, tc2, ())))
            tc, circ = tc2, s.get(tc2, "circ")
        names = ["a", "m_1", "result"]
        for j, (n, size) in enumerate(zip(names, sizes)):
            before = c20_look(s, tc, names)
            # with a new name, override makes no difference
            i = c20_add(s, tc, kind, size, n, style, **({"override": boolc(j == 1)} if j else {}))
            at = s.at({})
            new = [r for r in at.newregs(i, circ)]
            st = next((e.site for e in flat_effects(s.steps[i].res.effects)), None)
            ck.ob("one register of the requested kind, size and name is added", [(r.kind, r.name, r.size) for r in new] == [(cls, n, size)], lambda: "add_%s(%d, %r) adds %s" % (kind, size, n, [(r.kind, r.name, r.size) for r in new]), st)
            after = c20_look(s, tc, names)
            want = dict(before)
            if new:
                want[kind, n] = new[0].addr
            ck.ob("the new register is available under its name, the others stay", after == want, lambda: "after add_%s(%d, %r) the circuit knows %s" % (kind, size, n, sorted(after)), st)
        for n, size in zip(names, sizes):
            for z in (size, size + 1):
                before = c20_look(s, tc, names)
                i = c20_add(s, tc, kind, z, n, style)
                at = s.at({})
                st = next((e.site for e in flat_effects(s.steps[i].res.effects)), None)
                ck.ob("a name that is taken adds nothing", not at.touched(i) and c20_look(s, tc, names) == before, lambda: "add_%s(%d, %r) for a name that is taken changes the circuit or its registers" % (kind, z, n), st)


def c20_both(ck, ct):
    """bits and qubits of equal number are told apart, and a CNOT finds its own registers"""
    w = ck.world
    s = Scene(w)
    reg = make_reg(s, [ct, ct], [std_params(ct)] * 2)
    tc = make_circuit(s, reg)
    circ = s.get(tc, "circ")
    n0 = len(s.steps)
    c20_add(s, tc, "creg", 1, "mine", "keywords")
    c20_add(s, tc, "qreg", 1, "yours", "keywords")
    a = c20_look(s, tc, ())
    ck.ob("both kinds are kept apart", set(a) == {("creg", "mine"), ("qreg", "yours")} and len(set(a.values())) == 2, lambda: "the circuit knows %s" % sorted(a))
    s.call("cx", tc, "cx", [ZERO, ONE])
    b = c20_look(s, tc, ())
    ck.ob("a logical CNOT leaves the user's registers under their names", all(b.get(k) == v for k, v in a.items()), lambda: "after a CNOT the circuit knows %s" % sorted(b))
    at = s.at({})
    mine = {a.get(("creg", "mine")), a.get(("qreg", "yours"))}
    ops = at.ops(len(s.steps) - 1, circ)
    hit = [o for o in ops if o.name != "barrier" and (any(x[0] in mine for x in o.q) or o.c and o.c[0] in mine or o.cond and any(x[0] in mine for x in o.cond[0]))]
    ck.ob("a logical CNOT does not use the user's registers", not hit, lambda: "cx uses a register the user added: %r" % hit[0], hit[0].site if hit else None)
