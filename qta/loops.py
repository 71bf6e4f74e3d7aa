"""
Summaries of loops over symbolic ranges.

The body is visited with the loop-carried locations replaced by symbols (the
value "before iteration k"); the update of every location is classified as
invariant, induction (pre + step), last value, append / prepend, accumulate,
or left as a recurrence term.  Nothing is iterated.
"""
from .terms import *
from . import terms as T


class Cell:
    __slots__ = ("sym", "init", "post", "kind", "loc", "brk")

    def __init__(self, sym, init, loc):
        self.sym, self.init, self.loc = sym, init, loc
        self.post = None


def _join_sort(a, b):
    if a == b:
        return a
    num = ("int", "num", "bool")
    if a in num and b in num:
        return "num" if "num" in (a, b) else "int"
    return "any"


def pre_segs(p):
    k = T.sym("pk:%s" % p.args[0], "int", 0)
    n = T.length(p)
    T.SYMINFO[k] = T.SymInfo(0, sub(n, ONE))
    return (seg([(k, n)], TRUE, T.item(p, k)),)


def field_names(o1, o2):
    return [n for n in list(o1.data) + [x for x in o2.data if x not in o1.data]]


def summarise(ip, k, n, body):
    from .interp import State, HObj, Eff, subst_eff, UNDEF, INF, Dead

    base = ip.st
    pre = {}  # loc -> list of Cell (one, or one per tuple component)
    sorts = {}
    nbase = len(base.pc)

    def install(st, loc, cells):
        a = loc[1]
        o = st.heap[a]
        if loc[0] == "lst":
            st.heap[a] = o.with_data(pre_segs(cells[0].sym))
        elif loc[0] == "dct":
            st.heap[a] = HObj(o.kind, o.cls, (predict_entry(cells[0].sym),), o.label, o.site)
        else:
            d = dict(o.data)
            if loc[0] == "tup":
                d[loc[2]] = mk("tuple", *[c.sym for c in cells])
            elif loc[0] == "lref":
                na = next(ip.addr)
                st.heap[na] = HObj("list", None, pre_segs(cells[0].sym), None, ip.site)
                d[loc[2]] = mk("ref", na)
            else:
                d[loc[2]] = cells[0].sym
            st.heap[a] = o.with_data(d)

    def read(st, loc):
        o = st.heap[loc[1]]
        if loc[0] == "lst":
            return [deep(st, seq(*o.data))]
        if loc[0] == "dct":
            return [deep(st, mk("dict", *[mk("ent", tuple(b), g, kk, v) for b, g, kk, v in o.data]))]
        v = o.data.get(loc[2], UNDEF)
        if loc[0] == "tup":
            arity = len(pre[loc]) if loc in pre else None
            if v.op == "tuple" and (arity is None or len(v.args) == arity):
                return [deep(st, x) for x in v.args]
            return None
        if loc[0] == "lref":
            return [deep(st, v)]
        return [deep(st, v)]

    def deep(st, v):
        """freeze contents of objects allocated inside the loop"""
        return freeze_new(ip, st, base, v)

    def changed(st):
        out = []
        for a, o in base.heap.items():
            o2 = st.heap.get(a)
            if o2 is None or o2 is o:
                continue
            if o.kind in ("list", "set"):
                if ("lst", a) not in pre and o2.data != o.data:
                    out.append(("lst", a))
            elif o.kind == "dict":
                if ("dct", a) not in pre and o2.data != o.data:
                    out.append(("dct", a))
            else:
                for f in field_names(o, o2):
                    v1, v2 = o.data.get(f, UNDEF), o2.data.get(f, UNDEF)
                    if v1 is v2:
                        continue
                    if any((kind, a, f) in pre for kind in ("fld", "tup", "lref")):
                        continue
                    if v1.op == "tuple" and v2.op == "tuple" and len(v1.args) == len(v2.args) and v1.args:
                        out.append(("tup", a, f))
                    elif v1.op == "ref" and v2.op == "ref" and ip_kind(base, v1) == "list" and ip_kind(st, v2) == "list":
                        out.append(("lref", a, f))
                    else:
                        out.append(("fld", a, f))
        return out

    def ip_kind(st, r):
        o = st.heap.get(r.args[0])
        return o.kind if o else None

    def init_of(loc):
        o = base.heap[loc[1]]
        if loc[0] == "lst":
            return [ip.freeze(seq(*o.data), st=base)]
        if loc[0] == "dct":
            return [ip.freeze(mk("ref", loc[1]), st=base)]
        v = o.data.get(loc[2], UNDEF)
        if loc[0] == "tup":
            return list(v.args)
        if loc[0] == "lref":
            return [ip.freeze(v, st=base)]
        return [v]

    saved_imprecise = list(ip.imprecise)
    for rnd in range(12):
        ip.imprecise = list(saved_imprecise)
        st = base.clone()
        st.effects = ()
        for loc, cells in pre.items():
            install(st, loc, cells)
        ip.st = st
        ip.breaks.append([])
        ip.rets.append([])
        ip.raises.append([])
        ip.conts.append([])
        try:
            ip.guarded(body)
        finally:
            brk, rets, raises = ip.breaks.pop(), ip.rets.pop(), ip.raises.pop()
            ip.conts.pop()
        end = ip.st
        states = ([end] if end is not None else []) + [s for s, _ in brk] + [s for s, _ in rets]
        new = []
        for s in states:
            for loc in changed(s):
                if loc not in new:
                    new.append(loc)
        # demote mixed kinds on the same field
        redo = False
        for loc in new:
            if loc[0] in ("fld", "tup", "lref") and any(x != loc and x[0] in ("fld", "tup", "lref") and x[1:] == loc[1:] for x in new):
                loc = ("fld",) + loc[1:]
            if loc in pre:
                continue
            redo = True
            cells = []
            for x in init_of(loc):
                s0 = sorts.get((loc, len(cells)), sort(x))
                if s0 in ("none", "bit", "node", "tuple", "seq"):
                    s0 = "any" if loc[0] != "lst" else "seq"
                nm = loc[2] if len(loc) > 2 else loc[0]
                cells.append(Cell(fresh("P:" + str(nm), s0), x, loc))
            pre[loc] = cells
        if redo:
            continue
        # sorts / arity stable?
        for loc in list(pre):
            for s in states:
                vals = read(s, loc)
                if vals is None:
                    # arity changed: treat as one opaque field
                    o = base.heap[loc[1]]
                    del pre[loc]
                    nl = ("fld",) + loc[1:]
                    pre[nl] = [Cell(fresh("P:" + str(loc[2])), o.data.get(loc[2], UNDEF), nl)]
                    redo = True
                    break
                for i, (c, v) in enumerate(zip(pre[loc], vals)):
                    js = _join_sort(sort(c.sym), sort(v)) if sort(c.sym) != "any" and c.loc[0] not in ("lst", "dct", "lref") else sort(c.sym)
                    if js != sort(c.sym):
                        pre[loc][i] = Cell(fresh("P:" + str(loc[2] if len(loc) > 2 else ""), js), c.init, loc)
                        redo = True
        if not redo:
            break
    else:
        from .interp import AnalysisError

        raise AnalysisError("loop at %s does not stabilise" % ip.site)

    cells = [c for cs in pre.values() for c in cs]
    if end is not None:
        for loc, cs in pre.items():
            for c, v in zip(cs, read(end, loc)):
                c.post = v
    else:
        for c in cells:
            c.post = c.sym
    lets = {} if brk or rets or end is None else _lets(ip, pre, end.effects)
    at = solve(ip, [c for c in cells if c.sym not in lets], k, lets)  # sym -> term in k (value before iteration k)
    at.update({c.sym: c.sym for c in cells if c.sym in lets})

    def S(t, upto=None):
        t = rewrite(t, at)
        return t if upto is None else subst(t, k, upto)

    def cond_of(s):
        return and_(*[rewrite(x, at) for x in s.pc[nbase:]]) if s.pc[nbase:] else TRUE

    exits = [("brk", s, v) for s, v in brk] + [("ret", s, v) for s, v in rets]
    if exits:
        econd = or_(*[cond_of(s) for _, s, _ in exits]) if end is not None else TRUE
        m = first(k, n, econd)
        stopped = cmp_("<", m, n) if n is not INF else TRUE
        started = n if stopped is FALSE else add(m, ONE) if stopped is TRUE else ite(stopped, add(m, ONE), n)
    else:
        m, stopped, started = n, FALSE, n

    # iteration effects: join of the normal completion and the exits
    comps = ([(end, NONE)] if end is not None else []) + [(s, NONE) for _, s, _ in exits]
    if comps:
        effs = _merge_effects(ip, comps, base, nbase)
        effs = subst_eff(effs, at)
    else:
        effs = ()
    feff = ()
    if lets:
        lc = [c for c in cells if c.sym in lets]
        effs = effs + (Eff("let", ip.site, syms=tuple(c.sym for c in lc), vals=tuple(rewrite(c.post, at) for c in lc)),)
        feff = (
            Eff("let", ip.site, syms=tuple(c.sym for c in lc), vals=tuple(c.init for c in lc)),
            Eff("for", ip.site, k=k, n=started, body=effs),
            Eff("let", ip.site, syms=tuple(lets[c.sym] for c in lc), vals=tuple(c.sym for c in lc)),
            Eff("forget", ip.site, syms=tuple(c.sym for c in lc)),
        )
    elif effs:
        feff = (Eff("for", ip.site, k=k, n=started, body=effs),)

    def rebuild_state(src, upto, use_post, extra_pc):
        """state after `upto` complete iterations (use_post: values written by src's own iteration `upto`)"""
        heap = dict(base.heap)
        # objects created in the last iteration
        if src is not None:
            last = upto if use_post else sub(upto, ONE)
            for a, o in src.heap.items():
                if a not in base.heap:
                    heap[a] = _map_obj(o, lambda t: S(t, last))
        for loc, cs in pre.items():
            if use_post:
                vals = [S(v, upto) for v in read(src, loc)]
            else:
                vals = [lets.get(c.sym) or subst(at[c.sym], k, upto) for c in cs]
            _store(ip, heap, loc, vals)
        return State(heap, base.effects + feff, base.pc + extra_pc)

    out = None
    if end is not None and n is not INF and stopped is not TRUE:
        nb = not_(stopped)
        out = rebuild_state(end, n, False, () if nb is TRUE else (nb,))
    for kind, s, v in exits:
        ec = cond_of(s)
        ec = subst(ec, k, m) if end is not None or len(exits) > 1 else TRUE
        extra = tuple(x for x in (stopped, ec) if x is not TRUE) if len(exits) > 1 else ((stopped,) if stopped is not TRUE else ())
        if stopped is FALSE:
            continue
        es = rebuild_state(s, m, True, extra)
        val = S(freeze_new(ip, s, base, v), m)
        if kind == "brk":
            ip.breaks[-1].append((es, NONE))
        else:
            if val.op in ("seq", "dict") and v.op == "ref":
                ip.st = es
                val = thaw(ip, val)
                es = ip.st
            ip.rets[-1].append((es, val))
    for s, nm, v, site in raises:
        rc = cond_of(s)
        ex = exists(((k, n if n is not INF else m),), TRUE, rc)
        if ex is FALSE:
            continue
        mr = first(k, n, rc)
        st = State(dict(s.heap), base.effects + ((Eff("for", ip.site, k=k, n=mr, body=effs),) if effs else ()) + subst_eff(subst_eff(s.effects, at), {k: mr}), base.pc + ((ex,) if ex is not TRUE else ()))
        ip.raises[-1].append((st, nm, v, site))
    ip.st = out


def effect_syms(effs):
    """symbols whose value is set while effects are carried out"""
    out = set()
    for e in effs:
        if e.kind in ("snapobj", "snapshot", "snapcirc"):
            out.add(e.sid)
        elif e.kind == "rec":
            if isinstance(e.result, Term):
                out.add(e.result)
        elif e.kind == "let":
            out.update(e.syms)
        for f in ("body", "then", "els"):
            v = e.a.get(f)
            if isinstance(v, tuple):
                out |= effect_syms(v)
    return out


def _lets(ip, pre, effs):
    """loop-carried scalars that depend on containers tracked through effects:
    they are carried by assignments in the effects as well"""
    es = effect_syms(effs)
    if not es:
        return {}
    lets = {}
    more = True
    while more:
        more = False
        for loc, cs in pre.items():
            for c in cs:
                if c.sym in lets or c.post is c.sym or not (free_syms(c.post) & es):
                    continue
                if loc[0] in ("lst", "dct", "lref"):
                    if loc[0] != "lref" and ip.live_dicts and ip.can_live(loc[1]):
                        ip.make_live(loc[1])
                    continue
                lets[c.sym] = fresh("out:" + str(loc[2]), sort(c.sym))
                es.add(c.sym)
                more = True
    return lets


def _merge_effects(ip, comps, base, nbase):
    from .interp import State

    cs = []
    for s, v in comps:
        cs.append((State({}, s.effects, s.pc), NONE))
    st, _ = ip.merge_many(cs, State({}, (), base.pc))
    return st.effects


def _map_obj(o, f):
    from .interp import HObj

    if o.kind in ("list", "set"):
        d = tuple(f(s) for s in o.data)
    elif o.kind == "dict":
        d = tuple((tuple((a, f(b)) for a, b in bb), f(g), f(kk), f(v)) for bb, g, kk, v in o.data)
    else:
        d = {n: f(v) for n, v in o.data.items()}
    return o.with_data(d)


def predict_entry(p):
    k = T.sym("pk:%s" % p.args[0], "int", 0)
    n = mk("dlen", p)
    T.SYMINFO[k] = T.SymInfo(0, sub(n, ONE))
    return (((k, n),), TRUE, mk("dkey", p, k), mk("dval", p, k))


def as_segs(t):
    if t.op == "seq":
        return t.args
    return pre_segs(t)


def as_entries(t):
    if t.op == "dict":
        return tuple(e.args for e in t.args)
    return (predict_entry(t),)


def _store(ip, heap, loc, vals):
    from .interp import HObj

    a = loc[1]
    o = heap[a]
    if loc[0] == "lst":
        heap[a] = o.with_data(tuple(as_segs(vals[0])))
    elif loc[0] == "dct":
        heap[a] = o.with_data(tuple((tuple(e[0]), e[1], e[2], e[3]) for e in as_entries(vals[0])))
    else:
        d = dict(o.data)
        if loc[0] == "tup":
            d[loc[2]] = mk("tuple", *vals)
        elif loc[0] == "lref":
            na = next(ip.addr)
            heap[na] = HObj("list", None, tuple(as_segs(vals[0])), None, ip.site)
            d[loc[2]] = mk("ref", na)
        else:
            d[loc[2]] = vals[0]
        heap[a] = o.with_data(d)


def thaw(ip, v):
    if v.op == "seq":
        return ip.new_list(v.args)
    if v.op == "dict":
        return ip.new_dict([(tuple(e.args[0]), e.args[1], e.args[2], e.args[3]) for e in v.args])
    return v


def freeze_new(ip, st, base, v, depth=0):
    """replace references to objects allocated since `base` by their contents"""
    if depth > 8:
        return v
    if not contains_op(v, ("ref",)):
        return v
    mp = {}
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == "ref":
            a = t.args[0]
            if a in base.heap or t in mp:
                return
            o = st.heap.get(a)
            if o is None or o.label == "live":
                return
            if o.kind in ("list", "set"):
                mp[t] = freeze_new(ip, st, base, seq(*o.data), depth + 1)
            elif o.kind == "dict":
                mp[t] = mk("dict", *[freeze_new(ip, st, base, mk("ent", tuple(b), g, kk, x), depth + 1) for b, g, kk, x in o.data])
            elif o.kind == "obj":
                mp[t] = mk("fobj", o.cls.term(), *[mk("fld", nm, freeze_new(ip, st, base, x, depth + 1)) for nm, x in o.data.items()])
            elif o.kind == "ext":
                mp[t] = mk("fext", o.label or "ext", *[mk("fld", nm, freeze_new(ip, st, base, x, depth + 1)) for nm, x in o.data.items() if isinstance(x, Term)])
            return
        for x in T.subterms1(t):
            go(x)

    go(v)
    return rewrite(v, mp) if mp else v


# ---------------------------------------------------------------- solving
def solve(ip, cells, k, lets=()):
    """closed forms: symbol -> value before iteration k"""
    at = {}
    left = list(cells)
    while left:
        progress = False
        syms = {c.sym for c in left}
        for c in list(left):
            v = closed(ip, c, rewrite(c.post, at), syms, k)
            if v is not None:
                # value may be used by earlier closed forms? they never mention unresolved symbols
                at[c.sym] = v
                left.remove(c)
                progress = True
                break
        if progress:
            continue
        # smallest strongly connected remainder: keep it simple, one mutual system
        group = _component(left, at)
        if ip.live_dicts:
            for c in group:
                if c.loc[0] == "dct" and ip.can_live(c.loc[1]):
                    ip.make_live(c.loc[1])
        depth = 1 + max([_recdepth(rewrite(c.post, at)) for c in group] + [_recdepth(c.init) for c in group])
        K = T.sym("K!%d" % depth, "int", 0)
        Ps = tuple(T.sym("P!%d!%d!%s" % (depth, i, sort(c.sym)), sort(c.sym)) for i, c in enumerate(group))
        ren = {c.sym: p for c, p in zip(group, Ps)}
        ren[k] = K
        posts = tuple(rewrite(rewrite(c.post, at), ren) for c in group)
        inits = tuple(c.init for c in group)
        for i, c in enumerate(group):
            at[c.sym] = mk("rec", i, k, K, Ps, inits, posts, sort(c.sym))
            left.remove(c)
    return at


def _component(left, at):
    """cells that depend on nothing unresolved outside their group"""
    dep = {}
    syms = {c.sym: c for c in left}
    for c in left:
        dep[c] = {syms[s] for s in free_syms(rewrite(c.post, at)) if s in syms}
    best = None
    for c in left:
        seen, work = set(), [c]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work.extend(dep[x])
        if best is None or len(seen) < len(best):
            best = seen
    return [c for c in left if c in best]


_rd = {}


def _recdepth(t):
    r = _rd.get(t)
    if r is None:
        r = max([_recdepth(x) for x in T.subterms1(t)] or [0])
        if t.op == "rec":
            r = max(r, int(t.args[2].args[0].split("!")[1]))
        _rd[t] = r
    return r


def closed(ip, c, E, unresolved, k):
    P, I = c.sym, c.init
    if E is P:
        return I
    fs = free_syms(E)
    un = fs & unresolved
    if not un:
        prev = subst(E, k, sub(k, ONE))
        if prev is I:
            return I
        return ite(eq(k, ZERO), I, prev)
    if un != {P}:
        return None
    # induction / sums
    if sort(P) in ("int", "num"):
        p = T.poly_of(E)
        if p.get((P,)) == 1:
            rest = T.sub(E, P)
            if P not in free_syms(rest):
                return add(I, sum_(k, k, rest))
        return None
    if c.loc[0] in ("lst", "lref"):
        mine = pre_segs(P)[0]
        segs = as_segs(E)
        if segs and segs[0] is mine:
            app = segs[1:]
            if not any(occurs(P, s) for s in app):
                return seq(*(tuple(as_segs(I)) + tuple(_bind(s, k, k) for s in app)))
        if segs and segs[-1] is mine:
            app = segs[:-1]
            if not any(occurs(P, s) for s in app):
                return seq(*(tuple(_bind(s, k, k, True) for s in app) + tuple(as_segs(I))))
        return None
    if c.loc[0] == "dct":
        mine = predict_entry(P)
        if E.op == "dict":
            ents = [e.args for e in E.args]
            if ents and ents[0] == (mine[0], mine[1], mine[2], mine[3]):
                app = ents[1:]
                if not any(occurs(P, mk("ent", *e)) for e in app):
                    out = [e if isinstance(e, Term) else mk("ent", *e) for e in as_entries(I)]
                    for b, g, kk, v in app:
                        k2 = fresh("j", "int", 0, _below(k))
                        mp = {k: k2}
                        out.append(mk("ent", ((k2, k),) + tuple((x, rewrite(y, mp)) for x, y in b), rewrite(g, mp), rewrite(kk, mp), rewrite(v, mp)))
                    return mk("dict", *out)
        return None
    if sort(P) == "str" and E.op == "concat":
        parts = E.args
        if parts[0] is P and not any(occurs(P, x) for x in parts[1:]):
            return T.sfold("app", I, k, k, T.strcat(*parts[1:]))
        if parts[-1] is P and not any(occurs(P, x) for x in parts[:-1]):
            return T.sfold("pre", I, k, k, T.strcat(*parts[:-1]))
    if sort(P) == "bool" and E.op in ("or", "and") and P in E.args:
        rest = [x for x in E.args if x is not P]
        if not any(occurs(P, x) for x in rest):
            j = fresh("j", "int", 0, _below(k))
            if E.op == "or":
                return or_(I, exists(((j, k),), TRUE, subst(or_(*rest), k, j)))
            return and_(I, not_(exists(((j, k),), TRUE, subst(not_(and_(*rest)), k, j))))
    return None


def _below(k):
    """upper bound of an index j < k that stays valid when k is replaced by any value up to the number of iterations"""
    if k.op == "s":
        i = T.SYMINFO.get(k)
        return i.hi if i is not None and k is not ip_inf() else None
    return sub(k, ONE) if not any(x.args[0].startswith(("i#", "k#")) for x in free_syms(k)) else None


def ip_inf():
    from .interp import INF

    return INF


def _bind(s, k, upto, rev=False):
    """segment s (mentioning k) for all k < upto"""
    k2 = fresh("j", "int", 0, _below(upto))
    mp = {k: sub(sub(upto, ONE), k2) if rev else k2}
    b, g, e = s.args
    return mk("seg", ((k2, upto),) + tuple((x, rewrite(y, mp)) for x, y in b), rewrite(g, mp), rewrite(e, mp))


def sum_(k, upto, c):
    """sum of c(j) for j < upto"""
    if k not in free_syms(c):
        return mul(c, upto)
    p = T.poly_of(c)
    # Faulhaber for degree <= 2 in k with coefficients free of k
    tot = ZERO
    ok = True
    for m, co in p.items():
        d = m.count(k)
        rest = T.poly_mk({tuple(x for x in m if x is not k): co})
        if k in free_syms(rest) or d > 2:
            ok = False
            break
        if d == 0:
            tot = add(tot, mul(rest, upto))
        elif d == 1:
            tot = add(tot, mul(rest, mul(const(Fraction(1, 2)), mul(upto, sub(upto, ONE)))))
        else:
            x = mul(mul(upto, sub(upto, ONE)), sub(mul(const(2), upto), ONE))
            tot = add(tot, mul(rest, mul(const(Fraction(1, 6)), x)))
    if ok and sort(tot) == "int":
        return tot
    j = T.sym("J!%d" % (1 + _bdepth(c)), "int", 0)
    return mk("sum", j, upto, subst(c, k, j), sort(c))


_bd = {}


def _bdepth(t):
    r = _bd.get(t)
    if r is None:
        r = max([_bdepth(x) for x in T.subterms1(t)] or [0])
        if t.op in ("sum", "sfold", "first", "exists"):
            r += 1
        _bd[t] = r
    return r


def first(k, n, cond):
    """least k < n with cond(k), or n"""
    from .interp import INF

    if cond is FALSE:
        return n
    if cond is TRUE:
        return ZERO
    # linear bound: cond == not (a*k + b < 0) with a > 0
    c, neg_ = (cond.args[0], True) if cond.op == "not" else (cond, False)
    if neg_ and c.op in ("lt0", "le0"):
        p = T.poly_of(c.args[0])
        a = p.get((k,))
        if a is not None and a > 0 and a.denominator == 1:
            rest = T.sub(c.args[0], mul(const(a), k))
            if k not in free_syms(rest) and sort(rest) == "int":
                # stop when a*k + rest >= 0 (lt0) or > 0 (le0)
                need = neg(rest) if c.op == "lt0" else add(neg(rest), ONE)
                m = need if a == 1 else floordiv(add(need, const(a - 1)), const(a))
                z = cmp_("<=", ZERO, m)
                m = m if z is TRUE else ZERO if z is FALSE else ite(z, m, ZERO)
                if n is INF:
                    return m
                l = cmp_("<=", m, n)
                return m if l is TRUE else n if l is FALSE else ite(l, m, n)
    if not neg_ and c.op in ("lt0", "le0"):
        p = T.poly_of(c.args[0])
        a = p.get((k,))
        if a is not None and a < 0 and a.denominator == 1:
            return first(k, n, not_(mk("lt0" if c.op == "le0" else "le0", T.neg(c.args[0]))))
    j = T.sym("F!%d" % (1 + _bdepth(cond)), "int", 0)
    return mk("first", j, n, subst(cond, k, j))


def exists(binders, guard, cond):
    c = and_(guard, cond)
    if c is FALSE:
        return FALSE
    ks = [b for b, _ in binders]
    if len(binders) == 1 and not (set(ks) & free_syms(c)):
        return and_(cmp_("<", ZERO, binders[0][1]), c)
    mp, nb = {}, []
    d = 1 + _bdepth(c)
    for i, (b, m) in enumerate(binders):
        j = T.sym("E!%d!%d" % (d, i), "int", 0)
        nb.append((j, rewrite(m, mp)))
        mp[b] = j
    return mk("exists", tuple(nb), rewrite(c, mp))
