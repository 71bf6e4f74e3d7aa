"""
Value domain of the analysis: hash-consed symbolic terms.

Integers and reals are kept as polynomials (with exact rational coefficients)
over atoms; booleans, strings, tuples, sequences and conditionals are terms
with smart constructors.  Two occurrences of the same computation get the same
term (global value numbering), whatever names, helpers or statement order the
source uses.
"""
from fractions import Fraction
import itertools

_intern = {}
_uid = itertools.count()


class Term:
    __slots__ = ("op", "args", "uid", "_sort", "__weakref__")

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self


class Hole:
    """wrapper to keep unhashable python payloads (AST nodes) inside terms by identity"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Hole) and self.v is o.v

    def __hash__(self):
        return id(self.v)


def _key(args):
    out = []
    for a in args:
        if isinstance(a, bool):
            out.append(("b", a))
        elif isinstance(a, tuple):
            out.append(_key(a))
        elif isinstance(a, float):
            out.append(("f", repr(a)))
        elif isinstance(a, Term):
            out.append(a.uid)
        else:
            out.append((type(a).__name__, a))
    return tuple(out)


def mk(op, *args):
    k = (op, _key(args))
    t = _intern.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.uid = next(_uid)
        t._sort = None
        _intern[k] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("c", v)
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return mk("c", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- symbols
_fresh = itertools.count()


class SymInfo:
    def __init__(self, lo=None, hi=None):
        self.lo = lo  # python number
        self.hi = hi  # Term (inclusive upper bound) or None


SYMINFO = {}


def sym(name, sort="any", lo=None, hi=None):
    t = mk("s", name, sort)
    if lo is not None or hi is not None:
        SYMINFO[t] = SymInfo(lo, hi)
    return t


def fresh(prefix, sort="any", lo=None, hi=None):
    return sym("%s#%d" % (prefix, next(_fresh)), sort, lo, hi)


NUM = ("int", "num")
_BOOLOPS = {"not", "and", "or", "lt0", "le0", "eq0", "eq", "in", "truth", "isinstance", "is", "exists", "cmp", "opaque", "any", "all"}
_INTOPS = {"floordiv_i", "len", "int2", "idiv", "band", "bor", "bxor", "shl", "shr", "ord", "count"}
_STROPS = {"sfold", "concat", "str", "char", "join", "strslice", "strrep", "format", "strip", "chr"}


def sort(t):
    s = t._sort
    if s is None:
        s = _sort(t)
        t._sort = s
    return s


def _sort(t):
    op = t.op
    if op == "c":
        v = t.args[0]
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, (Fraction, float)):
            return "num"
        if isinstance(v, str):
            return "str"
        return "any"
    if op == "s":
        return t.args[1]
    if op == "poly":
        for m, c in t.args[0]:
            if c.denominator != 1:
                return "num"
            for a in m:
                if sort(a) not in ("int", "bool"):
                    return "num"
        return "int"
    if op in _BOOLOPS:
        return "bool"
    if op in _INTOPS:
        return "int"
    if op in _STROPS:
        return "str"
    if op == "int":
        return "int"
    if op in ("inv", "pow", "math", "float", "abs", "num"):
        return "num"
    if op in ("floordiv", "mod"):
        if sort(t.args[0]) == "int" and sort(t.args[1]) == "int":
            return "int"
        return "num"
    if op == "ite":
        a, b = sort(t.args[1]), sort(t.args[2])
        if a == b:
            return a
        if a in ("int", "num", "bool") and b in ("int", "num", "bool"):
            return "num"
        return "any"
    if op in ("rec", "sum"):
        return t.args[-1]
    if op == "first":
        return "int"
    if op == "tuple":
        return "tuple"
    if op == "seq":
        return "seq"
    if op in ("bit", "node"):
        return op
    if op == "item" and t.args[0].op == "split":
        return "str"
    if op == "item" and t.args[0].op in ("slice", "item") and _strlist(t.args[0]):
        return "str"
    if op == "choice":
        return "any"
    return "any"


def _strlist(t):
    while t.op == "slice":
        t = t.args[0]
    return t.op == "split"


# ---------------------------------------------------------------- polynomials
def poly_of(t):
    """dict monomial -> Fraction; monomial = tuple of atoms sorted by uid"""
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, Fraction)):
            return {(): Fraction(v)} if v != 0 else {}
        return {(t,): Fraction(1)}
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): Fraction(1)}


def poly_mk(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        ((m, c),) = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple(a.uid for a in mc[0])))
    return mk("poly", items)


def add(a, b, cb=1):
    pa = poly_of(a)
    for m, c in poly_of(b).items():
        pa[m] = pa.get(m, Fraction(0)) + cb * c
    return poly_mk(pa)


def sub(a, b):
    return add(a, b, -1)


def _mono_mul(m1, m2):
    atoms = sorted(m1 + m2, key=lambda a: a.uid)
    # cancel x * inv(x)
    out = list(atoms)
    for a in atoms:
        if a.op == "inv" and a in out:
            for b in out:
                if b is a.args[0]:
                    out.remove(a)
                    out.remove(b)
                    break
    return tuple(out)


def mul(a, b):
    out = {}
    pa, pb = poly_of(a), poly_of(b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            out[m] = out.get(m, Fraction(0)) + c1 * c2
    return poly_mk(out)


def neg(a):
    return mul(const(-1), a)


def div(a, b):
    if is_const(b) and isinstance(cval(b), (int, Fraction)) and cval(b) != 0:
        return mul(a, const(Fraction(1) / Fraction(cval(b))))
    if a is b:
        return mul(a, mk("inv", b))
    return mul(a, mk("inv", b))


def nval(t):
    """numeric constant value or None"""
    if t.op == "c" and isinstance(t.args[0], (int, Fraction)):
        return Fraction(int(t.args[0])) if isinstance(t.args[0], bool) else Fraction(t.args[0])
    return None


def _intpoly(p):
    return all(c.denominator == 1 and all(sort(a) in ("int", "bool") for a in m) for m, c in p.items())


def floordiv(a, b):
    va, vb = nval(a), nval(b)
    if vb is not None and vb != 0:
        if va is not None:
            return const(Fraction(va // vb))
        p = poly_of(a)
        q, r = {}, {}
        for m, c in p.items():
            if all(sort(x) in ("int", "bool") for x in m) and (c / vb).denominator == 1:
                q[m] = c / vb
            else:
                r[m] = c
        if q:
            # constant part: keep remainder in [0,b)
            c0 = r.pop((), Fraction(0))
            k = c0 // vb
            if k:
                q[()] = q.get((), Fraction(0)) + k
            c0 -= k * vb
            if c0:
                r[()] = c0
            rest = poly_mk(r)
            base = poly_mk(q)
            if is_const(rest):
                return add(base, const(Fraction(nval(rest) // vb)))
            return add(base, floordiv_atom(rest, b))
    if a.op == "ite":
        return ite(a.args[0], floordiv(a.args[1], b), floordiv(a.args[2], b))
    # exact symbolic division
    pa, pb = poly_of(a), poly_of(b)
    if len(pb) == 1 and vb is None:
        ((mb, cb),) = pb.items()
        q, r = {}, {}
        for m, c in pa.items():
            mm = list(m)
            ok = (c / cb).denominator == 1
            for x in mb:
                if x in mm:
                    mm.remove(x)
                else:
                    ok = False
                    break
            if ok:
                q[tuple(mm)] = c / cb
            else:
                r[m] = c
        if q:
            rest = poly_mk(r)
            if rest is ZERO:
                return poly_mk(q)
            return add(poly_mk(q), floordiv_atom(rest, b))
    return floordiv_atom(a, b)


def floordiv_atom(a, b):
    lo, hi = lower(a), upper_minus(a, b)
    if lo is not None and lo >= 0 and hi is True:
        return ZERO
    return mk("floordiv", a, b)


def mod(a, b):
    va, vb = nval(a), nval(b)
    if vb is not None and vb != 0:
        if va is not None:
            return const(va % vb)
        p = poly_of(a)
        r = {}
        for m, c in p.items():
            if all(sort(x) in ("int", "bool") for x in m) and vb.denominator == 1 and c.denominator == 1:
                c = c % vb
            if c:
                r[m] = c
        rest = poly_mk(r)
        if is_const(rest):
            return const(nval(rest) % vb)
        if rest.op == "mod" and rest.args[1] is b:
            return rest
        if rest.op == "ite":
            return ite(rest.args[0], mod(rest.args[1], b), mod(rest.args[2], b))
        # mod(mod(x,b)+y, b)
        lo, hi = lower(rest), upper_minus(rest, b)
        if lo is not None and lo >= 0 and hi is True:
            return rest
        return mk("mod", rest, b)
    if a.op == "ite":
        return ite(a.args[0], mod(a.args[1], b), mod(a.args[2], b))
    return mk("mod", a, b)


# ---------------------------------------------------------------- bounds
def _atom_lo(a):
    if a.op == "s":
        i = SYMINFO.get(a)
        return None if i is None else i.lo
    if a.op == "len":
        return 0
    if a.op == "mod":
        v = nval(a.args[1])
        if v is not None and v > 0:
            return 0
        return 0 if (lower(a.args[1]) or -1) > 0 else None
    if a.op == "floordiv":
        l, m = lower(a.args[0]), lower(a.args[1])
        if l is not None and l >= 0 and m is not None and m >= 0:
            return 0
        return None
    if a.op in ("int2", "count"):
        return 0
    if a.op == "ite":
        x, y = lower(a.args[1]), lower(a.args[2])
        return None if x is None or y is None else min(x, y)
    if sort(a) == "bool":
        return 0
    return None


def _atom_hi(a):
    """upper bound as a Term"""
    if a.op == "s":
        i = SYMINFO.get(a)
        return None if i is None else i.hi
    if a.op == "mod":
        v = nval(a.args[1])
        if v is not None and v > 0 and sort(a.args[0]) == "int":
            return const(v - 1)
        return None
    if sort(a) == "bool":
        return ONE
    return None


def lower(t, depth=0):
    """a numeric lower bound of t over all symbol valuations, or None"""
    if t.op == "c":
        return nval(t)
    if depth > 6:
        return None
    p = poly_of(t)
    # substitute upper bounds for atoms that occur negatively and linearly
    for a in list({x for m in p for x in m}):
        occ = [(m, c) for m, c in p.items() if a in m]
        if all(m == (a,) and c < 0 for m, c in occ):
            h = _atom_hi(a)
            if h is not None and not is_const(a):
                d = dict(p)
                c = d.pop((a,))
                t2 = add(poly_mk(d), mul(const(c), h))
                return lower(t2, depth + 1)
    # shift atoms by their lower bound and require non-negative coefficients
    total = {(): Fraction(0)}
    cur = p
    atoms = {x for m in cur for x in m}
    los = {}
    for a in atoms:
        l = _atom_lo(a)
        if l is None:
            return None
        los[a] = Fraction(l)
    out = {}
    for m, c in cur.items():
        terms = {(): c}
        for a in m:
            nt = {}
            for mm, cc in terms.items():
                k = mm + (a,)
                k = tuple(sorted(k, key=lambda x: x.uid))
                nt[k] = nt.get(k, Fraction(0)) + cc
                nt[mm] = nt.get(mm, Fraction(0)) + cc * los[a]
            terms = nt
        for mm, cc in terms.items():
            out[mm] = out.get(mm, Fraction(0)) + cc
    if any(c < 0 for m, c in out.items() if m != ()):
        return None
    return out.get((), Fraction(0))


def upper_minus(a, b):
    """True if a < b provably (integers: a <= b-1), else None"""
    l = lower(sub(b, a))
    return True if l is not None and l > 0 else None


# ---------------------------------------------------------------- booleans
def not_(c):
    if is_const(c):
        return boolc(not cval(c))
    if c.op == "not":
        return c.args[0]
    if c.op == "ite":
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk("not", c)


def and_(*cs):
    return _nary("and", cs)


def or_(*cs):
    return _nary("or", cs)


def _nary(op, cs):
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    res = []
    for c in out:
        if c is zero:
            return zero
        if c is unit or c in res:
            continue
        if not_(c) in res:
            return zero
        res.append(c)
    if not res:
        return unit
    if len(res) == 1:
        return res[0]
    # a or (not a and b) -> a or b ; a and (not a or b) -> a and b
    dual = "and" if op == "or" else "or"
    changed = True
    while changed:
        changed = False
        for i, c in enumerate(res):
            if c.op == dual:
                keep = [x for x in c.args if not_(x) not in res]
                if any(x in res for x in c.args):
                    res.pop(i)
                    changed = True
                    break
                if len(keep) != len(c.args):
                    res[i] = _nary(dual, keep)
                    return _nary(op, res)
    if len(res) == 1:
        return res[0]
    return mk(op, *sorted(res, key=lambda x: x.uid))


def cmp_(op, a, b):
    """op in < <= > >= == !="""
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return cmp_("<=", b, a)
    if op == "!=":
        return not_(cmp_("==", a, b))
    if op == "==":
        return eq(a, b)
    if a.op == "ite" and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], cmp_(op, a.args[1], b), cmp_(op, a.args[2], b))
    if b.op == "ite" and (is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], cmp_(op, a, b.args[1]), cmp_(op, a, b.args[2]))
    if sort(a) == "str" or sort(b) == "str":
        if is_const(a) and is_const(b):
            return boolc(cval(a) < cval(b) if op == "<" else cval(a) <= cval(b))
        return mk("cmp", op, a, b)
    d = sub(a, b)
    v = nval(d)
    if v is not None:
        return boolc(v < 0 if op == "<" else v <= 0)
    if op == "<=" and sort(d) == "int":
        d = sub(d, ONE)
        op = "<"
    l = lower(neg(d))
    if l is not None and (l > 0 or (op == "<=" and l >= 0)):
        return TRUE
    l = lower(d)
    if l is not None and (l >= 0 if op == "<" else l > 0):
        return FALSE
    return mk("lt0" if op == "<" else "le0", d)


_DISJOINT = {"none", "str", "tuple", "bit", "node"}


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        va, vb = cval(a), cval(b)
        return boolc(va == vb and (va is None) == (vb is None))
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    sa, sb = sort(a), sort(b)
    num = ("int", "num", "bool")
    if sa in num and sb in num and not (sa == "bool" and sb == "bool"):
        d = sub(a, b)
        if is_const(d):
            return boolc(nval(d) == 0)
        l = lower(d)
        if l is not None and l > 0:
            return FALSE
        l = lower(neg(d))
        if l is not None and l > 0:
            return FALSE
        p = poly_of(d)
        # integrality: fractional constant with integer rest can never be 0
        if all(all(sort(x) in ("int", "bool") for x in m) for m in p):
            if all(c.denominator == 1 for m, c in p.items() if m) and p.get((), Fraction(0)).denominator != 1:
                return FALSE
        first = d.args[0][0][1] if d.op == "poly" else Fraction(1)
        if first < 0:
            d = neg(d)
        return mk("eq0", d)
    if sa == "bool" and is_const(b):
        return a if cval(b) in (True, 1) else not_(a) if cval(b) in (False, 0) else FALSE
    if sb == "bool" and is_const(a):
        return eq(b, a)
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if sa != "any" and sb != "any":
        fa = "num" if sa in num else sa
        fb = "num" if sb in num else sb
        if fa != fb:
            return FALSE
    if sa == "none" and b.op in ("call", "len", "ref", "func", "class", "seq", "bit", "node"):
        return FALSE
    if sb == "none" and a.op in ("ref", "func", "class", "seq", "bit", "node"):
        return FALSE
    if a.op == "ref" and b.op == "ref":
        return FALSE
    if a.op in ("class", "func", "ext") and b.op in ("class", "func", "ext"):
        return FALSE
    if a.uid > b.uid:
        a, b = b, a
    return mk("eq", a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if sort(c) != "bool":
        c = truth(c)
        return ite(c, a, b)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if sort(a) == "bool" and sort(b) == "bool":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return mk("tuple", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    return mk("ite", c, a, b)


def assume(t, c, val):
    """rewrite t under the knowledge that condition c has truth value val"""
    if not _mentions_cond(t):
        return t
    sub_ = {c: boolc(val), not_(c): boolc(not val)}
    if val and c.op == "and":
        for x in c.args:
            sub_[x] = TRUE
            sub_[not_(x)] = FALSE
    if not val and c.op == "or":
        for x in c.args:
            sub_[x] = FALSE
            sub_[not_(x)] = TRUE
    return rewrite(t, sub_)


_mc = {}


def _mentions_cond(t):
    r = _mc.get(t)
    if r is None:
        r = t.op in ("ite", "not", "and", "or") or sort(t) == "bool" and t.op != "c"
        if not r:
            r = any(_mentions_cond(x) for x in subterms1(t))
        _mc[t] = r
    return r


def subterms1(t):
    op = t.op
    if op in ("c", "s", "ref", "func", "ext", "class"):
        return ()
    if op == "poly":
        return tuple(a for m, c in t.args[0] for a in m)
    out = []

    def go(x):
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)

    go(t.args)
    return tuple(out)


def truth(t):
    """python truthiness of t as a boolean term"""
    s = sort(t)
    if s == "bool":
        return t
    if t.op == "c":
        return boolc(bool(cval(t)))
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if s in ("int", "num"):
        return not_(eq(t, ZERO))
    if t.op == "tuple":
        return boolc(len(t.args) > 0)
    if t.op == "list":
        return boolc(len(t.args) > 0)
    if t.op in ("bit", "node", "func", "class", "ext", "bound"):
        return TRUE
    if s == "str":
        return not_(eq(mk("len", t), ZERO))
    if t.op == "seq":
        n = seq_len(t)
        if n is not None:
            return not_(eq(n, ZERO))
    return mk("truth", t)


# ---------------------------------------------------------------- sequences
# seq = mk("seq", seg, ...)   seg = mk("seg", ((k, n), ...), guard, elem)
def seg(binders, guard, elem):
    return mk("seg", tuple(binders), guard, elem)


def seg1(elem, guard=TRUE):
    return mk("seg", (), guard, elem)


def seq(*segs):
    out = []
    for s in segs:
        b, g, e = s.args
        if g is FALSE or any(n is ZERO for _, n in b):
            continue
        # splice "x[k] for k < len(x)" of a known sequence x
        if e.op == "item" and b and e.args[1] is b[-1][0] and e.args[0].op in ("seq", "tuple"):
            x = e.args[0]
            k, n = b[-1]
            if n is length(x) and not occurs(k, g) and not occurs(k, x):
                for t in segs_of(x):
                    tb, tg, te = t.args
                    out.append(mk("seg", tuple(b[:-1]) + tuple(tb), and_(g, tg), te))
                continue
        out.append(s)
    return mk("seq", *out)


def segs_of(x):
    if x.op == "seq":
        return x.args
    if x.op == "tuple":
        return tuple(seg1(y) for y in x.args)
    return None


def length(x):
    if x.op == "tuple":
        return const(len(x.args))
    if x.op == "seq":
        n = seq_len(x)
        if n is not None:
            return n
    if x.op == "ite":
        return ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if is_const(x) and isinstance(cval(x), str):
        return const(len(cval(x)))
    return mk("len", x)


def item(x, k):
    if x.op == "tuple" and is_const(k) and isinstance(cval(k), int) and -len(x.args) <= cval(k) < len(x.args):
        return x.args[cval(k)]
    if x.op == "seq":
        r = seq_index(x.args, k)
        if r is not None:
            return r
    if x.op == "ite":
        return ite(x.args[0], item(x.args[1], k), item(x.args[2], k))
    if sort(x) == "str":
        return mk("char", x, k)
    return mk("item", x, k)


def _at(b, e, rel):
    """element number `rel` of a segment with independent binders (row-major)"""
    if not b:
        return e
    if len(b) == 1:
        return subst(e, b[0][0], rel)
    mp = {}
    for k, n in reversed(b[1:]):
        mp[k] = mod(rel, n)
        rel = floordiv(rel, n)
    mp[b[0][0]] = rel
    return rewrite(e, mp)


def seq_index(segs, idx):
    """element at a (symbolic) index of a segment list; None if not resolvable"""
    off = ZERO
    if is_const(idx) and isinstance(cval(idx), int) and cval(idx) < 0:
        n = ZERO
        for s in segs:
            l = seg_len(s)
            if l is None:
                n = None
                break
            n = add(n, l)
        if n is None:
            i = -cval(idx)
            if len(segs) >= i and all(not s.args[0] and s.args[1] is TRUE for s in segs[-i:]):
                return segs[-i].args[2]
            return None
        idx = add(n, idx)
    for j, s in enumerate(segs):
        b, g, e = s.args
        n = seg_len(s)
        if n is None:
            return None
        rel = sub(idx, off)
        me = _at(b, e, rel)
        lt = cmp_("<", rel, n)
        if lt is TRUE:
            return me
        if lt is not FALSE:
            if j == len(segs) - 1:
                return me  # in range by definedness
            rest = seq_index(segs[j + 1 :], sub(rel, n))
            if rest is None or me is None:
                return None
            return ite(lt, me, rest)
        off = add(off, n)
    return None


def sfold(kind, init, k, upto, x):
    """string built by appending / prepending x(k) for k < upto"""
    if kind in ("app", "pre"):
        j = sym("J!%d" % (1 + _sfdepth(x)), "int", 0)
        return mk("sfold", kind, init, j, upto, subst(x, k, j))


_sfd = {}


def _sfdepth(t):
    r = _sfd.get(t)
    if r is None:
        r = max([_sfdepth(x) for x in subterms1(t)] or [0])
        if t.op in ("sum", "sfold", "first", "exists"):
            r += 1
        _sfd[t] = r
    return r


def seg_len(s):
    b, g, e = s.args
    n = ONE
    if g is not TRUE:
        if not b:
            return ite(g, ONE, ZERO)
        return None
    for k, m in b:
        # dependent binders would need a sum; only independent ones have a product length
        n = mul(n, m)
    ks = [k for k, _ in b]
    for k, m in b:
        if any(occurs(x, m) for x in ks):
            return None
    return n


def seq_len(t):
    n = ZERO
    for s in t.args:
        l = seg_len(s)
        if l is None:
            return None
        n = add(n, l)
    return n


_occ = {}


def occurs(x, t):
    k = (x.uid, t.uid)
    r = _occ.get(k)
    if r is None:
        r = t is x or any(occurs(x, y) for y in subterms1(t))
        _occ[k] = r
    return r


# ---------------------------------------------------------------- rewriting
def rebuild(op, args):
    if op == "poly":
        tot = ZERO
        for m, c in args[0]:
            x = const(c)
            for a in m:
                x = mul(x, a)
            tot = add(tot, x)
        return tot
    f = _BUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def strcat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == "concat" else (p,)
        for q in ps:
            if q.op == "str" and is_const(q.args[0]):
                q = const(str(cval(q.args[0])))
            if is_const(q) and isinstance(cval(q), str):
                if cval(q) == "":
                    continue
                if out and is_const(out[-1]) and isinstance(cval(out[-1]), str):
                    out[-1] = const(cval(out[-1]) + cval(q))
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and (sort(out[0]) == "str" or out[0].op == "call" and str(out[0].args[0]).endswith(".__str__")):
        return out[0]
    return mk("concat", *out)


def to_str(t):
    if sort(t) == "str":
        return t
    if is_const(t):
        v = cval(t)
        if isinstance(v, Fraction):
            v = float(v)
        return const(str(v))
    return mk("str", t)


def _b_poly(x):
    return rebuild("poly", (x,))


def nodelabel(g, i):
    if i.op == "node" and i.args[0] is g:
        return i.args[1]
    if i.op == "ite":
        return ite(i.args[0], nodelabel(g, i.args[1]), nodelabel(g, i.args[2]))
    return mk("nodelabel", g, i)


_BUILD = {
    "ite": ite,
    "not": not_,
    "and": and_,
    "or": or_,
    "eq": eq,
    "eq0": lambda p: eq(p, ZERO),
    "lt0": lambda p: cmp_("<", p, ZERO),
    "le0": lambda p: cmp_("<=", p, ZERO),
    "floordiv": floordiv,
    "mod": mod,
    "inv": lambda x: div(ONE, x),
    "truth": truth,
    "concat": strcat,
    "str": to_str,
    "seq": seq,
    "len": length,
    "item": item,
    "nodelabel": nodelabel,
}


def rewrite(t, mapping, memo=None):
    """substitute terms (exact occurrences) by terms, rebuilding with simplification"""
    if memo is None:
        memo = {}
    return _rw(t, mapping, memo)


def _rw(t, mp, memo):
    r = mp.get(t)
    if r is not None:
        return r
    if t.op in ("c", "s", "ref", "func", "ext", "class"):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "poly":
        tot = {}
        changed = False
        new = []
        for m, c in t.args[0]:
            mm = tuple(_rw(a, mp, memo) for a in m)
            if mm != m:
                changed = True
            new.append((mm, c))
        if not changed:
            r = t
        else:
            acc = ZERO
            for mm, c in new:
                x = const(c)
                for a in mm:
                    x = mul(x, a)
                acc = add(acc, x)
            r = acc
    else:

        def go(x):
            if isinstance(x, Term):
                return _rw(x, mp, memo)
            if isinstance(x, tuple):
                y = tuple(go(z) for z in x)
                return y
            return x

        args = tuple(go(a) for a in t.args)
        if args == t.args:
            r = t
        else:
            r = rebuild(t.op, args)
    memo[t] = r
    return r


def subst(t, k, v):
    return rewrite(t, {k: v})


def free_syms(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == "s":
        acc.add(t)
    for x in subterms1(t):
        free_syms(x, acc, seen)
    return acc


def contains_op(t, ops, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return False
    seen.add(t)
    if t.op in ops:
        return True
    return any(contains_op(x, ops, seen) for x in subterms1(t))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 9:
        return "..."
    op, a = t.op, t.args
    if op == "c":
        v = a[0]
        return repr(v) if not isinstance(v, Fraction) else str(float(v))
    if op == "s":
        return str(a[0])
    if op == "poly":
        parts = []
        for m, c in a[0]:
            cs = str(int(c)) if c.denominator == 1 else str(float(c))
            ms = "*".join(show(x, d + 1) for x in m)
            parts.append(cs if not m else ms if c == 1 else ("-" + ms if c == -1 else cs + "*" + ms))
        return "(" + " + ".join(parts) + ")"
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, d + 1) for x in a)
    if op == "tuple":
        return "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    if op == "ref":
        return "&%s" % a[0]
    if op == "seg":
        b, g, e = a
        s = show(e, d + 1)
        for k, n in b:
            s += " for %s<%s" % (show(k), show(n, d + 1))
        if g is not TRUE:
            s += " if " + show(g, d + 1)
        return s
    if op == "seq":
        return "[" + "; ".join(show(x, d + 1) for x in a) + "]"
    if op == "lt0":
        return show(a[0], d + 1) + "<0"
    if op == "le0":
        return show(a[0], d + 1) + "<=0"
    if op == "eq0":
        return show(a[0], d + 1) + "==0"
    if op in ("floordiv", "mod"):
        return "(%s%s%s)" % (show(a[0], d + 1), "//" if op == "floordiv" else "%", show(a[1], d + 1))
    if op in ("func", "class", "ext"):
        return "%s" % (getattr(a[0], "name", None) or a[0],)
    return op + "(" + ", ".join(show(x, d + 1) for x in a) + ")"
