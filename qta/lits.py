"""integer literals of the analysed source that could separate large inputs from small ones

The sizes, rounds, list lengths and histories that a check instantiates always include a fixed
set; where the source itself mentions a larger number, inputs around that number are added."""
import ast, time

SKIP = ("draw", "plot")


def fold(n):
    if isinstance(n, ast.Constant) and type(n.value) is int:
        return n.value
    if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Pow, ast.LShift):
        a, b = fold(n.left), fold(n.right)
        if a is not None and b is not None and abs(a) < 1000 and 0 <= b < 64:
            return {ast.Add: a + b, ast.Sub: a - b, ast.Mult: a * b}.get(type(n.op), a ** min(b, 12) if isinstance(n.op, ast.Pow) else a << min(b, 12))
    if isinstance(n, ast.Constant) and isinstance(n.value, float) and n.value == int(n.value):
        return int(n.value)
    return None


def literals(ck, top=64):
    """{value} of the integers 5..top used in function bodies, drawing aside"""
    if not hasattr(ck, "_lits"):
        out = set()
        for t in ck.world.ip.sources.values():
            out |= of_tree(t)
        ck._lits = out
    return sorted(c for c in ck._lits if c <= top)


def spare(ck):
    """is there time left for inputs beyond the fixed set"""
    return time.time() - ck.t0 < (3000 if ck.thorough else 200)


def rates(ck):
    """error rates below one half: a fixed spread, and both sides of every such number in the source"""
    lits = set()
    for t in ck.world.ip.sources.values():
        for f in ast.walk(t):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and not any(s in f.name.lower() for s in SKIP):
                for b in f.body:
                    lits |= {n.value for n in ast.walk(b) if isinstance(n, ast.Constant) and type(n.value) is float and 1e-12 < n.value < 0.5}
    out = [1e-6, 1e-3, 0.02, 0.25, 0.45]
    for c in sorted(lits)[:12]:
        out += [c * 0.98, c, min(c * 1.02, 0.499)]
    return [x for i, x in enumerate(out) if x not in out[:i]]


def of_tree(tree):
    out = set()

    def go(n, inside):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if not any(s in c.name.lower() for s in SKIP):
                    go(c, True)
                continue
            if isinstance(c, ast.ClassDef):
                # constants of the class are read by its methods
                go(c, True)
                continue
            v = fold(c)
            if v is not None:
                if 5 <= abs(v) <= 2000:
                    out.add(abs(v))
                continue
            if not inside and isinstance(c, ast.Expr):
                continue
            go(c, inside or isinstance(c, (ast.Assign, ast.AnnAssign)))

    go(tree, False)
    return out
