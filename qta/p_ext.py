"""E01: binding rules. Every name, member, import and call inside the package resolves.

A lint over the syntax tree with class hierarchy analysis: each reference is an
obligation, decided for every concrete class that inherits the code it is in.
Dynamic features (star imports from outside, __getattr__, setattr, decorators it does
not know) make the affected references undecided-by-rule, i.e. they are skipped and counted."""
import ast, builtins, os, symtable

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__builtins__", "__class__", "__annotations__", "__dict__", "__module__", "__qualname__"}
PLAIN_BASES = {"Generic", "object", "ABCMeta", "ABC", "Protocol"}
OBJ = set(dir(object)) | {"__dict__", "__doc__", "__name__", "__qualname__", "__module__", "__weakref__", "__annotations__"}


class Mod:
    def __init__(self, name, path, tree, src, pkg):
        self.name, self.path, self.tree, self.src, self.pkg = name, path, tree, src, pkg
        self.defs = {}  # name -> ("class", node) ("func", node) ("import", module, attr|None) ("var", node)
        self.open = False  # star import from outside
        self.stars = []


class Cls:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.bases, self.opaque = [], False
        self.members = {}  # name -> node of the last definition in the body
        self.stores = {}  # attribute -> list of value expressions assigned through self
        self.declared = set()

    def __repr__(self):
        return self.mod.name + "." + self.name


class Project:
    def __init__(self, root, package="qtcodes"):
        self.root, self.package = root, package
        self.mods = {}
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    pkg = rel.endswith(".__init__")
                    self.add(rel[: -len(".__init__")] if pkg else rel, p, pkg)
        data = os.path.join(root, "data")
        for d, dirs, files in os.walk(data):
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    self.add(os.path.relpath(p, root)[:-3].replace(os.sep, "."), p, False)
        for m in self.mods.values():
            self.collect(m)
        self.classes = []
        for m in self.mods.values():
            for n, (k, v) in [(n, (d[0], d[1])) for n, d in m.defs.items()]:
                if k == "class":
                    self.classes.append(v)
        for c in self.classes:
            self.link(c)
        self.extstores = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                    self.extstores.add(n.attr)

    def created(self):
        """classes that are used as values: called, stored in tables, passed on"""
        if not hasattr(self, "_created"):
            out = set()

            def visit(m, n):
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                    k = self.expr_class(m, n)
                    if k is not None:
                        out.add(k)
                for f, v in ast.iter_fields(n):
                    if f in ("annotation", "returns", "bases", "type_params"):
                        continue
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "issubclass", "cast"):
                        continue
                    if isinstance(n, ast.ExceptHandler) and f == "type":
                        continue
                    for x in v if isinstance(v, list) else [v]:
                        if isinstance(x, ast.AST):
                            visit(m, x)

            for m in self.mods.values():
                visit(m, m.tree)
            self._created = out
        return self._created

    def concrete(self, k):
        """may there be objects of exactly this class?"""
        return not self.abstract(k) and (k in self.created() or self.subclasses(k) == [k])

    def add(self, name, path, pkg):
        src = open(path, encoding="utf-8").read()
        self.mods[name] = Mod(name, path, ast.parse(src, path), src, pkg)

    # ------------------------------------------------------------ modules
    def absolute(self, m, node):
        if not node.level:
            return node.module or ""
        parts = m.name.split(".")
        if not m.pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def collect(self, m):
        def targets(t):
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    yield x.id

        def stmts(body):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    m.defs[s.name] = ("class", Cls(s.name, m, s))
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.defs[s.name] = ("func", s)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        m.defs[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    mod = self.absolute(m, s)
                    for a in s.names:
                        if a.name == "*":
                            m.stars.append((mod, s))
                            if mod not in self.mods:
                                m.open = True
                        else:
                            m.defs[a.asname or a.name] = ("import", mod, a.name, s)
                else:
                    for f in ("body", "orelse", "finalbody"):
                        if isinstance(getattr(s, f, None), list):
                            stmts(getattr(s, f))
                    for h in getattr(s, "handlers", []):
                        if h.name:
                            m.defs[h.name] = ("var", h)
                        stmts(h.body)
                    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With)):
                        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if not isinstance(s, ast.With) else [i.optional_vars for i in s.items if i.optional_vars]
                        if isinstance(s, ast.AnnAssign) and s.value is None:
                            ts = []
                        for t in ts:
                            for n in targets(t):
                                m.defs[n] = ("var", s)
                    for w in ast.walk(s):
                        if isinstance(w, ast.NamedExpr):
                            m.defs[w.target.id] = ("var", s)

        stmts(m.tree.body)
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global):
                for n in f.names:
                    m.defs.setdefault(n, ("var", f))

    def exports(self, name, seen=()):
        """public names of a project module"""
        m = self.mods[name]
        out = {n for n in m.defs if not n.startswith("_")}
        for mod, _ in m.stars:
            if mod in self.mods and mod not in seen:
                out |= self.exports(mod, seen + (name,))
        out |= {x[len(name) + 1 :] for x in self.mods if x.startswith(name + ".") and "." not in x[len(name) + 1 :]}
        return out

    def isopen(self, name, seen=()):
        m = self.mods[name]
        return m.open or any(x in self.mods and x not in seen and self.isopen(x, seen + (name,)) for x, _ in m.stars)

    def names(self, m):
        out = set(m.defs)
        for mod, _ in m.stars:
            if mod in self.mods:
                out |= self.exports(mod)
        return out

    def resolve(self, m, name, seen=()):
        """what a module-level name is: ('class', Cls), ('func', node, mod), ('pmod', name), ('ext',) or None"""
        if (m.name, name) in seen:
            return None
        seen += ((m.name, name),)
        d = m.defs.get(name)
        if d is None:
            for mod, _ in m.stars:
                if mod in self.mods and name in self.exports(mod):
                    return self.resolve(self.mods[mod], name, seen)
            if m.pkg and m.name + "." + name in self.mods:
                return ("pmod", m.name + "." + name)
            return None
        if d[0] == "class":
            return ("class", d[1])
        if d[0] == "func":
            return ("func", d[1], m)
        if d[0] == "module":
            return ("pmod", d[1]) if d[1] in self.mods else ("ext",)
        if d[0] == "import":
            if d[1] in self.mods:
                r = self.resolve(self.mods[d[1]], d[2], seen)
                if r is None and d[1] + "." + d[2] in self.mods:
                    return ("pmod", d[1] + "." + d[2])
                return r or ("var", None)
            if d[1].split(".")[0] == self.package and d[1] + "." + d[2] in self.mods:
                return ("pmod", d[1] + "." + d[2])
            return ("ext", d[1] + "." + d[2])
        return ("var", d[1])

    # ------------------------------------------------------------ classes
    def expr_class(self, m, e):
        """the project class an expression names"""
        if isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Name):
            r = self.resolve(m, e.id)
            return r[1] if r and r[0] == "class" else None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            r = self.resolve(m, e.value.id)
            if r and r[0] == "pmod":
                r = self.resolve(self.mods[r[1]], e.attr)
                return r[1] if r and r[0] == "class" else None
        return None

    def link(self, c):
        for b in c.node.bases:
            k = self.expr_class(c.mod, b)
            if k is not None:
                c.bases.append(k)
                continue
            e = b.value if isinstance(b, ast.Subscript) else b
            n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
            if n in PLAIN_BASES:
                continue
            if isinstance(e, ast.Name) and e.id in BUILTIN and isinstance(getattr(builtins, e.id, None), type):
                c.members.update({x: None for x in dir(getattr(builtins, e.id))})
                c.builtin = True
                continue
            c.opaque = True
        for k in c.node.keywords:
            if k.arg == "metaclass" and isinstance(k.value, ast.Name) and k.value.id in ("ABCMeta", "type"):
                continue
            c.opaque = True
        for d in c.node.decorator_list:
            c.opaque = True

        def body(b):
            for s in b:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    c.members[s.name] = s
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                c.members[x.id] = s
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.value is not None:
                        c.members[s.target.id] = s
                    c.declared.add(s.target.id)
                elif isinstance(s, (ast.If, ast.Try, ast.For, ast.With, ast.While)):
                    for f in ("body", "orelse", "finalbody"):
                        body(getattr(s, f, []) or [])
                    for h in getattr(s, "handlers", []):
                        body(h.body)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        c.members[a.asname or a.name] = s

        body(c.node.body)
        if "__getattr__" in c.members or "__getattribute__" in c.members or "__slots__" in c.members:
            c.opaque = True
        for f in self.functions(c):
            me = self.selfname(f)
            if me is None:
                continue
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                    c.stores.setdefault(x.attr, [])
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == me:
                    c.stores.setdefault(x.targets[0].attr, []).append(x.value)
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Attribute) and isinstance(x.target.value, ast.Name) and x.target.value.id == me:
                    c.stores.setdefault(x.target.attr, []).append(x.value)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                    c.opaque = True
                elif isinstance(x, ast.Attribute) and x.attr == "__dict__":
                    c.opaque = True

    def functions(self, c):
        return [s for s in ast.walk(c.node) if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and c.members.get(s.name) is s]

    def decos(self, f):
        out = []
        for d in f.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            out.append(e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "?")
        return out

    def selfname(self, f):
        d = self.decos(f)
        a = f.args.posonlyargs + f.args.args
        if "staticmethod" in d or not a:
            return None
        if "classmethod" in d:
            return None
        return a[0].arg

    def mro(self, c):
        try:
            return self._c3(c)
        except ValueError:
            return [c]

    def _c3(self, c):
        seqs = [self._c3(b) for b in c.bases] + [list(c.bases)]
        out = [c]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    h = s[0]
                    break
            else:
                raise ValueError("no mro")
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    s.pop(0)
        return out

    def closed(self, c):
        return not any(k.opaque for k in self.mro(c))

    def attrs(self, c):
        out = set(OBJ)
        for k in self.mro(c):
            out |= set(k.members) | set(k.stores)
        return out

    def lookup(self, c, name):
        for k in self.mro(c):
            if name in k.members:
                return k, k.members[name]
        return None, None

    def subclasses(self, c):
        return [k for k in self.classes if c in self.mro(k)]

    def abstract(self, c):
        """names of abstract methods that c does not implement"""
        out = []
        seen = set()
        meta = any(k.node.keywords or any((isinstance(b, ast.Name) and b.id == "ABC") for b in k.node.bases) for k in self.mro(c))
        if not meta:
            return out
        for k in self.mro(c):
            for n, s in k.members.items():
                if n in seen:
                    continue
                seen.add(n)
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(d in ("abstractmethod", "abstractproperty") for d in self.decos(s)):
                    out.append((n, k))
        # attributes assigned on instances do not implement an abstract member
        return out


# ---------------------------------------------------------------- calls
def binds(f, call, skip):
    """None if the call's arguments fit the function, else the reason"""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    posonly = {x.arg for x in a.posonlyargs}
    npos = len(call.args)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    kws = [k.arg for k in call.keywords if k.arg is not None]
    if not star and npos > len(pos) and a.vararg is None:
        return "%d positional arguments for %d parameters" % (npos, len(pos))
    names = {x for x in pos if x not in posonly} | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k not in names and a.kwarg is None:
            return "no parameter %r" % k
        if not star and k in pos[:npos]:
            return "parameter %r is given twice" % k
    if not star and not dstar:
        nd = len(a.defaults)
        req = pos[: len(pos) - nd] if nd else pos
        for i, p in enumerate(req):
            if i >= npos and p not in kws:
                return "parameter %r is missing" % p
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return "parameter %r is missing" % x.arg
    return None


KNOWN_DECOS = {"staticmethod", "classmethod", "abstractmethod", "override"}


class Lint:
    def __init__(self, ck, prj):
        self.ck, self.p = ck, prj
        self.skipped = {}

    def site(self, m, node):
        return "%s:%s" % (m.name, getattr(node, "lineno", "?"))

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    # names and imports
    def module(self, m):
        p, ck = self.p, self.ck
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                mod = p.absolute(m, s)
                if mod.split(".")[0] != p.package:
                    continue
                ck.ob("imported modules of the package exist", mod in p.mods, lambda: "%s imports from %s, which does not exist" % (m.name, mod), self.site(m, s))
                if mod in p.mods and not p.isopen(mod):
                    for a in s.names:
                        if a.name != "*":
                            ok = a.name in p.names(p.mods[mod]) or mod + "." + a.name in p.mods
                            ck.ob("imported names exist", ok, lambda: "%s imports %s from %s, which does not define it" % (m.name, a.name, mod), self.site(m, s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split(".")[0] == p.package:
                        ck.ob("imported modules of the package exist", a.name in p.mods, lambda: "%s imports %s, which does not exist" % (m.name, a.name), self.site(m, s))
            elif isinstance(s, ast.Attribute) and isinstance(s.value, ast.Name) and isinstance(s.ctx, ast.Load):
                r = p.resolve(m, s.value.id) if s.value.id not in self.locals_at(m, s) else None
                if r and r[0] == "pmod" and not p.isopen(r[1]):
                    mm = p.mods[r[1]]
                    ok = s.attr in p.names(mm) or s.attr in p.exports(r[1]) or r[1] + "." + s.attr in p.mods or s.attr in BUILTIN
                    ck.ob("names used from modules of the package exist", ok, lambda: "%s uses %s.%s, which does not exist" % (m.name, r[1], s.attr), self.site(m, s))
        if p.isopen(m.name):
            self.skip("names of a module with a star import from outside")
            return
        have = p.names(m) | BUILTIN
        top = symtable.symtable(m.src, m.path, "exec")
        first = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                first.setdefault(n.id, []).append(n)

        def walk(t):
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                n = s.get_name()
                glob = s.is_global() or (t.get_type() == "module")
                if glob:
                    ok = n in have
                    site = None
                    if not ok:
                        ns = [x for x in first.get(n, []) if x.lineno >= t.get_lineno()] or first.get(n, [])
                        site = self.site(m, ns[0]) if ns else m.name
                    ck.ob("every name is bound", ok, lambda: "name %r is used in %s of %s but defined nowhere" % (n, t.get_name(), m.name), site or m.name)
            for x in t.get_children():
                walk(x)

        walk(top)

    def locals_at(self, m, node):
        """names that are rebound somewhere in a function that contains the node"""
        if not hasattr(m, "spans"):
            m.spans = []
            for f in ast.walk(m.tree):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    names = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
                    for a in (f.args.vararg, f.args.kwarg):
                        if a is not None:
                            names.add(a.arg)
                    for x in ast.walk(f):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            names.add(x.id)
                        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f:
                            names.add(x.name)
                        elif isinstance(x, ast.ExceptHandler) and x.name:
                            names.add(x.name)
                        elif isinstance(x, (ast.Import, ast.ImportFrom)):
                            names |= {a.asname or a.name.split(".")[0] for a in x.names}
                    m.spans.append((f.lineno, f.end_lineno, f.col_offset, names))
        out = set()
        for a, b, col, names in m.spans:
            if a <= node.lineno <= b:
                out |= names
        return out

    # members
    def klass(self, c):
        p, ck = self.p, self.ck
        subs = p.subclasses(c)
        conc = [k for k in subs if p.concrete(k)]
        for f in p.functions(c):
            me = p.selfname(f)
            deco = p.decos(f)
            # the concrete classes that run this very function
            users = [k for k in conc if p.lookup(k, f.name)[1] is f or self.supers(k, c, f)] or None
            guarded = self.guarded(f)
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == me for x in ast.walk(f)):
                self.skip("functions that rebind self")
                continue
            types = self.local_types(c, f, users)
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me and me is not None:
                    if guarded or x.attr in p.extstores:
                        self.skip("members behind hasattr/AttributeError or set from outside")
                        continue
                    ks = users if users is not None else [None]
                    for k in ks:
                        if k is None:
                            have = set()
                            cl = True
                            for s in subs:
                                have |= p.attrs(s)
                                cl = cl and p.closed(s)
                        else:
                            have, cl = p.attrs(k), p.closed(k)
                        if not cl:
                            self.skip("members of classes with outside bases")
                            continue
                        ck.ob("every member that is used exists", x.attr in have, lambda: "%s.%s uses self.%s, which %s does not have" % (c.name, f.name, x.attr, k.name if k else "no class"), self.site(c.mod, x))
                if isinstance(x, ast.Call):
                    self.call(c, f, me, users, x, types)

    def supers(self, k, c, f):
        """does k run c.f through super() or an explicit base call?"""
        p = self.p
        o, g = p.lookup(k, f.name)
        if g is None or c not in p.mro(k):
            return False
        chain = p.mro(k)
        return any(f.name in m.members and isinstance(m.members[f.name], ast.FunctionDef) and any(isinstance(x, ast.Attribute) and x.attr == f.name and (isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "super" or isinstance(x.value, ast.Name) and p.expr_class(m.mod, x.value) is not None) for x in ast.walk(m.members[f.name])) for m in chain[: chain.index(c)])

    def guarded(self, f):
        for x in ast.walk(f):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "setattr", "vars"):
                return True
            if isinstance(x, ast.ExceptHandler) and (x.type is None or "AttributeError" in ast.dump(x.type) or "'Exception'" in ast.dump(x.type)):
                return True
        return False

    def local_types(self, c, f, users):
        """variables with one known project class: assigned once from a constructor"""
        p = self.p
        stores = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores.setdefault(x.id, []).append(x)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and x is not f:
                for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs:
                    stores.setdefault(a.arg, []).append(a)
                    stores.setdefault(a.arg, []).append(a)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                stores.setdefault(x.name, []).extend([x, x])
        args = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        out = {}
        for s in ast.walk(f):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call):
                n = s.targets[0].id
                if len(stores.get(n, [])) == 1 and n not in args:
                    k = p.expr_class(c.mod if c else self.m, s.value.func)
                    if k is not None:
                        out[n] = k
        return out

    def attr_class(self, k, attr):
        """class of self.attr in class k when it is always the result of one constructor"""
        p = self.p
        vals = []
        for b in p.mro(k):
            if attr in b.members:
                return None
            for v in b.stores.get(attr, []):
                vals.append((b, v))
            if attr in b.stores and not b.stores[attr]:
                return None
        if attr in p.extstores or not vals:
            return None
        out = set()
        for b, v in vals:
            if isinstance(v, ast.Constant) and v.value is None:
                return None
            if not isinstance(v, ast.Call):
                return None
            q = p.expr_class(b.mod, v.func)
            if q is None and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == "self":
                o, s = p.lookup(k, v.func.attr)
                if isinstance(s, ast.Assign):
                    q = p.expr_class(o.mod, s.value)
            if q is None:
                return None
            out.add(q)
        return out.pop() if len(out) == 1 else None

    def fits(self, m, call, target, owner, skip, what):
        p, ck = self.p, self.ck
        if isinstance(target, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if not set(p.decos(target)) <= KNOWN_DECOS:
                self.skip("calls of decorated functions")
                return
            why = binds(target, call, skip)
            ck.ob("every call fits the function it reaches", why is None, lambda: "%s: %s (%s)" % (what, why, owner), self.site(m, call))

    def construct(self, m, call, k, what):
        p, ck = self.p, self.ck
        ab = p.abstract(k)
        ck.ob("no abstract class is instantiated", not ab, lambda: "%s creates %s, which does not implement %s" % (what, k.name, ", ".join(n for n, _ in ab)), self.site(m, call))
        if not p.closed(k):
            self.skip("constructors of classes with outside bases")
            return
        o, f = p.lookup(k, "__init__")
        n, g = p.lookup(k, "__new__")
        if n is not None or (o is not None and f is None):
            return
        if f is None:
            ck.ob("every call fits the function it reaches", not call.args and not call.keywords, lambda: "%s passes arguments to %s, which takes none" % (what, k.name), self.site(m, call))
        else:
            self.fits(m, call, f, k.name + ".__init__", 1, what)

    def call(self, c, f, me, users, x, types):
        p, ck, m = self.p, self.ck, c.mod if c is not None else self.m
        g = x.func
        what = "%s.%s" % (c.name, f.name) if c is not None else f.name if f is not None else m.name
        loc = self.locals_at(m, x)
        if isinstance(g, ast.Name) and g.id not in loc:
            r = p.resolve(m, g.id)
            if r and r[0] == "func":
                self.fits(m, x, r[1], "function " + g.id, 0, what)
            elif r and r[0] == "class":
                self.construct(m, x, r[1], what)
            return
        if not isinstance(g, ast.Attribute):
            return
        v = g.value
        if isinstance(v, ast.Name) and me is not None and v.id == me:
            for k in users if users is not None else []:
                if not p.closed(k):
                    continue
                if any(g.attr in b.stores for b in p.mro(k)):
                    continue
                o, t = p.lookup(k, g.attr)
                if isinstance(t, (ast.Assign, ast.AnnAssign)):
                    q = p.expr_class(o.mod, t.value)
                    if q is not None:
                        self.construct(m, x, q, what)
                    continue
                if isinstance(t, ast.FunctionDef):
                    self.fits(m, x, t, "%s.%s" % (o.name, g.attr), 0 if "staticmethod" in p.decos(t) else 1, what)
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and c is not None:
            for k in users if users is not None else []:
                chain = p.mro(k)
                rest = chain[chain.index(c) + 1 :]
                o = next((b for b in rest if g.attr in b.members), None)
                if o is None:
                    if all(not b.opaque for b in rest) and not any(getattr(b, "builtin", False) for b in rest):
                        ck.ob("every member that is used exists", g.attr in OBJ, lambda: "%s uses super().%s, which no base of %s has" % (what, g.attr, k.name), self.site(m, x))
                    continue
                t = o.members[g.attr]
                if isinstance(t, ast.FunctionDef):
                    self.fits(m, x, t, "%s.%s" % (o.name, g.attr), 0 if "staticmethod" in p.decos(t) else 1, what)
        elif isinstance(v, ast.Name) and v.id in types:
            self.member_call(m, x, types[v.id], g.attr, what)
        elif isinstance(v, ast.Name) and v.id not in loc:
            k = p.expr_class(m, v)
            if k is not None and p.closed(k):
                o, t = p.lookup(k, g.attr)
                ck.ob("every member that is used exists", t is not None or g.attr in OBJ or g.attr in p.attrs(k), lambda: "%s uses %s.%s, which does not exist" % (what, k.name, g.attr), self.site(m, x))
                if isinstance(t, ast.FunctionDef):
                    d = p.decos(t)
                    self.fits(m, x, t, "%s.%s" % (o.name, g.attr), 1 if "classmethod" in d else 0, what)
            else:
                r = p.resolve(m, v.id)
                if r and r[0] == "pmod":
                    r2 = p.resolve(p.mods[r[1]], g.attr)
                    if r2 and r2[0] == "func":
                        self.fits(m, x, r2[1], g.attr, 0, what)
                    elif r2 and r2[0] == "class":
                        self.construct(m, x, r2[1], what)
        elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and me is not None and v.value.id == me:
            for k in users if users is not None else []:
                q = self.attr_class(k, v.attr)
                if q is not None:
                    self.member_call(m, x, q, g.attr, what)

    def member_call(self, m, x, k, name, what):
        p, ck = self.p, self.ck
        if not p.closed(k):
            return
        o, t = p.lookup(k, name)
        ck.ob("every member that is used exists", name in p.attrs(k) or name in p.extstores, lambda: "%s uses %s.%s, which does not exist" % (what, k.name, name), self.site(m, x))
        if isinstance(t, ast.FunctionDef) and not any(name in b.stores for b in p.mro(k)):
            d = p.decos(t)
            self.fits(m, x, t, "%s.%s" % (o.name, name), 0 if "staticmethod" in d else 1, what)

    # interface
    def interface(self):
        p, ck = self.p, self.ck
        pub = set()
        for m in p.mods.values():
            if m.pkg:
                for n in p.names(m):
                    if n.startswith("_"):
                        continue
                    r = p.resolve(m, n)
                    if r and r[0] == "class":
                        pub.add(r[1])
        for k in sorted(pub, key=repr):
            ab = p.abstract(k)
            ck.ob("every exported class implements its interface", not ab, lambda: "%s cannot be created: %s not implemented" % (k.name, ", ".join("%s (of %s)" % (n, b.name) for n, b in ab)), "%s:%d" % (k.mod.name, k.node.lineno))
        return pub


def e01(ck):
    ck.explanation = "static: lint over the syntax trees, scope tables and class hierarchy of the current source; nothing of the repository was executed"
    p = Project(ck.root)
    l = Lint(ck, p)
    for m in sorted(p.mods.values(), key=lambda m: m.name):
        ck.case(m.name, l.module, m)
        l.m = m
        ck.case(m.name + " calls", toplevel, l, m)
    for c in sorted(p.classes, key=repr):
        ck.case(repr(c), l.klass, c)
    ck.case("exported classes", l.interface)
    for k, n in sorted(l.skipped.items()):
        ck.notes.append("skipped by rule: %s (%d)" % (k, n))
    ck.notes.append("%d modules, %d classes" % (len(p.mods), len(p.classes)))


def toplevel(l, m):
    """calls outside classes"""
    inside = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ClassDef):
            for x in ast.walk(n):
                inside.add(id(x))
    types = l.local_types(None, ast.FunctionDef(name="<module>", args=ast.arguments([], [], None, [], [], None, []), body=m.tree.body, decorator_list=[]), None)
    types = {k: v for k, v in types.items()}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and id(n) not in inside:
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in types:
                l.member_call(m, n, types[f.value.id], f.attr, m.name)
            else:
                l.call(None, None, None, None, n, {})
