"""Source model: parse every module of /repo/verypy, index functions, classes,
imports and constants, and resolve names and call targets.

Nothing of the repository is ever imported or executed; the only input is the
text of the current working tree."""
import ast, os, hashlib

REPO = os.environ.get("VP_REPO", "/repo")
PKG = "verypy"


class AnalysisBroken(Exception):
    """An anchor vanished or the analysis cannot run: error exit, no verdict."""


class Func:
    def __init__(self, module, node, qualname, cls=None, parent=None):
        self.module = module
        self.node = node
        self.qualname = qualname
        self.name = node.name
        self.cls = cls
        self.parent = parent          # enclosing Func for nested functions
        a = node.args
        self.posargs = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        nd = len(a.defaults)
        self.defaults = dict(zip(self.posargs[len(self.posargs) - nd:], a.defaults)) if nd else {}
        for n, dflt in zip(self.kwonly, a.kw_defaults):
            if dflt is not None:
                self.defaults[n] = dflt
        self.nested = {}
        self.redefined = {}

    @property
    def params(self):
        return self.posargs + self.kwonly

    @property
    def where(self):
        return "%s:%s" % (self.module.rel, self.qualname)

    def loc(self, node=None):
        n = node if node is not None else self.node
        return "%s:%d (%s)" % (self.module.rel, getattr(n, "lineno", 0), self.qualname)

    def __repr__(self):
        return "<Func %s>" % self.where


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}

    @property
    def where(self):
        return "%s:%s" % (self.module.rel, self.name)


MIRROR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def fixed(e):
    return isinstance(e, ast.Constant) or isinstance(e, ast.Tuple) and all(map(fixed, e.elts)) or \
        isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and fixed(e.operand)


def canonical(tree):
    """the same program with a condition that is named right before its only use put back, and constants on the right of comparisons"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in MIRROR and fixed(n.left) and \
                not fixed(n.comparators[0]):
            n.left, n.ops, n.comparators = n.comparators[0], [MIRROR[type(n.ops[0])]()], [n.left]
    for f in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module))]:
        loads, stores = {}, {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                d = loads if isinstance(n.ctx, ast.Load) else stores
                d[n.id] = d.get(n.id, 0) + 1
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    stores[x] = 9
        for n in ast.walk(f):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not isinstance(b, list) or len(b) < 2:
                    continue
                i = 0
                while i + 1 < len(b):
                    a, t = b[i], b[i + 1]
                    if isinstance(t, ast.If) and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and \
                            isinstance(a.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and loads.get(a.targets[0].id) == 1 == stores[a.targets[0].id]:
                        x = a.targets[0].id
                        e = t.test
                        if isinstance(e, ast.Name) and e.id == x:
                            t.test = a.value
                        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) and isinstance(e.operand, ast.Name) and e.operand.id == x:
                            e.operand = a.value
                        elif isinstance(e, ast.BoolOp) and isinstance(e.values[0], ast.Name) and e.values[0].id == x:
                            e.values[0] = a.value
                        else:
                            i += 1
                            continue
                        del b[i]
                        i = max(i - 1, 0)
                        continue
                    i += 1
    for n in ast.walk(tree):
        if isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value is True and not n.orelse and len(n.body) > 1:
            t = n.body[0]
            if isinstance(t, ast.If) and not t.orelse and len(t.body) == 1 and isinstance(t.body[0], ast.Break):
                neg = isinstance(t.test, ast.UnaryOp) and isinstance(t.test.op, ast.Not)
                n.test = t.test.operand if neg else ast.copy_location(ast.UnaryOp(ast.Not(), t.test), t.test)
                del n.body[0]
        elif isinstance(n, ast.If):
            while not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and not debugs(n.test) \
                    and not debugs(n.body[0].test):
                t = n.body[0]
                vals = []
                for e in (n.test, t.test):
                    vals += e.values if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) else [e]
                n.test, n.body = ast.copy_location(ast.BoolOp(ast.And(), vals), n.test), t.body
    return tree


def debugs(e):
    return any(isinstance(x, ast.Name) and x.id == "__debug__" for x in ast.walk(e))


class Module:
    def __init__(self, repo, path, rel, dotted):
        self.repo, self.path, self.rel, self.dotted = repo, path, rel, dotted
        with open(path, encoding="utf-8") as fh:
            self.src = fh.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = canonical(ast.parse(self.src, path))
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.functions = {}           # qualname -> Func (all, incl. nested/methods)
        self.top = {}                 # top-level name -> Func | ClassInfo
        self.classes = {}
        self.imports = {}             # local name -> ("mod", dotted) | ("sym", dotted, name)
        self.star_imports = []
        self.import_alts = {}         # name -> all (sym) imports binding it (try/except fallbacks)
        self.assigns = {}             # top-level simple constant assigns name -> [value nodes]
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self._index(self.tree.body, "", None, None)
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._imp(n)
        self._consts(self.tree.body)

    def _consts(self, body):
        for s in body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                for sub in ([s.body, s.orelse] + [h.body for h in getattr(s, "handlers", [])]
                            + [getattr(s, "finalbody", [])]):
                    self._consts(sub)

    def _index(self, body, prefix, cls, parent):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + s.name
                k = 1
                while q in self.functions:
                    # conditional redefinition: keep all, the name refers to the last one
                    k += 1
                    q = prefix + s.name + "#%d" % k
                f = Func(self, s, q, cls, parent)
                s._func = f
                self.functions[q] = f
                if parent is not None:
                    parent.redefined.setdefault(s.name, []).append(f)
                if parent is None and cls is None:
                    self.top[s.name] = f
                elif parent is not None:
                    parent.nested[s.name] = f
                else:
                    cls.methods[s.name] = f
                self._index(s.body, q + ".", None, f)
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(self, s)
                self.classes[prefix + s.name] = c
                if not prefix:
                    self.top[s.name] = c
                self._index(s.body, prefix + s.name + ".", c, parent)
            else:
                for sub in _bodies(s):
                    self._index(sub, prefix, cls, parent)

    def _imp(self, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    self.imports[a.asname] = ("mod", a.name)
                else:
                    self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            base = n.module or ""
            if n.level:
                pk = self.dotted.split(".")
                if not self.is_pkg:
                    pk = pk[:-1]
                pk = pk[:len(pk) - (n.level - 1)]
                base = ".".join(pk + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == "*":
                    self.star_imports.append(base)
                else:
                    self.imports[a.asname or a.name] = ("sym", base, a.name)
                    alts = self.import_alts.setdefault(a.asname or a.name, [])
                    if ("sym", base, a.name) not in alts:
                        alts.append(("sym", base, a.name))


def _bodies(s):
    out = []
    for f in ("body", "orelse", "finalbody"):
        v = getattr(s, f, None)
        if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
            out.append(v)
    for h in getattr(s, "handlers", []) or []:
        out.append(h.body)
    return out


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s is gone" % base)
        self.modules = {}             # dotted -> Module
        h = hashlib.sha256()
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                dotted = rel[:-3].replace(os.sep, ".")
                if dotted.endswith(".__init__"):
                    dotted = dotted[:-9]
                m = Module(self, p, rel, dotted)
                h.update(rel.encode() + b"\0" + m.src.encode() + b"\0")
                self.modules[dotted] = m
        self.digest = h.hexdigest()[:16]

    def mod(self, dotted):
        m = self.modules.get(dotted)
        if m is None:
            raise AnalysisBroken("module %s is gone" % dotted)
        return m

    def func(self, dotted, qual):
        m = self.mod(dotted)
        f = m.functions.get(qual)
        if f is None:
            # follow a re-export
            r = self.resolve_name(m, qual) if "." not in qual else None
            if isinstance(r, Func):
                return r
            raise AnalysisBroken("function %s.%s is gone" % (dotted, qual))
        return f

    def all_functions(self):
        for dm in sorted(self.modules):
            for q in sorted(self.modules[dm].functions):
                yield self.modules[dm].functions[q]

    # -- name resolution -------------------------------------------------
    def resolve_sym(self, dotted, name, seen=None):
        """Resolve attribute `name` of module `dotted` inside the package."""
        seen = seen or set()
        if (dotted, name) in seen:
            return None
        seen.add((dotted, name))
        m = self.modules.get(dotted)
        if m is None:
            return ("ext", dotted + "." + name)
        if name in m.top:
            return m.top[name]
        if name in m.assigns:
            return ("const", m, name)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == "mod":
                return ("module", imp[1])
            r = self.resolve_sym(imp[1], imp[2], seen)
            if r is None and (imp[1] + "." + imp[2]) in self.modules:
                return ("module", imp[1] + "." + imp[2])
            return r
        if dotted + "." + name in self.modules:
            return ("module", dotted + "." + name)
        for s in m.star_imports:
            r = self.resolve_sym(s, name, seen)
            if r is not None:
                return r
        return None

    def resolve_name(self, module, name):
        return self.resolve_sym(module.dotted, name)

    def alternatives(self, module, name):
        """All functions a name may be bound to by fallback imports."""
        out = []
        if name in module.top:
            return out
        for imp in module.import_alts.get(name, ()):
            r = self.resolve_sym(imp[1], imp[2])
            if isinstance(r, Func) and r not in out:
                out.append(r)
        return out

    def resolve_expr(self, func_or_mod, e):
        """Resolve a Name/Attribute expression to Func/ClassInfo/('const',..)/
        ('ext',dotted)/None."""
        mod = func_or_mod.module if isinstance(func_or_mod, Func) else func_or_mod
        if isinstance(e, ast.Name):
            f = func_or_mod if isinstance(func_or_mod, Func) else None
            while f is not None:
                if e.id in f.nested:
                    return f.nested[e.id]
                if e.id in f.params or e.id in local_names(f):
                    # local alias `g = helper`?
                    v = single_assign(f, e.id)
                    if v is not None and isinstance(v, (ast.Name, ast.Attribute)):
                        if not (isinstance(v, ast.Name) and v.id == e.id):
                            return self.resolve_expr(f, v)
                    imp = local_import(f, e.id)
                    if imp is not None:
                        if imp[0] == "mod":
                            return ("module", imp[1])
                        return self.resolve_sym(imp[1], imp[2])
                    return None
                f = f.parent
            r = self.resolve_name(mod, e.id)
            if r is None and e.id in BUILTINS:
                return ("ext", "builtins." + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(func_or_mod, e.value)
            if isinstance(b, tuple) and b[0] == "module":
                if b[1] in self.modules or b[1].split(".")[0] == PKG:
                    return self.resolve_sym(b[1], e.attr)
                return ("ext", b[1] + "." + e.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if isinstance(b, ClassInfo):
                if e.attr in b.methods:
                    return b.methods[e.attr]
                return ("classattr", b, e.attr)
        return None

    def callee(self, func, call):
        c = self.__dict__.setdefault("_callee_cache", {})
        k = (id(func), id(call))
        if k not in c:
            c[k] = (self.resolve_expr(func, call.func), call)     # keep call alive
        return c[k][0]

    def callers_of(self, target):
        out = []
        for f in self.all_functions():
            for c in calls_in(f.node, own=True):
                if self.callee(f, c) is target:
                    out.append((f, c))
        return out


import builtins as _b
BUILTINS = set(dir(_b)) | {"__file__", "__name__", "__doc__", "__debug__", "__path__", "__package__", "__spec__"}


def own_walk(fnode):
    """Walk a function body without entering nested function/class/lambda
    scopes (but including decorators/defaults of nested defs is skipped)."""
    stack = list(fnode.body) if isinstance(fnode, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module, ast.ClassDef)) else [fnode]
    stack = stack[::-1]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(list(ast.iter_child_nodes(n))[::-1])


def calls_in(node, own=False):
    it = own_walk(node) if own else ast.walk(node)
    return [n for n in it if isinstance(n, ast.Call)]


def local_names(f):
    """Names bound in f's own scope."""
    c = getattr(f, "_locals", None)
    if c is not None:
        return c
    s = set(f.params)
    if f.vararg:
        s.add(f.vararg)
    if f.kwarg:
        s.add(f.kwarg)
    glob = set()
    comp = set()
    for n in own_walk(f.node):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for t in ast.walk(g.target):
                    comp.add(id(t))
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if id(n) not in comp:
                s.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            s.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                s.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    # comprehension targets are visited before their comp in DFS order? make robust
    s -= glob
    f._locals = s
    return s


def local_import(f, name):
    li = f.__dict__.get("_limports")
    if li is None:
        li = f._limports = [n for n in own_walk(f.node) if isinstance(n, (ast.Import, ast.ImportFrom))]
    for n in li:
        if isinstance(n, ast.Import):
            for a in n.names:
                if (a.asname or a.name.split(".")[0]) == name:
                    return ("mod", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == name:
                    return f.module.imports.get(name)
    return None


def single_assign(f, name):
    c = f.__dict__.setdefault("_single", {})
    if name not in c:
        c[name] = _single_assign(f, name)
    return c[name]


def _single_assign(f, name):
    vals = []
    for n in own_walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    vals.append(n.value)
                elif any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                    vals.append(None)
        elif isinstance(n, (ast.AugAssign, ast.For)):
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                vals.append(None)
    if len(vals) == 1 and name not in f.params:
        return vals[0]
    return None


def bind_args(func, call, skip_self=False):
    """Map callee parameter -> argument expression. Returns (map, complete) where
    complete is False when *args/**kwargs hide part of the binding."""
    names = list(func.posargs)
    if skip_self and names:
        names = names[1:]
    m, complete = {}, True
    pos = 0
    for a in call.args:
        if isinstance(a, ast.Starred):
            complete = False
            break
        if pos < len(names):
            m[names[pos]] = a
            pos += 1
    for k in call.keywords:
        if k.arg is None:
            complete = False
        else:
            m[k.arg] = k.value
    return m, complete


def src_of(n):
    try:
        return ast.unparse(n)
    except Exception:
        return "<expr>"


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def is_debug_test(e):
    """True if `e` implies __debug__ (i.e. the branch is taken only in debug)."""
    if isinstance(e, ast.Name) and e.id == "__debug__":
        return True
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
        return any(is_debug_test(v) for v in e.values)
    return False
