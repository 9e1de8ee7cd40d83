"""Which repository functions may a callable parameter / local refer to?
Flow-insensitive, interprocedural fixpoint over argument bindings, defaults,
local assignments and tuple/list displays iterated by `for`."""
import ast
from .core import Func, ClassInfo, bind_args, own_walk, calls_in, local_names


class PointsTo:
    def __init__(self, repo):
        self.repo = repo
        self.param = {}     # (Func, param) -> set(Func)
        self.local = {}     # (Func, name) -> set(Func)
        self.done = False
        self.cache = {}
        self._solve()
        self.done = True

    def values(self, f, e, depth=0):
        """Function values expression e may have in f."""
        out = set()
        if depth > 6 or e is None:
            return out
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.repo.resolve_expr(f, e)
            if isinstance(r, Func):
                out.add(r)
                if isinstance(e, ast.Name):
                    m = f.module if isinstance(f, Func) else f
                    alts = self.repo.alternatives(m, e.id)
                    if len(alts) > 1 and r in alts:
                        out.update(alts)
                    if r.parent is not None:
                        out.update(r.parent.redefined.get(r.name, ()))
                return out
            if isinstance(e, ast.Name):
                g = f if isinstance(f, Func) else None
                while g is not None:
                    if e.id in g.params:
                        out |= self.param.get((g, e.id), set())
                    if e.id in local_names(g):
                        out |= self.local.get((g, e.id), set())
                        break
                    g = g.parent
                if isinstance(r, tuple) and r[0] == "const":
                    for v in r[1].assigns.get(r[2], []):
                        out |= self.values(r[1], v, depth + 1) if not isinstance(v, ast.Name) or v.id != e.id else set()
            return out
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            for x in e.elts:
                out |= self.values(f, x, depth + 1)
        elif isinstance(e, ast.Dict):
            for x in e.values:
                out |= self.values(f, x, depth + 1)
        elif isinstance(e, ast.IfExp):
            out |= self.values(f, e.body, depth + 1) | self.values(f, e.orelse, depth + 1)
        elif isinstance(e, ast.BoolOp):
            for x in e.values:
                out |= self.values(f, x, depth + 1)
        elif isinstance(e, ast.Subscript):
            out |= self.values(f, e.value, depth + 1)
            out |= self._kwval(f, e.value, e.slice)
        elif isinstance(e, ast.BinOp):
            out |= self.values(f, e.left, depth + 1) | self.values(f, e.right, depth + 1)
        elif isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "pop") and e.args:
                out |= self._kwval(f, e.func.value, e.args[0])
            # functions returned by a repository factory (get_x_algorithm)
            t = self.repo.callee(f, e) if isinstance(f, Func) else None
            if isinstance(t, Func):
                for n in own_walk(t.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out |= self.values(t, n.value, depth + 1)
        return out

    def _kwval(self, f, base, key):
        # callbacks["name"] where callbacks is the **kwargs of an enclosing function
        g = f if isinstance(f, Func) else None
        while g is not None and isinstance(base, ast.Name) and isinstance(key, ast.Constant):
            if g.kwarg == base.id:
                return self.param.get((g, "**" + str(key.value)), set())
            g = g.parent
        return set()

    def _add(self, tab, key, vals):
        s = tab.setdefault(key, set())
        n = len(s)
        s |= vals
        return len(s) != n

    def _solve(self):
        changed = True
        it = 0
        while changed and it < 12:
            changed = False
            it += 1
            for f in self.repo.all_functions():
                for p, dflt in f.defaults.items():
                    changed |= self._add(self.param, (f, p), self.values(f.parent or f.module, dflt)
                                         if not isinstance(f.parent, Func) else self.values(f.parent, dflt))
                for n in own_walk(f.node):
                    if isinstance(n, ast.Assign):
                        v = self.values(f, n.value)
                        if v:
                            for t in n.targets:
                                for x in ast.walk(t):
                                    if isinstance(x, ast.Name):
                                        changed |= self._add(self.local, (f, x.id), v)
                    elif isinstance(n, (ast.For, ast.comprehension)):
                        v = self.values(f, n.iter)
                        if v:
                            for x in ast.walk(n.target):
                                if isinstance(x, ast.Name):
                                    changed |= self._add(self.local, (f, x.id), v)
                    elif isinstance(n, ast.Call):
                        for t in self.callees(f, n):
                            m, _ = bind_args(t, n)
                            for p, a in m.items():
                                v = self.values(f, a)
                                if p not in t.params and t.kwarg:
                                    p = "**" + p
                                if v:
                                    changed |= self._add(self.param, (t, p), v)

    def callees(self, f, call):
        if self.done:
            k = (id(f), id(call))
            if k not in self.cache:
                self.cache[k] = (self._callees(f, call), call)
            return self.cache[k][0]
        return self._callees(f, call)

    def _callees(self, f, call):
        r = self.repo.callee(f, call)
        if isinstance(r, Func):
            if isinstance(call.func, ast.Name):
                return self.values(f, call.func) or {r}
            return {r}
        if isinstance(r, ClassInfo):
            i = r.methods.get("__init__")
            return set() if i is None else set()
        return self.values(f, call.func)
