"""Interprocedural constant propagation from the algorithm registry: which
functions, and which statements in them, can run when an algorithm is used the
way the registry uses it?  (Options that only a direct caller can switch on
keep their default and the code behind them is not reached.)"""
import ast
from .core import Func, ClassInfo, bind_args, local_names
from .cfg import CFG, _tnames

TOP = ("top",)
BOT = ("bot",)


def C(v):
    return ("c", type(v).__name__, v)


def join(a, b):
    if a is None:
        return b
    if b is None or a == b or b == BOT:
        return a
    if a == BOT:
        return b
    if a[0] == "t" and b[0] == "t" and len(a[1]) == len(b[1]):
        return ("t", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    return TOP


class Reach:
    def __init__(self, repo, pt, roots):
        self.repo, self.pt = repo, pt
        self.params = {}      # Func -> {param: val}
        self.rets = {}
        self.cfgs = {}
        self.live = {}        # Func -> set of live node ids
        self.envs = {}
        self.callers = {}
        self.reached = []
        self.work = []
        for f in roots:
            self.enter(f, {p: TOP for p in f.params}, None)
        while self.work:
            self._run(self.work.pop())

    def enter(self, f, binding, caller):
        if caller is not None:
            self.callers.setdefault(f, set()).add(caller)
        cur = self.params.get(f)
        if cur is None:
            self.params[f] = dict(binding)
            self.reached.append(f)
            self.work.append(f)
            return
        ch = False
        for p, v in binding.items():
            n = join(cur.get(p), v)
            if n != cur.get(p):
                cur[p] = n
                ch = True
        if ch and f not in self.work:
            self.work.append(f)

    def ev(self, e, env, f):
        if isinstance(e, ast.Constant):
            return C(e.value) if isinstance(e.value, (int, float, str, bool, type(None))) else TOP
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id == "__debug__":
                return TOP
            return TOP
        if isinstance(e, ast.Tuple):
            return ("t", tuple(self.ev(x, env, f) for x in e.elts))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, f)
            if v == BOT:
                return BOT
            if v[0] == "c":
                try:
                    if isinstance(e.op, ast.Not):
                        return C(not v[2])
                    if isinstance(e.op, ast.USub):
                        return C(-v[2])
                except Exception:
                    pass
            return TOP
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(x, env, f) for x in e.values]
            isand = isinstance(e.op, ast.And)
            for v in vs:
                if v[0] != "c":
                    return v if v == BOT else TOP
                if bool(v[2]) != isand:
                    return v
            return vs[-1]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env, f), self.ev(e.comparators[0], env, f)
            if BOT in (a, b):
                return BOT
            if a[0] == "c" and b[0] == "c":
                o = e.ops[0]
                try:
                    return C({ast.Is: lambda x, y: x is y or x == y and type(x) is type(y), ast.IsNot: lambda x, y: not (x is y or x == y and type(x) is type(y)),
                              ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y,
                              ast.Lt: lambda x, y: x < y, ast.Gt: lambda x, y: x > y,
                              ast.LtE: lambda x, y: x <= y, ast.GtE: lambda x, y: x >= y}[type(o)](a[2], b[2]))
                except Exception:
                    return TOP
            return TOP
        if isinstance(e, ast.IfExp):
            t = self.ev(e.test, env, f)
            if t[0] == "c":
                return self.ev(e.body if t[2] else e.orelse, env, f)
            return join(self.ev(e.body, env, f), self.ev(e.orelse, env, f))
        if isinstance(e, ast.Call):
            t = self.repo.callee(f, e)
            if isinstance(t, Func):
                # not analysed yet: optimistic bottom, refined when its result is known
                return self.rets.get(t, BOT)
            return TOP
        return TOP

    def _run(self, f):
        cfg = self.cfgs.get(f)
        if cfg is None:
            cfg = self.cfgs[f] = CFG(f, self.repo)
        # closures: enclosing function's locals unknown -> TOP
        env0 = {p: self.params[f].get(p) or TOP for p in f.params}
        if f.vararg:
            env0[f.vararg] = TOP
        if f.kwarg:
            env0[f.kwarg] = TOP
        ins = {cfg.entry.id: env0}
        work = [cfg.entry]
        ret = None
        while work:
            n = work.pop()
            env = ins[n.id]
            out, feasible = self._step(f, n, env)
            for s, l in n.succ:
                if feasible is not None and l in (True, False) and l != feasible:
                    continue
                o = env if l == "exc" and n.kind != "handler" else out
                if l == "exc":
                    o = self._meet(env, out)
                cur = ins.get(s.id)
                new = dict(o) if cur is None else self._meet(cur, o)
                if cur is None or new != cur:
                    ins[s.id] = new
                    if s not in work:
                        work.append(s)
        self.live[f] = set(ins)
        self.envs[f] = ins
        for n in cfg.nodes:
            if n.id not in ins:
                continue
            if n.kind == "ret":
                v = self.ev(n.ast.value, ins[n.id], f) if n.ast.value is not None else C(None)
                ret = join(ret, v)
            self._calls(f, n, ins[n.id])
        if cfg.exit.id in ins and any(p.kind != "ret" for p, _ in cfg.exit.pred if p.id in ins):
            ret = join(ret, C(None))
        old = self.rets.get(f)
        if ret is not None and ret != old:
            self.rets[f] = join(old, ret)
            for c in self.callers.get(f, ()):
                if c not in self.work:
                    self.work.append(c)

    def _meet(self, a, b):
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                out[k] = join(a[k], b[k])
            else:
                out[k] = a.get(k, b.get(k))
        return out

    def _assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == "t" and len(v[1]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v[1]):
                    self._assign(x, y, env)
            else:
                for x in _tnames(t):
                    env[x] = BOT if v == BOT else TOP

    def _step(self, f, n, env):
        a = n.ast
        if n.kind == "cond":
            v = self.ev(a, env, f)
            if v[0] == "c":
                return env, bool(v[2])
            if v == BOT:
                return env, "none"
            return env, None
        if n.kind == "iter":
            env = dict(env)
            for x in _tnames(a.target):
                env[x] = TOP
            return env, None
        if n.kind == "handler":
            if a.name:
                env = dict(env)
                env[a.name] = TOP
            return env, None
        if n.kind == "stmt":
            if isinstance(a, ast.Assign):
                env = dict(env)
                v = self.ev(a.value, env, f)
                for t in a.targets:
                    self._assign(t, v, env)
            elif isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name):
                env = dict(env)
                env[a.target.id] = TOP
            elif isinstance(a, (ast.FunctionDef, ast.ClassDef)):
                env = dict(env)
                env[a.name] = TOP
        return env, None

    def _calls(self, f, n, env):
        a = n.ast
        if a is None or n.kind in ("loop", "dispatch", "iter", "handler"):
            return
        roots = [a.iter] if n.kind == "iterinit" else [a]
        if isinstance(a, (ast.FunctionDef, ast.ClassDef)):
            return
        for r in roots:
            self._expr_calls(f, r, env)

    def _expr_calls(self, f, e, env):
        """Calls and function references evaluated by e, honouring constant
        IfExp/BoolOp short circuits."""
        if isinstance(e, ast.IfExp):
            t = self.ev(e.test, env, f)
            if t[0] == "c":
                self._expr_calls(f, e.body if t[2] else e.orelse, env)
                return
        if isinstance(e, ast.Call):
            ts = self.pt.callees(f, e)
            k = self.repo.callee(f, e)
            if isinstance(k, ClassInfo):
                for m in k.methods.values():
                    self.enter(m, {p: TOP for p in m.params}, f)
            for t in ts:
                m, ok = bind_args(t, e)
                b = {}
                for p in t.params:
                    if p in m:
                        b[p] = self.ev(m[p], env, f)
                    elif not ok:
                        b[p] = TOP
                    elif p in t.defaults:
                        b[p] = self.ev(t.defaults[p], {}, f)
                    else:
                        b[p] = TOP
                self.enter(t, b, f)
            # function valued arguments of library calls (sort keys etc.) are called by the library
            if not ts:
                for x in list(e.args) + [kw.value for kw in e.keywords]:
                    for v in self.pt.values(f, x):
                        self.enter(v, {p: TOP for p in v.params}, f)
        if isinstance(e, ast.Lambda):
            self._expr_calls(f, e.body, {k: v for k, v in env.items()
                                         if k not in {a.arg for a in e.args.args}})
            return
        for c in ast.iter_child_nodes(e):
            self._expr_calls(f, c, env)
