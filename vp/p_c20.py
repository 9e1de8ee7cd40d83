"""C20: typestate of solver models (limits -> optimize -> handler restored -> status examined -> result) and of temporary
files, over control flow graphs with the helpers inlined."""
import ast
from .cfg import CFG
from .core import Func, own_walk
from .api import is_aux

STATUS = {"LOADED": 1, "OPTIMAL": 2, "INFEASIBLE": 3, "INF_OR_UNBD": 4, "UNBOUNDED": 5, "CUTOFF": 6, "ITERATION_LIMIT": 7,
          "NODE_LIMIT": 8, "TIME_LIMIT": 9, "SOLUTION_LIMIT": 10, "INTERRUPTED": 11, "NUMERIC": 12, "SUBOPTIMAL": 13}
CASES = ("OPTIMAL", "INFEASIBLE", "TIME_LIMIT", "INTERRUPTED", "NUMERIC")
LIMITS = {"timelimit": "MAX_MIP_SOLVER_RUNTIME", "threads": "MIP_SOLVER_THREADS"}
RESULT = {"x", "objval", "objbound", "mipgap", "xn", "poolobjval"}
# the degree constrained edge model on a complete graph has a solution for every input
ALWAYS_SOLVABLE = ("solve_tsp_gurobi",)
MARKS = {"optimize", "setParam", "Status", "status", "getAttr", "params", "Params", "feasRelax", "Model", "signal", "remove", "unlink",
         "NamedTemporaryFile", "mkstemp", "X"}
BUDGET = 60000


def marks(repo, t, depth=0, seen=()):
    if t in seen or depth > 3:
        return False
    for n in own_walk(t.node):
        if isinstance(n, ast.Attribute) and n.attr in MARKS or isinstance(n, ast.Name) and n.id in ("Model", "signal", "NamedTemporaryFile", "mkstemp"):
            return True
        if isinstance(n, ast.Call):
            c = repo.callee(t, n)
            if isinstance(c, Func) and marks(repo, c, depth + 1, seen + (t,)):
                return True
    return False


class Walk:
    def __init__(self, repo, rep, f, complete=()):
        self.repo, self.rep, self.f = repo, rep, f
        self.partial = False       # hands a model, status or file on, or solves a model it was given
        self.cfg = CFG(f, repo, inline=lambda t, e, d: t not in complete and not is_aux(t.module) and marks(repo, t), debug_off=True)
        self.found = {}            # (rule, construct) -> text
        self.opt, self.tmp = set(), set()
        self.unsure = set()
        self.steps = 0
        self.refs = {}             # file -> files named in it

    # -- values: ("model",k) ("status",name) ("path",k) ("file",k) ("proc",vals) ("t", vals) ("num", n) ("cfg", name) None
    def ext(self, n, e):
        r = self.repo.resolve_expr(n.func or self.f, e)
        if isinstance(r, tuple) and r[0] == "ext":
            return r[1]
        return None

    def val(self, n, e, env):
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.repo.resolve_expr(n.func or self.f, e)
            if isinstance(r, tuple) and r[0] == "const":
                if r[1].dotted.endswith("config"):
                    return ("cfg", r[2])
                vs = r[1].assigns.get(r[2], [])
                if len(vs) == 1:
                    return self.val(n, vs[0], {})
            return None
        if isinstance(e, ast.Constant):
            return ("num", e.value) if isinstance(e.value, (int, float, str)) else None
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return ("t", tuple(self.val(n, x, env) for x in e.elts))
        if isinstance(e, ast.Attribute):
            b = self.val(n, e.value, env)
            if b and b[0] == "model" and e.attr.lower() == "status":
                return self.st_of(b)
            if b and b[0] == "file" and e.attr == "name":
                return ("path", b[1])
            if e.attr in STATUS and ast.unparse(e.value).split(".")[-1] in ("GRB", "Status", "gurobipy"):
                return ("status", e.attr)
            r = self.repo.resolve_expr(n.func or self.f, e)
            if isinstance(r, tuple) and r[0] == "const" and r[1].dotted.endswith("config"):
                return ("cfg", r[2])
            return None
        if isinstance(e, ast.Subscript):
            b = self.val(n, e.value, env)
            if b and b[0] == "t" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                try:
                    return b[1][e.slice.value]
                except IndexError:
                    return None
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.val(n, e.left, env), self.val(n, e.right, env)
            if a and b and a[0] == b[0] == "t":
                return ("t", a[1] + b[1])
            return None
        if isinstance(e, ast.Call):
            return self.call_value(n, e, env)
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(n, e, env)
            return None if t is None else ("bool", t)
        if isinstance(e, ast.BinOp):
            ps = self.paths(self.val(n, e.right, env)) | self.paths(self.val(n, e.left, env))
            return ("proc", (ps,)) if ps else None
        if isinstance(e, ast.JoinedStr):
            ps = frozenset().union(*[self.paths(self.val(n, x.value, env)) for x in e.values if isinstance(x, ast.FormattedValue)])
            return ("proc", (ps,)) if ps else None
        if isinstance(e, ast.IfExp):
            t = self.truth(n, e.test, env)
            if t is not None:
                return self.val(n, e.body if t else e.orelse, env)
        return None

    def st_of(self, m):
        s = self.status.get(m[1])
        return ("status", s) if s else None

    def call_value(self, n, e, env):
        x = self.ext(n, e.func)
        last = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if x and x.endswith(".Model") and x.startswith("gurobipy"):
            return ("model", "%d" % id(e))
        if isinstance(e.func, ast.Attribute):
            b = self.val(n, e.func.value, env)
            if b and b[0] == "model" and last == "getAttr" and e.args and isinstance(e.args[0], ast.Constant) and \
                    str(e.args[0].value).lower() == "status":
                return self.st_of(b)
        if x in ("tempfile.NamedTemporaryFile",):
            d = next((k.value for k in e.keywords if k.arg == "delete"), None)
            if isinstance(d, ast.Constant) and d.value is False:
                return ("file", self.label(n, e))
            return None
        if x == "tempfile.mkstemp":
            return ("t", (None, ("path", self.label(n, e))))
        if x and x.startswith("subprocess."):
            return ("proc", tuple(self.refer(self.paths(self.val(n, a, env))) for a in e.args))
        if x in ("builtins.open", "io.open") and e.args:
            p = self.paths(self.val(n, e.args[0], env))
            return ("open", p) if p else None
        if x in ("builtins.list", "builtins.tuple", "builtins.str", "os.fspath") and len(e.args) == 1:
            return self.val(n, e.args[0], env)
        return None

    def refer(self, ps):
        """with the files that the contents of these files name"""
        out = set(ps)
        while True:
            more = set().union(*[self.refs.get(p, set()) for p in out]) - out if out else set()
            if not more:
                return frozenset(out)
            out |= more

    def label(self, n, e):
        suf = next((k.value.value for k in e.keywords if k.arg == "suffix" and isinstance(k.value, ast.Constant)), None)
        same = [c for c in ast.walk(self.f.node) if isinstance(c, ast.Call)]
        i = [c.lineno for c in same if ast.unparse(c.func) == ast.unparse(e.func)].index(e.lineno) if any(
            c.lineno == e.lineno and ast.unparse(c.func) == ast.unparse(e.func) for c in same) else 0
        return "temporary file %s" % (suf or "#%d" % i)

    def paths(self, v):
        if not v:
            return frozenset()
        if v[0] in ("path", "file"):
            return frozenset([v[1]])
        if v[0] in ("t", "proc", "each"):
            out = frozenset()
            for x in v[1]:
                out |= x if isinstance(x, frozenset) else self.paths(x)
            return out
        return frozenset()

    def truth(self, n, e, env):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(n, e.operand, env)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(n, x, env) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in ts else (True if all(ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b, op = self.val(n, e.left, env), self.val(n, e.comparators[0], env), e.ops[0]
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                r = same(a, b)
                return None if r is None else r == isinstance(op, (ast.Eq, ast.Is))
            if isinstance(op, (ast.In, ast.NotIn)) and b and b[0] == "t" and a:
                rs = [same(a, x) for x in b[1]]
                r = True if True in rs else (None if None in rs else False)
                return None if r is None else r == isinstance(op, ast.In)
        if isinstance(e, ast.Call):
            x = self.ext(n, e.func)
            if x in ("os.path.exists", "os.path.isfile") and len(e.args) == 1:
                p = self.paths(self.val(n, e.args[0], env))
                if p:
                    return bool(p & self.live)
        if isinstance(e, ast.Name):
            v = env.get(e.id)
            if v and v[0] in ("path", "file", "model"):
                return True
            if v and v[0] == "bool":
                return v[1]
        return None

    def mentions_status(self, n, e, env):
        for x in ast.walk(e):
            if isinstance(x, (ast.Name, ast.Attribute)):
                v = self.val(n, x, env)
                if v and v[0] == "status" and not (isinstance(x, ast.Attribute) and x.attr in STATUS):
                    return True
        return False

    def bad(self, rule, what, node, text):
        key = (rule, "%s|%s" % (self.f.where, what))
        self.found.setdefault(key, "%s: %s" % (self.f.loc(node) if hasattr(node, "lineno") else self.f.where, text))

    # -- events of one node; may fork on optimize
    def events(self, n, state):
        env, lim, status, restored, live, gone, unsure = state
        self.status, self.live = dict(status), set(live)
        env = dict(env)
        lim = dict(lim)
        gone = set(gone)
        out = None
        a = n.ast
        exprs = []
        if n.kind in ("stmt", "ret", "cond"):
            exprs = [a]
        elif n.kind in ("iterinit",):
            exprs = [a.iter]
        if n.kind == "stmt" and isinstance(a, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return [state]
        forks = []
        for e in exprs:
            calls = [c for c in walk_eval(e) if isinstance(c, ast.Call)]
            for c in calls:
                last = c.func.attr if isinstance(c.func, ast.Attribute) else ""
                x = self.ext(n, c.func)
                m = self.val(n, c.func.value, env) if isinstance(c.func, ast.Attribute) else None
                if last.lower() == "setparam" and len(c.args) >= 2:
                    p = self.val(n, c.args[0], env)
                    if isinstance(c.args[0], ast.Attribute):
                        p = ("num", c.args[0].attr)
                    if p and p[0] == "num" and str(p[1]).lower() in LIMITS:
                        self.setlimit(n, lim, str(p[1]).lower(), c.args[1], env, c)
                elif last == "optimize" and (m and m[0] == "model" or m is None and (len(c.args) <= 1) and self.modelish(n, c.func.value)):
                    k = m[1] if m else ast.unparse(c.func.value)
                    if not m:
                        env[k] = ("model", k)
                        self.partial = True
                        lim = {q: ("cfg", w) for q, w in LIMITS.items()}     # set by the caller, analysed there
                    self.opt.add(c.lineno)
                    for q, w in LIMITS.items():
                        g = lim.get(q)
                        if g is None:
                            self.bad("limits", q, c, "the model is solved without its %s" % ("time limit" if q == "timelimit" else "thread limit"))
                        elif g != ("cfg", w) and g != "?":
                            self.bad("limits", q, c, "%s is set to %s, not to the configured %s" % (q, g[1], w))
                    if restored is False:
                        self.bad("handler-restored", "optimize again", c, "solves again before interrupt handling is restored")
                    forks.append((k, c))
                elif x == "signal.signal" and len(c.args) == 2:
                    s, h = self.ext(n, c.args[0]), self.ext(n, c.args[1])
                    if s == "signal.SIGINT":
                        if h == "signal.default_int_handler":
                            restored = True
                        elif h in ("signal.SIG_IGN", "signal.SIG_DFL"):
                            self.bad("handler-restored", "other handler", c, "interrupts are handed to %s after solving" % h)
                            restored = True
                        elif isinstance(self.val(n, c.args[1], env), tuple) or h is None:
                            restored = True
                elif x in ("os.remove", "os.unlink") or last == "unlink":
                    arg = c.args[0] if c.args else (c.func.value.args[0] if isinstance(c.func, ast.Attribute) and
                                                    isinstance(c.func.value, ast.Call) and c.func.value.args else None)
                    ps = self.paths(self.val(n, arg, env)) if arg is not None else frozenset()
                    self.live -= ps
                    gone |= ps
                    continue
                elif last in ("reset",) and m and m[0] == "model":
                    self.status[m[1]] = None
                elif last in ("append", "extend") and isinstance(c.func.value, ast.Name) and env.get(c.func.value.id, (0,))[0] == "t" and c.args:
                    v = self.val(n, c.args[0], env)
                    add = (v,) if last == "append" else (v[1] if v and v[0] == "t" else ())
                    if len(env[c.func.value.id][1]) < 12:
                        env[c.func.value.id] = ("t", env[c.func.value.id][1] + add)
                if last in ("write", "writelines") and m and m[0] == "open" and c.args:
                    for p in m[1]:
                        self.refs.setdefault(p, set()).update(self.paths(self.val(n, c.args[0], env)) - {p})
                if last == "getAttr" and m and m[0] == "model" and c.args and isinstance(c.args[0], ast.Constant) and \
                        str(c.args[0].value).lower() in RESULT:
                    self.use(n, c, m[1], restored, unsure)
                if last in ("getObjective",) and m and m[0] == "model":
                    self.use(n, c, m[1], restored, unsure)
                if x in ("tempfile.NamedTemporaryFile", "tempfile.mkstemp"):
                    for p in self.paths(self.call_value(n, c, env)):
                        self.tmp.add(p)
                        self.live.add(p)
                        gone.discard(p)
                elif gone and x not in ("os.path.exists", "os.path.isfile", "os.remove", "os.unlink") and last not in ("log", "wait", "poll"):
                    vs = [self.val(n, y, env) for y in list(c.args) + [k.value for k in c.keywords]]
                    if last == "communicate" and m:
                        vs.append(m)
                    if x and x.startswith("subprocess."):
                        vs = [self.call_value(n, c, env)]
                    for v in vs:
                        if self.paths(v) & gone:
                            self.bad("temp-removed", sorted(self.paths(v) & gone)[0] + " used", c, "uses a temporary file after its removal")
            for x in walk_eval(e):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    m = self.val(n, x.value, env)
                    if x.attr.lower() in RESULT and (m and m[0] == "model" or m is None and x.attr in ("X",) and self.status):
                        self.use(n, x, m[1] if m else next(iter(self.status)), restored, unsure)
        if n.kind == "stmt" and isinstance(a, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            tgts = a.targets if isinstance(a, ast.Assign) else [a.target]
            for t in tgts:
                if isinstance(t, ast.Attribute) and t.attr.lower() in LIMITS and isinstance(t.value, ast.Attribute) and t.value.attr.lower() == "params":
                    self.setlimit(n, lim, t.attr.lower(), a.value, env, a)
                if isinstance(a, ast.AugAssign):
                    if isinstance(t, ast.Name):
                        v, w = env.get(t.id), self.val(n, a.value, env)
                        env[t.id] = ("t", v[1] + w[1]) if v and w and v[0] == w[0] == "t" else None
                else:
                    if a.value is not None:
                        self.bind(t, self.val(n, a.value, env), env)
        env = {k: v for k, v in env.items() if v is not None and tracked(v)}
        if n.kind == "iterinit":
            pass
        if n.kind == "ret" or (n.kind == "stmt" and isinstance(a, ast.Raise)):
            if restored is False:
                self.bad("handler-restored", "left", a, "is left after solving without restoring interrupt handling")
        if forks:
            res = []
            for case in CASES:
                st = dict(self.status)
                for k, c in forks:
                    st[k] = case
                res.append((env, lim, st, False, self.live, gone, unsure))
            return res
        return [(env, lim, self.status, restored, self.live, gone, unsure)]

    def modelish(self, n, e):
        return isinstance(e, ast.Name) and any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == e.id and
                                               x.attr in ("Status", "feasRelax", "status", "setParam", "addVars") for x in ast.walk(self.f.node))

    def setlimit(self, n, lim, q, e, env, at):
        v = self.val(n, e, env)
        if v and v[0] == "cfg":
            lim[q] = v
        elif isinstance(e, ast.Constant):
            lim[q] = ("num", repr(e.value))
        elif any(self.val(n, x, env) == ("cfg", LIMITS[q]) for x in ast.walk(e) if isinstance(x, (ast.Name, ast.Attribute))):
            lim[q] = "?" if isinstance(e, ast.Call) else ("expr", ast.unparse(e))
        else:
            lim[q] = "?"

    def use(self, n, at, k, restored, unsure):
        s = self.status.get(k)
        if restored is False:
            self.bad("handler-restored", "result used", at, "uses the result before interrupt handling is restored")
        if s is None or unsure:
            return
        if s in ("TIME_LIMIT", "INTERRUPTED") or s in ("INFEASIBLE", "NUMERIC") and self.f.name not in ALWAYS_SOLVABLE:
            self.bad("status-examined", "%s result" % s, at, "uses the result of a model whose status may be %s" % s)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v and v[0] == "t" and len(v[1]) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env)
        elif isinstance(t, ast.Attribute) or isinstance(t, ast.Subscript):
            for p in self.paths(v):
                self.live.discard(p)       # kept elsewhere

    def run(self):
        start = ({}, {}, {}, None, set(), set(), False)
        st = [(self.cfg.entry, start)]
        seen = set()
        while st:
            n, s = st.pop()
            k = (n.id, freeze(s))
            if k in seen:
                continue
            seen.add(k)
            self.steps += 1
            if self.steps > BUDGET:
                self.unsure.add("too many states")
                return
            for s2 in self.events(n, s):
                env, lim, status, restored, live, gone, unsure = s2
                self.status, self.live = dict(status), set(live)
                if n.kind == "ret":
                    self.ending(n, s2, "return")
                if n.kind == "stmt" and isinstance(n.ast, ast.Raise):
                    self.ending(n, s2, "raise")
                t = None
                if n.kind == "cond":
                    t = self.truth(n, n.ast, env)
                    if t is None and self.mentions_status(n, n.ast, env):
                        s2 = (env, lim, status, restored, live, gone, True)
                        self.unsure.add("test %s" % ast.unparse(n.ast))
                for m, l in n.succ:
                    if l == "exc" and not (n.kind == "stmt" and isinstance(n.ast, ast.Raise)) and m.kind != "dispatch":
                        continue
                    if l == "exc" and not (n.kind == "stmt" and isinstance(n.ast, ast.Raise)):
                        continue
                    if t is not None and l in (True, False) and l is not t:
                        continue
                    s3 = s2
                    if n.kind == "iter" and l is True:
                        e = dict(env)
                        v = self.val(n, n.ast.iter, env)
                        self.bind(n.ast.target, ("each", v[1]) if v and v[0] == "t" else None, e)
                        e = {k: v for k, v in e.items() if v is not None and tracked(v)}
                        s3 = (e,) + s2[1:]
                    elif n.kind == "iter" and l is False:
                        v = self.val(n, n.ast.iter, env)
                        if v and v[0] == "t" and v[1] and not any(isinstance(x, ast.Break) for x in ast.walk(n.ast)):
                            # a loop over a fixed non-empty list runs
                            ps = self.paths(v) & set(live)
                            if ps and any(isinstance(x, ast.Call) and self.ext(n, x.func) in ("os.remove", "os.unlink") for x in ast.walk(n.ast)):
                                continue
                    if m is self.cfg.exit and n.kind != "ret":
                        self.ending(n, s3, "return")
                    st.append((m, s3))

    def ending(self, n, s, how):
        env, lim, status, restored, live, gone, unsure = s
        at = n.ast if n.ast is not None and hasattr(n.ast, "lineno") else self.f.node
        if how == "return":
            if restored is False and n.kind != "ret":
                self.bad("handler-restored", "left", at, "ends after solving without restoring interrupt handling")
            v = self.val(n, n.ast.value, env) if n.kind == "ret" and n.ast.value is not None else None
            if v and (v[0] in ("model", "status", "path", "file") or v[0] == "t" and any(
                    x and x[0] in ("model", "status", "path", "file") for x in v[1])):
                self.partial = True
            for p in set(live) - self.paths(v):
                self.bad("temp-removed", p, at, "returns without removing the %s" % p)
            if unsure:
                return
            for k, x in status.items():
                if x in ("INTERRUPTED", "TIME_LIMIT"):
                    if v and (v[0] in ("model", "status") or v[0] == "t" and any(y and y[0] in ("model", "status") for y in v[1])):
                        continue
                    self.bad("status-examined", "%s returns" % x, at, "returns normally when the solver's status is %s" % x)
        else:
            e = n.ast.exc
            name = ast.unparse(e.func if isinstance(e, ast.Call) else e).split(".")[-1] if e is not None else ""
            if unsure:
                return
            for k, x in status.items():
                if x == "INTERRUPTED" and e is not None and name != "KeyboardInterrupt":
                    self.bad("status-examined", "INTERRUPTED raises", at, "raises %s when the solver was interrupted" % name)
                if x == "TIME_LIMIT" and name == "KeyboardInterrupt":
                    self.bad("status-examined", "TIME_LIMIT raises", at, "reports the time limit as a user interrupt")
                if x == "OPTIMAL" and e is not None:
                    self.bad("status-examined", "OPTIMAL raises", at, "raises %s although the model was solved" % name)


def tracked(v):
    if v[0] in ("model", "status", "path", "file", "cfg", "num", "bool", "open"):
        return v[0] != "num" or True
    if v[0] in ("t", "each"):
        return any(x is not None and tracked(x) for x in v[1])
    if v[0] == "proc":
        return any(v[1])
    return False


def freeze(s):
    env, lim, status, restored, live, gone, unsure = s
    return (tuple(sorted((k, repr(v)) for k, v in env.items() if v[0] != "num")), tuple(sorted((k, repr(v)) for k, v in lim.items())),
            tuple(sorted((k, str(v)) for k, v in status.items())), restored, frozenset(live), frozenset(gone), unsure)


def same(a, b):
    if a is None or b is None:
        return None
    if a[0] == "num" and b[0] == "status":
        a, b = b, a
    if a[0] == "status" and b[0] == "status":
        return a[1] == b[1]
    if a[0] == "status" and b[0] == "num":
        return STATUS.get(a[1]) == b[1]
    return None


def walk_eval(e):
    """subexpressions evaluated with the statement"""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield x
        st.extend(reversed(list(ast.iter_child_nodes(x))))


def run(repo, rep):
    rep.rule("limits", "at every optimize() the model's time and thread limits are set to the configured ones, on every path", 4)
    rep.rule("handler-restored", "on every path from optimize() the default interrupt handler is set again before the result is used, "
             "the model is solved again or the function is left", 4)
    rep.rule("status-examined", "for each possible status: results are used only when solved; an interrupt raises KeyboardInterrupt, "
             "a time limit raises an error", 4)
    rep.rule("temp-removed", "each temporary file that outlives its handle is removed on every normal path, after its last use", 3)
    walks, todo, complete = {}, [], []
    for f in repo.all_functions():
        if not is_aux(f.module) and any(
                isinstance(x, ast.Attribute) and x.attr == "optimize" or isinstance(x, (ast.Name, ast.Attribute)) and
                getattr(x, "id", getattr(x, "attr", "")) in ("NamedTemporaryFile", "mkstemp", "Model") for x in own_walk(f.node)):
            todo.append(f)
    while todo:
        for f in todo:
            walks[f] = w = Walk(repo, rep, f, complete)
            w.run()
        complete += [f for f in todo if not walks[f].partial]
        todo = [g for f in todo if walks[f].partial for g, c in repo.callers_of(f) if g not in walks and not is_aux(g.module)]
        todo = list(dict.fromkeys(todo))
    inlined = {x for w in walks.values() for x in w.cfg.inlined}
    for w in walks.values():
        partial = w.partial and w.f.where in inlined
        fnd = {k: t for k, t in w.found.items()}
        if partial:
            fnd = {}
        for (rule, construct), text in sorted(fnd.items()):
            rep.violate(rule, construct, text)
        bad = {k[0] for k in fnd}
        for u in w.unsure:
            rep.skip("status-examined", "%s: %s" % (w.f.where, u))
        for ln in sorted(w.opt):
            i = sorted(w.opt).index(ln)
            for rule in ("limits", "handler-restored", "status-examined"):
                if rule not in bad:
                    rep.ok(rule, "%s optimize #%d" % (w.f.where, i))
        for p in sorted(w.tmp):
            if "temp-removed" not in bad:
                rep.ok("temp-removed", "%s %s" % (w.f.where, p))
    rep.assume("Gurobi's feasRelax() itself does not end with an interrupt status; implicit exceptions between solving and restoring are not followed")
    rep.assume("the travelling salesman model (complete graph, degree constraints) is never infeasible")
    return {"scope": "%d functions with solver models or temporary files, %d states" % (len(walks), sum(w.steps for w in walks.values()))}
