"""Flow of the problem data: which variable holds which of the user's inputs.

Every function is interpreted over role sets: ("role", r) is the unchanged input r, ("none",) and
("const", v) are literals, ("alt", r) is input r after arithmetic, ("unk",) anything else."""
import ast
from .core import Func, own_walk, bind_args, is_debug_test

CANON = {"D": "D", "D_c": "D", "D_cost": "D", "for_D": "D", "d": "d", "demands": "d", "C": "C", "L": "L",
         "st": "st", "service_time": "st", "points": "points", "minimize_K": "minimize_K", "wtt": "wtt",
         "ewt": "wtt", "single": "single"}
NONE = ("none",)
UNK = ("unk",)
SEQ = (ast.Tuple, ast.List)
LIMITS = ("C", "L", "minimize_K", "d", "D")
COPY_FUNCS = {"float", "list", "tuple", "array", "asarray", "copy", "deepcopy", "bool", "asanyarray", "matrix"}
ROUNDING = {"int", "round", "floor", "rint", "ceil", "trunc", "abs"}


def role(v):
    return v[1] if v[0] == "role" else None


class RoleFlow:
    """Interpret one function; on_call(call, env, self) is called at every call with the role
    environment in front of it, on_assign(stmt, name, values, env) at every store to a name."""

    def __init__(self, repo, pt, func, summaries, on_call=None, on_assign=None, on_return=None, outer=None):
        self.repo, self.pt, self.f = repo, pt, func
        self.summaries = summaries
        self.on_call, self.on_assign, self.on_return = on_call, on_assign, on_return
        self.named = named_roles(func)
        self.env0 = dict(outer or {})
        for p in func.params:
            self.env0[p] = frozenset([("role", self.named[p])]) if p in self.named else frozenset([UNK])
        self.guard = []
        self.rets = []

    def run(self):
        self.loops = []
        body = self.f.node.body
        if isinstance(self.f.node, ast.Lambda):
            self.expr(body, self.env0)
            return
        self.block(body, dict(self.env0))

    # -- environments ------------------------------------------------------
    def join(self, envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, frozenset()) | v
        return out

    def block(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return env
        if isinstance(s, ast.If):
            self.expr(s.test, env)
            if is_debug_test(s.test):
                self.block(s.body, dict(env))
                return env
            self.guard.append(frozenset(n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)))
            a = self.block(s.body, dict(env))
            b = self.block(s.orelse, dict(env))
            self.guard.pop()
            return self.join([a, b])
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.expr(s.test, env)
            else:
                self.expr(s.iter, env)
            head = dict(env)
            brk = []
            for k in range(3):
                frame = {"brk": [], "cont": []}
                self.loops.append(frame)
                e = dict(head)
                if not isinstance(s, ast.While):
                    self.bind(s.target, None, frozenset([UNK]), e, s, loop=True)
                e = self.block(s.body, e)
                self.loops.pop()
                brk = frame["brk"]
                new = self.join([head, e] + frame["cont"])
                if new == head:
                    break
                head = new
            out = self.block(s.orelse, dict(head)) if s.orelse else head
            return self.join([out] + brk)
        if isinstance(s, ast.Try):
            start = dict(env)
            e = self.block(s.body, dict(env))
            mid = self.join([start, e])
            outs = []
            # the state inside the body may be anything between
            for h in s.handlers:
                h0 = dict(mid)
                if h.name:
                    h0[h.name] = frozenset([UNK])
                outs.append(self.block(h.body, h0))
            if s.orelse and e is not None:
                e = self.block(s.orelse, e)
            r = self.join([e] + outs)
            if s.finalbody:
                r2 = self.block(s.finalbody, dict(r if r is not None else mid))
                r = r2 if r is not None else None
            return r
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, None, frozenset([UNK]), env, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            if len(s.targets) == 1:
                self.bind(s.targets[0], s.value, v, env, s)
            else:
                for t in s.targets:
                    self.bind(t, s.value, v, env, s)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, s.value, self.expr(s.value, env), env, s)
            return env
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, env)
            if isinstance(s.target, ast.Name):
                old = env.get(s.target.id, frozenset([UNK]))
                v = frozenset([("alt", role(x)) for x in old if role(x)] or [UNK])
                self.store(s.target.id, v, env, s)
            return env
        if isinstance(s, ast.Return):
            if s.value is not None:
                vals = [self.expr(x, env) for x in s.value.elts] if isinstance(s.value, SEQ) else None
                if vals is None:
                    self.expr(s.value, env)
                    vals = self.tuple_of(s.value, env)
                if self.on_return:
                    self.on_return(s, vals, env)
                self.rets.append(vals)
            return None
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.expr(s.exc, env)
            return None
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1]["brk"].append(dict(env))
            return None
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1]["cont"].append(dict(env))
            return None
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.expr(n, env)
        return env

    # -- stores ------------------------------------------------------------
    def bind(self, t, value, v, env, s, loop=False):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env, s, loop)
        elif isinstance(t, SEQ):
            parts = None
            if isinstance(value, SEQ) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in value.elts + t.elts):
                parts = [(self.expr(x, env), x) for x in value.elts]
            elif value is not None:
                tv = self.tuple_of(value, env)
                if tv is not None and len(tv) == len(t.elts):
                    parts = [(x, None) for x in tv]
            if parts is None:
                parts = [(frozenset([UNK]), None)] * len(t.elts)
            for x, (pv, pe) in zip(t.elts, parts):
                self.bind(x, pe, pv, env, s, loop)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, None, frozenset([UNK]), env, s, loop)

    def store(self, name, v, env, s, loop=False):
        r = self.named.get(name)
        if r is not None and any(g == frozenset([name]) for g in self.guard):
            # "if not C: C = ..." states what an absent value means
            v = frozenset(x if x[0] == "alt" else ("role", r) for x in v)
        if self.on_assign and not loop:
            self.on_assign(s, name, v, env)
        if r is not None:
            v = frozenset(("role", r) if x == UNK else x for x in v)
        env[name] = v

    def tuple_of(self, e, env):
        """per-position values of a tuple valued expression, or None"""
        if isinstance(e, SEQ) and not any(isinstance(x, ast.Starred) for x in e.elts):
            return [self.expr(x, env) for x in e.elts]
        if isinstance(e, ast.Name):
            t = env.get("(" + e.id)
            return t
        if isinstance(e, ast.Call):
            out = None
            for t in self.pt.callees(self.f, e):
                s = self.summaries.get(t)
                if s is None or out is not None and len(s) != len(out):
                    return None
                s = [self.translate(x, t, e, env) for x in s]
                out = s if out is None else [a | b for a, b in zip(out, s)]
            return out
        if isinstance(e, ast.IfExp):
            a, b = self.tuple_of(e.body, env), self.tuple_of(e.orelse, env)
            if a is not None and b is not None and len(a) == len(b):
                return [x | y for x, y in zip(a, b)]
        return None

    def translate(self, vals, t, call, env):
        return vals

    # -- expressions ---------------------------------------------------------
    def expr(self, e, env):
        if e is None:
            return frozenset([UNK])
        if isinstance(e, ast.Name):
            return env.get(e.id, frozenset([UNK]))
        if isinstance(e, ast.Constant):
            return frozenset([NONE if e.value is None else ("const", repr(e.value))])
        if isinstance(e, ast.IfExp):
            tn = frozenset(n.id for n in ast.walk(e.test) if isinstance(n, ast.Name))
            self.expr(e.test, env)
            a, b = self.expr(e.body, env), self.expr(e.orelse, env)
            v = a | b
            rs = {role(x) for n in tn for x in env.get(n, ())} - {None}
            if len(tn) == 1 and rs:
                # "C if C else ..." states what an absent value means
                w = frozenset(x for x in v if x not in (NONE,) and x[0] != "const")
                if any(role(x) in rs for x in w):
                    return w
            return v
        if isinstance(e, ast.BoolOp):
            vs = [self.expr(x, env) for x in e.values]
            if isinstance(e.op, ast.Or) and any(role(x) for x in vs[0]):
                return frozenset(x for x in vs[0] if role(x)) | frozenset(x for v in vs[1:] for x in v if role(x))
            if isinstance(e.op, ast.And) and all(role(x) for v in vs for x in v) and len({x for v in vs for x in v}) == 1:
                return vs[0]
            return frozenset([UNK])
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left, env), self.expr(e.right, env)
            rs = {role(x) or (x[1] if x[0] == "alt" else None) for x in a | b} - {None}
            if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod)) and rs and len(rs) == 1:
                neutral = isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Constant) and e.right.value == 0 or \
                    isinstance(e.op, (ast.Mult, ast.Div)) and isinstance(e.right, ast.Constant) and e.right.value == 1
                return frozenset([("role" if neutral else "alt", rs.pop())])
            return frozenset([UNK])
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, env)
            rs = {role(x) for x in v} - {None}
            if len(rs) == 1:
                return frozenset([("alt", rs.pop())])
            return frozenset([("const", ast.unparse(e))]) if isinstance(e.operand, ast.Constant) else frozenset([UNK])
        if isinstance(e, ast.Call):
            self.expr(e.func, env) if not isinstance(e.func, ast.Name) else None
            av = [self.expr(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
            for k in e.keywords:
                self.expr(k.value, env)
            if self.on_call:
                self.on_call(e, env, self)
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
            src = None
            if len(e.args) >= 1:
                src = av[0]
            elif isinstance(e.func, ast.Attribute):
                src = self.expr(e.func.value, env)
            r = self.repo.callee(self.f, e)
            if src is not None and not isinstance(r, Func):
                rs = {role(x) for x in src} - {None}
                if rs and nm in COPY_FUNCS:
                    return src
                if len(rs) == 1 and nm in ROUNDING and isinstance(e.func, ast.Name):
                    return frozenset([("alt", next(iter(rs)))])
            t = [self.summaries.get(x) for x in self.pt.callees(self.f, e)]
            if t and all(x is not None and len(x) == 1 for x in t):
                return frozenset(y for x in t for y in x[0])
            return frozenset([UNK])
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value, env)
            self.store(e.target.id, v, env, e)
            return v
        if isinstance(e, ast.Starred):
            self.expr(e.value, env)
            return frozenset([UNK])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for g in e.generators:
                self.expr(g.iter, env2)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        env2[n.id] = frozenset([UNK])
                for c in g.ifs:
                    self.expr(c, env2)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, env2)
                self.expr(e.value, env2)
            else:
                self.expr(e.elt, env2)
            return frozenset([UNK])
        if isinstance(e, ast.Lambda):
            env2 = dict(env)
            for a in e.args.args:
                env2[a.arg] = frozenset([UNK])
            self.expr(e.body, env2)
            return frozenset([UNK])
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env)
        return frozenset([UNK])


def named_roles(f):
    """names that stand for a role in this function: its parameters, and locals that are used as the
    whole quantity (not, for example, `d` as the fourth node of a 2-opt move)"""
    out = {p: CANON[p] for p in f.params if p in CANON}
    taken = set(out.values())
    loop = set()
    sub, unpacked = {}, set()
    for n in own_walk(f.node):
        if isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    loop.add(x.id)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    sub.setdefault(t.id, []).append(n.value)
                elif isinstance(t, SEQ):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            unpacked.add(x.id)
    for nm, r in CANON.items():
        if nm in out or nm in loop:
            continue
        if nm in unpacked or nm in sub:
            if nm in ("d", "C", "L", "D") and r in taken:
                continue
            if nm == "d" and nm in sub and any(isinstance(v, (ast.Subscript, ast.BinOp)) for v in sub[nm]):
                continue
            if nm == "d" and "demands" in out:
                continue
            out[nm] = r
    return out
