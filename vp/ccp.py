"""Conditional constant propagation with structured values over the syntax tree: known scalars, lists, dictionaries and functions are computed
with, everything else is a term that remembers how it was made, several possibilities are kept side by side.  A branch whose test is
known runs alone; otherwise both run and their results are joined.  Loops over known lists run element by element, all others to a
fixpoint.  Every call is recorded with its arguments: what a program does with its options can be read off those records.
Nothing of the analysed program is executed."""
import ast
from .core import Func, ClassInfo, bind_args

TOP = ("x", "?")


class GiveUp(Exception):
    pass


def C(v):
    return ("c", type(v).__name__, v)


NONE = C(None)


def isc(v):
    return v[0] == "c"


def size(v):
    n = 0
    todo = [v]
    while todo:
        x = todo.pop()
        n += 1
        if isinstance(x, (tuple, frozenset)):
            todo.extend(x)
    return n


def alts(v):
    return list(v[1]) if v[0] == "or" else [v]


def OR(vs):
    out = set()
    for v in vs:
        out |= set(alts(v))
    if not out:
        return TOP
    if TOP in out:
        return TOP
    if len(out) == 1:
        return next(iter(out))
    if len(out) > 8 or sum(size(v) for v in out) > 600:
        return TOP
    return ("or", frozenset(out))


def X(*t):
    v = ("x",) + t
    return v if size(v) <= 300 else ("x", t[0], "...")


def mentions(v, name):
    todo = [v]
    while todo:
        x = todo.pop()
        if x == name:
            return True
        if isinstance(x, (tuple, frozenset)):
            todo.extend(x)
    return False


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = {}
    for k in set(a) | set(b):
        if k in a and k in b:
            out[k] = a[k] if a[k] == b[k] else OR([a[k], b[k]])
        else:
            out[k] = a.get(k, b.get(k))
    return out


PURE = {"lower", "upper", "isdigit", "strip", "replace", "startswith", "endswith", "split", "join", "lstrip", "rstrip", "title", "count", "index", "find"}


class Frame:
    def __init__(self):
        self.breaks, self.conts = [], []


class CCP:
    def __init__(self, repo, argv=None, config=None, opaque=(), models=None, inline=lambda t: True):
        self.repo, self.argv, self.config = repo, argv, dict(config or {})
        self.opaque, self.models, self.inline = set(opaque), models or {}, inline
        self.calls = []                # (name, args tuple, kw tuple, Func or None, line, file)
        self.options = {}              # flag -> declaration
        self.used = set()              # option destinations read
        self.stack = []
        self.fuel = 60000

    # ---- running a function
    def run(self, f, args=None):
        env = {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            env[n] = self.ev(d, {}, f)
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                env[n.arg] = self.ev(d, {}, f)
            names.append(n.arg)
        for n in names:
            if args and n in args:
                env[n] = args[n]
            elif n not in env:
                env[n] = X("param", n)
        if a.vararg:
            env[a.vararg.arg] = (args or {}).get("*" + a.vararg.arg, TOP)
        if a.kwarg:
            env[a.kwarg.arg] = TOP
        saved = getattr(self, "rets", None), getattr(self, "frames", None)
        self.rets, self.frames = [], []
        self.stack.append(f)
        try:
            end = self.block(f.node.body, env, f)
            r = self.rets + ([NONE] if end is not None else [])
        finally:
            self.stack.pop()
            self.rets, self.frames = saved
        return OR(r) if r else None      # None: never returns

    def block(self, body, env, f):
        for s in body:
            if env is None:
                return None
            self.fuel -= 1
            if self.fuel < 0:
                raise GiveUp("too much to explore")
            env = self.stmt(s, env, f)
            if env is not None:
                for c in getattr(self, "exc", ()):
                    c.append(dict(env))
        return env

    def stmt(self, s, env, f):
        try:
            return self.stmt_(s, env, f)
        except Stop:
            return None

    def stmt_(self, s, env, f):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, f)
            env = dict(env)
            for t in s.targets:
                self.bind(t, v, env, f)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                env = dict(env)
                self.bind(s.target, self.ev(s.value, env, f), env, f)
            return env
        if isinstance(s, ast.AugAssign):
            v = self.binop(s.op, self.ev(s.target, env, f), self.ev(s.value, env, f))
            env = dict(env)
            self.bind(s.target, v, env, f)
            return env
        if isinstance(s, ast.Expr):
            env = dict(env)
            self.ev(s.value, env, f)
            return env
        if isinstance(s, ast.If):
            t = self.truth(self.ev(s.test, env, f))
            a = b = None
            if t is not False:
                e = self.refine(s.test, dict(env), True, f)
                a = self.block(s.body, e, f) if e is not None else None
            if t is not True:
                e = self.refine(s.test, dict(env), False, f)
                b = self.block(s.orelse, e, f) if e is not None else None
            return join(a, b)
        if isinstance(s, ast.For):
            return self.loop(s, env, f)
        if isinstance(s, ast.While):
            return self.wloop(s, env, f)
        if isinstance(s, ast.Return):
            self.rets.append(self.ev(s.value, env, f) if s.value is not None else NONE)
            return None
        if isinstance(s, ast.Break):
            self.frames[-1].breaks.append(env)
            return None
        if isinstance(s, ast.Continue):
            self.frames[-1].conts.append(env)
            return None
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, dict(env), f)
            for c in getattr(self, "exc", ())[-1:]:
                c.append(dict(env))
            return None
        if isinstance(s, ast.Try):
            return self.try_(s, env, f)
        if isinstance(s, ast.With):
            env = dict(env)
            for it in s.items:
                v = self.ev(it.context_expr, env, f)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, env, f)
            return self.block(s.body, env, f)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            env = dict(env)
            env[s.name] = X("local", s.name)
            return env
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            env = dict(env)
            for a in s.names:
                env.pop((a.asname or a.name).split(".")[0], None)
            return env
        if isinstance(s, ast.Delete):
            return env
        return env

    def try_(self, s, env, f):
        if not hasattr(self, "exc"):
            self.exc = []
        seen = [dict(env)]
        self.exc.append(seen)
        out = self.block(s.body, dict(env), f)
        self.exc.pop()
        if out is not None:
            out = self.block(s.orelse, out, f)
        h0 = None
        for e in seen:
            h0 = join(h0, e)
        for h in s.handlers:
            e = dict(h0)
            if h.name:
                e[h.name] = X("exception")
            out = join(out, self.block(h.body, e, f))
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, h0, f)
                return None
            return self.block(s.finalbody, out, f)
        return out

    def loop(self, s, env, f):
        it = self.ev(s.iter, env, f)
        breaks = []
        if it[0] == "l" and len(it[2]) <= 64:
            for x in it[2]:
                if env is None:
                    break
                env = dict(env)
                self.bind(s.target, x, env, f)
                env = self.body(s, env, f, breaks)
            if env is not None:
                env = self.block(s.orelse, env, f)
        else:
            el = self.element(it)
            for k in range(7):
                e = dict(env)
                self.bind(s.target, el, e, f)
                e = self.body(s, e, f, breaks)
                new = join(env, e)
                if new == env:
                    break
                if k >= 4:
                    for n in new:
                        if new[n] != env.get(n):
                            new[n] = TOP
                env = new
            env = self.block(s.orelse, env, f)
        for b in breaks:
            env = join(env, b)
        return env

    def body(self, s, env, f, breaks):
        fr = Frame()
        self.frames.append(fr)
        e = self.block(s.body, env, f)
        self.frames.pop()
        breaks += fr.breaks
        for c in fr.conts:
            e = join(e, c)
        return e

    def wloop(self, s, env, f):
        breaks, out = [], None
        for k in range(300):
            t = self.truth(self.ev(s.test, env, f))
            if t is False:
                out = join(out, env)
                env = None
                break
            if t is None:
                out = join(out, self.refine(s.test, dict(env), False, f))
            e = self.refine(s.test, dict(env), True, f)
            e = self.body(s, e, f, breaks) if e is not None else None
            if e is None:
                env = None
                break
            if t is None:
                new = join(env, e)
                if new == env:
                    env = None
                    break
                if k >= 4:
                    for n in new:
                        if new[n] != env.get(n):
                            new[n] = TOP
                env = new
            else:
                env = e
        else:
            raise GiveUp("loop does not end")
        if out is not None:
            out = self.block(s.orelse, out, f)
        for b in breaks:
            out = join(out, b)
        return out

    def element(self, it):
        if it[0] == "or":
            return OR([self.element(v) for v in it[1]])
        if it[0] == "l":
            return OR(it[2]) if it[2] else TOP
        return X("elem", it)

    def bind(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, TOP, env, f)
                else:
                    self.bind(x, self.at(v, C(i), n), env, f)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Name) and t.value.id in env:
                b, i = env[t.value.id], self.ev(t.slice, env, f)
                if b[0] == "d" and isc(i):
                    env[t.value.id] = ("d", tuple([(k, x) for k, x in b[1] if k != i] + [(i, v)]))
                elif b[0] in ("d", "l"):
                    env[t.value.id] = X("changed", b, v)
                else:
                    env[t.value.id] = b
            else:
                self.ev(t.value, env, f)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, f)
            if b == ("args",):
                self.config[t.attr] = v
            elif isinstance(t.value, ast.Name) and t.value.id == "sys" and t.attr == "argv":
                self.argv = v

    # ---- truth
    def truth(self, v):
        if v[0] == "or":
            r = {self.truth(x) for x in v[1]}
            return r.pop() if len(r) == 1 else None
        if isc(v):
            return bool(v[2])
        if v[0] in ("l",):
            return bool(v[2])
        if v[0] == "d":
            return bool(v[1])
        if v[0] in ("fn", "args"):
            return True
        if v[:2] == ("x", "not"):
            r = self.truth(v[2])
            return None if r is None else not r
        return None

    def refine(self, test, env, want, f):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, env, not want, f)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if want else ast.Or):
            for x in test.values:
                if env is None:
                    return None
                env = self.refine(x, env, want, f)
            return env
        if isinstance(test, ast.Name) and test.id in env:
            keep = [a for a in alts(env[test.id]) if self.truth(a) is not (not want)]
            if not keep:
                return None
            env[test.id] = OR(keep)
            return env
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in env:
            try:
                r = self.ev(test.comparators[0], env, f)
            except Stop:
                return None
            keep = [a for a in alts(env[test.left.id]) if self.truth(self.compare(test.ops[0], a, r)) is not (not want)]
            if not keep:
                return None
            env[test.left.id] = OR(keep)
        return env

    # ---- expressions
    def ev(self, e, env, f):
        self.fuel -= 1
        if self.fuel < 0:
            raise GiveUp("too much to explore")
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env, f)
            return TOP
        return m(e, env, f)

    def ev_Constant(self, e, env, f):
        return C(e.value)

    def ev_Name(self, e, env, f):
        if e.id in env:
            return env[e.id]
        return self.glob(e, f)

    def glob(self, e, f):
        r = self.repo.resolve_expr(f.module, e)
        if isinstance(r, Func):
            return ("fn", r.module.dotted, r.name)
        if isinstance(e, ast.Name):
            if e.id in self.models and not callable(self.models[e.id]):
                return self.models[e.id]
            v = f.module.assigns.get(e.id)
            v = v[-1] if isinstance(v, list) and v else v
            if isinstance(v, ast.AST):
                if isinstance(v, (ast.Assign, ast.AnnAssign)):
                    v = v.value
                if isinstance(v, ast.expr) and isinstance(v, (ast.Constant, ast.UnaryOp, ast.Tuple, ast.List, ast.Dict)):
                    return self.ev(v, {}, f)
            return self.imported(e.id, f) or ("x", "global", e.id)
        return ("x", "global", e.attr)

    def imported(self, name, f):
        """a constant that is imported from another module of the repository"""
        for s in ast.walk(f.module.tree):
            if isinstance(s, ast.ImportFrom) and s.module and s.module in self.repo.modules:
                for a in s.names:
                    if (a.asname or a.name) == name:
                        v = self.repo.modules[s.module].assigns.get(a.name)
                        v = v[-1] if isinstance(v, list) and v else v
                        if isinstance(v, (ast.Assign, ast.AnnAssign)):
                            v = v.value
                        if isinstance(v, (ast.Constant, ast.UnaryOp)):
                            return self.ev(v, {}, f)
        return None

    def ev_Attribute(self, e, env, f):
        if isinstance(e.value, ast.Name) and e.value.id == "sys" and e.attr == "argv" and self.argv is not None:
            return self.argv
        r = self.repo.resolve_expr(f.module, e)
        if isinstance(r, Func):
            return ("fn", r.module.dotted, r.name)
        b = self.ev(e.value, env, f)
        if b == ("args",):
            return self.option(e.attr)
        if b[0] == "x" and b[1] == "global":
            return ("x", "global", "%s.%s" % (b[2], e.attr))
        return X("attr", b, e.attr)

    def option(self, dest):
        self.used.add(dest)
        return self.config.get(dest, TOP)

    def ev_Tuple(self, e, env, f):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, f)
                if v[0] != "l":
                    return X("cat", v)
                out += v[2]
            else:
                out.append(self.ev(x, env, f))
        v = ("l", type(e).__name__.lower(), tuple(out))
        return v if size(v) < 2000 else TOP
    ev_List = ev_Tuple
    ev_Set = ev_Tuple

    def ev_Dict(self, e, env, f):
        if any(k is None for k in e.keys):
            return TOP
        return ("d", tuple((self.ev(k, env, f), self.ev(v, env, f)) for k, v in zip(e.keys, e.values)))

    def ev_IfExp(self, e, env, f):
        t = self.truth(self.ev(e.test, env, f))
        out = []
        if t is not False:
            e1 = self.refine(e.test, dict(env), True, f)
            if e1 is not None:
                out.append(self.ev(e.body, e1, f))
        if t is not True:
            e2 = self.refine(e.test, dict(env), False, f)
            if e2 is not None:
                out.append(self.ev(e.orelse, e2, f))
        return OR(out)

    def ev_BoolOp(self, e, env, f):
        stop = isinstance(e.op, ast.Or)
        out, en = [], dict(env)
        for i, x in enumerate(e.values):
            v = self.ev(x, en, f)
            t = self.truth(v)
            if t is stop or i == len(e.values) - 1:
                out.append(v)
                break
            if t is None:
                keep = [a for a in alts(v) if self.truth(a) is not (not stop)]
                out += keep
            r = self.refine(x, dict(en), not stop, f)
            if r is None:
                break
            en = r
        ts = {self.truth(v) for v in out}
        return OR(out) if len(out) <= 4 else TOP

    def ev_UnaryOp(self, e, env, f):
        v = self.ev(e.operand, env, f)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return C(not t) if t is not None else X("not", v)
        if isc(v) and isinstance(v[2], (int, float)):
            return C(-v[2]) if isinstance(e.op, ast.USub) else v
        return X("op", type(e.op).__name__, v)

    def ev_BinOp(self, e, env, f):
        return self.binop(e.op, self.ev(e.left, env, f), self.ev(e.right, env, f))

    def binop(self, op, a, b):
        if a[0] == "or" or b[0] == "or":
            if len(alts(a)) * len(alts(b)) > 16:
                return TOP
            return OR([self.binop(op, x, y) for x in alts(a) for y in alts(b)])
        if isc(a) and isc(b) and isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Div, ast.Mod)):
            try:
                r = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y,
                     ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y}[type(op)](a[2], b[2])
                return C(r) if not isinstance(r, str) or len(r) < 2000 else TOP
            except Exception:
                return TOP
        if isinstance(op, ast.Add) and a[0] == "l" and b[0] == "l":
            return ("l", a[1], a[2] + b[2])
        if isinstance(op, ast.Add) and a[:3] == ("x", "op", "Add") and b[0] == "x":
            x = a                                       # what is added again and again in a loop
            while x[:3] == ("x", "op", "Add"):
                if x[4] == b:
                    return a
                x = x[3]
        return X("op", type(op).__name__, a, b)

    def ev_Compare(self, e, env, f):
        a = self.ev(e.left, env, f)
        res = C(True)
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, env, f)
            v = self.compare(op, a, b)
            t = self.truth(v)
            if t is False:
                return C(False)
            if t is None:
                res = v
            a = b
        return res

    def compare(self, op, a, b):
        if a[0] == "or" or b[0] == "or":
            if len(alts(a)) * len(alts(b)) > 16:
                return TOP
            return OR([self.compare(op, x, y) for x in alts(a) for y in alts(b)])
        n = type(op).__name__
        known = ("c", "l", "d", "fn")
        if n in ("In", "NotIn"):
            if b[0] in ("l", "d"):
                items = list(b[2]) if b[0] == "l" else [k for k, _ in b[1]]
                if a in items and a[0] in known:
                    return C(n == "In")
                if isc(a) and all(isc(x) for x in items):
                    return C((a[2] in [x[2] for x in items]) == (n == "In"))
                if not items:
                    return C(n == "NotIn")
            if isc(a) and isc(b) and isinstance(a[2], str) and isinstance(b[2], str):
                return C((a[2] in b[2]) == (n == "In"))
            return X("cmp", n, a, b)
        if n in ("Is", "IsNot", "Eq", "NotEq"):
            pos = n in ("Is", "Eq")
            if isc(a) and isc(b):
                return C((a[2] == b[2] and (n[0] != "I" or a[1] == b[1])) == pos)
            if a[0] in known and b[0] in known and a[0] != b[0]:
                return C(not pos)
            if a[0] == "fn" and b[0] == "fn":
                return C((a == b) == pos)
            if a[0] == "l" and b[0] == "l" and (len(a[2]) != len(b[2])):
                return C(not pos)
            if n[0] == "I" and NONE in (a, b) and (a[0] in ("l", "d", "args", "fn") or b[0] in ("l", "d", "args", "fn")):
                return C(not pos)
            return X("cmp", n, a, b)
        if isc(a) and isc(b):
            try:
                return C({"Lt": lambda: a[2] < b[2], "LtE": lambda: a[2] <= b[2], "Gt": lambda: a[2] > b[2], "GtE": lambda: a[2] >= b[2]}[n]())
            except Exception:
                return TOP
        return X("cmp", n, a, b)

    def at(self, v, i, n=None):
        if v[0] == "or":
            return OR([self.at(x, i, n) for x in v[1]])
        if i[0] == "or":
            return OR([self.at(v, x, n) for x in i[1]])
        if v[0] == "l" and isc(i) and isinstance(i[2], int) and -len(v[2]) <= i[2] < len(v[2]):
            return v[2][i[2]]
        if v[0] == "d":
            for k, x in v[1]:
                if k == i:
                    return x
            if isc(i) and all(isc(k) for k, _ in v[1]):
                raise Stop()
        if isc(v) and isinstance(v[2], str) and isc(i) and isinstance(i[2], int) and -len(v[2]) <= i[2] < len(v[2]):
            return C(v[2][i[2]])
        return X("item", v, i)

    def ev_Subscript(self, e, env, f):
        b = self.ev(e.value, env, f)
        if isinstance(e.slice, ast.Slice):
            ix = [self.ev(x, env, f) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if all(isc(x) for x in ix):
                sl = slice(*[x[2] for x in ix])
                if b[0] == "l":
                    return ("l", b[1], b[2][sl])
                if isc(b) and isinstance(b[2], str):
                    return C(b[2][sl])
            return X("slice", b, *ix)
        return self.at(b, self.ev(e.slice, env, f))

    def ev_Lambda(self, e, env, f):
        return X("lambda", e.lineno, e.col_offset)

    def ev_JoinedStr(self, e, env, f):
        return X("text", *[self.ev(x.value, env, f) for x in e.values if isinstance(x, ast.FormattedValue)])

    def ev_Starred(self, e, env, f):
        return self.ev(e.value, env, f)

    def ev_ListComp(self, e, env, f):
        return self.comp(e, e.elt, env, f)

    def ev_GeneratorExp(self, e, env, f):
        return self.comp(e, e.elt, env, f)

    def ev_SetComp(self, e, env, f):
        return self.comp(e, e.elt, env, f)

    def ev_DictComp(self, e, env, f):
        return TOP

    def comp(self, e, elt, env, f):
        sets, whole = [dict(env)], True
        for g in e.generators:
            nxt = []
            for en in sets:
                it = self.ev(g.iter, en, f)
                if it[0] == "l" and len(it[2]) <= 64 and whole:
                    els = it[2]
                else:
                    els, whole = [self.element(it)], False
                for x in els:
                    e2 = dict(en)
                    self.bind(g.target, x, e2, f)
                    ok = True
                    for c in g.ifs:
                        t = self.truth(self.ev(c, e2, f))
                        if t is False:
                            ok = False
                            break
                        if t is None:
                            whole = False
                    if ok:
                        nxt.append(e2)
            sets = nxt
        vals = []
        for en in sets[:64]:
            try:
                vals.append(self.ev(elt, en, f))
            except Stop:
                whole = False
        if whole and len(sets) <= 64:
            return ("l", "list", tuple(vals))
        return X("some", *vals[:8])

    def ev_Call(self, e, env, f):
        args = []
        star = False
        for a in e.args:
            v = self.ev(a, env, f)
            if isinstance(a, ast.Starred):
                if v[0] == "l":
                    args += list(v[2])
                else:
                    star = True
                    args.append(v)
            else:
                args.append(v)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, f)
            if k.arg is None:
                if v[0] == "d":
                    for a, b in v[1]:
                        if isc(a):
                            kw[a[2]] = b
                else:
                    star = True
            else:
                kw[k.arg] = v
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else "?"
        fv = None
        base = None
        if isinstance(fn, ast.Attribute):
            t = self.repo.resolve_expr(f.module, fn)
            if isinstance(t, Func):
                fv = ("fn", t.module.dotted, t.name)
            else:
                base = self.ev(fn.value, env, f)
                r = self.method(base, fn, name, args, kw, env, f)
                if r is not None:
                    return r
                fv = X("attr", base, name)
        else:
            fv = self.ev(fn, env, f)
        return OR([self.apply(x, name, args, kw, base, e, env, f, star) for x in alts(fv)])

    def apply(self, fv, name, args, kw, base, e, env, f, star):
        if fv[0] == "fn":
            t = self.repo.func(fv[1], fv[2])
            self.record(t.name, args, kw, t, e, f)
            if name in self.models or t.name in self.models:
                return self.models.get(t.name, self.models.get(name))(self, args, kw)
            if t.name in self.opaque or star or not self.inline(t) or t in self.stack or len(self.stack) > 5 or t.cls is not None:
                return X("call", t.name, *args, *[v for _, v in sorted(kw.items())])
            a = t.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            bound = dict(zip(names, args))
            if a.vararg:
                bound["*" + a.vararg.arg] = ("l", "tuple", tuple(args[len(names):]))
            bound.update({k: v for k, v in kw.items()})
            r = self.run(t, bound)
            if r is None:
                raise Stop()
            return r
        if fv[0] == "x" and fv[1] == "global" and name in ("exit", "quit", "_exit") or base == ("x", "global", "sys") and name == "exit":
            self.record("exit", args, kw, None, e, f)
            raise Stop()
        r = self.builtin(name, args, kw) if fv[:2] == ("x", "global") and base is None else None
        if r is not None:
            return r
        if fv[:2] == ("x", "global"):
            label = fv[2]
        elif base is not None:
            label = name
        else:
            label = "solver" if fv[1] in ("param", "elem", "item") else "?"
        self.record(label if label != "solver" else ("solver", fv), args, kw, None, e, f)
        if name in self.models:
            return self.models[name](self, args, kw)
        if name == "ArgumentParser":
            return ("x", "parser")
        return X("call", name, *([base] if base is not None and base[:2] != ("x", "global") else []), *args, *[v for _, v in sorted(kw.items())])

    def record(self, name, args, kw, t, e, f):
        c = (name, tuple(args), tuple(sorted(kw.items())), t, (f.module.dotted, f.name))
        self.calls.append(c)

    def method(self, base, fn, name, args, kw, env, f):
        if base == ("x", "parser") or base[:2] == ("x", "call") and base[2] in ("add_argument_group", "add_mutually_exclusive_group"):
            if name == "add_argument":
                return self.declare(args, kw)
            if name in ("parse_args", "parse_known_args"):
                self.finish()
                self.record("parse_args", args, kw, None, fn, f)
                return ("args",) if name == "parse_args" else ("l", "tuple", (("args",), TOP))
            if name == "set_defaults":
                for k, v in kw.items():
                    self.defaults[k] = v
        if base[0] == "l" and isinstance(fn.value, ast.Name) and fn.value.id in env:
            if name == "append" and len(args) == 1:
                env[fn.value.id] = ("l", base[1], base[2] + (args[0],)) if len(base[2]) < 64 else TOP
                return NONE
            if name == "extend" and len(args) == 1:
                env[fn.value.id] = ("l", base[1], base[2] + args[0][2]) if args[0][0] == "l" else X("cat", base, args[0])
                return NONE
            if name in ("insert", "remove", "pop", "sort", "reverse", "clear"):
                if name == "insert" and len(args) == 2 and isc(args[0]) and isinstance(args[0][2], int):
                    l = list(base[2])
                    l.insert(args[0][2], args[1])
                    env[fn.value.id] = ("l", base[1], tuple(l))
                    return NONE
                if name == "remove" and args and args[0] in base[2] and args[0][0] in ("c", "fn"):
                    l = list(base[2])
                    l.remove(args[0])
                    env[fn.value.id] = ("l", base[1], tuple(l))
                    return NONE
                if name == "pop" and (not args or isc(args[0])) and base[2]:
                    l = list(base[2])
                    try:
                        v = l.pop(*[a[2] for a in args])
                    except Exception:
                        return TOP
                    env[fn.value.id] = ("l", base[1], tuple(l))
                    return v
                env[fn.value.id] = X("changed", base)
                return TOP
        if base[0] == "or" and name in ("append", "extend", "add") and isinstance(fn.value, ast.Name) and fn.value.id in env:
            env[fn.value.id] = OR([("l", b[1], b[2] + ((args[0],) if name != "extend" else args[0][2])) if b[0] == "l" and (name != "extend" or args[0][0] == "l") else
                                   X("cat", b, *args) for b in base[1]])
            return NONE
        if base[0] == "x" and name in ("append", "extend", "add", "insert") and isinstance(fn.value, ast.Name) and fn.value.id in env:
            v = X("cat", base, *args)
            env[fn.value.id] = base if any(a in base for a in args) else v
            return NONE
        if isc(base) and isinstance(base[2], str) and name in PURE:
            av = []
            for a in args:
                if isc(a):
                    av.append(a[2])
                elif a[0] == "l" and all(isc(x) for x in a[2]):
                    av.append([x[2] for x in a[2]])
                else:
                    return X("call", name, base, *args)
            try:
                r = getattr(base[2], name)(*av)
            except Exception:
                return TOP
            return ("l", "list", tuple(C(x) for x in r)) if isinstance(r, list) else C(r)
        if base[0] == "or" and name in PURE and all(isc(b) and isinstance(b[2], str) for b in base[1]):
            return OR([self.method(b, fn, name, args, kw, env, f) for b in base[1]])
        if base[0] == "d":
            if name == "get" and args and isc(args[0]) and all(isc(k) for k, _ in base[1]):
                for k, v in base[1]:
                    if k == args[0]:
                        return v
                return args[1] if len(args) > 1 else NONE
            if name in ("keys", "values", "items"):
                return ("l", "list", tuple(k if name == "keys" else v if name == "values" else ("l", "tuple", (k, v)) for k, v in base[1]))
        if base[0] == "l" and name in ("index", "count") and len(args) == 1 and isc(args[0]) and all(isc(x) for x in base[2]):
            l = [x[2] for x in base[2]]
            if name == "count":
                return C(l.count(args[0][2]))
            if args[0][2] in l:
                return C(l.index(args[0][2]))
            raise Stop()
        if name == "basename" and args and isc(args[0]) and isinstance(args[0][2], str):
            return C(args[0][2].rsplit("/", 1)[-1])
        return None

    def builtin(self, n, args, kw):
        if n == "len" and len(args) == 1:
            a = args[0]
            if a[0] == "l":
                return C(len(a[2]))
            if a[0] == "d":
                return C(len(a[1]))
            if isc(a) and isinstance(a[2], str):
                return C(len(a[2]))
            return X("call", "len", *args)
        if n == "range" and args and all(isc(a) and isinstance(a[2], int) for a in args):
            r = range(*[a[2] for a in args])
            return ("l", "list", tuple(C(i) for i in r)) if len(r) <= 64 else X("call", "range", *args)
        if n in ("list", "tuple", "sorted", "reversed", "set", "iter") and len(args) == 1 and args[0][0] == "l":
            l = args[0][2]
            if n == "reversed":
                l = l[::-1]
            if n in ("sorted", "set"):
                if not all(isc(x) for x in l):
                    return X("call", n, *args) if n == "sorted" else args[0]
                try:
                    l = tuple(sorted(l, key=lambda x: x[2]))
                except TypeError:
                    pass
            return ("l", "list", l)
        if n in ("list", "tuple", "set") and not args:
            return ("l", "list", ())
        if n == "dict" and not args:
            return ("d", tuple((C(k), v) for k, v in kw.items()))
        if n == "enumerate" and args and args[0][0] == "l" and len(args) == 1:
            return ("l", "list", tuple(("l", "tuple", (C(i), x)) for i, x in enumerate(args[0][2])))
        if n == "zip" and args and all(a[0] == "l" for a in args):
            return ("l", "list", tuple(("l", "tuple", z) for z in zip(*[a[2] for a in args])))
        if n in ("int", "str", "float", "bool", "abs") and len(args) == 1 and isc(args[0]):
            try:
                return C({"int": int, "str": str, "float": float, "bool": bool, "abs": abs}[n](args[0][2]))
            except Exception:
                raise Stop()
        if n == "bool" and len(args) == 1:
            t = self.truth(args[0])
            return C(t) if t is not None else X("call", "bool", args[0])
        if n in ("any", "all") and len(args) == 1 and args[0][0] == "l":
            ts = [self.truth(x) for x in args[0][2]]
            if n == "any":
                return C(True) if True in ts else C(False) if all(t is False for t in ts) else TOP
            return C(False) if False in ts else C(True) if all(t is True for t in ts) else TOP
        if n in ("min", "max") and len(args) > 1 and all(isc(a) for a in args):
            try:
                return C((min if n == "min" else max)(a[2] for a in args))
            except TypeError:
                return TOP
        if n == "isinstance":
            return TOP
        return None

    # ---- argparse
    def declare(self, args, kw):
        flags = [a[2] for a in args if isc(a) and isinstance(a[2], str)]
        if not flags or len(flags) != len(args):
            raise GiveUp("options that are not constants")
        d = {"flags": flags, "action": "store"}
        for k, v in kw.items():
            if k in ("dest", "action") and isc(v):
                d[k] = v[2]
            elif k == "choices" and v[0] == "l" and all(isc(x) for x in v[2]):
                d["choices"] = [x[2] for x in v[2]]
            elif k in ("default", "const"):
                d[k] = v
            elif k == "type":
                d["type"] = v[2] if v[:2] == ("x", "global") else "?"
            elif k == "nargs":
                d["nargs"] = v[2] if isc(v) else "?"
        if "dest" not in d:
            longs = [x for x in flags if x.startswith("--")]
            d["dest"] = (longs or flags)[0].lstrip("-").replace("-", "_")
        for x in flags:
            self.options[x] = d
        return TOP

    defaults = {}

    def finish(self):
        """the attributes of the parsed arguments, from the declarations and what is given on the command line"""
        given = self.config.get("#given", ())
        cfg = {}
        for d in self.options.values():
            dest, act = d["dest"], d["action"]
            cfg.setdefault(dest, d.get("default") or self.defaults.get(dest) or {"store_true": C(False), "store_false": C(True)}.get(act, NONE))
        for flag, value in given:
            d = self.options.get(flag)
            if d is None:
                raise GiveUp("option %s is not declared" % flag)
            dest, act = d["dest"], d["action"]
            v = value
            if isinstance(v, str) and d.get("type") == "int":
                v = int(v)
            elif isinstance(v, str) and d.get("type") == "float":
                v = float(v)
            if isinstance(v, (str, int, float)):
                v = C(v)
            if act == "store_true":
                v = C(True)
            elif act == "store_false":
                v = C(False)
            elif act == "store_const":
                v = d.get("const", NONE)
            elif act == "count":
                v = C((cfg[dest][2] or 0) + 1) if isc(cfg[dest]) else TOP
            elif act in ("append", "extend"):
                old = cfg[dest]
                v = ("l", "list", (old[2] if old[0] == "l" else ()) + (v,))
            elif act != "store":
                raise GiveUp("action %s" % act)
            elif d.get("nargs") in ("+", "*"):
                v = ("l", "list", (v,))
            cfg[dest] = v
        self.config.update(cfg)


class Stop(Exception):
    """the path ends here"""
