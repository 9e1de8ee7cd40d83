"""Abstract interpretation of the distance functions: numbers are polynomials (exact coefficients) over the coordinates and terms such as
sqrt and cos of polynomials; a rounding is decided per case of the fractional part of what is rounded.  Strings, None and functions are
themselves.  Nothing of the repository is executed: the interpreter walks the syntax tree."""
import ast
import math
from fractions import Fraction
from .core import Func

CASES = ("0", "low", "half even", "half odd", "high")     # fractional part 0, in (0,.5), .5 (whole part even or odd), in (.5,1)


class Unknown(Exception):
    pass


class Raised(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Poly:
    def __init__(self, m=None):
        self.m = {k: c for k, c in (m or {}).items() if c}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(repr(c)) if isinstance(c, float) else Fraction(c)})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def key(self):
        return tuple(sorted(self.m.items(), key=repr))

    def value(self):
        if not self.m:
            return Fraction(0)
        return self.m[()] if set(self.m) == {()} else None

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def add(self, o, s=1):
        r = dict(self.m)
        for k, c in o.m.items():
            r[k] = r.get(k, 0) + s * c
        return Poly(r)

    def mul(self, o):
        r = Poly()
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                p = {}
                for a, n in k1 + k2:
                    p[a] = p.get(a, 0) + n
                extra = Poly.const(1)
                for a in list(p):
                    if a[0] == "sqrt" and p[a] >= 2:
                        for _ in range(p[a] // 2):
                            extra = extra.mul(frompoly(a[1]))
                        p[a] %= 2
                    elif a[0] == "abs" and p[a] >= 2:
                        q = frompoly(a[1])
                        for _ in range(p[a] // 2):
                            extra = extra.mul(q.mul(q))
                        p[a] %= 2
                t = Poly({tuple(sorted(((a, n) for a, n in p.items() if n), key=repr)): c1 * c2})
                r = r.add(t if extra.value() == 1 else t.mul(extra))
        return r

    def neg(self):
        return Poly({k: -c for k, c in self.m.items()})

    def show(self):
        out = []
        for k, c in self.key():
            s = "*".join([showatom(a) + ("^%d" % n if n != 1 else "") for a, n in k])
            f = ("%d" % c if c.denominator == 1 else "%g" % float(c))
            out.append(s if s and c == 1 else f if not s else "%s*%s" % (f, s))
        return " + ".join(out) or "0"


def frompoly(k):
    return Poly(dict(k))


def showatom(a):
    return a[0] if len(a) == 1 else "%s(%s)" % (a[0], ", ".join(frompoly(x).show() for x in a[1:]))


def sign(p):
    """p or -p, whichever comes first"""
    k = p.key()
    return p if not k or k[-1][1] > 0 else p.neg()


def canon(p):
    q = p.neg()
    return p if repr(p.key()) <= repr(q.key()) else q


def fn(name, *ps):
    if name == "sqrt":
        v = ps[0].value()
        if v is not None and v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Poly.const(Fraction(n, d))
        return Poly.atom(("sqrt", ps[0].key()))
    if name == "abs":
        v = ps[0].value()
        return Poly.const(abs(v)) if v is not None else Poly.atom(("abs", canon(ps[0]).key()))
    if name == "cos":
        return Poly.atom(("cos", canon(ps[0]).key()))
    if name == "sin":
        c = canon(ps[0])
        return Poly.atom(("sin", c.key())) if c == ps[0] else Poly.atom(("sin", c.key())).neg()
    if name in ("max", "min"):
        s = sorted({p.key() for p in ps}, key=repr)
        return frompoly(s[0]) if len(s) == 1 else Poly.atom((name,) + tuple(s))
    return Poly.atom((name,) + tuple(p.key() for p in ps))


def at(p, env):
    """value of a polynomial at a point (used only to tell whether two different normal forms differ)"""
    s = 0.0
    for k, c in p.m.items():
        t = float(c)
        for a, n in k:
            t *= atomat(a, env) ** n
        s += t
    return s


def atomat(a, env):
    if len(a) == 1:
        return env[a[0]]
    v = [at(frompoly(x), env) for x in a[1:]]
    f = {"max": max, "min": min, "abs": abs, "trunc": math.trunc, "arctan2": math.atan2}.get(a[0]) or getattr(math, a[0], None)
    if f is None:
        raise Unknown(a[0])
    return f(*v)


class Mat:
    def __init__(self, v):
        self.v = v


class Lam:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod


class Num:
    """a library function, by name"""
    def __init__(self, name):
        self.name = name


NAMES = {"absolute": "abs", "fabs": "abs", "arccos": "acos", "arcsin": "asin", "maximum": "max", "minimum": "min", "fmax": "max", "power": "pow",
         "around": "rint", "round_": "rint", "round": "rint", "fix": "trunc", "int64": "trunc", "int32": "trunc", "int_": "trunc", "int": "trunc", "square": "square",
         "float": "id", "float64": "id", "asarray": "id", "array": "id", "atleast_2d": "id"}
METRICS = ("euclidean", "chebyshev", "cityblock", "sqeuclidean")


class Interp:
    def __init__(self, repo, case=None):
        self.repo, self.case, self.core, self.fuel = repo, case, None, 20000

    # ---- roundings
    def rounded(self, how, p):
        v = p.value()
        if v is not None:
            return Poly.const({"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "rint": round}[how](v))
        if self.case is None:
            return fn(how, p)
        c = p.m.get((), Fraction(0))
        rest = Poly({k: x for k, x in p.m.items() if k != ()})
        if any(a[0] == "whole" for k in rest.m for a, n in k):
            if all(k == ((("whole",), 1),) and x == 1 for k, x in rest.m.items()) and c.denominator == 1:
                return p
            if not all(k == ((("whole",), 1),) and x == 1 for k, x in rest.m.items()):
                raise Unknown("rounding of " + p.show())
            fr = [Fraction(0)]
            exact = True
        else:
            if self.core is None:
                self.core = rest
            elif self.core != rest:
                raise Unknown("two different roundings")
            exact = False
        # whole + fraction(case) + c
        if exact:
            f = Fraction(0)
            lo = hi = f
        else:
            f = {"0": Fraction(0), "half even": Fraction(1, 2), "half odd": Fraction(1, 2)}.get(self.case)
            lo, hi = {"0": (f, f), "low": (Fraction(0), Fraction(1, 2)), "high": (Fraction(1, 2), Fraction(1))}.get(self.case, (f, f))
        R = {"floor": math.floor, "trunc": math.floor, "ceil": math.ceil}.get(how)
        if R is None:
            def R(t):
                n = math.floor(t)
                d = t - n
                if d != Fraction(1, 2):
                    return n + (d > Fraction(1, 2))
                odd = (n + (self.case == "half odd" if not exact else 0)) % 2
                if exact:
                    raise Unknown("parity")
                return n + (odd == 1)
        if lo == hi:
            r = R(lo + c)
        else:
            eps = Fraction(1, 10 ** 9)
            r, r2 = R(lo + c + eps), R(hi + c - eps)
            if r != r2 or R((lo + hi) / 2 + c) != r:
                raise Unknown("rounding depends on the fraction")
        return Poly.atom(("whole",)).add(Poly.const(r))

    def compare(self, op, a, b):
        d = a.add(b, -1)
        v = d.value()
        lo = hi = None
        if v is not None:
            lo = hi = v
        elif self.core is not None:
            c = d.m.get((), Fraction(0))
            rest = Poly({k: x for k, x in d.m.items() if k != ()})
            w = Poly.atom(("whole",))
            for s in (1, -1):
                if rest == w.add(self.core, -1).mul(Poly.const(s)):      # s*(whole-core) = -s*frac
                    f = {"0": (Fraction(0),) * 2, "low": (Fraction(1, 10 ** 9), Fraction(1, 2) - Fraction(1, 10 ** 9)),
                         "high": (Fraction(1, 2) + Fraction(1, 10 ** 9), 1 - Fraction(1, 10 ** 9))}.get(self.case, (Fraction(1, 2),) * 2)
                    lo, hi = sorted((c - s * f[0], c - s * f[1]))
        if lo is None:
            raise Unknown("comparison of " + d.show())
        T = {ast.Lt: lambda x: x < 0, ast.LtE: lambda x: x <= 0, ast.Gt: lambda x: x > 0, ast.GtE: lambda x: x >= 0, ast.Eq: lambda x: x == 0,
             ast.NotEq: lambda x: x != 0}[type(op)]
        if T(lo) != T(hi) or (lo < 0 < hi):
            raise Unknown("comparison depends on the fraction")
        return T(lo)

    # ---- statements
    def call(self, f, args, kw=None):
        self.fuel -= 50
        if self.fuel < 0:
            raise Unknown("too long")
        kw = kw or {}
        if isinstance(f, Num):
            return self.lib(f.name, args, kw)
        if isinstance(f, Lam):
            a, env, mod = f.node.args, dict(f.env), f.mod
        elif isinstance(f, Func):
            a, env, mod = f.node.args, {}, f.module
        else:
            raise Unknown("call")
        names = [x.arg for x in a.args]
        if len(args) > len(names) and not a.vararg:
            raise Unknown("arguments")
        env.update(zip(names, args))
        for k, v in kw.items():
            if k not in names:
                raise Unknown("arguments")
            env[k] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in names[:len(args)] and n not in kw:
                env[n] = self.ev(d, {}, mod)
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        if not all(n in env for n in names):
            raise Unknown("arguments")
        if isinstance(f, Lam) and isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env, mod)
        try:
            self.block(f.node.body, env, mod)
        except Return as r:
            return r.v
        return None

    def block(self, body, env, mod):
        for s in body:
            self.fuel -= 1
            if self.fuel < 0:
                raise Unknown("too long")
            if isinstance(s, ast.Return):
                raise Return(self.ev(s.value, env, mod) if s.value else None)
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, env, mod)
                for t in s.targets:
                    self.bind(t, v, env, mod)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.bind(s.target, self.ev(s.value, env, mod), env, mod)
            elif isinstance(s, ast.AugAssign):
                if not isinstance(s.target, ast.Name):
                    raise Unknown("augmented assignment")
                env[s.target.id] = self.binop(s.op, self.ev(s.target, env, mod), self.ev(s.value, env, mod))
            elif isinstance(s, ast.If):
                self.block(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)
            elif isinstance(s, ast.FunctionDef):
                env[s.name] = Lam(s, env, mod)
            elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)):
                pass
            elif isinstance(s, ast.Expr):
                if not isinstance(s.value, ast.Constant):
                    try:
                        self.ev(s.value, env, mod)
                    except Unknown:
                        if not isinstance(s.value, ast.Call):
                            raise
            elif isinstance(s, ast.Raise):
                raise Raised()
            elif isinstance(s, ast.For):
                for x in self.items(self.ev(s.iter, env, mod)):
                    self.bind(s.target, x, env, mod)
                    self.block(s.body, env, mod)
                self.block(s.orelse, env, mod)
            else:
                raise Unknown(type(s).__name__)

    def items(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        raise Unknown("iteration")

    def bind(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts):
                raise Unknown("unpacking")
            for a, b in zip(t.elts, v):
                self.bind(a, b, env, mod)
        else:
            raise Unknown("store")

    def truth(self, v):
        if isinstance(v, Poly):
            c = v.value()
            if c is None:
                raise Unknown("truth of a number")
            return bool(c)
        if isinstance(v, Mat):
            raise Unknown("truth of a matrix")
        return bool(v) if isinstance(v, (bool, str, tuple, list, dict, type(None))) else True

    # ---- expressions
    def binop(self, op, a, b):
        if isinstance(a, Mat) or isinstance(b, Mat):
            return Mat(self.binop(op, a.v if isinstance(a, Mat) else a, b.v if isinstance(b, Mat) else b))
        if isinstance(a, bool):
            a = Poly.const(int(a))
        if isinstance(b, bool):
            b = Poly.const(int(b))
        if isinstance(a, Vec) or isinstance(b, Vec):
            n = len(a if isinstance(a, Vec) else b)
            A = a if isinstance(a, Vec) else (a,) * n
            B = b if isinstance(b, Vec) else (b,) * n
            return Vec(self.binop(op, x, y) for x, y in zip(A, B))
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            if isinstance(op, ast.Add) and type(a) is type(b) and isinstance(a, (str, tuple, list)):
                return a + b
            raise Unknown("operands")
        if isinstance(op, ast.Add):
            return a.add(b)
        if isinstance(op, ast.Sub):
            return a.add(b, -1)
        if isinstance(op, ast.Mult):
            return a.mul(b)
        if isinstance(op, ast.Div):
            return self.div(a, b)
        if isinstance(op, ast.FloorDiv):
            return self.rounded("floor", self.div(a, b))
        if isinstance(op, ast.Pow):
            n = b.value()
            if n == Fraction(1, 2):
                return fn("sqrt", a)
            if n is None or n.denominator != 1 or not 0 <= n <= 8:
                raise Unknown("power")
            r = Poly.const(1)
            for _ in range(int(n)):
                r = r.mul(a)
            return r
        raise Unknown("operator")

    def div(self, a, b):
        v = b.value()
        if v:
            return a.mul(Poly.const(1 / v))
        if len(b.m) == 1:
            (k, c), = b.m.items()
            if len(k) == 1 and k[0][0][0] == "sqrt" and k[0][1] == 1:      # 1/sqrt(q) = sqrt(q)/q for a number q
                q = frompoly(k[0][0][1]).value()
                if q:
                    return a.mul(fn("sqrt", Poly.const(q))).mul(Poly.const(1 / (q * c)))
        raise Unknown("division")

    def ev(self, e, env, mod):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unknown("too long")
        if isinstance(e, ast.Constant):
            v = e.value
            return Poly.const(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.glob(e, mod)
        if isinstance(e, ast.Lambda):
            return Lam(e, env, mod)
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.ev(x, env, mod) for x in e.elts)
        if isinstance(e, ast.Set):
            return tuple(self.ev(x, env, mod) for x in e.elts)
        if isinstance(e, ast.Dict):
            return {self.ev(k, env, mod): self.ev(v, env, mod) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, mod)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.USub) and isinstance(v, Poly):
                return v.neg()
            if isinstance(e.op, ast.UAdd) and isinstance(v, Poly):
                return v
            raise Unknown("operator")
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.ev(x, env, mod)
                if self.truth(v) == isinstance(e.op, ast.Or):
                    return v
            return v
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)
        if isinstance(e, ast.Compare):
            a = self.ev(e.left, env, mod)
            for op, c in zip(e.ops, e.comparators):
                b = self.ev(c, env, mod)
                if not self.cmp(op, a, b):
                    return False
                a = b
            return True
        if isinstance(e, ast.Subscript):
            b, i = self.ev(e.value, env, mod), (self.ev(e.slice, env, mod) if not isinstance(e.slice, ast.Slice) else None)
            if isinstance(b, dict) and (isinstance(i, str) or i is None):
                if i not in b:
                    raise Raised()
                return b[i]
            if isinstance(b, tuple) and isinstance(i, Poly) and i.value() is not None and i.value().denominator == 1 and -len(b) <= i.value() < len(b):
                return b[int(i.value())]
            raise Unknown("subscript")
        if isinstance(e, ast.Attribute):
            return self.glob(e, mod)
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            if len(e.generators) != 1:
                raise Unknown("comprehension")
            g, out = e.generators[0], []
            for x in self.items(self.ev(g.iter, env, mod)):
                en = dict(env)
                self.bind(g.target, x, en, mod)
                if all(self.truth(self.ev(t, en, mod)) for t in g.ifs):
                    out.append(self.ev(e.elt, en, mod))
            return tuple(out)
        if isinstance(e, ast.Call):
            return self.evcall(e, env, mod)
        raise Unknown(type(e).__name__)

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                return (a is b) == isinstance(op, ast.Is)
            raise Unknown("is")
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (tuple, list, dict)) and (a is None or isinstance(a, str)):
                return (a in b) == isinstance(op, ast.In)
            if isinstance(a, str) and isinstance(b, str):
                return (a in b) == isinstance(op, ast.In)
            raise Unknown("in")
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.compare(op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)) and (a is None or b is None or isinstance(a, str) and isinstance(b, str)):
            return (a == b) == isinstance(op, ast.Eq)
        raise Unknown("comparison")

    def glob(self, e, mod):
        if isinstance(e, ast.Name):
            if e.id in mod.assigns:
                v = mod.assigns[e.id]
                v = v[-1] if isinstance(v, list) else v
                if isinstance(v, ast.AST):
                    return self.ev(v, {}, mod)
            r = self.repo.resolve_expr(mod, e) if hasattr(self.repo, "resolve_expr") else None
            if isinstance(r, Func):
                return r
            return Num(self.libname(e.id, mod))
        if isinstance(e, ast.Attribute):
            r = None
            try:
                r = self.repo.resolve_expr(mod, e)
            except Exception:
                r = None
            if isinstance(r, Func):
                return r
            if e.attr == "pi":
                return Poly.atom(("pi",))
            return Num(e.attr)
        raise Unknown("name")

    def libname(self, n, mod):
        for s in mod.tree.body:
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == n:
                        return a.name
        return n

    def evcall(self, e, env, mod):
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    args += self.items(self.ev(a.value, env, mod))
                else:
                    args.append(self.ev(a, env, mod))
        else:
            args = None
        if isinstance(e.func, ast.Attribute):
            base = e.func.value
            lib = isinstance(base, ast.Name) and base.id not in env and base.id not in mod.assigns and not isinstance(self.repo.resolve_expr(mod, base), Func) \
                or isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id not in env and base.value.id not in mod.assigns
            if not lib:
                b = self.ev(base, env, mod)
                args = args if args is not None else [self.ev(a, env, mod) for a in e.args]
                kw = {k.arg: self.ev(k.value, env, mod) for k in e.keywords if k.arg}
                return self.method(b, e.func.attr, args, kw)
        args = args if args is not None else [self.ev(a, env, mod) for a in e.args]
        kw = {k.arg: self.ev(k.value, env, mod) for k in e.keywords if k.arg}
        f = self.ev(e.func, env, mod)
        return self.call(f, args, kw)

    def method(self, b, name, args, kw):
        if isinstance(b, dict):
            if name == "get":
                return b.get(args[0], args[1] if len(args) > 1 else None)
            if name in ("keys", "values", "items"):
                return tuple(getattr(b, name)())
        if isinstance(b, str) and name in ("upper", "lower", "strip") and not args:
            return getattr(b, name)()
        if isinstance(b, str) and name in ("startswith", "endswith") and args and isinstance(args[0], str):
            return getattr(b, name)(args[0])
        if isinstance(b, (Mat, Poly)):
            if name == "astype":
                t = args[0] if args else kw.get("dtype")
                return self.lib("trunc", [b], {}) if self.inttype(t) else b
            if name in ("round", "rint"):
                return self.lib("rint", [b] + args, {})
            if name in ("copy", "item", "conj"):
                return b
        raise Unknown("method " + name)

    def inttype(self, t):
        n = t.name if isinstance(t, Num) else t if isinstance(t, str) else None
        if n is None:
            raise Unknown("dtype")
        n = NAMES.get(n, n)
        if n == "trunc" or n.startswith("int") or n in ("i4", "i8", "long", "i"):
            return True
        if n == "id" or n.startswith("float") or n in ("double", "f8", "d", "longdouble"):
            return False
        raise Unknown("dtype")

    def lib(self, name, args, kw):
        n = NAMES.get(name, name)
        if n in ("pdist", "cdist"):
            metric = kw.get("metric", args[2 if n == "cdist" else 1] if len(args) > (2 if n == "cdist" else 1) else "euclidean")
            p, q = Vec((Poly.atom(("x1",)), Poly.atom(("y1",)))), Vec((Poly.atom(("x2",)), Poly.atom(("y2",))))
            if isinstance(metric, str):
                dx, dy = (a.add(b, -1) for a, b in zip(p, q))
                if metric == "euclidean":
                    return Mat(fn("sqrt", dx.mul(dx).add(dy.mul(dy))))
                if metric == "sqeuclidean":
                    return Mat(dx.mul(dx).add(dy.mul(dy)))
                if metric == "cityblock":
                    return Mat(fn("abs", dx).add(fn("abs", dy)))
                if metric == "chebyshev":
                    return Mat(fn("max", fn("abs", dx), fn("abs", dy)))
                raise Unknown("metric " + metric)
            if not isinstance(metric, (Lam, Func)):
                raise Unknown("metric")
            v = self.call(metric, [p, q])
            if not isinstance(v, Poly):
                raise Unknown("metric's value")
            return Mat(v)
        if n == "squareform" and args:
            return args[0]
        if n == "partial" and args:
            f0, a0, k0 = args[0], list(args[1:]), dict(kw)
            raise Unknown("partial")
        if n in ("map",) and len(args) == 2:
            return tuple(self.call(args[0], [x]) for x in self.items(args[1]))
        if n in ("tuple", "list", "set", "frozenset") and len(args) <= 1:
            return tuple(self.items(args[0])) if args else ()
        if n == "zip":
            return tuple(zip(*[self.items(a) for a in args]))
        if n == "sum" and args:
            r = Poly.const(0)
            for x in self.items(args[0]):
                r = self.binop(ast.Add(), r, x)
            return r
        if n == "dict" and not args:
            return dict(kw)
        if n == "ValueError":
            return None
        if args and all(isinstance(a, (Poly, Mat)) for a in args):
            if any(isinstance(a, Mat) for a in args):
                return Mat(self.num(n, [a.v if isinstance(a, Mat) else a for a in args], kw))
            return self.num(n, list(args), kw)
        if args and len(args) == 1 and isinstance(args[0], tuple) and n in ("max", "min"):
            return self.num(n, list(args[0]), kw)
        if args and isinstance(args[0], Vec) and len(args) == 1:
            return Vec(self.num(n, [x], kw) for x in args[0])
        if n == "id" and args:
            return args[0]
        if n == "isinstance" or n == "callable" and args:
            if n == "callable":
                return isinstance(args[0], (Lam, Func, Num))
        raise Unknown("call of " + name)

    def num(self, n, a, kw):
        if n == "id":
            return a[0]
        if n in ("ceil", "floor", "trunc", "rint") and len(a) == 1:
            return self.rounded(n, a[0])
        if n == "rint" and len(a) == 2 and a[1].value() == 0:
            return self.rounded(n, a[0])
        if n == "sqrt":
            return fn("sqrt", a[0])
        if n == "hypot":
            return fn("sqrt", a[0].mul(a[0]).add(a[1].mul(a[1])))
        if n == "square":
            return a[0].mul(a[0])
        if n == "pow" and len(a) == 2:
            return self.binop(ast.Pow(), a[0], a[1])
        if n == "abs":
            return fn("abs", a[0])
        if n == "modf":
            t = fn("trunc", a[0])
            return (a[0].add(t, -1), t)
        if n == "fmod" and a[1].value() == 1:
            return a[0].add(fn("trunc", a[0]), -1)
        if n in ("max", "min"):
            return fn(n, *a)
        if n in ("radians", "deg2rad"):
            return a[0].mul(Poly.atom(("pi",))).mul(Poly.const(Fraction(1, 180)))
        if n in ("cos", "sin", "acos", "asin", "tan", "atan", "arctan2"):
            return fn(n, *a)
        if n in ("add", "subtract", "multiply", "divide", "true_divide"):
            return self.binop({"add": ast.Add(), "subtract": ast.Sub(), "multiply": ast.Mult()}.get(n, ast.Div()), a[0], a[1])
        raise Unknown("function " + n)


class Vec(tuple):
    pass


# ---- the definitions ----------------------------------------------------------------
def definitions():
    x1, y1, x2, y2 = (Poly.atom((n,)) for n in ("x1", "y1", "x2", "y2"))
    dx, dy = x1.add(x2, -1), y1.add(y2, -1)
    s2 = dx.mul(dx).add(dy.mul(dy))
    euc = fn("sqrt", s2)
    one = Poly.const(1)
    q1, q2, q3 = fn("cos", dy), fn("cos", dx), fn("cos", x1.add(x2))
    arg = one.add(q1).mul(q2).add(one.add(q1, -1).mul(q3), -1).mul(Poly.const(Fraction(1, 2)))
    geo = fn("acos", arg).mul(Poly.const(Fraction("6378.388")))
    nint = (0, 0, 1, 1, 1)
    return {"EUC_2D": (euc, nint), "CEIL_2D": (euc, (0, 1, 1, 1, 1)), "FLOOR_2D": (euc, (0, 0, 0, 0, 0)), "EXACT_2D": (euc, None),
            "MAN_2D": (fn("abs", dx).add(fn("abs", dy)), nint), "MAX_2D": (fn("max", fn("abs", dx), fn("abs", dy)), nint),
            "ATT": (fn("sqrt", s2.mul(Poly.const(Fraction(1, 10)))), (0, 1, 1, 1, 1)), "GEO": (geo, (1, 1, 1, 1, 1))}


POINTS = [{"x1": a, "y1": b, "x2": c, "y2": d, "x": a, "pi": math.pi} for a, b, c, d in
          ((0.3, 0.7, 1.1, 0.2), (-0.6, 1.3, 0.4, -0.9), (1.2, -2.1, 0.1, 0.5), (-1.4, -0.2, -0.3, 2.5), (0.9, 3.0, -0.8, -1.7))]


def differ(p, q):
    """None: same normal form; False: different terms with equal values at the points; True: different values"""
    if p == q:
        return None
    try:
        return any(abs(at(p, e) - at(q, e)) > 1e-9 * (1 + abs(at(q, e))) for e in POINTS)
    except (Unknown, ValueError, OverflowError, ZeroDivisionError):
        return False


def judge(repo, f, T, opts):
    """(verdict, text) of the distances f computes for type T; verdict: ok / metric / rounding / rejected / unknown"""
    core, want = definitions().get(T, (None, None))
    shifts, got = [], None
    try:
        for case in CASES:
            it = Interp(repo, case)
            v = it.call(f, [("pts",), ("opts",) if opts else None, T])
            if not isinstance(v, (Mat, Poly)):
                return "unknown", "the value for %s is not recognised" % T
            v = v.v if isinstance(v, Mat) else v
            if it.core is None:
                got, sh = v, None
            else:
                w = v.add(Poly.atom(("whole",)), -1)
                if w.value() is None:
                    return "unknown", "%s: %s" % (T, v.show())
                got, sh = it.core, w.value()
            shifts.append(sh)
    except Unknown as u:
        return "unknown", "%s: %s" % (T, u)
    except Raised:
        return "rejected", "distance type %s is rejected" % T
    if core is None:
        return "ok", "%s: %s (no definition)" % (T, got.show())
    d = differ(got, core)
    if d:
        return "metric", "distances of type %s are computed as %s, defined is %s" % (T, got.show(), core.show())
    if d is False:
        return "unknown", "%s: %s" % (T, got.show())
    if want is None:
        return ("ok", "%s: %s" % (T, got.show())) if all(s is None for s in shifts) else ("rounding", "distances of type %s are rounded" % T)
    for c, s, w in zip(CASES, shifts, want):
        if s != w:
            return "rounding", ("distances of type %s are not rounded" % T if s is None else
                                "distances of type %s whose fraction is %s become whole part%+d, defined is %+d" % (T, {"low": "below a half", "high": "above a half", "0": "zero"}.get(c, "a half"), s, w))
    return "ok", "%s: %s, rounded as defined" % (T, got.show())


def degrees(repo, f):
    """is f(x) the radians of degrees.minutes?"""
    x = Poly.atom(("x",))
    t = fn("trunc", x)
    spec = t.add(x.add(t, -1).mul(Poly.const(Fraction(5, 3)))).mul(Poly.const(Fraction("3.141592") / 180))
    try:
        v = Interp(repo).call(f, [x])
    except (Unknown, Raised) as u:
        return "unknown", str(u)
    if not isinstance(v, Poly):
        return "unknown", "no number"
    d = differ(v, spec)
    if d:
        return "metric", "degrees and minutes are converted as %s, defined is %s" % (v.show(), spec.show())
    return ("ok", v.show()) if d is None else ("unknown", v.show())
