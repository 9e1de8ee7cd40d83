"""C18: accounting analysis of the solution checker and the objective.

Sequences are symbolic (positions are linear forms, nothing is unrolled): a loop over a sequence is summarised by what one
arbitrary iteration adds, with loop invariants found by induction (what an accumulator holds since the last depot visit, which
element the predecessor variable is).  The sums are compared with the set of legs and visits that must be counted."""
import ast
from collections import Counter
from .core import Func, own_walk, bind_args, is_debug_test

MAXPATH = 4000


class Lost(Exception):
    pass


class Dropped(Lost):
    """the iteration drops elements of the sequence"""


# ---- linear index forms ----------------------------------------------------
def lin(c=0, **s):
    d = {k: v for k, v in s.items() if v}
    return (c, tuple(sorted(d.items())))


def ladd(a, b, k=1):
    d = dict(a[1])
    for s, v in b[1]:
        d[s] = d.get(s, 0) + k * v
    return (a[0] + k * b[0], tuple(sorted((s, v) for s, v in d.items() if v)))


def lsub(a, s, by):
    d = dict(a[1])
    k = d.pop(s, 0)
    r = (a[0], tuple(sorted(d.items())))
    return ladd(r, by, k) if k else r


def K(c):
    return (c, ())


# ---- sums ------------------------------------------------------------------
def num(c=0):
    return ("num", frozenset({(("one",), c)} if c else ()))


def nadd(a, b, k=1):
    c = Counter(dict(a[1]))
    for t, v in b[1]:
        c[t] = c.get(t, 0) + k * v
    return ("num", frozenset((t, v) for t, v in c.items() if abs(v) > 1e-12))


def term(t, k=1):
    return ("num", frozenset({(t, k)}))


def leg(a, b):
    return ("D",) + tuple(sorted((a, b), key=repr))


class Exec:
    """path enumerating interpreter over symbolic sequences"""

    def __init__(self, repo, f, env, truths):
        self.repo, self.f, self.truths = repo, f, truths
        self.env0 = env
        self.paths = 0
        self.loops = None           # handler for loops over sequences
        self.depth = 0

    # state: (env, facts)   facts: tuple of (kind, ..., outcome)
    def fork(self, n=1):
        self.paths += n
        if self.paths > MAXPATH:
            raise Lost("too many paths")

    # -- expressions: value in a state (conditions inside are forked by `vals`)
    def ev(self, e, st):
        env, facts = st
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return ("bool", e.value)
            if isinstance(e.value, (int, float)):
                return num(e.value)
            return ("none",) if e.value is None else ("text",)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.repo.resolve_expr(self.f, e)
            if isinstance(r, tuple) and r[0] == "const":
                return term(("cfg", r[2]))
            return ("top",)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, st)
            if isinstance(e.op, ast.USub) and v[0] == "num":
                return nadd(num(0), v, -1)
            if isinstance(e.op, ast.Not) and v[0] == "bool":
                return ("bool", not v[1])
            return ("top",)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            if isinstance(e.op, (ast.Add, ast.Sub)) and a[0] == b[0] == "num":
                return nadd(a, b, 1 if isinstance(e.op, ast.Add) else -1)
            if isinstance(e.op, ast.Mult):
                for x, y in ((a, e.right), (b, e.left)):
                    if x == ("list0",):
                        return ("cover",)
                for x, y in ((a, b), (b, a)):
                    if x[0] == y[0] == "num" and len(y[1]) <= 1 and all(t == ("one",) for t, _ in y[1]):
                        c = sum(v for _, v in y[1])
                        return ("num", frozenset((t, v * c) for t, v in x[1] if v * c))
            return ("top",)
        if isinstance(e, (ast.List, ast.Tuple)):
            vs = tuple(self.ev(x, st) for x in e.elts)
            if isinstance(e, ast.List) and len(vs) == 1 and (vs[0] == num(0) or vs[0] == ("bool", False)):
                return ("list0",)
            return ("tuple", vs)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, st)
            if b[0] == "seq":
                if isinstance(e.slice, ast.Slice):
                    if e.slice.step is not None:
                        return ("top",)
                    lo = self.as_lin(self.ev(e.slice.lower, st)) if e.slice.lower is not None else None
                    hi = self.as_lin(self.ev(e.slice.upper, st)) if e.slice.upper is not None else None
                    if e.slice.lower is not None and lo is None or e.slice.upper is not None and hi is None:
                        return ("top",)
                    L = b[2] if lo is None else (ladd(b[2], lo) if not (not lo[1] and lo[0] < 0) else ladd(b[3], lo))
                    H = b[3] if hi is None else (ladd(b[2], hi) if not (not hi[1] and hi[0] < 0) else ladd(b[3], hi))
                    return ("seq", b[1], L, H)
                i = self.as_lin(self.ev(e.slice, st))
                if i is None:
                    return ("top",)
                if not i[1] and i[0] < 0:
                    return ("elem", b[1], ladd(b[3], i))
                return ("elem", b[1], ladd(b[2], i))
            if b[0] == "D":
                if isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 2:
                    x, y = (self.ev(q, st) for q in e.slice.elts)
                    return self.dist(x, y, st)
                return ("Drow", self.ev(e.slice, st))
            if b[0] == "Drow":
                return self.dist(b[1], self.ev(e.slice, st), st)
            if b[0] == "d":
                x = self.ev(e.slice, st)
                if x[0] == "elem":
                    return term(("d", x))
                if x == num(0):
                    return num(0)
                return ("top",)
            if b[0] == "cover":
                x = self.ev(e.slice, st)
                return ("covered", x) if x[0] == "elem" else ("top",)
            if b[0] == "tuple" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(b[1]) <= e.slice.value < len(b[1]):
                return b[1][e.slice.value]
            return ("top",)
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            return ("cond", e)
        if isinstance(e, ast.IfExp):
            os = self.cond(e.test, st)
            if len(os) == 1:
                return self.ev(e.body if os[0][0] else e.orelse, os[0][1])
            return ("cond", e)
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            return self.comp(e, st)
        if isinstance(e, ast.Call):
            return self.call(e, st)
        return ("top",)

    def as_lin(self, v):
        if v[0] != "num":
            return None
        c, d = 0, {}
        for t, k in v[1]:
            if t == ("one",):
                c += k
            elif t[0] == "ix":
                d[t[1]] = d.get(t[1], 0) + k
            else:
                return None
        if c != int(c):
            return None
        return (int(c), tuple(sorted((s, int(k)) for s, k in d.items() if k)))

    def from_lin(self, l):
        v = num(l[0])
        for s, k in l[1]:
            v = nadd(v, term(("ix", s)), k)
        return v

    def dist(self, x, y, st):
        a = ("0",) if x == num(0) else x
        b = ("0",) if y == num(0) else y
        if a[0] == "seq" and b[0] == "seq" and a[1] == b[1]:        # vectorised: elementwise legs
            return ("legs", a, b)
        if a[0] in ("elem", "0") and b[0] in ("elem", "0"):
            return term(leg(a, b)) if a != b else num(0)
        return ("top",)

    def interval(self, t, var, lo, hi):
        """sum over var in [lo,hi) of term t"""
        if t[0] == "D" and t[1][0] == t[2][0] == "elem" and t[1][1] == t[2][1]:
            a, b = t[1][2], t[2][2]
            if dict(a[1]).get(var) == 1 and dict(b[1]).get(var) == 1:
                d = ladd(b, a, -1)
                if d == K(1) or d == K(-1):
                    top = b if d == K(1) else a
                    L, H = lsub(top, var, lo), lsub(top, var, hi)
                    return nadd(term(("H", "leg", t[1][1], L)), term(("H", "leg", t[1][1], H)), -1)
        if t[0] == "d" and t[1][0] == "elem" and dict(t[1][2][1]).get(var) == 1:
            x = t[1]
            return nadd(term(("H", "dem", x[1], lsub(x[2], var, lo))), term(("H", "dem", x[1], lsub(x[2], var, hi))), -1)
        raise Lost("a term is summed over an unknown range")

    def sum_over(self, v, var, lo, hi):
        out = num(0)
        for t, k in v[1]:
            out = nadd(out, self.interval(t, var, lo, hi), k)
        return out

    # -- iteration spaces: (var, lo, hi, {target bindings})
    def space(self, target, it, st, var):
        def bind(t, v, out):
            if isinstance(t, ast.Name):
                out[t.id] = v
            elif isinstance(t, (ast.Tuple, ast.List)) and v[0] == "tuple" and len(v[1]) == len(t.elts):
                for x, y in zip(t.elts, v[1]):
                    bind(x, y, out)
            else:
                raise Lost("loop target")
        v = term(("ix", var))
        r = self.items(it, st, var)
        if r is None:
            raise Lost("iterates over %s" % ast.unparse(it))
        lo, hi, val = r
        out = {}
        bind(target, val, out)
        return lo, hi, out

    def items(self, it, st, var):
        """(lo, hi, value of the item) with the item number expressed by var"""
        ix = lin(0, **{var: 1})
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            nm = it.func.id
            if nm in ("range", "xrange"):
                a = [self.as_lin(self.ev(x, st)) for x in it.args]
                if None in a or len(a) == 3 and a[2] != K(1) or not a:
                    return None
                lo, hi = (K(0), a[0]) if len(a) == 1 else (a[0], a[1])
                return lo, hi, self.from_lin(ix)
            if nm == "enumerate":
                r = self.items(it.args[0], st, var)
                if r is None:
                    return None
                s = self.as_lin(self.ev(it.args[1], st)) if len(it.args) > 1 else K(0)
                if s is None:
                    return None
                return r[0], r[1], ("tuple", (self.from_lin(ladd(ladd(ix, r[0], -1), s)), r[2]))
            if nm == "zip" and len(it.args) == 2:
                r = [self.items(a, st, var) for a in it.args]
                if None in r:
                    return None
                # renumber both from 0
                n = [ladd(x[1], x[0], -1) for x in r]
                d = ladd(n[0], n[1], -1)
                if d[1]:
                    return None
                m = n[0] if d[0] <= 0 else n[1]
                vs = tuple(self.shift(x[2], var, x[0]) for x in r)
                return K(0), m, ("tuple", vs)
            if nm in ("list", "tuple", "iter") and len(it.args) == 1:
                return self.items(it.args[0], st, var)
            if nm in ("set", "frozenset") and len(it.args) == 1 and self.ev(it.args[0], st)[0] == "seq":
                raise Dropped("repeated elements of %s are dropped" % ast.unparse(it.args[0]))
        v = self.ev(it, st)
        if v[0] == "seq":
            return v[2], v[3], ("elem", v[1], ix)
        return None

    def shift(self, v, var, by):
        if v[0] == "elem":
            return ("elem", v[1], ladd(v[2], by) if dict(v[2][1]).get(var) else v[2])
        if v[0] == "num":
            return nadd(v, self.from_lin(by))
        if v[0] == "tuple":
            return ("tuple", tuple(self.shift(x, var, by) for x in v[1]))
        return v

    def comp(self, e, st):
        if len(e.generators) != 1 or e.generators[0].ifs:
            return ("top",)
        g = e.generators[0]
        var = "j%d" % (id(e) % 100003)
        try:
            lo, hi, b = self.space(g.target, g.iter, st, var)
        except Dropped:
            raise
        except Lost:
            return ("top",)
        env = dict(st[0])
        env.update(b)
        v = self.ev(e.elt, (env, st[1]))
        return ("gen", v, var, lo, hi)

    def call(self, e, st):
        fn = e.func
        nm = fn.id if isinstance(fn, ast.Name) else (fn.attr if isinstance(fn, ast.Attribute) else "")
        if nm in ("float", "int") and len(e.args) == 1:
            v = self.ev(e.args[0], st)
            return v if v[0] == "num" and (nm == "float" or all(t[0] in ("one", "ix") for t, _ in v[1])) else ("top",)
        if nm == "len" and len(e.args) == 1:
            v = self.ev(e.args[0], st)
            if v[0] == "seq":
                return self.from_lin(ladd(v[3], v[2], -1))
            if v[0] in ("D", "d", "cover"):
                return term(("N",))
            if v[0] == "served":
                return term(("ncovered",))
            return ("top",)
        if nm == "sum" and e.args:
            v = self.ev(e.args[0], st)
            base = self.ev(e.args[1], st) if len(e.args) > 1 and isinstance(fn, ast.Name) else num(0)
            if v[0] == "gen" and v[1][0] == "num" and base[0] == "num":
                return nadd(base, self.sum_over(v[1], v[2], v[3], v[4]))
            if v[0] == "legs":
                return self.legs_sum(v)
            if v[0] == "cover":
                return term(("ncovered",))
            return ("top",)
        if nm == "sum" and isinstance(fn, ast.Attribute) and not e.args:
            v = self.ev(fn.value, st)
            if v[0] == "legs":
                return self.legs_sum(v)
            return ("top",)
        if nm in ("list", "tuple") and len(e.args) == 1:
            return self.ev(e.args[0], st)
        if nm == "index" and isinstance(fn, ast.Attribute) and len(e.args) == 1 and self.ev(e.args[0], st) == num(0):
            v = self.ev(fn.value, st)
            if v[0] == "seq" and v[2] == K(0):
                return term(("ix", "FD"))
        if nm in ("set",) and not e.args:
            return ("served",)
        if nm == "asarray" or nm == "array":
            return self.ev(e.args[0], st) if e.args else ("top",)
        t = self.repo.callee(self.f, e)
        if isinstance(t, Func) and self.depth < 4 and t is not self.f and t.cls is None:
            m, ok = bind_args(t, e)
            if ok and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_walk(t.node)):
                env = {}
                for p in t.params:
                    if p in m:
                        env[p] = self.ev(m[p], st)
                    elif p in t.defaults:
                        env[p] = self.ev(t.defaults[p], ({}, ()))
                sub = Exec(self.repo, t, env, self.truths)
                sub.depth = self.depth + 1
                sub.loops = self.loops
                rs = sub.run()
                vals = {repr(v): v for k, v, s in rs if k == "return"}
                if len(vals) == 1 and all(k == "return" for k, v, s in rs):
                    return list(vals.values())[0]
                if all(k == "return" and v[0] in ("bool", "top", "cond") for k, v, s in rs) and all(v[0] == "bool" for _, v, _ in rs):
                    return ("paths", tuple((s[1], v) for k, v, s in rs))
        return ("top",)

    def legs_sum(self, v):
        a, b = v[1], v[2]
        d = ladd(b[2], a[2], -1)
        n, m = ladd(a[3], a[2], -1), ladd(b[3], b[2], -1)
        if n != m:
            raise Lost("slices of different lengths")
        var = "v"
        ix = lin(0, v=1)
        t = leg(("elem", a[1], ladd(ix, a[2])), ("elem", b[1], ladd(ix, b[2])))
        return self.interval(t, var, K(0), n)

    # -- conditions: list of (outcome, facts)
    def cond(self, e, st):
        env, facts = st
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not o, s) for o, s in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            out, cur = [], [st]
            stop = isinstance(e.op, ast.Or)
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for o, s2 in self.cond(v, s):
                        if o is stop:
                            out.append((stop, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(not stop, s) for s in cur]
        if isinstance(e, ast.IfExp):
            out = []
            for o, s in self.cond(e.test, st):
                out += self.cond(e.body if o else e.orelse, s)
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("bool",) and len(e.args) == 1:
            return self.cond(e.args[0], st)
        key = None
        flip = False
        if isinstance(e, ast.Name) and e.id in self.truths and env.get(e.id, ("?",))[0] != "num":
            return [(self.truths[e.id], st)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b, op = self.ev(e.left, st), self.ev(e.comparators[0], st), e.ops[0]
            for x, y in ((a, b), (b, a)):
                if x[0] in ("D", "d", "limit", "seq", "lim") and y == ("none",) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    given = self.truths.get(x[1] if x[0] == "lim" else x[0], True)
                    return [((not given) == isinstance(op, (ast.Is, ast.Eq)), st)]
            if isinstance(op, (ast.Eq, ast.NotEq)):
                x, y = (a, b) if a[0] in ("elem",) else (b, a)
                if x[0] == "elem" and y == num(0):
                    key, flip = ("depot", x), isinstance(op, ast.NotEq)
                elif x[0] == "elem" and y[0] == "elem":
                    key, flip = ("same",) + tuple(sorted((x, y), key=repr)), isinstance(op, ast.NotEq)
            if isinstance(op, (ast.Gt, ast.GtE)) and y_pos(a, b):
                key = ("depot", a)
                flip = isinstance(op, ast.Gt)
            if isinstance(op, (ast.In, ast.NotIn)):
                if b[0] == "served" and a[0] == "elem":
                    key, flip = ("covered", a), isinstance(op, ast.NotIn)
                elif b[0] == "cover" and a in (num(0), ("bool", False)):
                    key, flip = ("missing",), isinstance(op, ast.NotIn)
            if key is None and a[0] == "covered" and b[0] == "num" and isinstance(op, (ast.Eq, ast.NotEq, ast.Gt, ast.GtE, ast.Lt)):
                c = sum(v for t, v in b[1]) if all(t == ("one",) for t, _ in b[1]) else None
                if c is not None:
                    r = {(ast.Eq, 0): True, (ast.NotEq, 0): False, (ast.Eq, 1): False, (ast.NotEq, 1): True, (ast.Gt, 0): False,
                         (ast.GtE, 1): False, (ast.Lt, 1): True}.get((type(op), c))
                    if r is not None:
                        key, flip = ("covered", a[1]), r
            if key is None and a[0] == "num" and b[0] == "num":
                d = nadd(a, b, -1)
                sy = {t[0] for t, _ in d[1]}
                if "ncovered" in sy:
                    if isinstance(op, (ast.Eq, ast.NotEq)) and d in (nadd(term(("ncovered",)), term(("N",)), -1), nadd(term(("N",)), term(("ncovered",)), -1)):
                        key, flip = ("missing",), isinstance(op, ast.Eq)
                    elif isinstance(op, (ast.Lt, ast.GtE)) and d == nadd(term(("ncovered",)), term(("N",)), -1):
                        key, flip = ("missing",), isinstance(op, ast.GtE)
                    elif isinstance(op, (ast.Gt, ast.LtE)) and d == nadd(term(("N",)), term(("ncovered",)), -1):
                        key, flip = ("missing",), isinstance(op, ast.LtE)
                    else:
                        key = ("odd-missing", d, type(op).__name__)
                elif isinstance(op, (ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
                    if isinstance(op, (ast.Lt, ast.LtE)):
                        d = nadd(b, a, -1)
                    # d > 0 (Gt,Lt) or d >= 0
                    key = ("pos", d)
                    if all(t == ("one",) for t, _ in d[1]):
                        c = sum(v for _, v in d[1])
                        return [((c > 0) if isinstance(op, (ast.Gt, ast.Lt)) else (c >= 0), st)]
        if key is None:
            v = self.ev(e, st)
            if v[0] == "bool":
                return [(v[1], st)]
            if v[0] == "cond" and v[1] is not e:
                return self.cond(v[1], st)
            if v[0] == "covered":
                key = ("covered", v[1])
            elif v[0] == "elem":
                key, flip = ("depot", v), True
            elif v[0] == "lim":
                return [(self.truths[v[1]], st)]
            elif v[0] in ("D", "d", "seq"):
                return [(self.truths.get(v[0], True), st)]
            elif v[0] == "paths":
                out = []
                for fs, b in v[1]:
                    out.append((b[1], (env, facts + tuple(x for x in fs if x not in facts))))
                return out
            elif v[0] == "flag":
                key = ("flag", v[1])
            else:
                key = ("?", ast.unparse(e))
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "all" and e.args:
                    w = self.ev(e.args[0], st)
                    if w == ("cover",):
                        key, flip = ("missing",), True
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "hasattr" and len(e.args) == 2:
                    key = ("nested",)
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and e.args and \
                        self.ev(e.args[0], st)[0] == "elem":
                    key = ("nested",)
        for k, o in facts:
            if k == key:
                return [(o != flip, st)]
        self.fork()
        return [(o != flip, (env, facts + ((key, o),))) for o in (True, False)]

    # -- statements: results (kind, value, state), kind in next/break/continue/return/raise
    def block(self, stmts, sts):
        out = []
        for s in stmts:
            nxt = []
            for st in sts:
                for k, v, s2 in self.stmt(s, st):
                    if k == "next":
                        nxt.append(s2)
                    else:
                        out.append((k, v, s2))
            sts = nxt
            if not sts:
                break
        return out + [("next", None, s) for s in sts]

    def assign(self, t, v, st):
        env, facts = st
        env = dict(env)
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                w = v[1][i] if v[0] == "tuple" and len(v[1]) == len(t.elts) else ("top",)
                env = dict(self.assign(x, w, (env, facts))[0])
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            if b[0] == "cover":
                x = self.ev(t.slice, st)
                one = v in (num(1), ("bool", True)) or v[0] == "incr"
                if x[0] == "elem" and one:
                    env["$marked"] = env.get("$marked", ()) + (x,)
                elif x == num(0) and one:
                    env["$marked"] = env.get("$marked", ()) + (("0",),)
                else:
                    env["$marked"] = env.get("$marked", ()) + (("odd", ast.unparse(t)),)
        return (env, facts)

    def flag_values(self, e, st):
        """value of e, forking where e is a condition"""
        v = self.ev(e, st)
        if v[0] in ("cond", "paths"):
            return [(("bool", o), s) for o, s in self.cond(e, st)]
        return [(v, st)]

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            out = []
            for v, s2 in self.flag_values(s.value, st):
                for t in s.targets:
                    s2 = self.assign(t, v, s2)
                out.append(("next", None, s2))
            return out
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return [("next", None, self.assign(s.target, self.ev(s.value, st), st))]
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Subscript):
                b = self.ev(s.target.value, st)
                if b[0] == "cover" and isinstance(s.op, ast.Add):
                    return [("next", None, self.assign(s.target, ("incr",), st))]
                return [("next", None, st)]
            a = self.ev(s.target, st)
            if isinstance(s.op, (ast.BitAnd, ast.BitOr)):
                e = ast.BoolOp(op=ast.And() if isinstance(s.op, ast.BitAnd) else ast.Or(),
                               values=[ast.Name(id=s.target.id, ctx=ast.Load()), s.value])
                return [("next", None, self.assign(s.target, ("bool", o), s2)) for o, s2 in self.cond(e, st)]
            b = self.ev(s.value, st)
            v = ("top",)
            if a[0] == b[0] == "num" and isinstance(s.op, (ast.Add, ast.Sub)):
                v = nadd(a, b, 1 if isinstance(s.op, ast.Add) else -1)
            elif isinstance(s.op, ast.Add) and a[0] == "num" and b[0] == "tuple":
                v = ("top",)
            return [("next", None, self.assign(s.target, v, st))]
        if isinstance(s, ast.If):
            if is_debug_test(s.test):
                return self.block(s.orelse, [st])
            out = []
            for o, s2 in self.cond(s.test, st):
                out += self.block(s.body if o else s.orelse, [s2])
            return out
        if isinstance(s, ast.Expr):
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "add" and self.ev(c.func.value, st)[0] == "served":
                x = self.ev(c.args[0], st)
                env = dict(st[0])
                env["$marked"] = env.get("$marked", ()) + (x if x[0] == "elem" else (("0",) if x == num(0) else ("odd", "")),)
                return [("next", None, (env, st[1]))]
            return [("next", None, st)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [("return", ("none",), st)]
            if isinstance(s.value, ast.Tuple):
                return [("return", ("tuple", tuple(("ret", x) for x in s.value.elts)), st)]
            return [("return", v, s2) for v, s2 in self.flag_values(s.value, st)]
        if isinstance(s, ast.Break):
            return [("break", None, st)]
        if isinstance(s, ast.Continue):
            return [("continue", None, st)]
        if isinstance(s, ast.Raise):
            return [("raise", None, st)]
        if isinstance(s, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom, ast.Global, ast.FunctionDef, ast.Delete)):
            return [("next", None, st)]
        if isinstance(s, ast.For):
            return self.loops(self, s, st)
        raise Lost("a %s statement" % type(s).__name__)

    def run(self):
        rs = self.block(self.f.node.body, [(dict(self.env0), ())])
        return [(k, v if k != "next" else ("none",), s) if k != "next" else ("return", ("none",), s) for k, v, s in rs]


def y_pos(a, b):
    return a[0] == "elem" and b == num(0)


def subst(v, old, new):
    """replace term old by the number new"""
    out = num(0)
    for t, k in v[1]:
        out = nadd(out, new if t == old else term(t), k)
    return out


def assigned(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


# ---- sums of legs (objf, totald, recalculate_objective) ---------------------
class SumLoops:
    def __init__(self, report):
        self.report = report
        self.k = 0

    def __call__(self, ex, s, st):
        env, facts = st
        self.k += 1
        var = "i%d" % self.k
        r = ex.items(s.iter, st, var)
        if r is not None and r[2][0] == "elem" and (("nested",), True) in facts:
            return self.routes(ex, s, st, r[2])
        lo, hi, b = ex.space(s.target, s.iter, st, var)
        names = assigned(s.body)
        # loop carried predecessors and accumulators
        e0 = dict(env)
        e0.update(b)
        for v in names - set(b):
            x = env.get(v)
            if x is None:
                e0[v] = ("top",)
            elif x[0] == "num":
                e0[v] = term(("acc", v))
            else:
                e0[v] = ("elem?", v)
        # which element does a carried variable hold?
        pre = {}
        for v in [v for v in names - set(b) if e0[v] == ("elem?", v)]:
            e1 = dict(e0)
            ends = {repr(x[2][0].get(v)): x[2][0].get(v) for x in ex.block(s.body, [(e1, facts)]) if x[0] in ("next", "continue")}
            if len(ends) == 1:
                x = list(ends.values())[0]
                if x[0] == "elem" and dict(x[2][1]).get(var) == 1:
                    was = ("elem", x[1], ladd(x[2], K(-1)))
                    at_entry = ("elem", x[1], lsub(was[2], var, lo))
                    ent = env[v]
                    if same_elem(at_entry, ent):
                        e0[v] = was
                        pre[v] = ("elem", x[1], lsub(x[2], var, ladd(hi, K(-1))))
                        continue
            e0[v] = ("top",)
        deltas = {}
        for k, val, s2 in ex.block(s.body, [(e0, facts)]):
            if k not in ("next", "continue"):
                raise Lost("leaves the loop early")
            for v in names - set(b):
                x = s2[0].get(v, ("top",))
                if e0[v] == term(("acc", v)):
                    d = nadd(x, term(("acc", v)), -1) if x[0] == "num" else None
                    if d is not None and any(t[0] == "acc" for t, _ in d[1]):
                        d = None
                    deltas.setdefault(v, []).append((d, s2[1]))
        env2 = dict(env)
        for v in names:
            env2[v] = pre.get(v, ("top",))
        for v, ds in deltas.items():
            if any(d is None for d, _ in ds):
                env2[v] = ("top",)
                continue
            big = max((d for d, _ in ds), key=lambda d: len(d[1]))
            for d, fs in ds:
                miss = nadd(big, d, -1)
                for t, k in miss[1]:
                    if t[0] in ("D", "d") and not zero_under(t, fs):
                        self.report("counted", "%s is left out when %s" % (show(t), "; ".join("%s is %s" % (showf(k2), o) for k2, o in fs[len(facts):]) or "?"), s)
            env2[v] = nadd(env[v], ex.sum_over(big, var, lo, hi))
        return ex.block(s.orelse, [(env2, facts)]) if s.orelse else [("next", None, (env2, facts))]

    def routes(self, ex, s, st, el):
        """a loop over the routes of a solution"""
        env, facts = st
        if not isinstance(s.target, ast.Name):
            raise Lost("loop over routes")
        e0 = dict(env)
        e0[s.target.id] = ("seq", "route", K(0), lin(0, **{"n:route": 1}))
        names = assigned(s.body) - {s.target.id}
        for v in names:
            e0[v] = term(("acc", v)) if env.get(v, ("",))[0] == "num" else ("top",)
        env2 = dict(env)
        for v in names:
            env2[v] = ("top",)
        res = {}
        for k, val, s2 in ex.block(s.body, [(e0, facts)]):
            if k not in ("next", "continue"):
                self.report("counted", "stops before the last route", s)
                continue
            for v in names:
                if e0[v] == term(("acc", v)):
                    x = s2[0].get(v)
                    d = nadd(x, term(("acc", v)), -1) if x and x[0] == "num" else None
                    res.setdefault(v, []).append((d, s2[1]))
        for v, ds in res.items():
            if all(d is not None and not any(t[0] == "acc" for t, _ in d[1]) for d, _ in ds):
                env2[v] = nadd(env[v], term(("routes", v, tuple((d, fs) for d, fs in ds))))
        return [("next", None, (env2, facts))]


def same_elem(a, b):
    if a == b:
        return True
    if a[0] == b[0] == "elem" and a[1] == b[1]:
        n = (("n:" + a[1], 1),)
        return a[2] == K(-1) and b[2] == (-1, n) or b[2] == K(-1) and a[2] == (-1, n)
    return False


def zero_under(t, facts):
    if t[0] == "d":
        return (("depot", t[1]), True) in facts
    if t[0] == "D":
        return (("same", t[1], t[2]), True) in facts or ("0",) in t[1:] and any((("depot", x), True) in facts for x in t[1:])
    return False


def show(t):
    if t[0] == "D":
        return "the leg"
    if t[0] == "d":
        return "the demand"
    return str(t)


def showf(k):
    return k[0] if k[0] != "?" else k[1]


def canon_sum(v, seq, facts):
    """legs as boundary terms over leg numbers (leg k joins positions k-1 and k; leg 0 closes the tour)"""
    n = (("n:" + seq, 1),)
    out = num(0)
    for t, k in v[1]:
        if t[0] == "D" and t[1][0] == t[2][0] == "elem" and t[1][1] == t[2][1] == seq:
            a, b = t[1][2], t[2][2]
            d = ladd(b, a, -1)
            ends = {a, b}
            if ends == {K(0), (-1, n)}:
                out = nadd(out, nadd(term(("H", "leg", seq, K(0))), term(("H", "leg", seq, K(1))), -1), k)
                continue
            if d in (K(1), K(-1)):
                top = b if d == K(1) else a
                out = nadd(out, nadd(term(("H", "leg", seq, top)), term(("H", "leg", seq, ladd(top, K(1)))), -1), k)
                continue
        if t[0] == "D" and ("0",) in t[1:]:
            o = t[1] if t[2] == ("0",) else t[2]
            if (("depot", o), True) in facts:
                continue
            out = nadd(out, term(("depotleg", o)), k)
            continue
        if t[0] == "d" and t[1][0] == "elem":
            out = nadd(out, nadd(term(("H", "dem", t[1][1], t[1][2])), term(("H", "dem", t[1][1], ladd(t[1][2], K(1)))), -1), k)
            continue
        out = nadd(out, term(t), k)
    return out


def expect(kind, seq, lo, hi):
    return nadd(term(("H", kind, seq, lo)), term(("H", kind, seq, hi)), -1)


def check_sum(repo, rep, f, what):
    """what: 'open' (objf), 'demand' (totald), 'closed' (recalculate_objective)"""
    n = lin(0, **{"n:sol": 1})
    ps = f.params
    env = {ps[0]: ("seq", "sol", K(0), n), ps[1]: ("d",) if what == "demand" else ("D",)}
    viol = []

    def report(rule, text, node):
        viol.append(("%s: %s" % (f.loc(node), text), text))
    ex = Exec(repo, f, env, {"D": True, "d": True})
    ex.loops = SumLoops(report)
    try:
        rs = ex.run()
    except Dropped as e:
        rep.violate("counted", "%s|%s" % (f.where, e), "%s: %s" % (f.where, e))
        return
    except Lost as e:
        rep.skip("counted", "%s: %s" % (f.where, e))
        return
    nok = 0
    for k, v, st in rs:
        if k == "raise":
            continue
        facts = st[1]
        if any(x[0] == "pos" or x[0] == "?" and "len" in x[1] for x, o in facts) and v[0] == "num" and not v[1]:
            continue        # nothing to count for a short solution
        if v[0] != "num":
            rep.skip("counted", "%s: returns something not understood" % f.where)
            continue
        if any(t[0] in ("acc", "top") for t, _ in v[1]):
            rep.skip("counted", f.where)
            continue
        rt = [t for t, _ in v[1] if t[0] == "routes"]
        if rt:
            if len(v[1]) != 1 or [c for _, c in v[1]] != [1]:
                viol.append((f.where + ": the total over the routes is altered", "routes total"))
                continue
            for d, fs in rt[0][2]:
                r = "route"
                c = canon_sum(d, r, fs)
                hn = lin(0, **{"n:route": 1})
                exp = expect("leg", r, K(1), hn)
                first, last = ("elem", r, K(0)), ("elem", r, (-1, (("n:route", 1),)))
                for e, nm in ((first, "first"), (last, "last")):
                    if (("depot", e), True) not in fs:
                        exp = nadd(exp, term(("depotleg", e)))
                if c != exp:
                    viol.append(("%s: in a list of routes a route's legs are %s" % (f.where, diff(c, exp)), "routes: " + diff(c, exp)))
                else:
                    nok += 1
            continue
        seq = "sol"
        c = canon_sum(v, seq, facts)
        exp = {"open": expect("leg", seq, K(1), n), "closed": expect("leg", seq, K(0), n), "demand": expect("dem", seq, K(0), n)}[what]
        if c == exp:
            nok += 1
            continue
        if what == "closed":
            closing = expect("leg", seq, K(0), K(1))
            e0, e1 = ("elem", "sol", K(0)), ("elem", "sol", (-1, (("n:sol", 1),)))
            if nadd(c, closing) == exp and any(kk[0] == "same" and o and set(kk[1:]) == {e0, e1} for kk, o in facts):
                nok += 1
                continue
        if what == "demand":
            drop = nadd(exp, c, -1)
            if not v[1] and any(x[0] in ("?",) for x, o in facts):
                rep.skip("counted", f.where)
                continue
        viol.append(("%s: %s" % (f.where, diff(c, exp)), diff(c, exp)))
    for c, t in dict.fromkeys(viol):
        rep.violate("counted", "%s|%s" % (f.where, t), c)
    if not viol and nok:
        rep.ok("counted", "%s (%d paths)" % (f.where, nok))


def diff(c, exp):
    d = nadd(c, exp, -1)
    parts = []
    for t, k in sorted(d[1], key=repr):
        nm = {"H": "boundary", "depotleg": "depot leg", "one": "constant"}.get(t[0], t[0])
        parts.append("%s %s x%+g" % (nm, pos(t[3]) if t[0] == "H" else "", k))
    return "counted differently from what is there (%s)" % "; ".join(parts)


def pos(l):
    return "%s%+d" % ("n" if l[1] else "", l[0])


# ---- the feasibility checker --------------------------------------------------
GL, GC = ("g", "cost of the current route"), ("g", "load of the current route")
TL, TC = ("g", "cost of the unfinished first route"), ("g", "load of the unfinished first route")


class CheckLoops:
    def __init__(self, seq, C, L, report):
        self.seq, self.C, self.L, self.report = seq, C, L, report
        self.phase = 0             # next position is: 0 start, 1 after the first depot, 2 end
        self.flags = {}
        self.init = {}
        self.depot_paths = 0

    def __call__(self, ex, s, st):
        env, facts = st
        var = "i%d" % (id(s) % 99991)
        lo, hi, b = ex.space(s.target, s.iter, st, var)
        n = lin(0, **{"n:" + self.seq: 1})
        el = [v for v in b.values() if v[0] == "elem"]
        if len(el) == 0:
            ix = [v for v in b.values() if ex.as_lin(v) == lin(0, **{var: 1})]
            if not ix:
                raise Lost("a loop over something else")
            cur = ("elem", self.seq, lin(0, **{var: 1}))
        else:
            cur = el[0]
            if cur[1] != self.seq:
                raise Lost("a loop over something else")
        # normalise so that the position is var
        off = ladd(cur[2], lin(0, **{var: 1}), -1)
        if off[1] and off[1] != (("FD", 1),) or dict(cur[2][1]).get(var) != 1:
            raise Lost("positions")
        first, end = ladd(lo, off), ladd(hi, off)
        FD1 = lin(1, FD=1)
        ph = env.get("$phase", 0)
        if ph == 0 and first == K(0) and (end == n or end == FD1):
            phase = 1
        elif ph == 1 and first == FD1 and end == n:
            phase = 2
        elif ph in (0, 1) and (first[1] == () or first[1] == (("FD", 1),)):
            want = K(0) if ph == 0 else FD1
            if first != want or end not in (n, FD1):
                self.report("every-visit", "the visits from %s to %s are checked, %s" % (
                    pos2(first), pos2(end), "the first ones start at %s" % pos2(want)), s)
                phase = 1 if ph == 0 else 2
            else:
                raise Lost("an unexpected pass over the solution")
        else:
            raise Lost("an unexpected pass over the solution")
        names = assigned(s.body) - set(b)
        cur = ("elem", self.seq, ladd(lin(0, **{var: 1}), off))
        prevpos = ladd(cur[2], K(-1))
        LEG, DEM = leg(("elem", self.seq, prevpos), cur), ("d", cur)
        # candidates
        cands = {}
        for v in names:
            x = env.get(v, ("top",))
            if x == num(0):
                cands[v] = ["L", "C", "0"]
            elif x[0] == "num" and v in names:
                cands[v] = ["keep"]
            elif x[0] == "elem":
                at = ("elem", self.seq, lsub(prevpos, var, lo))
                cands[v] = ["prev"] if same_elem(at, x) or phase == 2 and ladd(first, K(-1)) == x[2] else []
            elif x[0] == "bool":
                cands[v] = ["init", "flag"]
                self.init.setdefault(v, x[1])
            else:
                cands[v] = []

        def value(v, c):
            if c == "L":
                return term(GL)
            if c == "C":
                return term(GC)
            if c == "0":
                return num(0)
            if c == "keep":
                return env[v]
            if c == "prev":
                return ("elem", self.seq, prevpos)
            if c == "init":
                return env[v]
            if c == "flag":
                return ("flag", v)
            return ("top",)
        while True:
            e0 = dict(env)
            e0.update(b)
            e0["$marked"] = ()
            for v in names:
                e0[v] = value(v, cands[v][0]) if cands[v] else ("top",)
            ends = ex.block(s.body, [(e0, facts)])
            changed = set()
            for k, val, s2 in ends:
                if k not in ("next", "continue"):
                    continue
                dep = (("depot", cur), True) in s2[1]
                known = any(kk == ("depot", cur) for kk, o in s2[1])
                for v in names - changed:
                    for c in list(cands[v][:1]):
                        x = s2[0].get(v, ("top",))
                        good = False
                        if c in ("L", "C"):
                            g, inc = (GL, term(LEG)) if c == "L" else (GC, term(DEM))
                            full = nadd(term(g), inc)
                            if c == "C" and dep:
                                inc = num(0)
                            good = x == num(0) if dep else x == full
                            if phase == 1 and dep:
                                good = True
                            if not known:
                                good = x == full and (phase == 2 or end == FD1)
                        elif c == "0":
                            good = x == num(0)
                        elif c == "keep":
                            good = x == env[v]
                        elif c == "prev":
                            good = x == cur
                        elif c == "init":
                            good = x == env[v]
                        elif c == "flag":
                            good = x == ("flag", v) or x == ("bool", not self.init[v]) or x == ("bool", self.init[v])
                        if not good:
                            cands[v].pop(0)
                            changed.add(v)
                            break
            if not changed:
                break
        # obligations of each path through an iteration
        outs = []
        for k, val, s2 in ends:
            e2, fs = s2
            own = fs[len(facts):]
            dep = (("depot", cur), True) in fs
            nodep = (("depot", cur), False) in fs
            self.coverage(s, cur, e2, own, dep, nodep)
            if k in ("return", "raise"):
                outs.append((k, val, s2))
                continue
            for v, ini in self.init.items():
                if v in names and v in e0 and e2.get(v) == ("bool", ini) and e0.get(v) == ("flag", v) and self.stored(ex, s, v, ini) and \
                        (("flag", v), ini) not in own:
                    self.report("sticky", "%s is set back to %s" % (v, ini), s)
            if phase == 2 and not nodep and k in ("next", "continue"):
                if dep:
                    self.depot_paths += 1
                    self.closing(s, e2, own, LEG, DEM, dep)
                else:
                    # no test for the depot on this path: nothing was closed
                    if self.C or self.L:
                        self.report("limit-checked", "a path closes a route without looking at the limits", s)
            if k == "break":
                if phase == 1:
                    outs.append(("next", None, self.leave1(e2, facts, cur, var, LEG, DEM, names)))
                else:
                    self.report("every-visit", "the check stops before the last visit", s)
            elif phase == 1 and (dep or end == FD1 and not nodep):
                if end == FD1:
                    outs.append(("next", None, self.leave1(e2, facts, cur, var, LEG, DEM, names)))
        if phase == 1 and end == n and not any(k == "break" for k, _, _ in ends):
            raise Lost("the first pass does not stop at the depot")
        if phase == 2:
            env2 = dict(env)
            for v in names:
                env2[v] = value(v, cands[v][0]) if cands[v] else ("top",)
            for v in b:
                env2[v] = ("top",)
            env2["$phase"] = 2
            outs.append(("next", None, (env2, facts)))
        return outs

    def stored(self, ex, s, v, ini):
        return any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in n.targets) for x in s.body for n in ast.walk(x))

    def leave1(self, e2, facts, cur, var, LEG, DEM, names):
        env = dict(e2)
        env["$phase"] = 1
        for v, x in list(env.items()):
            if v.startswith("$"):
                continue
            if x[0] == "num":
                # route part up to and including the leg into the depot
                y = subst(x, GL, nadd(term(TL), term(LEG), -1))
                y = subst(y, GC, nadd(term(TC), term(DEM), -1))
                y = subst(y, DEM, num(0)) if not any(t == DEM and abs(k) > 1e-9 for t, k in y[1]) else y
                y = subst(y, DEM, num(0))          # the depot has no demand
                off = dict(cur[2][1]).get("FD", 0)
                y = subst(y, ("ix", var), nadd(term(("ix", "FD")), num(-cur[2][0])) if not off else term(("ix", "FD")))
                env[v] = y
            elif x[0] == "elem":
                if x == cur:
                    env[v] = ("elem", self.seq, lin(0, FD=1))
                elif dict(x[2][1]).get(var):
                    env[v] = ("elem", self.seq, ladd(lin(0, FD=1), ladd(x[2], cur[2], -1)))
            elif x[0] == "flag":
                pass
        return (env, facts)

    def coverage(self, s, cur, e2, own, dep, nodep):
        marked = e2.get("$marked", ())
        was = [o for kk, o in own if kk == ("covered", cur)]
        odd = [m for m in marked if m[0] == "odd"]
        if cur not in marked and not (was and was[0]) and not (dep and ("0",) in marked):
            if not self.cover:
                return
            self.report("every-visit", "a path does not record the visit", s)
        if odd:
            return
        if was and was[0] and nodep:
            self.dup.append((s, e2))
        if not was and not dep and cur in marked:
            self.report("repeated", "a path records a visit without looking whether there was one before", s)

    def closing(self, s, e2, own, LEG, DEM, dep):
        for g, inc, lim, nm, j in ((GC, term(DEM), "C", "capacity", 1), (GL, term(LEG), "L", "route cost", 2)):
            if not (self.C if lim == "C" else self.L):
                continue
            got = self.compare(own, [nadd(term(g), inc), term(g)] if lim == "C" else [nadd(term(g), inc)], lim)
            if got is None:
                down = {kk[1] for kk, o in own if kk[0] == "flag" and kk[1] in self.init and o != self.init[kk[1]]}
                if down:
                    self.need2.append((j, down, s, nm))       # fine when that verdict is false already
                    continue
                self.report("limit-checked", "closes a route without comparing its %s with the limit" % nm, s)
            elif got[0] == "odd":
                self.report("limit-checked", "the comparison of a route's %s is %s" % (nm, got[1]), s)
            else:
                self.need.append((j, got[1], e2, s, nm))

    def compare(self, facts, sums, lim):
        """True/False: the limit is exceeded; None: not compared"""
        odd = None
        for kk, o in facts:
            if kk[0] != "pos":
                continue
            d = kk[1]
            for sign in (1, -1):
                dd = d if sign == 1 else nadd(num(0), d, -1)
                if not any(t == ("lim", lim) for t, _ in dd[1]):
                    continue
                k = dict(dd[1])[("lim", lim)]
                if k == 1:
                    continue
                rest = nadd(dd, term(("lim", lim)))
                eps = [(t, c) for t, c in rest[1] if t[0] == "cfg" and "EPS" in t[1]]
                body = rest
                for t, c in eps:
                    body = nadd(body, term(t), -c)
                if body in sums:
                    e = sum(c for _, c in eps)
                    if e != -1:
                        odd = ("odd", "not exact (tolerance x%g)" % -e)
                        continue
                    return ("ok", o == (sign == 1))
                odd = ("odd", "made with another quantity (%s)" % showsum(nadd(body, sums[0], -1)))
        return odd


def showsum(v):
    return "; ".join("%+g %s" % (k, t[1] if t[0] in ("g", "cfg", "lim") else t[0]) for t, k in sorted(v[1], key=repr)) or "equal"


def pos2(l):
    s = "%+d" % l[0]
    for a, k in l[1]:
        s = {"FD": "first depot"}.get(a, "end" if a.startswith("n:") else a) + (s if s != "+0" else "")
    return s.replace("+0", "0") if not l[1] else s


def check_feasibility(repo, rep, f):
    ps = f.params
    names = {"C": None, "L": None, "D": None, "d": None}
    for p in ps:
        if p in names:
            names[p] = p
    if None in names.values():
        rep.skip("limit-checked", f.where + ": parameters")
        return
    found = {}
    done = Counter()
    for C in (True, False):
        for L in (True, False):
            case = "%s%s" % ("C" if C else "-", "L" if L else "-")

            def report(rule, text, node):
                found.setdefault((rule, text), f.loc(node))
            n = lin(0, **{"n:sol": 1})
            env = {p: ("top",) for p in ps}
            env.update({ps[0]: ("seq", "sol", K(0), n), "D": ("D",), "d": ("d",),
                        "C": ("num", frozenset({(("lim", "C"), 1)})), "L": ("num", frozenset({(("lim", "L"), 1)}))})
            truths = {"C": C, "L": L, "D": True, "d": True}
            ex = FeasExec(repo, f, env, truths)
            loops = CheckLoops("sol", C, L, report)
            loops.need, loops.need2, loops.dup, loops.cover = [], [], [], True
            ex.loops = loops
            try:
                rs = ex.run()
                final(f, ex, loops, rs, C, L, report)
            except Lost as e:
                for r in ("limit-checked", "every-visit", "repeated", "sticky"):
                    rep.skip(r, "%s[%s]: %s" % (f.where, case, e))
                continue
            for r in ("limit-checked", "every-visit", "repeated", "sticky"):
                done[r] += 1
                if not any(k[0] == r for k in found):
                    rep.ok(r, "%s[%s] %d ends" % (f.where, case, len(rs)))
    for (rule, text), loc in sorted(found.items()):
        rep.violate(rule, "%s|%s" % (f.where, text), "%s: %s" % (loc, text))


class FeasExec(Exec):
    def cond(self, e, st):
        v = self.ev(e, st) if not isinstance(e, (ast.BoolOp, ast.Compare, ast.UnaryOp)) else None
        if v is not None and v[0] == "num" and len(v[1]) == 1:
            (t, k), = v[1]
            if t[0] == "lim":
                return [(self.truths[t[1]], st)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            v = self.ev(e.left, st)
            if v[0] == "num" and len(v[1]) == 1 and self.ev(e.comparators[0], st) == ("none",):
                (t, k), = v[1]
                if t[0] == "lim":
                    return [((not self.truths[t[1]]) == isinstance(e.ops[0], ast.Is), st)]
        return Exec.cond(self, e, st)


def final(f, ex, loops, rs, C, L, report):
    comp = {}
    for k, v, st in rs:
        if k == "raise":
            continue
        if k != "return" or v[0] != "tuple" or len(v[1]) != 3:
            raise Lost("returns something else than three verdicts")
        env, facts = st
        if env.get("$phase") != 2:
            report("every-visit", "returns before every visit was checked", f.node)
            continue
        verd = []
        for x in v[1]:
            e = x[1]
            neg = False
            while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                neg, e = not neg, e.operand
            if isinstance(e, ast.Name) and (e.id in loops.init or env.get(e.id, ("",))[0] == "bool"):
                verd.append((e.id, neg))
            else:
                raise Lost("verdict %s" % (ast.unparse(x[1]) if isinstance(x[1], ast.AST) else str(x)))
        comp = verd

        def is_false(j, env=env):
            nm, neg = verd[j]
            return env.get(nm) == ("bool", neg)

        def may_be(j):
            nm, neg = verd[j]
            return env.get(nm)
        for j, lim, g, t, nm in ((1, "C", GC, TC, "capacity"), (2, "L", GL, TL, "route cost")):
            if not (C if lim == "C" else L):
                if is_false(j):
                    report("limit-checked", "reports a violated %s without a limit" % nm, f.node)
                continue
            got = loops.compare(facts, [nadd(term(g), term(t))], lim)
            if got is None:
                report("limit-checked", "the %s of the route that goes round the end is not compared with the limit" % nm, f.node)
            elif got[0] == "odd":
                report("limit-checked", "the comparison of the %s of the route that goes round the end is %s" % (nm, got[1]), f.node)
            elif got[1] and not is_false(j):
                report("limit-checked", "a violated %s of the last route leaves the verdict true" % nm, f.node)
            elif not got[1] and is_false(j):
                report("limit-checked", "the %s verdict is false without a violation" % nm, f.node)
            elif not got[1] and not is_false(j) and env.get(verd[j][0]) == ("bool", not verd[j][1]) and verd[j][0] in loops.init:
                if any(isinstance(e2.get(verd[j][0]), tuple) and e2.get(verd[j][0]) == ("bool", verd[j][1]) for jj, o, e2, s, n2 in loops.need if jj == j):
                    report("sticky", "the %s verdict is set back to true" % nm, f.node)
        miss = [o for kk, o in facts if kk == ("missing",)]
        if not miss:
            if any(kk[0] == "odd-missing" for kk, o in facts):
                report("every-visit", "the comparison of the number of visited nodes is not the one needed", f.node)
            else:
                report("every-visit", "a missing customer is not looked for", f.node)
        elif miss[0] and not is_false(0):
            report("every-visit", "a missing customer leaves the verdict true", f.node)
        elif not miss[0] and env.get(verd[0][0]) == ("bool", not verd[0][1]) and verd[0][0] in loops.init and loops.dup:
            report("sticky", "the covering verdict is set back to true", f.node)
    if not comp:
        return
    for j, viol, e2, s, nm in loops.need:
        v, neg = comp[j]
        if viol and e2.get(v) != ("bool", neg):
            report("limit-checked", "a violated %s leaves the verdict true" % nm, s)
        if not viol and e2.get(v) == ("bool", neg):
            report("limit-checked", "the %s verdict becomes false without a violation" % nm, s)
    for j, down, s, nm in loops.need2:
        if comp[j][0] not in down:
            report("limit-checked", "closes a route without comparing its %s with the limit" % nm, s)
    v, neg = comp[0]
    for s, e2 in loops.dup:
        if e2.get(v) != ("bool", neg):
            report("repeated", "a repeated customer leaves the verdict true", s)


def run(repo, rep):
    rep.rule("counted", "sums over a solution or route count each leg (or visit) once, with the closing leg where the tour is closed", 3)
    rep.rule("limit-checked", "each route's load and cost is compared with the limit when the route is closed, the one that goes round the "
             "end included, and an exceeded limit makes the verdict false", 4)
    rep.rule("every-visit", "the passes over the solution together look at every visit and record it; a missing customer makes the verdict false", 4)
    rep.rule("repeated", "a customer recorded before makes the covering verdict false", 4)
    rep.rule("sticky", "a verdict that became false is never set back", 4)
    for m, q, what in (("verypy.util", "objf", "open"), ("verypy.util", "totald", "demand"),
                       ("verypy.cvrp_ops", "recalculate_objective", "closed")):
        check_sum(repo, rep, repo.func(m, q), what)
    check_feasibility(repo, rep, repo.func("verypy.cvrp_ops", "validate_solution_feasibility"))
    rep.assume("the solution visits the depot at least once (documented); distances are symmetric with zero diagonal and d[0] is 0; "
               "sums are in real arithmetic")
    return {"scope": "the feasibility check (with and without each limit), the objective and the sums it uses"}
