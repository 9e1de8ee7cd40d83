"""Abstract interpreter over the syntax tree.

Values are linear forms, list nodes, symbolic lists (segments of unknown input
lists), records and constants; the numeric part is a set of linear inequalities
(lin.py). Loops are solved by a fixpoint over canonicalised loop-head states
with widening, so every number of iterations and every index is covered.
Nothing of the analysed program is executed; anything the domain cannot
express becomes TOP, and obligations about TOP are reported as undecided."""
import ast
from .core import Func, ClassInfo, src_of, is_debug_test
from .lin import (Lin, const, atom, sym, is_int, node as mknode, dist, dem, PL, PD, subst, subst_node, symbols,
                  entails, contradictory, CLOSED, skey)

TOP = ("top",)
NONE = ("const", None)
TRUE = ("const", True)
FALSE = ("const", False)


class Undecided(Exception):
    pass


def is_node(v):
    return isinstance(v, tuple) and v and v[0] in ("depot", "n", "x")


def as_node(v):
    if is_node(v):
        return v
    if isinstance(v, Lin) and v.is_const():
        return ("depot",) if v.c == 0 else ("x", "#%s" % v.c)
    return None


def seq(kind, items):
    out = []
    for it in items:
        if it[0] == "seg" and it[2] == it[3]:
            continue
        # merge adjacent forward segments
        if out and it[0] == "seg" and out[-1][0] == "seg" and it[1] == out[-1][1] and it[4] == 1 == out[-1][4] and out[-1][3] == it[2]:
            out[-1] = ("seg", it[1], out[-1][2], it[3], 1)
            continue
        out.append(it)
    return ("seq", kind, tuple(out))


def els(*vs):
    return ("seq", "tuple", tuple(("el", v) for v in vs))


def whole(R):
    return ("seq", "list", (("seg", R, const(0), atom(("N", R)), 1),))


def length(v):
    if v[0] == "seq":
        n = const(0)
        for it in v[2]:
            n = n + (it[3] - it[2] if it[0] == "seg" else const(1))
        return n
    if v[0] == "arr":
        return atom(("N", v[2]))
    return None


def content(v):
    """node multiset of a list as a linear form over uninterpreted node weights"""
    r = const(0)
    for it in v[2]:
        if it[0] == "seg":
            r = r + PD(it[1], it[3] - const(1)) - PD(it[1], it[2] - const(1))
        else:
            n = as_node(it[1])
            if n is None:
                return None
            r = r + dem(n)
    return r


def ends(it):
    """first and last node of a (non-empty) piece"""
    if it[0] == "el":
        n = as_node(it[1])
        return n, n
    _, R, lo, hi, dr = it
    a, b = mknode(R, lo), mknode(R, hi - const(1))
    return (a, b) if dr == 1 else (b, a)


def pathcost(v):
    """cost of walking the list; pieces must be non-empty"""
    r = const(0)
    last = None
    for it in v[2]:
        if it[0] == "seg":
            r = r + PL(it[1], it[3] - const(1)) - PL(it[1], it[2])
        a, b = ends(it)
        if a is None:
            return None
        if last is not None:
            r = r + dist(last, a)
        last = b
    return r


def vsubst(v, m):
    if isinstance(v, Lin):
        return subst(v, m)
    if isinstance(v, tuple):
        if v and v[0] == "n" and len(v) == 3:
            return subst_node(v, m)
        if v and v[0] == "x":
            return m.get(v, v)
        if v and v[0] in ("const", "enum", "func", "cls", "builtin", "mat", "vec", "ref"):
            return v
        r = tuple(vsubst(x, m) for x in v)
        return seq(r[1], r[2]) if r and r[0] == "seq" else r
    return v


class State:
    __slots__ = ("frames", "heap", "facts", "marks")

    def __init__(self, frames, heap, facts, marks=frozenset()):
        self.frames, self.heap, self.facts, self.marks = frames, heap, facts, marks

    @property
    def env(self):
        return self.frames[-1]

    def copy(self):
        return State([dict(f) for f in self.frames[-1:]] if len(self.frames) == 1 else self.frames[:-1] + [dict(self.frames[-1])],
                     dict(self.heap), self.facts, self.marks)

    def set(self, name, v):
        s = self.copy()
        s.frames[-1][name] = v
        return s

    def add(self, facts):
        return State(self.frames, self.heap, self.facts | frozenset(facts), self.marks)

    def mark(self, m):
        return State(self.frames, self.heap, self.facts, self.marks | {m})

    def subst(self, m):
        s = State([{k: vsubst(v, m) for k, v in f.items()} for f in self.frames],
                  {k: {a: vsubst(v, m) for a, v in o.items()} for k, o in self.heap.items()}, None, self.marks)
        fs = set()
        for l, st in self.facts:
            l2 = subst(l, m)
            if l2.t:
                fs.add((l2, st))
        s.facts = frozenset(fs)
        return s

    def key(self):
        return (tuple(tuple(sorted(f.items(), key=lambda p: p[0])) for f in self.frames),
                tuple(sorted((k, tuple(sorted(o.items(), key=lambda p: p[0]))) for k, o in self.heap.items())), self.marks)


class Flow:
    def __init__(self):
        self.norm, self.brk, self.cont, self.ret = [], [], [], []

    def extend(self, o, norm=True):
        if norm:
            self.norm += o.norm
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret


# ---------------------------------------------------------------- liveness

def _loads(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def _stores(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


class Live:
    """live variables after each statement and at each loop head"""

    def __init__(self, body):
        self.out, self.head = {}, {}
        self.block(body, frozenset(), None, None)

    def block(self, stmts, out, brk, cont):
        cur = out
        for s in reversed(stmts):
            self.out[id(s)] = self.out.get(id(s), frozenset()) | cur
            cur = self.stmt(s, cur, brk, cont)
        return cur

    def stmt(self, s, out, brk, cont):
        if isinstance(s, ast.If):
            return self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont) | _loads(s.test)
        if isinstance(s, (ast.For, ast.While)):
            after = self.block(s.orelse, out, brk, cont)
            head = after
            for _ in range(4):
                if isinstance(s, ast.For):
                    h2 = after | (self.block(s.body, head, out, head) - _stores(s.target))
                else:
                    h2 = after | self.block(s.body, head, out, head) | _loads(s.test)
                if h2 == head:
                    break
                head = head | h2
            self.head[id(s)] = self.head.get(id(s), frozenset()) | head
            return head | (_loads(s.iter) if isinstance(s, ast.For) else frozenset())
        if isinstance(s, ast.Break):
            return brk or frozenset()
        if isinstance(s, ast.Continue):
            return cont or frozenset()
        if isinstance(s, ast.Return):
            return frozenset(_loads(s.value)) if s.value is not None else frozenset()
        if isinstance(s, ast.Raise):
            return frozenset(_loads(s))
        if isinstance(s, ast.Try):
            a = self.block(s.body + s.orelse + s.finalbody, out, brk, cont)
            for h in s.handlers:
                a = a | self.block(h.body, out, brk, cont)
            return a
        if isinstance(s, ast.With):
            return self.block(s.body, out, brk, cont) | frozenset(x for i in s.items for x in _loads(i.context_expr))
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return (out - {s.name}) | frozenset(_loads(s))
        if isinstance(s, ast.Assign):
            st = set()
            ld = set(_loads(s.value))
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        (st if isinstance(x.ctx, ast.Store) else ld).add(x.id)
            return (out - st) | ld
        if isinstance(s, ast.AugAssign):
            return out | _loads(s.value) | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        return out | _loads(s)


_live_cache = {}


def live_of(fnode):
    l = _live_cache.get(id(fnode))
    if l is None:
        l = _live_cache[id(fnode)] = (Live(fnode.body), fnode)
    return l[0]


class Interp:
    def __init__(self, repo, hooks=None, summaries=None, budget=400000, maxdepth=6):
        self.repo = repo
        self.hooks = hooks or {}
        self.sums = summaries or {}
        self.budget = budget
        self.maxdepth = maxdepth
        self.fresh_n = 0
        self.funcs = []        # stack of Func being interpreted
        self.loops = 0
        self.loopdepth = 0
        self.levels = []
        self.keep = set()
        self.tmp = 0
        self.memo = {}
        self.nids = 0
        self.trace = []

    # ------------------------------------------------------------ basics
    def fresh(self, tag="t"):
        self.fresh_n += 1
        return "%s~%d" % (tag, self.fresh_n)

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided("analysis budget exhausted")

    @property
    def func(self):
        return self.funcs[-1]

    def add_facts(self, st, facts):
        """assume facts; None if contradictory"""
        new = []
        for l, s in facts:
            if not l.t:
                if l.c < 0 or (s and l.c == 0):
                    return None
                continue
            if (l, s) in st.facts:
                continue
            if is_int(l) and s:
                l, s = l - const(1), False
            new.append((l, s))
        if not new:
            return st
        if contradictory(st.facts, new):
            return None
        return st.add(new)

    def assume_eq(self, st, l):
        """assume l == 0, substituting an index symbol where possible"""
        if not l.t:
            return st if l.c == 0 else None
        if contradictory(st.facts, [(l, False), (-l, False)]):
            return None
        if is_int(l):
            for a, k in l.t:
                if a[0] == "s" and abs(k) == 1:
                    rest = Lin(tuple(x for x in l.t if x[0] != a), l.c) * (-1 if k == 1 else 1)
                    if a not in symbols(rest):
                        st2 = st.subst({a: rest})
                        return st2 if not contradictory(st2.facts, []) else None
        elif len(l.t) == 1 and l.t[0][0][0] == "r" and l.c == 0:
            return st.subst({l.t[0][0]: const(0)})
        return st.add([(l, False), (-l, False)])

    def cmp_lin(self, st, op, a, b):
        """[(state, bool)]"""
        d = b - a
        if isinstance(op, ast.Lt):
            p, n = [(d, True)], [(-d, False)]
        elif isinstance(op, ast.LtE):
            p, n = [(d, False)], [(-d, True)]
        elif isinstance(op, ast.Gt):
            p, n = [(-d, True)], [(d, False)]
        elif isinstance(op, ast.GtE):
            p, n = [(-d, False)], [(d, True)]
        elif isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            out = []
            pos = isinstance(op, (ast.Eq, ast.Is))
            s = self.assume_eq(st, d)
            if s is not None:
                out.append((s, pos))
            for f in ([(d, True)], [(-d, True)]):
                s = self.add_facts(st, f)
                if s is not None:
                    out.append((s, not pos))
            return out
        else:
            return [(st, True), (st, False)]
        out = []
        s = self.add_facts(st, p)
        if s is not None:
            out.append((s, True))
        s = self.add_facts(st, n)
        if s is not None:
            out.append((s, False))
        return out

    def node_eq(self, st, a, b):
        """[(state, bool)] for a == b"""
        if a == b:
            return [(st, True)]
        if a[0] == "depot" or b[0] == "depot":
            o = b if a[0] == "depot" else a
            if o[0] == "n" and self.inner(st, o):
                return [(st, False)]
            return [(st, True), (st, False)]
        if a[0] == "n" and b[0] == "n":
            if a[1] != b[1]:
                if self.inner(st, a) or self.inner(st, b):
                    return [(st, False)]      # routes are disjoint
                return [(st, True), (st, False)]
            if self.inner(st, a) or self.inner(st, b):
                return self.cmp_lin(st, ast.Eq(), a[2], b[2])   # customers of a route are distinct
        return [(st, True), (st, False)]

    def inner(self, st, n):
        R, i = n[1], n[2]
        if not CLOSED.get(R):
            return True
        return entails(st.facts, i - const(1)) and entails(st.facts, atom(("N", R)) - const(2) - i)

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        if isinstance(v, Lin):
            if v.is_const():
                return [(st, v.c != 0)]
            if entails(st.facts, v, True) or entails(st.facts, -v, True):
                return [(st, True)]
            out = []
            s = self.assume_eq(st, v)
            if s is not None:
                out.append((s, False))
            if is_int(v) and entails(st.facts, v):
                s = self.add_facts(st, [(v, True)])
                if s is not None:
                    out.append((s, True))
            else:
                for f in ((v, True), (-v, True)):
                    s = self.add_facts(st, [f])
                    if s is not None:
                        out.append((s, True))
            return out
        k = v[0]
        if k == "const":
            return [(st, bool(v[1]))]
        if k == "seq":
            if not v[2]:
                return [(st, False)]
            if any(it[0] == "el" for it in v[2]):
                return [(st, True)]
            n = length(v)
            return self.truth(st, n)
        if k == "depot":
            return [(st, False)]
        if k in ("n", "x"):
            return [(s, not b) for s, b in self.node_eq(st, v, ("depot",))]
        if k == "ref":
            return [(st, True)]
        if k in ("enum", "func", "cls", "builtin", "mat", "vec", "arr", "lambda"):
            return [(st, True)]
        return [(st, True), (st, False)]

    def cond(self, st, e):
        """evaluate a condition: [(state, bool)]"""
        self.tick()
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [(st, isand)]
            for x in e.values:
                nxt = []
                for s, b in cur:
                    if b != isand:
                        nxt.append((s, b))
                    else:
                        nxt += self.cond(s, x)
                cur = nxt
            return cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(st, e.operand)]
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1:
                out = []
                for s, (a, b) in self.evs_sub(st, [e.left, e.comparators[0]]):
                    out += self.compare(s, e.ops[0], a, b)
                return out
            out, pend = [], [st]
            ls = [e.left] + e.comparators
            for k, op in enumerate(e.ops):
                nxt = []
                for s in pend:
                    for s2, (a, b) in self.evs_sub(s, [ls[k], ls[k + 1]]):
                        for s3, t in self.compare(s2, op, a, b):
                            (nxt if t else out).append(s3 if t else (s3, False))
                pend = nxt
            return out + [(s, True) for s in pend]
        if isinstance(e, ast.Name) and e.id == "__debug__":
            return [(st, False)]
        out = []
        for s, v in self.ev(st, e):
            out += self.truth(s, v)
        return out

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if isinstance(b, tuple) and b[0] == "seq" and all(i[0] == "el" for i in b[2]):
                res = [(st, False)]
                for i in b[2]:
                    nxt = []
                    for s, t in res:
                        nxt += [(s, True)] if t else self.compare(s, ast.Eq(), a, i[1])
                    res = nxt
                return [(s, t != neg) for s, t in res]
            return [(st, True), (st, False)]
        eq = isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot))
        pos = isinstance(op, (ast.Eq, ast.Is))
        if a == TOP or b == TOP:
            return [(st, True), (st, False)]
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.cmp_lin(st, op, a, b)
        if is_node(a) or is_node(b):
            na, nb = as_node(a), as_node(b)
            if na is None or nb is None:
                if eq and (a[0] == "const" or b[0] == "const"):
                    return [(st, not pos)]
                return [(st, True), (st, False)]
            if eq:
                return [(s, x == pos) for s, x in self.node_eq(st, na, nb)]
            return [(st, True), (st, False)]
        if eq:
            if isinstance(a, Lin) or isinstance(b, Lin):
                o = b if isinstance(a, Lin) else a
                l = a if isinstance(a, Lin) else b
                if o[0] == "const" and isinstance(o[1], bool) and l.is_const():
                    return [(st, ((l.c == o[1]) == pos))]
                return [(st, not pos)]
            if a[0] in ("const", "enum", "cls", "builtin", "func", "ref") and b[0] in ("const", "enum", "cls", "builtin", "func", "ref"):
                return [(st, (a == b) == pos)]
            if a[0] == "seq" and b[0] == "seq":
                if a == b and all(i[0] == "seg" or i[1] != TOP for i in a[2]):
                    return [(st, pos)]
                la, lb = length(a), length(b)
                if la.is_const() and lb.is_const() and la.c != lb.c:
                    return [(st, not pos)]
                return [(st, True), (st, False)]
            if a[0] != b[0]:
                return [(st, not pos)]
        return [(st, True), (st, False)]

    # ------------------------------------------------------------ expressions
    def evs(self, st, exprs):
        return self.evs_sub(st, exprs)

    def ev(self, st, e):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, TOP)]
        return m(st, e)

    def e_Constant(self, st, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return [(st, ("const", v))]
        if isinstance(v, int):
            return [(st, const(v))]
        if isinstance(v, float):
            return [(st, const(int(v) if v == int(v) else __import__("fractions").Fraction(v)))]
        return [(st, TOP)]

    def e_Name(self, st, e):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        if e.id == "__debug__":
            return [(st, FALSE)]
        return [(st, self.glob(e.id))]

    def glob(self, name):
        f = self.func
        h = self.hooks.get("global")
        if h:
            v = h(f, name)
            if v is not None:
                return v
        g = f
        while g is not None:
            if name in g.nested:
                return ("func", g.nested[name])
            g = g.parent
        r = self.repo.resolve_name(f.module, name)
        return self.resolved(r, f.module, name)

    def resolved(self, r, module, name):
        if isinstance(r, Func):
            return ("func", r)
        if isinstance(r, ClassInfo):
            return ("cls", r)
        if isinstance(r, tuple) and r[0] == "ext":
            return ("ext", r[1])
        if isinstance(r, tuple) and r[0] == "const":
            return self.module_const(r[1], r[2])
        import builtins
        if hasattr(builtins, name):
            return ("builtin", name)
        return TOP

    def module_const(self, module, name):
        if name.endswith("EPSILON"):
            return atom(("r", "S_EPS" if name.startswith("COST") else "C_EPS"))
        es = module.assigns.get(name)
        if not es or len(es) != 1 or not isinstance(es[-1], ast.AST):
            return TOP
        e = es[-1]
        try:
            v = ast.literal_eval(e)
        except (ValueError, SyntaxError):
            return TOP
        return lift(v)

    def e_Attribute(self, st, e):
        out = []
        # dotted enumerations
        if isinstance(e.value, ast.Name) and e.value.id not in st.env:
            g = self.glob(e.value.id)
            if g[0] == "cls":
                return [(st, self.enum(g[1], e.attr))]
            if g[0] == "ext":
                return [(st, ("ext", g[1] + "." + e.attr))]
        for s, v in self.ev(st, e.value):
            if isinstance(v, tuple) and v[0] == "ref":
                o = s.heap.get(v[1], {})
                if e.attr in o:
                    out.append((s, o[e.attr]))
                else:
                    c = o.get("$cls")
                    if c and c[0] == "cls" and e.attr in c[1].methods:
                        out.append((s, ("bound", v, c[1].methods[e.attr])))
                    else:
                        out.append((s, TOP))
            elif isinstance(v, tuple) and v[0] == "cls":
                out.append((s, self.enum(v[1], e.attr)))
            elif isinstance(v, tuple) and v[0] in ("seq", "arr", "vec", "mat"):
                out.append((s, ("meth", v, e.attr)))
            else:
                out.append((s, TOP))
        return out

    def enum(self, cls, attr):
        if attr in cls.methods:
            return ("func", cls.methods[attr])
        for b in [cls] + self.bases(cls):
            for s in b.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in s.targets):
                    try:
                        return ("enum", "%s" % (ast.literal_eval(s.value),), b.name if False else "E")
                    except ValueError:
                        return ("enum", attr, "E")
        return TOP

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.repo.resolve_expr(cls.module, b) if hasattr(self.repo, "resolve_expr") else None
            if isinstance(r, ClassInfo):
                out.append(r)
                out += self.bases(r)
        return out

    def e_Tuple(self, st, e):
        return self._coll(st, e, "tuple")

    def e_List(self, st, e):
        return self._coll(st, e, "list")

    def _coll(self, st, e, kind):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for s, vs in self.evs(st, [x.value if isinstance(x, ast.Starred) else x for x in e.elts]):
                items, ok = [], True
                for x, v in zip(e.elts, vs):
                    if not isinstance(x, ast.Starred):
                        items.append(("el", v))
                    elif isinstance(v, tuple) and v[0] == "seq":
                        items += list(v[2])
                    else:
                        ok = False
                out.append((s, seq(kind, items) if ok else TOP))
            return out
        return [(s, seq(kind, [("el", v) for v in vs])) for s, vs in self.evs_sub(st, e.elts)]

    def evs_sub(self, st, exprs):
        """evaluate in order; earlier values sit in the frame meanwhile so that a later case split that
        replaces a symbol also reaches them"""
        if len(exprs) == 1:
            return [(s, (v,)) for s, v in self.ev(st, exprs[0])]
        self.tmp += 1
        names = ["$a%d.%d" % (self.tmp, i) for i in range(len(exprs))]
        cur = [st]
        for n, e in zip(names, exprs):
            nxt = []
            for s in cur:
                for s2, v in self.ev(s, e):
                    nxt.append(s2.set(n, v))
            cur = nxt
        self.tmp -= 1
        out = []
        ns = set(names)
        for s in cur:
            vs = tuple(s.env[n] for n in names)
            out.append((State(s.frames[:-1] + [{k: v for k, v in s.env.items() if k not in ns}], s.heap, s.facts, s.marks), vs))
        return out

    def e_UnaryOp(self, st, e):
        if isinstance(e.op, ast.Not):
            return [(s, ("const", b)) for s, b in self.cond(st, e)]
        out = []
        for s, v in self.ev(st, e.operand):
            if isinstance(v, Lin):
                out.append((s, -v if isinstance(e.op, ast.USub) else v))
            else:
                out.append((s, TOP))
        return out

    def e_BinOp(self, st, e):
        out = []
        for s, (a, b) in self.evs_sub(st, [e.left, e.right]):
            out.append((s, self.binop(s, e.op, a, b)))
        return out

    def binop(self, st, op, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                if a.is_const():
                    return b * a.c
                if b.is_const():
                    return a * b.c
            if isinstance(op, ast.Div) and b.is_const() and b.c:
                from fractions import Fraction
                return a * Fraction(1, 1) * (Fraction(1) / Fraction(b.c))
            return TOP
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == "seq" and b[0] == "seq" and isinstance(op, ast.Add):
                return seq(a[1], a[2] + b[2])
        if isinstance(op, ast.Mult) and isinstance(a, tuple) and a[0] == "seq" and isinstance(b, Lin) and b.is_const() and 0 <= b.c <= 16:
            return seq(a[1], a[2] * int(b.c))
        if isinstance(a, tuple) and a[0] == "const" and isinstance(a[1], str):
            return ("const", "$str")
        return TOP

    def e_BoolOp(self, st, e):
        isand = isinstance(e.op, ast.And)
        cur = [(st, None, True)]
        for x in e.values:
            nxt = []
            for s, v, go in cur:
                if not go:
                    nxt.append((s, v, False))
                    continue
                for s2, v2 in self.ev(s, x):
                    if x is e.values[-1]:
                        nxt.append((s2, v2, False))
                    else:
                        for s3, b in self.truth(s2, v2):
                            nxt.append((s3, v2, b == isand))
            cur = nxt
        return [(s, v) for s, v, g in cur]

    def e_Compare(self, st, e):
        return [(s, ("const", b)) for s, b in self.cond(st, e)]

    def e_IfExp(self, st, e):
        out = []
        for s, b in self.cond(st, e.test):
            out += self.ev(s, e.body if b else e.orelse)
        return out

    def e_Lambda(self, st, e):
        return [(st, ("lambda", e))]

    def e_JoinedStr(self, st, e):
        return [(st, ("const", "$str"))]

    def e_Starred(self, st, e):
        return [(st, TOP)]

    # subscripts
    def e_Subscript(self, st, e):
        out = []
        for s, v in self.ev(st, e.value):
            if isinstance(v, tuple) and v[0] == "mat" and isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 2:
                for s2, (a, b) in self.evs_sub(s, e.slice.elts):
                    a, b = as_node(a), as_node(b)
                    out.append((s2, dist(a, b) if a is not None and b is not None else TOP))
                continue
            if isinstance(v, tuple) and v[0] == "mat" and not isinstance(e.slice, ast.Slice):
                for s2, i in self.ev(s, e.slice):
                    n = as_node(i)
                    if n is None and isinstance(i, tuple) and i[0] == "seq":
                        u = self.unpack(s2, i)
                        u = [as_node(x) for x in u] if u and len(u) == 2 else [None]
                        out.append((s2, dist(*u) if None not in u else TOP))
                        continue
                    out.append((s2, ("row", n) if n is not None else TOP))
                continue
            if isinstance(v, tuple) and v[0] == "row":
                for s2, i in self.ev(s, e.slice):
                    n = as_node(i)
                    out.append((s2, dist(v[1], n) if n is not None else TOP))
                continue
            if isinstance(v, tuple) and v[0] == "vec":
                for s2, i in self.ev(s, e.slice):
                    n = as_node(i)
                    out.append((s2, dem(n) if n is not None else TOP))
                continue
            if isinstance(e.slice, ast.Slice):
                parts = [x if x is not None else ast.Constant(value=None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                for s2, (lo, hi, step) in self.evs_sub(s, parts):
                    if s2 is not s:
                        vv = self.ev(s2, e.value)
                        v2 = vv[0][1] if len(vv) == 1 else v
                    else:
                        v2 = v
                    out += self.slice(s2, v2, lo, hi, step)
                continue
            for s2, i in self.ev(s, e.slice):
                if s2 is not s:
                    vv = self.ev(s2, e.value)
                    v2 = vv[0][1] if len(vv) == 1 else v
                else:
                    v2 = v
                out += self.index(s2, v2, i)
        return out

    def pos_index(self, st, i, n):
        """resolve a possibly negative index against length n: [(state, lin)]"""
        if i.is_const():
            return [(st, i if i.c >= 0 else n + i)]
        if entails(st.facts, i):
            return [(st, i)]
        d = i - n
        if entails(st.facts, -i, True):
            return [(st, n + i)]
        out = []
        s = self.add_facts(st, [(i, False)])
        if s is not None:
            out.append((s, i))
        s = self.add_facts(st, [(-i, True)])
        if s is not None:
            out.append((s, n + i))
        return out

    def index(self, st, v, i):
        if isinstance(v, Lin) or v == TOP:
            return [(st, TOP)]
        if v[0] == "ref":
            o = st.heap.get(v[1], {})
            c = o.get("$cls")
            if c and c[0] == "cls" and "__getitem__" in c[1].methods:
                return self.call_func(st, c[1].methods["__getitem__"], [v, i], {})
            return [(st, TOP)]
        if not isinstance(i, Lin) or not is_int(i):
            return [(st, TOP)]
        if v[0] == "arr":
            return self.arr_at(st, v, i)
        if v[0] != "seq":
            return [(st, TOP)]
        items = v[2]
        if all(it[0] == "el" for it in items):
            if i.is_const():
                k = int(i.c)
                if -len(items) <= k < len(items):
                    return [(st, items[k][1])]
                return []        # IndexError: not a normal path
            return [(st, TOP)]
        if len(items) == 1 and items[0][0] == "seg":
            _, R, lo, hi, dr = items[0]
            out = []
            for s, p in self.pos_index(st, i, hi - lo):
                out.append((s, mknode(R, lo + p if dr == 1 else hi - const(1) - p)))
            return out
        # several pieces: constant positions from an end that lie in single elements
        if i.is_const() and i.c == 0:
            it = items[0]
            if it[0] == "el" or entails(st.facts, it[3] - it[2] - const(1)):
                return [(st, it[1] if it[0] == "el" else ends(it)[0])]
        if i.is_const() and i.c == -1:
            it = items[-1]
            if it[0] == "el" or entails(st.facts, it[3] - it[2] - const(1)):
                return [(st, it[1] if it[0] == "el" else ends(it)[1])]
        if len(items) > 6:
            return [(st, TOP)]
        out = []
        for s, p in self.pos_index(st, i, length(v)):
            cur, off = [s], const(0)
            for it in items:
                n = const(1) if it[0] == "el" else it[3] - it[2]
                nxt = []
                for s in cur:
                    for s2, b in self.cmp_lin(s, ast.Lt(), p - off, n):
                        if not b:
                            nxt.append(s2)
                        elif it[0] == "el":
                            out.append((s2, it[1]))
                        else:
                            q = p - off
                            out.append((s2, mknode(it[1], it[2] + q if it[4] == 1 else it[3] - const(1) - q)))
                cur = nxt
                off = off + n
        return out

    def arr_at(self, st, v, i):
        kind, R = v[1], v[2]
        n = atom(("N", R))
        out = []
        for s, p in self.pos_index(st, i, n):
            if kind == "fwd_l":
                r = PL(R, p)
            elif kind == "rwd_l":
                r = PL(R, n - const(1)) - PL(R, p)
            elif kind == "fwd_d":
                r = PD(R, p)
            elif kind == "rwd_d":
                r = PD(R, n - const(1)) - PD(R, p - const(1))
            else:
                r = TOP
            out.append((s, r))
        return out

    def slice(self, st, v, lo, hi, step):
        if isinstance(v, Lin) or v[0] != "seq":
            return [(st, TOP)]
        stp = 1 if step == NONE else int(step.c) if isinstance(step, Lin) and step.is_const() else None
        if stp not in (1, -1) or not all(x == NONE or isinstance(x, Lin) and is_int(x) for x in (lo, hi)):
            return [(st, TOP)]
        items = v[2]
        if all(it[0] == "el" for it in items):
            if all(x == NONE or x.is_const() for x in (lo, hi)):
                sl = slice(None if lo == NONE else int(lo.c), None if hi == NONE else int(hi.c), stp)
                return [(st, seq(v[1], list(items)[sl]))]
            return [(st, TOP)]
        if len(items) != 1:
            # whole list, or all but the ends
            if stp == 1 and lo in (NONE, const(0)) and hi == NONE:
                return [(st, v)]
            if stp == 1 and all(x == NONE or x.is_const() for x in (lo, hi)):
                its = list(items)
                a = 0 if lo == NONE else int(lo.c)
                b = 0 if hi == NONE else int(hi.c)
                if a >= 0 and b <= 0:
                    while a and its and its[0][0] == "el":
                        its.pop(0)
                        a -= 1
                    while b and its and its[-1][0] == "el":
                        its.pop()
                        b += 1
                    if a and its and entails(st.facts, its[0][3] - its[0][2] - const(a)):
                        x = its[0]
                        its[0] = ("seg", x[1], x[2] + const(a), x[3], 1) if x[4] == 1 else ("seg", x[1], x[2], x[3] - const(a), -1)
                        a = 0
                    if b and its and its[-1][0] == "seg" and entails(st.facts, its[-1][3] - its[-1][2] + const(b)):
                        x = its[-1]
                        its[-1] = ("seg", x[1], x[2], x[3] + const(b), 1) if x[4] == 1 else ("seg", x[1], x[2] - const(b), x[3], -1)
                        b = 0
                    if not a and not b:
                        return [(st, seq(v[1], its))]
            if stp != 1 or len(items) > 8:
                return [(st, TOP)]
            n = length(v)
            out = []
            for s, a in ([(st, const(0))] if lo == NONE else self.clamp(st, lo, n)):
                for s2, b in ([(s, n)] if hi == NONE else self.clamp(s, hi, n)):
                    for s3, left, right in (self.cut(s2, items, b) if hi != NONE else [(s2, list(items), [])]):
                        for s4, l2, mid in (self.cut(s3, left, a) if lo != NONE else [(s3, [], left)]):
                            out.append((s4, seq(v[1], mid)))
            return out
        _, R, slo, shi, dr = items[0]
        if dr != 1:
            if stp == 1 and lo == NONE and hi == NONE:
                return [(st, v)]
            return [(st, TOP)]
        n = shi - slo
        out = []
        if stp == 1:
            los = [(st, const(0))] if lo == NONE else self.clamp(st, lo, n)
            for s, a in los:
                his = [(s, n)] if hi == NONE else self.clamp(s, hi, n)
                for s2, b in his:
                    # non-empty or empty
                    if entails(s2.facts, b - a):
                        out.append((s2, seq(v[1], [("seg", R, slo + a, slo + b, 1)])))
                        continue
                    s3 = self.add_facts(s2, [(b - a, False)])
                    if s3 is not None:
                        out.append((s3, seq(v[1], [("seg", R, slo + a, slo + b, 1)])))
                    s3 = self.add_facts(s2, [(a - b, True)])
                    if s3 is not None:
                        out.append((s3, seq(v[1], [])))
        else:
            los = [(st, n - const(1))] if lo == NONE else self.clamp(st, lo, n, -1)
            for s, a in los:
                his = [(s, const(-1))] if hi == NONE else self.clamp(s, hi, n, -1)
                for s2, b in his:
                    if entails(s2.facts, a - b):
                        out.append((s2, seq(v[1], [("seg", R, slo + b + const(1), slo + a + const(1), -1)])))
                        continue
                    s3 = self.add_facts(s2, [(a - b, False)])
                    if s3 is not None:
                        out.append((s3, seq(v[1], [("seg", R, slo + b + const(1), slo + a + const(1), -1)])))
                    s3 = self.add_facts(s2, [(b - a, True)])
                    if s3 is not None:
                        out.append((s3, seq(v[1], [])))
        return out

    def cut(self, st, items, p):
        """split pieces at position p >= 0: [(state, left, right)]"""
        cur, off, out = [(st, [])], const(0), []
        for k, it in enumerate(items):
            n = const(1) if it[0] == "el" else it[3] - it[2]
            nxt = []
            for s, left in cur:
                for s2, b in self.cmp_lin(s, ast.Lt(), p - off, n):
                    if not b:
                        nxt.append((s2, left + [it]))
                    elif it[0] == "el":
                        out.append((s2, left, list(items[k:])))
                    else:
                        q = p - off
                        _, R, lo, hi, dr = it
                        if dr == 1:
                            x, y = ("seg", R, lo, lo + q, 1), ("seg", R, lo + q, hi, 1)
                        else:
                            x, y = ("seg", R, hi - q, hi, -1), ("seg", R, lo, hi - q, -1)
                        out.append((s2, left + [x], [y] + list(items[k + 1:])))
            cur = nxt
            off = off + n
        return out + [(s, left, []) for s, left in cur]

    def clamp(self, st, i, n, rev=0):
        """python slice bound: negative counts from the end, then clamped"""
        out = []
        for s, p in self.pos_index(st, i, n):
            lim = n if not rev else n - const(1)
            if entails(s.facts, lim - p):
                out.append((s, p))
                continue
            s2 = self.add_facts(s, [(lim - p, False)])
            if s2 is not None:
                out.append((s2, p))
            s2 = self.add_facts(s, [(p - lim, True)])
            if s2 is not None:
                out.append((s2, lim))
        return out

    # comprehensions
    def e_ListComp(self, st, e):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            out = []
            for s, it in self.ev(st, g.iter):
                if isinstance(it, tuple) and it[0] == "seq":
                    if isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
                        out.append((s, ("seq", "list", it[2])))
                        continue
                    if all(x[0] == "el" for x in it[2]):
                        cur = [(s, ())]
                        for x in it[2]:
                            nxt = []
                            for s2, vs in cur:
                                s3 = self.bind(s2, g.target, x[1])
                                for s4, v in self.ev(s3, e.elt):
                                    nxt.append((s4, vs + (v,)))
                            cur = nxt
                        out += [(s2, seq("list", [("el", v) for v in vs])) for s2, vs in cur]
                        continue
                out.append((s, TOP))
            return out
        return [(st, TOP)]

    e_GeneratorExp = e_ListComp

    def e_Dict(self, st, e):
        return [(st, TOP)]

    # ------------------------------------------------------------ calls
    def e_Call(self, st, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "sum" and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.sum_gen(st, e.args[0])
        out = []
        for s, fv in self.ev(st, f):
            kws = [k for k in e.keywords]
            for s2, vs in self.evs_sub(s, [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in kws]):
                args, ok = [], True
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        x = self.unpack(s2, v)
                        if x is None:
                            ok = False
                        else:
                            args += x
                    else:
                        args.append(v)
                kw = {}
                for k, v in zip(kws, vs[len(e.args):]):
                    if k.arg is None:
                        ok = False
                    else:
                        kw[k.arg] = v
                if not ok:
                    out.append((s2, TOP))
                    continue
                fv2 = fv
                if s2 is not s and isinstance(fv, tuple) and fv[0] == "meth":
                    x = self.ev(s2, f)
                    fv2 = x[0][1] if len(x) == 1 else fv
                out += self.apply(s2, fv2, args, kw, e)
        return out

    def unpack(self, st, v):
        if isinstance(v, Lin) or v == TOP:
            return None
        if v[0] == "seq":
            out = []
            for i in v[2]:
                if i[0] == "el":
                    out.append(i[1])
                    continue
                n = i[3] - i[2]
                if not n.is_const() or not 0 <= n.c <= 12:
                    return None
                ns = [mknode(i[1], i[2] + const(k)) for k in range(int(n.c))]
                out += ns if i[4] == 1 else ns[::-1]
            return out
        if v[0] == "ref":
            o = st.heap.get(v[1], {})
            c = o.get("$cls")
            if c and c[0] == "cls" and "__iter__" in c[1].methods:
                ys = self.generator(st, c[1].methods["__iter__"], v)
                return ys
            if "$fields" in o:
                return [o.get(n, TOP) for n in o["$fields"][1]]
        return None

    def generator(self, st, m, self_v):
        """values yielded by a generator method without symbolic loops"""
        self.funcs.append(m)
        try:
            s = State([{m.posargs[0]: self_v}], st.heap, st.facts)
            ys = []

            def run(stmts, s):
                for x in stmts:
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Yield):
                        r = self.ev(s, x.value.value)
                        if len(r) != 1:
                            raise Undecided("generator")
                        ys.append(r[0][1])
                    elif isinstance(x, ast.For):
                        r = self.ev(s, x.iter)
                        u = self.unpack(s, r[0][1]) if len(r) == 1 else None
                        if u is None:
                            raise Undecided("generator")
                        for v in u:
                            s2 = self.bind(s, x.target, v)
                            run(x.body, s2)
                    elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                        pass
                    elif isinstance(x, ast.Assign):
                        fl = self.stmt(s, x)
                        s = fl.norm[0]
                    elif isinstance(x, ast.Return) and x.value is None:
                        return
                    else:
                        raise Undecided("generator")
            try:
                run(m.node.body, s)
            except Undecided:
                return None
            return ys
        finally:
            self.funcs.pop()

    def sum_gen(self, st, g):
        if len(g.generators) != 1 or g.generators[0].ifs:
            return [(st, TOP)]
        gen = g.generators[0]
        out = []
        for s, it in self.ev(st, gen.iter):
            r = self.sum_over(s, gen.target, g.elt, it)
            out.append((s, r))
        return out

    def sum_over(self, st, target, elt, it):
        if isinstance(it, tuple) and it[0] == "ref":
            u = self.unpack(st, it)
            it = els(*u) if u is not None else TOP
        if not (isinstance(it, tuple) and it[0] == "seq"):
            return TOP
        total = const(0)
        for x in it[2]:
            if x[0] == "el":
                s2 = self.bind(st, target, x[1])
                r = self.ev(s2, elt)
                if len(r) != 1 or not isinstance(r[0][1], Lin):
                    return TOP
                total = total + r[0][1]
            else:
                nm = self.fresh("n")
                n = ("x", nm)
                s2 = self.bind(st, target, n)
                r = self.ev(s2, elt)
                if len(r) != 1 or r[0][1] != dem(n):
                    return TOP
                total = total + PD(x[1], x[3] - const(1)) - PD(x[1], x[2] - const(1))
        return total

    def alloc(self, st, cls, attrs):
        self.nids += 1
        rid = "o%d" % self.nids
        s = st.copy()
        o = dict(attrs)
        if cls is not None:
            o["$cls"] = ("cls", cls)
        s.heap[rid] = o
        return s, ("ref", rid)

    def apply(self, st, fv, args, kw, e=None):
        if fv == TOP or isinstance(fv, Lin):
            return [(st, TOP)]
        k = fv[0]
        h = self.hooks.get("call")
        if h:
            r = h(self, st, fv, args, kw, e)
            if r is not None:
                return r
        if k == "func":
            s = self.sums.get(fv[1].name) or self.sums.get(fv[1].qualname)
            if s is not None:
                r = s(self, st, fv[1], args, kw)
                if r is not None:
                    return r
            return self.call_func(st, fv[1], args, kw)
        if k == "bound":
            s = self.sums.get(fv[2].name) or self.sums.get(fv[2].qualname)
            if s is not None:
                r = s(self, st, fv[2], [fv[1]] + args, kw)
                if r is not None:
                    return r
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fv[2].node.decorator_list)
            return self.call_func(st, fv[2], args if static else [fv[1]] + args, kw)
        if k == "cls":
            s = self.sums.get(fv[1].name)
            if s is not None:
                r = s(self, st, fv[1], args, kw)
                if r is not None:
                    return r
            init = fv[1].methods.get("__init__")
            s, ref = self.alloc(st, fv[1], {})
            if init is None:
                return [(s, ref)]
            return [(s2, ref) for s2, v in self.call_func(s, init, [ref] + args, kw)]
        if k == "lambda":
            return self.call_lambda(st, fv[1], args)
        if k == "ext":
            name = fv[1].split(".")[-1]
            if fv[1].startswith("builtins."):
                return self.builtin(st, name, args, kw)
            return [(st, TOP)]
        if k == "builtin":
            return self.builtin(st, fv[1], args, kw)
        if k == "meth":
            return self.method(st, fv[1], fv[2], args, kw, e)
        return [(st, TOP)]

    def call_lambda(self, st, lam, args):
        ps = [a.arg for a in lam.args.args]
        if len(ps) != len(args):
            return [(st, TOP)]
        s = st.copy()
        s.frames[-1].update(zip(ps, args))
        return [(State(st.frames, s2.heap, s2.facts, s2.marks), v) for s2, v in self.ev(s, lam.body)]

    def builtin(self, st, name, args, kw):
        a = args[0] if args else None
        if name == "len" and a is not None:
            if isinstance(a, tuple) and a[0] == "vec":
                return [(st, atom(("N", "nodes")))]
            if isinstance(a, tuple) and a[0] == "mat":
                return [(st, atom(("N", "nodes")))]
            n = length(a) if isinstance(a, tuple) and a[0] in ("seq", "arr") else None
            return [(st, n if n is not None else TOP)]
        if name == "range":
            if len(args) == 1 and isinstance(a, Lin):
                return [(st, ("range", const(0), a, 1))]
            if len(args) >= 2 and isinstance(a, Lin) and isinstance(args[1], Lin):
                step = 1
                if len(args) == 3:
                    if not (isinstance(args[2], Lin) and args[2].is_const()):
                        return [(st, TOP)]
                    step = int(args[2].c)
                return [(st, ("range", a, args[1], step))]
        if name in ("list", "tuple"):
            if a is None:
                return [(st, seq(name, []))]
            if isinstance(a, tuple) and a[0] == "seq":
                return [(st, ("seq", name, a[2]))]
            u = self.unpack(st, a)
            if u is not None:
                return [(st, seq(name, [("el", v) for v in u]))]
        if name == "enumerate" and a is not None:
            st0 = args[1] if len(args) > 1 else kw.get("start", const(0))
            return [(st, ("enumerate", a, st0))]
        if name == "zip":
            us = [self.unpack(st, x) for x in args]
            if all(u is not None for u in us) and us:
                return [(st, seq("tuple", [("el", els(*x)) for x in zip(*us)]))]
            if us and all(isinstance(x, tuple) and x[0] == "seq" and len(x[2]) == 1 and x[2][0][0] == "seg" for x in args):
                return [(st, ("zip",) + tuple(args))]
            return [(st, TOP)]
        if name == "reversed" and isinstance(a, tuple) and a[0] == "range" and a[3] in (1, -1):
            return [(st, ("range", a[2] - const(1), a[1] - const(1), -1) if a[3] == 1 else ("range", a[2] + const(1), a[1] + const(1), 1))]
        if name == "reversed" and isinstance(a, tuple) and a[0] == "seq":
            return [(st, seq("list", [x if x[0] == "el" else x[:4] + (-x[4],) for x in reversed(a[2])]))]
        if name in ("float", "int") and isinstance(a, Lin):
            return [(st, a)]
        if name == "float" and a and a[0] == "const" and str(a[1]).lstrip("-+") in ("inf", "Infinity"):
            return [(st, atom(("r", "INF")))]
        if name == "abs" and isinstance(a, Lin):
            if entails(st.facts, a):
                return [(st, a)]
            if entails(st.facts, -a):
                return [(st, -a)]
        if name == "bool" and a is not None:
            return [(s, ("const", b)) for s, b in self.truth(st, a)]
        if name == "isinstance" and len(args) == 2:
            return [(st, self.isinst(st, a, args[1]))]
        if name == "type" and a is not None:
            return [(st, self.typeof(st, a))]
        if name in ("min", "max") and len(args) == 2 and all(isinstance(x, Lin) for x in args):
            x, y = args
            out = []
            for s, b in self.cmp_lin(st, ast.LtE(), x, y):
                out.append((s, (x if b else y) if name == "min" else (y if b else x)))
            return out
        if name == "sum" and isinstance(a, tuple) and a[0] == "seq":
            t = const(0)
            for it in a[2]:
                if it[0] != "el" or not isinstance(it[1], Lin):
                    return [(st, TOP)]
                t = t + it[1]
            return [(st, t)]
        if name == "hasattr":
            return [(st, TOP)]
        return [(st, TOP)]

    def typeof(self, st, v):
        if isinstance(v, Lin):
            return ("builtin", "int") if is_int(v) else ("builtin", "float")
        if is_node(v):
            return ("builtin", "int")
        if v[0] == "seq":
            return ("builtin", v[1])
        if v[0] == "const":
            return ("builtin", type(v[1]).__name__)
        if v[0] == "ref":
            return st.heap.get(v[1], {}).get("$cls", TOP)
        return TOP

    def isinst(self, st, v, t):
        if t[0] == "seq":
            rs = [self.isinst(st, v, i[1]) for i in t[2]]
            return TRUE if TRUE in rs else TOP if TOP in rs else FALSE
        ty = self.typeof(st, v)
        if ty == TOP or t == TOP:
            return TOP
        if ty == t:
            return TRUE
        if t[0] == "ext" and t[1].startswith("builtins."):
            t = ("builtin", t[1].split(".")[-1])
            if ty == t:
                return TRUE
        if t[0] in ("builtin", "cls"):
            return FALSE
        return TOP

    def method(self, st, v, name, args, kw, e):
        """methods of lists; mutations are written back to the receiver expression"""
        if v[0] != "seq":
            return [(st, TOP)]
        new, res = None, NONE
        if name == "append" and args:
            new = seq("list", v[2] + (("el", args[0]),))
        elif name == "extend" and args and isinstance(args[0], tuple) and args[0][0] == "seq":
            new = seq("list", v[2] + args[0][2])
        elif name == "copy":
            return [(st, v)]
        elif name == "insert" and len(args) == 2 and isinstance(args[0], Lin):
            out = []
            for s, a in self.slice(st, v, NONE, args[0], NONE):
                for s2, b in self.slice(s, v, args[0], NONE, NONE):
                    out.append((self.write_back(s2, e, seq("list", a[2] + (("el", args[1]),) + b[2]) if a != TOP and b != TOP else TOP), NONE))
            return out
        elif name == "reverse":
            new = seq("list", [x if x[0] == "el" else x[:4] + (-x[4],) for x in reversed(v[2])])
        elif name in ("index", "count"):
            return [(st, TOP)]
        else:
            new, res = TOP, TOP
        if e is None or not isinstance(e.func, ast.Attribute):
            return [(st, TOP)]
        return [(self.write_back(st, e, new), res)]

    def write_back(self, st, e, new):
        t = e.func.value
        s = self.store(st, t, new)
        return s

    # ------------------------------------------------------------ calls of repository functions
    def call_func(self, st, f, args, kw, raw=False):
        if len(self.funcs) > self.maxdepth or any(g is f for g in self.funcs[-3:]) and len(self.funcs) > 4:
            return [(st, TOP)]
        env = {}
        if len(args) > len(f.posargs) and not f.vararg:
            return []
        for n, v in zip(f.posargs, args):
            env[n] = v
        if f.vararg:
            env[f.vararg] = els(*args[len(f.posargs):])
        for n, v in kw.items():
            env[n] = v
        self.funcs.append(f)
        try:
            for n, dv in f.defaults.items():
                if n not in env:
                    r = self.ev(State([{}], st.heap, st.facts), dv)
                    env[n] = r[0][1]
            for n in f.params:
                env.setdefault(n, TOP)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                return [(st, TOP)]
            s = State(st.frames + [env], st.heap, st.facts, st.marks)
            fl = self.block(s, f.node.body, live_of(f.node))
            out = []
            for r, v, n in fl.ret:
                out.append((State(r.frames[:-1], r.heap, r.facts, r.marks), v))
            for r in fl.norm:
                out.append((State(r.frames[:-1], r.heap, r.facts, r.marks), NONE))
            if not raw:
                out = self.merge_vals(out)
            return out
        finally:
            self.funcs.pop()

    def merge_vals(self, out):
        d = {}
        for s, v in out:
            k = (s.key(), v)
            l = d.setdefault(k, [])
            for i, (o, _) in enumerate(l):
                if o.facts == s.facts or self.tag(o) == self.tag(s):
                    l[i] = (State(o.frames, o.heap, self.join_facts(o.facts, s.facts), o.marks), v)
                    break
            else:
                l.append((s, v))
        return [x for l in d.values() for x in l]

    def tag(self, st):
        """order relations between the positions held in the same record, and between loop variables;
        states that differ in these are kept apart"""
        groups = [[v for n, v in sorted(st.env.items()) if not n.startswith("$") and isinstance(v, Lin) and is_int(v) and len(v.t) == 1 and v.t[0][0][0] == "s"]]
        for n, v in sorted(st.env.items()):
            if isinstance(v, tuple) and v and v[0] == "seq":
                g = [i[1] for i in v[2] if i[0] == "el" and isinstance(i[1], Lin) and is_int(i[1]) and len(i[1].t) == 1 and i[1].t[0][0][0] == "s"]
                if len(g) > 1:
                    groups.append(g)
        out = []
        for g in groups:
            g = g[:5]
            for i in range(len(g)):
                for j in range(i):
                    d = g[i] - g[j]
                    out.append("=" if not d.t else "+" if entails(st.facts, d, True) else "-" if entails(st.facts, -d, True) else "?")
        return "".join(out)

    # ------------------------------------------------------------ statements
    def merge(self, states, live=None):
        d = {}
        for s in states:
            if live is not None:
                env = s.env
                dead = [n for n in env if n not in live and n not in self.keep and not n.startswith("$")]
                if dead:
                    e2 = {n: v for n, v in env.items() if n not in dead}
                    s = State(s.frames[:-1] + [e2], s.heap, s.facts, s.marks)
            k = s.key()
            l = d.setdefault(k, [])
            for i, o in enumerate(l):
                if o.facts == s.facts or self.tag(o) == self.tag(s):
                    l[i] = State(o.frames, o.heap, self.join_facts(o.facts, s.facts), o.marks)
                    break
            else:
                l.append(s)
        return [x for l in d.values() for x in l]

    def block(self, st, stmts, live):
        fl = Flow()
        cur = [st]
        for s in stmts:
            nxt = []
            for x in cur:
                self.tick()
                r = self.stmt(x, s, live)
                fl.extend(r, norm=False)
                nxt += r.norm
            cur = self.merge(nxt, live.out.get(id(s)) if live is not None else None) if len(nxt) > 1 else nxt
            if len(cur) > 400:
                raise Undecided("too many abstract states")
        fl.norm = cur
        return fl

    def stmt(self, st, s, live=None):
        live = live if live is not None else live_of(self.func.node)
        fl = Flow()
        if isinstance(s, ast.Expr):
            for s2, v in self.ev(st, s.value):
                fl.norm.append(s2)
        elif isinstance(s, ast.Assign):
            for s2, v in self.ev(st, s.value):
                h = self.hooks.get("assign")
                for t in s.targets:
                    if h:
                        s2 = h(self, s2, s, t, v) or s2
                    s2 = self.store(s2, t, v)
                fl.norm.append(s2)
        elif isinstance(s, ast.AnnAssign):
            if s.value is None:
                fl.norm.append(st)
            else:
                for s2, v in self.ev(st, s.value):
                    fl.norm.append(self.store(s2, s.target, v))
        elif isinstance(s, ast.AugAssign):
            load = _as_load(s.target)
            for s2, (a, b) in self.evs_sub(st, [load, s.value]):
                v = self.binop(s2, s.op, a, b)
                h = self.hooks.get("assign")
                if h:
                    s2 = h(self, s2, s, s.target, v) or s2
                fl.norm.append(self.store(s2, s.target, v))
        elif isinstance(s, ast.If):
            if is_debug_test(s.test):
                return self.block(st, s.orelse, live)
            for s2, b in self.cond(st, s.test):
                r = self.block(s2, s.body if b else s.orelse, live)
                fl.extend(r)
            fl.norm = self.merge(fl.norm, live.out.get(id(s)))
        elif isinstance(s, ast.For):
            return self.for_(st, s, live)
        elif isinstance(s, ast.While):
            return self.while_(st, s, live)
        elif isinstance(s, ast.Return):
            if s.value is None:
                fl.ret.append((st, NONE, s))
            else:
                for s2, v in self.ev(st, s.value):
                    fl.ret.append((s2, v, s))
        elif isinstance(s, ast.Break):
            h = self.hooks.get("break")
            if h:
                h(self, st, s)
            fl.brk.append(st)
        elif isinstance(s, ast.Continue):
            fl.cont.append(st)
        elif isinstance(s, ast.Raise):
            pass
        elif isinstance(s, ast.Try):
            r = self.block(st, s.body + s.orelse + s.finalbody, live)
            return r
        elif isinstance(s, ast.With):
            return self.block(st, s.body, live)
        elif isinstance(s, (ast.FunctionDef,)):
            nf = self.func.nested.get(s.name)
            fl.norm.append(st.set(s.name, ("func", nf)) if nf else st)
        elif isinstance(s, ast.Delete):
            x = st
            for t in s.targets:
                x = self.store(x, t, TOP) if isinstance(t, ast.Name) else self.store(x, t.value, TOP) if isinstance(t, ast.Subscript) else x
            fl.norm.append(x)
        else:
            fl.norm.append(st)
        return fl

    def bind(self, st, t, v):
        return self.store(st, t, v)

    def store(self, st, t, v):
        if isinstance(t, ast.Name):
            h = self.hooks.get("store")
            if h:
                st = h(self, st, t.id, v)
            return st.set(t.id, v)
        if isinstance(t, (ast.Tuple, ast.List)):
            u = None if isinstance(v, Lin) else self.unpack(st, v)
            if u is None or len(u) != len(t.elts):
                u = [TOP] * len(t.elts)
            for x, y in zip(t.elts, u):
                st = self.store(st, x.value if isinstance(x, ast.Starred) else x, TOP if isinstance(x, ast.Starred) else y)
            return st
        if isinstance(t, ast.Attribute):
            r = self.ev(st, t.value)
            if len(r) == 1 and isinstance(r[0][1], tuple) and r[0][1][0] == "ref":
                s = st.copy()
                rid = r[0][1][1]
                o = dict(s.heap.get(rid, {}))
                o[t.attr] = v
                s.heap[rid] = o
                return s
            return st
        if isinstance(t, ast.Subscript):
            r = self.ev(st, t.value)
            if len(r) == 1 and isinstance(r[0][1], tuple) and r[0][1][0] == "seq":
                old = r[0][1]
                i = self.ev(st, t.slice)
                if len(i) == 1 and isinstance(i[0][1], Lin) and i[0][1].is_const() and all(x[0] == "el" for x in old[2]):
                    k = int(i[0][1].c)
                    if -len(old[2]) <= k < len(old[2]):
                        items = list(old[2])
                        items[k] = ("el", v)
                        return self.store(st, t.value, ("seq", old[1], tuple(items)))
                return self.store(st, t.value, TOP)
            return st
        return st

    # ------------------------------------------------------------ loops
    def for_(self, st, s, live):
        out = Flow()
        for s0, it in self.ev(st, s.iter):
            out.extend(self.for_over(s0, s, it, live))
        out.norm = self.merge(out.norm, live.out.get(id(s)))
        return out

    def for_over(self, st, s, it, live):
        off = None
        if isinstance(it, tuple) and it[0] == "enumerate":
            it, off = it[1], it[2]
            if not isinstance(off, Lin):
                off = None
                it = TOP
        fin = None
        if isinstance(it, tuple) and it[0] == "seq" and all(x[0] == "el" for x in it[2]):
            fin = [x[1] for x in it[2]]
        elif isinstance(it, tuple) and it[0] == "range" and (it[2] - it[1]).is_const() and abs((it[2] - it[1]).c) <= 8:
            k = range(0, int((it[2] - it[1]).c), it[3])
            fin = [it[1] + const(x) for x in k]
        elif isinstance(it, tuple) and it[0] == "ref":
            fin = self.unpack(st, it)
        if fin is not None:
            return self.unroll(st, s, fin, off, live)
        if isinstance(it, tuple) and it[0] == "range":
            lo, hi, step = it[1], it[2], it[3]

            def gen(h):
                k = sym(self.fresh("i"))
                fs = [(k - lo_(h), False), (hi_(h) - const(1) - k, False)] if step > 0 else [(lo_(h) - k, False), (k - const(1) - hi_(h), False)]
                h2 = self.add_facts(h, fs)
                return [] if h2 is None else [self.store(h2, s.target, els(k + off, k) if off is not None else k)]
            # bounds may mention symbols that get renamed: keep them in the frame
            nlo, nhi = "$lo%d" % id(s), "$hi%d" % id(s)
            st = st.set(nlo, lo).set(nhi, hi)
            lo_ = lambda h: h.env[nlo]
            hi_ = lambda h: h.env[nhi]
            r = self.symloop(st, s, gen, live)
            return drop(r, (nlo, nhi))
        if isinstance(it, tuple) and it[0] == "zip":
            nm, ni = "$it%d" % id(s), "$ix%d" % id(s)
            st = st.set(nm, els(*it[1:])).set(ni, const(0))

            def zgen(h):
                for k in range(len(it) - 1):
                    _, R, lo, hi, dr = h.env[nm][2][k][1][2][0]
                    h = self.add_facts(h, [(hi - lo - const(1) - h.env[ni], False)])
                    if h is None:
                        return []
                t = h.env[ni]
                xs = []
                for k in range(len(it) - 1):
                    _, R, lo, hi, dr = h.env[nm][2][k][1][2][0]
                    xs.append(mknode(R, lo + t if dr == 1 else hi - const(1) - t))
                h = h.set(ni, t + const(1))
                x = els(*xs)
                return [self.store(h, s.target, els(t + off, x) if off is not None else x)]

            def zdone(h):
                out = []
                for k in range(len(it) - 1):
                    _, R, lo, hi, dr = h.env[nm][2][k][1][2][0]
                    h2 = self.assume_eq(h, h.env[ni] - (hi - lo))
                    if h2 is not None:
                        out.append(h2)
                return out
            r = self.symloop(st, s, zgen, live, zdone)
            return drop(r, (nm, ni))
        if isinstance(it, tuple) and it[0] == "seq" and len(it[2]) == 1 and it[2][0][0] == "seg":
            nm, ni = "$it%d" % id(s), "$ix%d" % id(s)
            if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "add")
                       or isinstance(n, ast.AugAssign) for b in s.body for n in ast.walk(b)):
                # nothing is accumulated: any position of the list, as in a loop over range(len(list))
                st = st.set(nm, it)

                def gen1(h):
                    _, R, lo, hi, dr = h.env[nm][2][0]
                    k = sym(self.fresh("i"))
                    h2 = self.add_facts(h, [(k, False), (hi - lo - const(1) - k, False)])
                    if h2 is None:
                        return []
                    x = mknode(R, lo + k if dr == 1 else hi - const(1) - k)
                    return [self.store(h2, s.target, els(k + off, x) if off is not None else x)]
                return drop(self.symloop(st, s, gen1, live), (nm,))
            st = st.set(nm, it).set(ni, const(0))

            def gen(h):
                _, R, lo, hi, dr = h.env[nm][2][0]
                t = h.env[ni]
                h2 = self.add_facts(h, [(hi - lo - const(1) - t, False)])
                if h2 is None:
                    return []
                _, R, lo, hi, dr = h2.env[nm][2][0]
                t = h2.env[ni]
                x = mknode(R, lo + t if dr == 1 else hi - const(1) - t)
                h2 = h2.set(ni, t + const(1))
                return [self.store(h2, s.target, els(t + off, x) if off is not None else x)]

            def done(h):
                _, R, lo, hi, dr = h.env[nm][2][0]
                return self.assume_eq(h, h.env[ni] - (hi - lo))
            r = self.symloop(st, s, gen, live, done, counter=(nm, ni))
            return drop(r, (nm, ni))

        def gen(h):
            return [self.store(h, s.target, TOP)]
        return self.symloop(st, s, gen, live)

    def unroll(self, st, s, vals, off, live):
        out = Flow()
        cur = [st]
        for k, v in enumerate(vals):
            nxt = []
            for x in cur:
                x = self.store(x, s.target, els(off + const(k), v) if off is not None else v)
                r = self.block(x, s.body, live)
                out.ret += r.ret
                out.norm += r.brk
                nxt += r.norm + r.cont
            cur = self.merge(nxt)
        for x in cur:
            if s.orelse:
                out.extend(self.block(x, s.orelse, live))
            else:
                out.norm.append(x)
        return out

    def while_(self, st, s, live):
        def gen(h):
            return [x for x, b in self.cond(h, s.test) if b]

        def done(h):
            return [x for x, b in self.cond(h, s.test) if not b]
        return self.symloop(st, s, gen, live, done)

    def symloop(self, st, s, gen, live, done=None, counter=None):
        self.loops += 1
        self.loopdepth += 1
        try:
            return self.symloop_(st, s, gen, live, done, counter)
        finally:
            self.loopdepth -= 1

    def symloop_(self, st, s, gen, live, done, counter):
        out = Flow()
        heads, order, work = {}, [], []
        lv = set(live.head.get(id(s), ()))

        def canon(x):
            env = {n: v for n, v in x.env.items() if n in lv or n in self.keep or n.startswith("$")}
            keep = {f for f in x.facts if _head_fact(f[0])}
            if self.levels:
                for n, v in env.items():
                    if isinstance(v, Lin) and any(a[0] in ("D", "COST") for a, k in v.t):
                        for lev in self.levels:
                            g = lev - v
                            if (g, True) not in keep and entails(x.facts, g, True):
                                keep.add((g, True))
                            elif (g, False) not in keep and entails(x.facts, g):
                                keep.add((g, False))
            marks = frozenset(m for m in x.marks if not m.startswith("acc:") or m[4:] in lv or m[4:] in self.keep)
            x = State(x.frames[:-1] + [env], x.heap, frozenset(keep), marks)
            return self.canonical(x)

        def find(x):
            k0 = x.key()
            t = None
            n = 0
            while (k0, n) in heads:
                o = heads[(k0, n)]
                t = self.tag(x) if t is None else t
                if o.facts == x.facts or self.tag(o) == t:
                    return (k0, n)
                n += 1
            return (k0, n)

        def add(x, widen=True):
            x = canon(x)
            k = find(x)
            if k not in heads and len(heads) > 8:
                y = self.decouple(x)
                if y is not None:
                    x = canon(y)
                    k = find(x)
            if k in heads:
                o = heads[k]
                f = self.join_facts(o.facts, x.facts)
                if f != o.facts:
                    heads[k] = State(o.frames, o.heap, f, o.marks)
                    if k not in work:
                        work.append(k)
                return
            if widen:
                for k2 in list(order):
                    if k2 in heads:
                        w = self.widen(heads[k2], x, counter, len(heads))
                        if w is not None:
                            w = canon(w)
                            wk = find(w)
                            if wk != k2:
                                del heads[k2]
                                if k2 in work:
                                    work.remove(k2)
                                wk = find(w)
                                if wk in heads:
                                    w = State(w.frames, w.heap, self.join_facts(heads[wk].facts, w.facts), w.marks)
                                    if w.facts == heads[wk].facts:
                                        return
                            elif w.facts == heads[k2].facts:
                                return
                            heads[wk] = w
                            if wk not in order:
                                order.append(wk)
                            if wk not in work:
                                work.append(wk)
                            return
            heads[k] = x
            order.append(k)
            work.append(k)
            if len(heads) > 80:
                raise Undecided("too many loop states")
        x0 = canon(st)
        mk = (id(s), len(self.funcs), self.func.qualname, x0.key(), x0.facts)
        if mk in self.memo:
            src = self.memo[mk]
            out.norm, out.brk, out.cont, out.ret = list(src.norm), list(src.brk), list(src.cont), list(src.ret)
            return out
        add(x0, False)
        results = {}
        hit = self.hooks.get("iter")
        rounds = 0
        while work:
            k = work.pop(0)
            if k not in heads:
                continue
            h = heads[k]
            rounds += 1
            if rounds > 300:
                raise Undecided("loop does not stabilise")
            fl = Flow()
            for x in gen(h):
                if hit:
                    hit(self, x, s)
                fl.extend(self.block(x, s.body, live))
            results[k] = fl
            for x in fl.norm + fl.cont:
                add(x)
        for k, fl in results.items():
            if k in heads:
                out.ret += fl.ret
                if self.hooks.get("loopret"):
                    for rs, rv, rn in fl.ret:
                        self.hooks["loopret"](self, rs, rn)
                out.norm += fl.brk
        for k, h in heads.items():
            ex = [h]
            if done is not None:
                r = done(h)
                ex = r if isinstance(r, list) else [r] if r is not None else []
            for x in ex:
                if s.orelse:
                    out.extend(self.block(x, s.orelse, live))
                else:
                    out.norm.append(x)
        out.norm = self.merge(out.norm, live.out.get(id(s)))
        src = self.memo[mk] = Flow()
        src.norm, src.brk, src.cont, src.ret = list(out.norm), list(out.brk), list(out.cont), list(out.ret)
        return out

    def join_facts(self, f1, f2):
        """facts that hold in both states"""
        if f1 == f2:
            return f1
        out = set(f1 & f2)
        for a, b in ((f1 - f2, f2), (f2 - f1, f1)):
            for l, s in a:
                if any(x[0] == "r" and (x[1] in KEEP_REALS or s and x[1] == "S_EPS") for x, k in l.t) or is_int(l):
                    if entails(b, l, s):
                        out.add((l, s))
        return frozenset(out)

    def decouple(self, st):
        """forget that a recorded position equals a current loop position (used when a loop head has
        many states)"""
        cur, rec = [], []
        for n, v in st.env.items():
            if isinstance(v, Lin) and is_int(v):
                symbols(v, cur)
            else:
                symbols(v, rec)
        shared = [x for x in cur if x in rec and x[0] == "s"]
        if not shared:
            return None
        m = {x: sym(self.fresh("r")) for x in shared}
        env = {n: v if isinstance(v, Lin) and is_int(v) else vsubst(v, m) for n, v in st.env.items()}
        facts = set(st.facts)
        for l, s in st.facts:
            l2 = subst(l, m)
            facts.add((l2, s))
        return State(st.frames[:-1] + [env], st.heap, frozenset(facts), st.marks)

    def canonical(self, st):
        """rename index symbols by first appearance, forget facts about others"""
        order = []
        late = []
        for f in st.frames:
            for n in sorted(f):
                _sym_struct(f[n], order, late)
        live_refs = self.reach(st)
        heap = {k: o for k, o in st.heap.items() if k in live_refs}
        for k in sorted(heap):
            for a in sorted(heap[k]):
                _sym_struct(heap[k][a], order, late)
        for v in late:
            symbols(v, order)
        keep = set(order)
        st = State(st.frames, heap, self.project(st.facts, keep), st.marks)
        m = {}
        n = 0
        tmp = {}
        for x in order:
            if x[0] == "s":
                n += 1
                m[x] = ("s", "k%d" % n)
        m = {a: b for a, b in m.items() if a != b}
        if not m:
            return st
        one = {a: (atom(("s", "%s'" % b[1])) if a[0] == "s" else ("x", "%s'" % b[1])) for a, b in m.items()}
        two = {(b[0], "%s'" % b[1]): (atom(b) if b[0] == "s" else b) for a, b in m.items()}
        return st.subst(one).subst(two)

    def reach(self, st):
        seen, work = set(), []

        def go(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "ref":
                    if v[1] not in seen:
                        seen.add(v[1])
                        work.append(v[1])
                else:
                    for x in v:
                        go(x)
        for f in st.frames:
            for v in f.values():
                go(v)
        while work:
            o = st.heap.get(work.pop(), {})
            for v in o.values():
                go(v)
        return seen

    def project(self, facts, keep):
        """eliminate index symbols that no value mentions any more"""
        fs = set(facts)
        dead = set()
        for l, s in fs:
            for x in symbols(l):
                if x not in keep:
                    dead.add(x)
        out = {f for f in fs if not (set(symbols(f[0])) & dead)}
        # combine bounds lo<=x, x<=hi of a dead symbol x that occurs as a plain term
        for x in dead:
            if x[0] != "s":
                continue
            lows, ups = [], []
            for l, s in fs:
                if set(symbols(l)) & dead == {x}:
                    k = dict(l.t).get(x)
                    if k == 1:
                        lows.append((l, s))
                    elif k == -1:
                        ups.append((l, s))
            for a, sa in lows:
                for b, sb in ups:
                    c = a + b
                    if not (set(symbols(c)) & dead) and c.t:
                        out.add((c, sa or sb))
        return frozenset(out)

    def widen(self, old, new, counter=None, nheads=99):
        """generalise two loop-head states that differ only in numbers or growing lists; None if they
        differ in shape (kept apart as separate states)"""
        if old.marks != new.marks or len(old.frames) != len(new.frames) or old.frames[:-1] != new.frames[:-1]:
            return None
        if set(old.env) != set(new.env):
            return None
        if old.heap != new.heap:
            return None
        diff = [n for n in old.env if old.env[n] != new.env[n]]
        num, lst = [], []
        for n in diff:
            a, b = old.env[n], new.env[n]
            if isinstance(a, Lin) and isinstance(b, Lin):
                num.append(n)
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "seq" and a[1] == b[1] and \
                    any(i[0] == "seg" for i in a[2] + b[2]):
                lst.append(n)
            else:
                return None
        if not diff:
            return None
        if not lst and nheads < 12 and not (counter and counter[1] in num) and \
                any(not (old.env[n] - new.env[n]).is_const() for n in num if is_int(old.env[n]) and is_int(new.env[n])):
            return None
        env = dict(old.env)
        facts = set(old.facts & new.facts)
        eqs, leneqs = [], []
        solved = set()
        # lists
        for n in lst:
            a, b = old.env[n], new.env[n]
            closed = all(self.is_closed(s, v) for s, v in ((old, a), (new, b)))
            base = "%s'" % n
            R = base
            if not CLOSED.get(R, closed) == closed:
                R = base + "o"
            CLOSED[R] = closed
            env[n] = whole(R)
            ca, cb, wa, wb = content(a), content(b), pathcost(a), pathcost(b)
            na, nb = length(a), length(b)
            for v in num:
                x, y = old.env[v], new.env[v]
                if v.startswith("$") or is_int(x) and is_int(y):
                    continue
                if wa is not None and wb is not None and x - wa == y - wb and not has_list(x - wa, R):
                    env[v] = pathcost(whole(R)) + (x - wa)
                    solved.add(v)
                elif ca is not None and cb is not None and x - ca == y - cb and not has_list(x - ca, R):
                    env[v] = content(whole(R)) + (x - ca)
                    solved.add(v)
            if counter and counter[1] in num:
                ia, ib = old.env[counter[1]], new.env[counter[1]]
                da, db = na - ia, nb - ib
                if has_list(da, R):
                    for f, s in old.facts:
                        c = dict(f.t).get(("N", R))
                        if c and abs(c) == 1 and (-f, s) in old.facts and not s:
                            d2 = da - f * c
                            if not has_list(d2, R):
                                da = d2
                                break
                if not has_list(da, R) and self.eq_ent(old.facts, na - ia, da) and self.eq_ent(new.facts, nb - ib, da):
                    leneqs.append((R, da))
            if counter and counter[1] in num and ca is not None and cb is not None:
                _, U, lo, hi, dr = old.env[counter[0]][2][0]

                def pref(t):
                    return (PD(U, lo + t - const(1)) - PD(U, lo - const(1))) if dr == 1 else (PD(U, hi - const(1)) - PD(U, hi - const(1) - t))
                ia, ib = old.env[counter[1]], new.env[counter[1]]
                ra, rb = ca - pref(ia), cb - pref(ib)
                ra2 = self.reduce_eq(old.facts, ra)
                rb2 = self.reduce_eq(new.facts, rb)
                for cand in {ra, ra2}:
                    if has_list(cand, R):
                        continue
                    if (cand == ra or self.eq_ent(old.facts, ra, cand)) and (cand == rb or self.eq_ent(new.facts, rb, cand)):
                        eqs.append((R, pref, cand))
                        break
            for s in (old, new):
                pass
            lo2 = const(2) if closed else const(0)
            # lists only grow?
            d = nb - na
            if entails(new.facts, d):
                facts.add((atom(("N", R)) - na, False)) if not has_list(na, R) else None
        for n in num:
            if n in solved:
                continue
            a, b = old.env[n], new.env[n]
            if is_int(a) and is_int(b):
                k = sym(self.fresh("w"))
                env[n] = k
                if entails(new.facts, b - a):
                    if not any(x[0] == "s" for x, c in a.t) or True:
                        facts.add((k - a, False))
                        if a.t and entails(old.facts, a) and entails(new.facts, b):
                            facts.add((k, False))
                if entails(new.facts, a - b):
                    facts.add((a - k, False))
                if counter and n == counter[1]:
                    _, U, lo, hi, dr = old.env[counter[0]][2][0]
                    if entails(new.facts, hi - lo - b):
                        facts.add((hi - lo - k, False))
                    facts.add((k, False))
            else:
                env[n] = atom(("r", "w:%s" % n))
        # facts about a generalised index that hold on both sides
        ints = [n for n in num if n not in lst and is_int(old.env[n]) and is_int(new.env[n]) and len(env[n].t) == 1]
        for me, ot in ((old, new), (new, old)):
            m = {}
            for n in ints:
                v = me.env[n]
                ss = [a for a, k in v.t if a[0] == "s"]
                if len(v.t) == 1 and v.t[0][1] == 1 and ss:
                    m[ss[0]] = env[n] - const(v.c)
            back = {env[n].t[0][0]: ot.env[n] for n in ints}
            for f, strict in me.facts:
                if len(facts) > 60:
                    break
                g = subst(f, m)
                if g == f or (g, strict) in facts or not is_int(g) or entails(facts, g, strict):
                    continue
                h = subst(g, back)
                if entails(ot.facts, h, strict):
                    facts.add((g, strict))
        # limits kept by running totals
        for n in num:
            for lim in (atom(("r", "L")) + atom(("r", "S_EPS")), atom(("r", "C")) + atom(("r", "C_EPS")), atom(("r", "L")), atom(("r", "C"))):
                a, b = old.env[n], new.env[n]
                if not is_int(a) and entails(old.facts, lim - a) and entails(new.facts, lim - b):
                    facts.add((lim - env[n], False))
        for R, d in leneqs:
            l = atom(("N", R)) - env[counter[1]] - d
            facts.add((l, False))
            facts.add((-l, False))
        for R, pref, cand in eqs:
            k = env[counter[1]]
            l = content(whole(R)) - pref(k) - cand
            facts.add((l, False))
            facts.add((-l, False))
        return State(old.frames[:-1] + [env], old.heap, frozenset(facts), old.marks)

    def eq_ent(self, facts, a, b):
        return entails(facts, a - b) and entails(facts, b - a)

    def reduce_eq(self, facts, l):
        """rewrite l with an equality fact about a list's demand atom"""
        fs = set(facts)
        for f, s in fs:
            if s or (-f, False) not in fs:
                continue
            for a, k in f.t:
                if a[0] == "DEM" and abs(k) == 1 and dict(l.t).get(a):
                    c = dict(l.t)[a]
                    return l - f * (c * k)
        return l

    def is_closed(self, st, v):
        if not v[2]:
            return False
        f, l = v[2][0], v[2][-1]
        a = ends(f)[0] if f[0] == "el" or entails(st.facts, f[3] - f[2] - const(1)) else None
        b = ends(l)[1] if l[0] == "el" or entails(st.facts, l[3] - l[2] - const(1)) else None
        return a == ("depot",) and b == ("depot",)


def _sym_struct(v, order, late):
    """symbols of positions first (in structural order), those of cost forms later"""
    if isinstance(v, Lin):
        if is_int(v):
            symbols(v, order)
        else:
            late.append(v)
    elif isinstance(v, tuple):
        if len(v) == 2 and v[0] in ("s", "x") and isinstance(v[1], str):
            if v not in order:
                order.append(v)
        else:
            for y in v:
                _sym_struct(y, order, late)


KEEP_REALS = ("B", "C", "L")


def _head_fact(l):
    """facts worth keeping at a loop head: positions, and costs related to a limit or level"""
    for a, k in l.t:
        if a[0] in ("DEM", "PD", "dem"):
            return True
    for a, k in l.t:
        if a[0] not in ("s", "N"):
            return any(b[0] == "r" and (b[1] in KEEP_REALS or b[1].startswith("w:")) for b, k2 in l.t)
    return True


def has_list(l, R):
    def go(x):
        if isinstance(x, Lin):
            return any(go(a) for a, k in x.t)
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        return x == R
    return go(l)


def drop(fl, names):
    def cl(s):
        if any(n in s.env for n in names):
            return State(s.frames[:-1] + [{k: v for k, v in s.env.items() if k not in names}], s.heap, s.facts, s.marks)
        return s
    fl.norm = [cl(s) for s in fl.norm]
    fl.brk = [cl(s) for s in fl.brk]
    fl.cont = [cl(s) for s in fl.cont]
    return fl


def _as_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def lift(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return ("const", v)
    if isinstance(v, int):
        return const(v)
    if isinstance(v, float):
        from fractions import Fraction
        return const(Fraction(v))
    if isinstance(v, (tuple, list)):
        return ("seq", "tuple" if isinstance(v, tuple) else "list", tuple(("el", lift(x)) for x in v))
    return TOP
