"""Path exploration of 'keep the best alternative' loops.

Every function is explored over its control flow graph with symbolic terms for
its variables.  At a loop head all variables assigned in the loop become head
symbols; costs and vehicle counts that are compared take every weak order of
small values (comparison code cannot distinguish more), so each path carries a
complete case: which of the kept and the candidate solutions is better, and
whether the kept record was replaced."""
import ast
from .cfg import CFG, liveness
from .core import Func, is_debug_test, own_walk

INF = float("inf")
NONE, TRUE, FALSE = ("c", None), ("c", True), ("c", False)
DOM = (0, 1, 2)
WORST = ("c", 98)


import operator
CMPF = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
        ast.Eq: operator.eq, ast.NotEq: operator.ne}
CMP = tuple(CMPF)
UNK = object()


def constval(t):
    if t[0] == "c":
        return t[1]
    if t[0] == "t":
        v = tuple(constval(x) for x in t[1])
        return UNK if UNK in v else v
    return UNK


class TooBig(Exception):
    pass


class St:
    __slots__ = ("env", "vals", "bools", "cands", "base", "flags")

    def __init__(self, env=None, vals=None, bools=None, cands=frozenset(), base=None, flags=frozenset()):
        self.env, self.vals, self.bools = env or {}, vals or {}, bools or {}
        self.cands, self.base, self.flags = cands, base, flags

    def copy(self):
        return St(dict(self.env), dict(self.vals), dict(self.bools), self.cands, self.base, self.flags)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.vals.items()), frozenset(self.bools.items()),
                self.cands, self.base, self.flags)


def is_const(t):
    return t[0] == "c"


def better(old, new, mk):
    """Is item new=(f,K) strictly better than old=(f,K) (None: absent)?"""
    if new is None:
        return False
    if old is None:
        return True
    if mk:
        return new[1] < old[1] or (new[1] == old[1] and new[0] < old[0])
    return new[0] < old[0]


def droots(t):
    """direct origin of a term through projections and lengths"""
    while t[0] in ("proj", "len", "attr"):
        t = t[1]
    if t[0] == "h":
        return ("h", t[1])
    return t


def closure(t, out=None, depth=0):
    out = set() if out is None else out
    if not isinstance(t, tuple) or not t or depth > 12:
        return out
    if t[0] in ("call", "h"):
        out.add((t[0], t[1]))
        if t[0] == "call":
            for x in t[3]:
                if isinstance(x, frozenset):
                    out |= {("call", y) for y in x}
            return out
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    closure(y, out, depth + 1)
            else:
                closure(x, out, depth + 1)
    return out


class Explorer:
    def __init__(self, repo, f, group=None, keep=(), limit=400000):
        """group: (solution, cost, count[, companion...]) variable names"""
        self.repo, self.f, self.group, self.keep = repo, f, group, set(keep)
        self.limit = limit
        self.cfg = CFG(f, repo, inline=self._inline, debug_off=True, max_depth=2)
        self.live_in = self._live()
        self.params = set(f.params)
        self.heads = [n for n in self.cfg.nodes if n.kind in ("iter", "loop")]
        self.body = {h.id: self._loop_body(h) for h in self.heads}
        self.assigned = {h.id: self._assigned(h) for h in self.heads}
        self.relevant, self.mknames = self._relevant()
        self.cmp_f, self.cmp_k = {}, {}      # head var -> count
        self.mk_terms = []
        self.cand_pairs = set()
        self.arrivals = []                   # (node, kind, state)
        self.exits = {}                      # (head id, src node id) -> set of outcome
        self.dsrc = {}
        self.events = []
        self.sites = set()
        self.gheads = {h.id for h in self.heads if group and any(
            g is not None and g.split("[")[0] in self.assigned[h.id] for g in group[:3])}
        self.argnames = {}                   # (node id) -> [((f, K) names of kept), ((f, K) of candidate)]

    # -- helpers ----------------------------------------------------------
    UTIL = ("objf", "is_better_sol", "without_empty_routes", "sol2routes", "routes2sol", "totald",
            "normalize_solution")

    def _inline(self, t, call, depth):
        if t.name in self.UTIL or t.cls is not None:
            return False
        n = 0
        for x in own_walk(t.node):
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.Yield, ast.Global, ast.Nonlocal)) and x is not t.node:
                return False
            if isinstance(x, ast.stmt):
                n += 1
        if n > 16:
            return False
        names = {x.func.id for x in own_walk(t.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
        attrs = {x.func.attr for x in own_walk(t.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        return bool(names & {"is_better_sol", "objf"} or "count" in attrs) or any(
            isinstance(x, ast.Compare) for x in own_walk(t.node)) and not names

    def _live(self):
        try:
            L = liveness(self.cfg)
        except Exception:
            return None
        return L[0] if isinstance(L, tuple) else L

    def _loop_body(self, h):
        a, b = h.info
        return {n.id for n in self.cfg.nodes if a <= n.id < b}

    def _assigned(self, h):
        out = set()
        ids = self.body[h.id] | {h.id}
        for n in self.cfg.nodes:
            if n.id not in ids:
                continue
            a = n.ast
            if n.kind in ("iter",):
                tg = [a.target]
            elif n.kind == "handler":
                if a.name:
                    out.add(a.name)
                continue
            elif n.kind == "stmt" and isinstance(a, ast.Assign):
                tg = a.targets
            elif n.kind == "stmt" and isinstance(a, (ast.AugAssign, ast.AnnAssign)):
                tg = [a.target]
            elif n.kind == "stmt" and isinstance(a, (ast.FunctionDef,)):
                out.add(a.name)
                continue
            else:
                # in-place growth of a list
                if n.kind == "stmt" and isinstance(a, ast.Expr) and isinstance(a.value, ast.Call) and \
                        isinstance(a.value.func, ast.Attribute) and isinstance(a.value.func.value, ast.Name) and \
                        a.value.func.attr in ("append", "extend", "insert", "pop", "remove", "update", "add", "clear"):
                    out.add(a.value.func.value.id)
                continue
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
                    elif isinstance(x, ast.Subscript):
                        b = x.value
                        while isinstance(b, (ast.Subscript, ast.Attribute)):
                            b = b.value
                        if isinstance(b, ast.Name):
                            out.add(b.id)
        return out

    def _relevant(self):
        """variables whose values the question depends on, and plain flags"""
        rel, mk = set(self.group or ()), set()
        rel = {g.split("[")[0] for g in rel if g} | self.keep
        assigns, consts, conds = [], {}, set()
        for n in self.cfg.nodes:
            a = n.ast
            if a is None:
                continue
            exprs = []
            if n.kind in ("cond", "ret") or (n.kind == "stmt" and not isinstance(a, (ast.FunctionDef, ast.ClassDef))):
                exprs = [a]
            for e in exprs:
                for x in ast.walk(e):
                    if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)):
                        nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr
                        if nm == "is_better_sol":
                            for y in ast.walk(x):
                                if isinstance(y, ast.Name):
                                    rel.add(y.id)
                            if x.args and isinstance(x.args[-1], ast.Name):
                                mk.add(x.args[-1].id)
                        elif nm == "objf" or (nm == "count" and n.kind == "stmt"):
                            for y in ast.walk(x):
                                if isinstance(y, ast.Name):
                                    rel.add(y.id)
            if n.kind == "cond":
                conds |= {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
            if n.kind == "ret" and a.value is not None or (n.kind == "stmt" and isinstance(a, ast.Raise)):
                rel |= {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
            if n.kind == "stmt" and isinstance(a, ast.Assign):
                for t in a.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            assigns.append((x.id, a.value, t))
                    if isinstance(t, ast.Name):
                        consts.setdefault(t.id, []).append(isinstance(a.value, ast.Constant) and
                                                           (a.value.value is None or isinstance(a.value.value, bool)))
            elif n.kind == "stmt" and isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name):
                assigns.append((a.target.id, a.value, a.target))
                consts.setdefault(a.target.id, []).append(False)
            elif n.kind == "iter":
                for x in ast.walk(a.target):
                    if isinstance(x, ast.Name):
                        assigns.append((x.id, a.iter, a.target))
                        consts.setdefault(x.id, []).append(False)
        flags = set()
        quant = {v for v, e, t in assigns if any(isinstance(y, ast.Call) and isinstance(y.func, (ast.Name, ast.Attribute)) and (
            (y.func.id if isinstance(y.func, ast.Name) else y.func.attr) in ("objf", "count")) for y in ast.walk(e))}
        ch = True
        while ch:
            ch = False
            for v, e, t in assigns:
                if v in rel:
                    for x in self._carriers(e):
                        if x not in rel:
                            rel.add(x)
                            ch = True
        ch = True
        while ch:                      # flags that hold the outcome of a comparison
            ch = False
            for v, e, t in assigns:
                if v not in rel and isinstance(t, ast.Name):
                    if isinstance(e, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call, ast.Name, ast.IfExp)) and any(
                            (isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "is_better_sol") or
                            (isinstance(y, ast.Name) and y.id in flags) for y in ast.walk(e)):
                        rel.add(v)
                        flags.add(v)
                        ch = True
                    elif isinstance(e, (ast.Compare, ast.BoolOp)) and any(
                            isinstance(y, ast.Name) and y.id in quant for y in ast.walk(e)):
                        rel.add(v)
                        flags.add(v)
                        ch = True
        core = rel
        rel = set(rel) | {v for v, c in consts.items() if c and all(c) and v in conds}
        self.core = core
        self.flagvars = flags | {v for v, c in consts.items() if c and all(c)}
        return rel, mk

    def _carriers(self, e):
        """names whose value an expression passes on (not mere call arguments)"""
        out, st = set(), [e]
        while st:
            x = st.pop()
            if isinstance(x, ast.Name):
                out.add(x.id)
            elif isinstance(x, ast.Call):
                nm = x.func.id if isinstance(x.func, ast.Name) else getattr(x.func, "attr", "")
                if nm in self.UTIL or nm in ("count", "len", "list", "tuple", "bool", "copy"):
                    st.extend(x.args)
                    if isinstance(x.func, ast.Attribute):
                        st.append(x.func.value)
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.Lambda)):
                pass
            else:
                st.extend(ast.iter_child_nodes(x))
        return out

    def util(self, call):
        t = self.repo.callee(self.cur, call)
        if isinstance(t, Func) and t.name in self.UTIL:
            return t.name
        if isinstance(call.func, ast.Name) and call.func.id in self.UTIL and t is None:
            return call.func.id
        return None

    # -- expression evaluation (forking) ----------------------------------
    def ev(self, e, st):
        if isinstance(e, ast.Constant):
            return [(("c", e.value), st)]
        if isinstance(e, ast.Name):
            return [(st.env.get(e.id, ("p", e.id)), st)]
        if isinstance(e, ast.Tuple):
            return [(("t",) + (tuple(ts),), s) for ts, s in self.evs(e.elts, st)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(FALSE if b else TRUE, s) for b, s in self.truth(e.operand, st)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return [(("c", -t[1]) if t[0] == "c" and isinstance(t[1], (int, float)) else ("neg", t), s)
                    for t, s in self.ev(e.operand, st)]
        if isinstance(e, ast.IfExp):
            out = []
            for b, s in self.truth(e.test, st):
                out += self.ev(e.body if b else e.orelse, s)
            return out
        if isinstance(e, ast.BoolOp) and not self.boolish(e):
            acc = [(None, True, st)]
            for i, v in enumerate(e.values):
                nxt = []
                for t, go, s in acc:
                    if not go:
                        nxt.append((t, go, s))
                        continue
                    for t2, s2 in self.ev(v, s):
                        if i == len(e.values) - 1:
                            nxt.append((t2, False, s2))
                        else:
                            for b, s3 in self.boolean(t2, s2):
                                nxt.append((t2, b == isinstance(e.op, ast.And), s3))
                acc = nxt
            return [(t, s) for t, _, s in acc]
        if isinstance(e, (ast.BoolOp, ast.Compare)):
            if not self.mentions_q(e, st):
                return [(("x", ast.unparse(e)[:60], self.pos(e)), st)]
            return [(TRUE if b else FALSE, s) for b, s in self.truth(e, st)]
        if isinstance(e, ast.Subscript):
            out = []
            for t, s in self.ev(e.value, st):
                i = e.slice
                if isinstance(i, ast.Constant) and isinstance(i.value, int):
                    if t[0] == "t" and -len(t[1]) <= i.value < len(t[1]):
                        out.append((t[1][i.value], s))
                    else:
                        out.append((("proj", t, i.value), s))
                else:
                    out.append((("proj", t, ast.unparse(i)), s))
            return out
        if isinstance(e, ast.Attribute):
            return [(("attr", t, e.attr), s) for t, s in self.ev(e.value, st)]
        if isinstance(e, ast.BinOp):
            out = []
            for (a, b), s in self.evs([e.left, e.right], st):
                if isinstance(e.op, ast.Sub) and a[0] == "cnt" and b == ("c", 1):
                    out.append((("K", a[1]), s))
                else:
                    out.append((("bin", type(e.op).__name__, a, b), s))
            return out
        if isinstance(e, ast.Call):
            return self.ev_call(e, st)
        return [(("x", type(e).__name__, self.pos(e)), st)]

    def boolish(self, e):
        """does the operation yield a truth value rather than one of its operands?"""
        if isinstance(e, ast.BoolOp):
            return all(self.boolish(v) for v in e.values)
        if isinstance(e, (ast.Compare,)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)):
            return True
        if isinstance(e, ast.Call):
            return self.util(e) == "is_better_sol"
        if isinstance(e, ast.Constant):
            return isinstance(e.value, bool)
        return isinstance(e, ast.Name) and e.id in self.flagvars

    def pos(self, e):
        return (self.node.id, getattr(e, "lineno", 0), getattr(e, "col_offset", 0))

    def evs(self, es, st):
        acc = [((), st)]
        for e in es:
            acc = [(ts + (t,), s2) for ts, s in acc for t, s2 in self.ev(e, s)]
        return acc

    def mentions_q(self, e, st):
        """does the expression decide something the exploration tracks?"""
        for x in ast.walk(e):
            if isinstance(x, ast.Call) and self.util(x) == "is_better_sol":
                return True
            if isinstance(x, ast.Name):
                t = st.env.get(x.id)
                if t is not None and t[0] in ("F", "K", "c", "h"):
                    return True
        return False

    def ev_call(self, e, st):
        u = self.util(e)
        if u == "is_better_sol":
            return [(TRUE if b else FALSE, s) for b, s in self.is_better(e, st)]
        if isinstance(e.func, ast.Name) and e.func.id == "float" and len(e.args) == 1 and \
                isinstance(e.args[0], ast.Constant) and str(e.args[0].value).lower() in ("inf", "infinity"):
            return [(("c", INF), st)]
        if isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return [(TRUE if b else FALSE, s) for b, s in self.truth(e.args[0], st)]
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        out = []
        recv = e.func.value if isinstance(e.func, ast.Attribute) else None
        for ts, s in self.evs(([recv] if recv is not None else []) + args, st):
            if u == "objf" and len(ts) >= 2:
                t = ("F", ts[0], ts[1])
                if any(self.node.id in self.body[g] for g in self.gheads):
                    self.dsrc.setdefault(ast.unparse(args[1]), set()).add(ts[1])
            elif recv is not None and e.func.attr == "count" and len(ts) == 2 and ts[1] == ("c", 0):
                t = ("cnt", ts[0])
            elif isinstance(e.func, ast.Name) and e.func.id == "len" and len(ts) == 1:
                t = ("K", ts[0][3][0]) if ts[0][0] == "call" and ts[0][2] == "sol2routes" and ts[0][3] else ("len", ts[0])
            else:
                nm = u or (e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", "?"))
                t = ("call", self.pos(e), nm, tuple(ts[:1]) if nm == "sol2routes" else
                     (frozenset(c[1] for x in ts for c in closure(x)),))
            out.append((t, s))
        return out

    def depth(self, t):
        if not isinstance(t, tuple):
            return 0
        return 1 + max([self.depth(x) for x in t if isinstance(x, tuple)] or [0])

    # -- values of quantities ----------------------------------------------
    def value(self, t, st, none=False):
        """[(value, state)] of a cost or vehicle count term."""
        if t[0] == "c":
            return [(t[1], st)]
        if t in st.vals:
            return [(st.vals[t], st)]
        out = []
        dom = DOM + ((None,) if none and t[0] == "proj" else ())
        for v in dom:
            s = st.copy()
            s.vals[t] = v
            out.append((v, s))
        return out

    @staticmethod
    def current(st):
        out = set(st.base or ())
        for t in st.env.values():
            out.add(t)
            if t[0] == "t":
                out.update(t[1])
        return out

    def boolean(self, t, st):
        if t[0] == "c":
            return [(bool(t[1]), st)]
        if t in st.bools:
            return [(st.bools[t], st)]
        if t[0] == "t":
            return [(len(t[1]) > 0, st)]
        if not ((t[0] == "p" and t[1] in self.mknames) or t[0] == "some" or t in self.current(st)):
            return [(True, st), (False, st)]
        out = []
        for v in (True, False):
            s = st.copy()
            s.bools[t] = v
            out.append((v, s))
        return out

    def quantity(self, t, st):
        return t[0] in ("F", "K") or t in st.vals or (t[0] == "c" and t[1] is not None and
                                                      not isinstance(t[1], (bool, str)))

    def note(self, a, b, st, kind):
        for x, y in ((a, b), (b, a)):
            if x[0] in ("F", "K"):
                d = self.cmp_f if x[0] == "F" else self.cmp_k
                if y[0] == "h":
                    d[y[2]] = d.get(y[2], 0) + 1

    def truth(self, e, st):
        """[(bool, state)]"""
        if isinstance(e, ast.BoolOp):
            acc = [(isinstance(e.op, ast.And), st)]
            for v in e.values:
                nxt = []
                for b, s in acc:
                    if b != isinstance(e.op, ast.And):
                        nxt.append((b, s))
                    else:
                        nxt += self.truth(v, s)
                acc = nxt
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.truth(e.operand, st)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            out = []
            for (a, b), s in self.evs([e.left, e.comparators[0]], st):
                if isinstance(op, (ast.Is, ast.IsNot)) or (isinstance(op, (ast.Eq, ast.NotEq)) and NONE in (a, b)):
                    neg = isinstance(op, (ast.IsNot, ast.NotEq))
                    if NONE in (a, b):
                        t = b if a == NONE else a
                        if t[0] == "c":
                            out.append(((t[1] is None) != neg, s))
                        elif t in s.vals:
                            out.append(((s.vals[t] is None) != neg, s))
                        elif t[0] in ("h", "F", "K", "t", "cnt"):
                            out.append((neg, s))
                        else:
                            out += [((not v) != neg, s2) for v, s2 in self.boolean(("some", t), s)]
                        continue
                    out += [(True, s), (False, s)]
                    continue
                q = isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) and \
                    (a[0] in ("F", "K") or b[0] in ("F", "K") or (a in s.vals and b in s.vals)) and \
                    all(x[0] in ("F", "K", "h", "proj", "len", "call") or (x[0] == "c" and isinstance(x[1], (int, float))
                        and (x[1] == INF)) for x in (a, b))
                if q:
                    self.sites.add(self.node_site(e))
                    self.note(a, b, s, None)
                    for x in (a, b):
                        if x[0] in ("F", "K"):
                            s = s.copy()
                            s.cands = s.cands | {(("F", x[1]), ("K", x[1]))} if False else s.cands
                    for va, s1 in self.value(a, s):
                        for vb, s2 in self.value(b, s1):
                            if va is None or vb is None:
                                r = isinstance(op, ast.NotEq)
                            else:
                                r = {ast.Lt: va < vb, ast.LtE: va <= vb, ast.Gt: va > vb, ast.GtE: va >= vb,
                                     ast.Eq: va == vb, ast.NotEq: va != vb}[type(op)]
                            s3 = s2
                            c = self.pair_of(a, b, s2)
                            if c is not None and c not in s2.cands:
                                s3 = s2.copy()
                                s3.cands = s2.cands | {c}
                            out.append((r, s3))
                    continue
                ca, cb = constval(a), constval(b)
                if ca is not UNK and cb is not UNK and isinstance(op, CMP):
                    try:
                        out.append((CMPF[type(op)](ca, cb), s))
                    except TypeError:
                        pass           # this comparison raises
                    continue
                t = ("cmp", type(op).__name__, a, b)
                if all(x[0] in ("p", "c") for x in (a, b)):
                    out += self.boolean(t, s)
                else:
                    out += [(True, s), (False, s)]
            return out
        if isinstance(e, ast.Call) and self.util(e) == "is_better_sol":
            return self.is_better(e, st)
        if isinstance(e, (ast.Name, ast.Constant, ast.IfExp, ast.Attribute)) or \
                (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool"):
            out = []
            for t, s in self.ev(e, st):
                if t[0] in ("x",):
                    out += [(True, s), (False, s)]
                else:
                    out += self.boolean(t, s)
            return out
        out = []
        for t, s in self.ev(e, st):
            if t[0] == "c":
                out.append((bool(t[1]), s))
            else:
                out += [(True, s), (False, s)]
        return out

    def node_site(self, e):
        return getattr(e, "lineno", 0)

    def pair_of(self, a, b, s):
        """(f, K) terms of the candidate whose quantity is compared."""
        for x in (a, b):
            if x[0] == "F":
                return (x, ("K", x[1]))
            if x[0] == "K":
                for t in list(s.vals) + list(s.env.values()):
                    if t[0] == "F" and t[1] == x[1]:
                        return (t, x)
        return None

    def is_better(self, e, st):
        from .core import bind_args
        t = self.repo.callee(self.cur, e)
        args = None
        if isinstance(t, Func):
            m, ok = bind_args(t, e)
            if ok and all(p in m for p in t.params):
                args = [m[p] for p in t.params]
        if args is None:
            args = list(e.args) + [k.value for k in e.keywords]
        if len(args) != 5:
            return [(True, st), (False, st)]
        self.sites.add(self.node_site(e))
        nm = [a.id if isinstance(a, ast.Name) else None for a in args]
        nm = [x if x is None or x in self.f.params or not x.count("$") else None for x in nm]
        self.argnames.setdefault(self.node.id, set()).add(((nm[0], nm[1]), (nm[2], nm[3])))
        out = []
        for (bf, bK, sf, sK, mk), s in self.evs(args, st):
            self.mk_terms.append((mk, ast.unparse(args[4])))
            if bf[0] == "h":
                self.cmp_f[bf[2]] = self.cmp_f.get(bf[2], 0) + 1
            if bK[0] == "h":
                self.cmp_k[bK[2]] = self.cmp_k.get(bK[2], 0) + 1
            pairs = [(sf, sK)]
            if bf[0] not in ("h", "c") or bK[0] not in ("h", "c"):
                pairs.append((bf, bK))
            s = s.copy()
            s.cands = s.cands | {p for p in pairs if not (p[0][0] == "c" and p[1][0] == "c")}
            self.cand_pairs |= s.cands
            for m, s1 in self.boolean(mk, s):
                for vsf, s2 in self.value(sf, s1, True):
                    if vsf is None or sK == NONE:
                        out.append((False, s2))
                        continue
                    for vbf, s3 in self.value(bf, s2, True):
                        if vbf is None or bK == NONE:
                            out.append((True, s3))
                        elif not m:
                            out.append((vsf < vbf, s3))
                        else:
                            for vbK, s4 in self.value(bK, s3):
                                for vsK, s5 in self.value(sK, s4):
                                    out.append((better((vbf, vbK), (vsf, vsK), True), s5))
        return out

    # -- statements ----------------------------------------------------------
    def store(self, tgt, t, s):
        if isinstance(tgt, ast.Name):
            s.env[tgt.id] = t
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            for i, x in enumerate(tgt.elts):
                if isinstance(x, ast.Starred):
                    self.store(x.value, ("x", "star", self.pos(x)), s)
                elif t[0] == "t" and len(t[1]) == len(tgt.elts):
                    self.store(x, t[1][i], s)
                else:
                    self.store(x, ("proj", t, i), s)
        elif isinstance(tgt, ast.Subscript):
            b = tgt.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in s.env:
                s.env[b.id] = ("upd", self.pos(tgt))

    MUT = ("append", "extend", "insert", "pop", "remove", "update", "add", "clear", "sort", "reverse")

    def step(self, n, st):
        """[(succ, label, state)]"""
        self.node = n
        self.cur = n.func or self.f
        a = n.ast
        raises = [(s, l) for s, l in n.succ if l == "exc"]
        norm = [(s, l) for s, l in n.succ if l != "exc"]
        out = []
        if n.kind == "cond":
            for b, s in self.truth(a, st):
                for m, l in norm:
                    if l is b:
                        out.append((m, l, s))
            if raises and self.can_raise(a):
                out += [(m, l, st) for m, l in raises]
            return out
        if n.kind == "iter":
            s = st.copy()
            self.store(a.target, ("item", n.id), s)
            # a loop over components of one tuple
            for m, l in norm:
                out.append((m, l, s if l is True else st))
            return out
        if n.kind == "handler":
            s = st.copy()
            if a.name:
                s.env[a.name] = ("exc", n.id)
            s.flags = s.flags | {"exc"}
            return [(m, l, s) for m, l in n.succ]
        if n.kind == "dispatch":
            return [(m, l, st) for m, l in n.succ]
        if n.kind == "stmt":
            if isinstance(a, ast.Assign):
                for t, s in self.ev(a.value, st):
                    s = s.copy()
                    for tg in a.targets:
                        self.store(tg, t, s)
                    out += [(m, l, s) for m, l in norm]
            elif isinstance(a, ast.AugAssign):
                if isinstance(a.target, ast.Name):
                    for t, s in self.ev(a.value, st):
                        s = s.copy()
                        old = s.env.get(a.target.id, ("p", a.target.id))
                        s.env[a.target.id] = ("bin", type(a.op).__name__, old, t) if self.depth(old) < 6 else ("deep", n.id)
                        out += [(m, l, s) for m, l in norm]
                else:
                    out += [(m, l, st) for m, l in norm]
            elif isinstance(a, ast.AnnAssign) and a.value is not None:
                for t, s in self.ev(a.value, st):
                    s = s.copy()
                    self.store(a.target, t, s)
                    out += [(m, l, s) for m, l in norm]
            elif isinstance(a, ast.Expr) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute) \
                    and isinstance(a.value.func.value, ast.Name) and a.value.func.attr in self.MUT \
                    and a.value.func.value.id in st.env:
                s = st.copy()
                s.env[a.value.func.value.id] = ("upd", n.id)
                out += [(m, l, s) for m, l in norm]
            elif isinstance(a, ast.Raise):
                out += [(m, l, st) for m, l in raises]
                return out
            elif isinstance(a, (ast.Delete,)):
                out += [(m, l, st) for m, l in norm]
            else:
                out += [(m, l, st) for m, l in norm]
            if raises and self.can_raise(a):
                out += [(m, l, st) for m, l in raises]
            return out
        out = [(m, l, st) for m, l in norm]
        if raises and a is not None and not isinstance(a, (ast.For, ast.While)) and self.can_raise(a):
            out += [(m, l, st) for m, l in raises]
        return out

    QUIET = {"len", "min", "max", "sum", "abs", "list", "set", "tuple", "range", "int", "float", "str", "zip", "type",
             "isinstance", "enumerate", "log", "print", "sorted", "iter", "next", "round", "ValueError", "KeyboardInterrupt"}

    def can_raise(self, a):
        """interrupts are modelled where foreign or searching code runs"""
        for x in ast.walk(a):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Name):
                    if x.func.id in self.QUIET or self.util(x):
                        continue
                    return True
                if isinstance(x.func, ast.Attribute) and x.func.attr in self.MUT + ("count", "index", "format", "copy"):
                    continue
                return True
        return False

    # -- exploration ----------------------------------------------------------
    def run(self, env=None):
        start = St(dict(env or {}))
        work = [(self.cfg.entry, start, None)]
        seen = {}
        steps = 0
        force = {g.split("[")[0] for g in (self.group or ()) if g} | self.keep
        if self.group:
            force |= self.mknames
        while work:
            n, st, src = work.pop()
            steps += 1
            if steps > self.limit:
                raise TooBig(self.f.where)
            if n.kind in ("iter", "loop"):
                back = src is not None and src.id in self.body[n.id]
                self.arrivals.append((n, "back" if back else "enter", st))
                st = self.at_head(n, st)
            if self.live_in is not None:
                live = self.live_in.get(n.id) if isinstance(self.live_in, dict) else self.live_in[n.id]
                if live is not None:
                    st = st.copy()
                    st.env = {k: v for k, v in st.env.items() if (k in live and k in self.relevant) or k in force
                              or k.startswith("$")}
                    if st.bools:
                        cur = self.current(st)
                        st.bools = {t: b for t, b in st.bools.items() if t[0] == "p" or t in cur or
                                    (t[0] == "some" and t[1] in cur)}
            if not st.cands and not self.group:
                pass
            # forget values that nothing refers to any more
            k = st.key()
            ss = seen.setdefault(n.id, set())
            if k in ss:
                continue
            ss.add(k)
            if n.kind in ("exit", "raise"):
                continue
            if n.kind == "ret" or (n.kind == "stmt" and isinstance(n.ast, ast.Raise)):
                self.node = n
                self.cur = n.func or self.f
                self.arrivals.append((n, "ret" if n.kind == "ret" else "raise", st))
            for m, l, s in self.step(n, st):
                for h in self.heads:
                    if (n.id in self.body[h.id]) and m.id not in self.body[h.id] and m is not h:
                        self.exits.setdefault((h.id, n.id), []).append((l, s))
                work.append((m, s, n))
        self.steps = steps
        return self

    def at_head(self, h, st):
        s = st.copy()
        s.vals, s.cands = {}, frozenset()
        s.bools = {t: b for t, b in s.bools.items() if t[0] == "p" or (t[0] == "cmp" and all(x[0] in ("p", "c") for x in t[2:]))}
        if self.group and self.group[2] and "[" not in self.group[2]:
            S, F, K = (self.get(s, g) for g in self.group[:3])
            if S == NONE and F is not None and is_const(F) and K is not None and K[0] == "len":
                s.env[self.group[2]] = WORST      # number of nodes: no solution has more routes
        for v in self.assigned[h.id]:
            t = s.env.get(v)
            if t is None:
                continue
            if t == WORST or t[0] == "c" and (t[1] is None or isinstance(t[1], bool) or t[1] == INF):
                continue
            if t[0] == "t":
                s.env[v] = ("t", tuple(x if x[0] == "c" and (x[1] is None or isinstance(x[1], bool) or x[1] == INF)
                                       else ("h", h.id, "%s[%d]" % (v, i)) for i, x in enumerate(t[1])))
            else:
                s.env[v] = ("h", h.id, v)
        s.bools = {t: b for t, b in s.bools.items()}
        keep = s.flags & {"in"}
        if self.group:
            s.base = tuple(self.get(s, g) for g in self.group)
            if h.id in self.gheads:
                keep = frozenset({"in"})
        s.flags = keep
        return s

    @staticmethod
    def get(st, g):
        if g is None:
            return None
        if "[" in g:
            v, i = g[:-1].split("[")
            t = st.env.get(v)
            if t is None:
                return None
            return t[1][int(i)] if t[0] == "t" and int(i) < len(t[1]) else ("proj", t, int(i))
        return st.env.get(g)


def consistent(S, f, K, others=()):
    """True/False/None(unknown): do cost f and count K belong to solution S?"""
    if S is None or f is None:
        return None
    if S == NONE:
        return is_const(f)
    if is_const(f):
        return False
    if f[0] == "F":
        if f[1] != S:
            return False
    elif droots(f) != droots(S):
        if f in others:
            return False
        if not (closure(f) & closure(S)):
            return False
        return None
    if K is None:
        return None
    if K[0] == "K":
        return K[1] == S
    if is_const(K):
        return False
    if droots(K) == droots(S):
        return True
    if K in others:
        return False
    if closure(K) & closure(S):
        return None
    return False
