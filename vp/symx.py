"""Path-sensitive symbolic exploration of one function (helpers inlined) over its control flow graph.

Values are terms: linear forms over atoms for numbers, uninterpreted terms otherwise; attribute and element stores go to a small
symbolic heap.  A loop head forgets what the loop assigns, so one explored iteration stands for any; a path that comes back to
the head ends there.  What happened on a path (stores, takes from pools, calls...) is kept in a log, handed to the client in the
segments that belong to one iteration (or to the whole function)."""
import ast
from .core import Func, ClassInfo, is_debug_test, own_walk
from .cfg import CFG, liveness


class TooBig(Exception):
    pass


# ---- linear forms: ("lin", const, ((atom, coef), ...)) --------------------------
def L(v):
    if v[0] == "lin":
        return v
    if v[0] == "c" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
        return ("lin", v[1], ())
    return ("lin", 0, ((v, 1),))


def simp(v):
    if v[0] == "lin":
        if not v[2]:
            return ("c", v[1])
        if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            return v[2][0][0]
    return v


def add(a, b, k=1):
    a, b = L(a), L(b)
    d = dict(a[2])
    for t, c in b[2]:
        d[t] = d.get(t, 0) + k * c
    return simp(("lin", a[1] + k * b[1], tuple(sorted(((t, c) for t, c in d.items() if c), key=repr))))


def mul(a, c):
    a = L(a)
    return simp(("lin", a[1] * c, tuple((t, x * c) for t, x in a[2] if x * c)))


def terms(v):
    return dict(L(v)[2])


def const(v):
    v = L(v)
    return v[1]


def atoms_in(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v not in out:
            out.add(v)
            for x in v:
                atoms_in(x, out)
    return out


LISTY = ("list", "cat", "slice", "rev")


class State:
    __slots__ = ("env", "heap", "facts", "log", "marks", "within")

    def __init__(self, env=None, heap=None, facts=None, log=(), marks=(), within=()):
        self.env, self.heap, self.facts = env or {}, heap or {}, facts or {}
        self.log, self.marks, self.within = log, marks, within

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.log, self.marks, self.within)

    def key(self, live):
        return (tuple(sorted(((k, v) for k, v in self.env.items() if k in live), key=lambda x: x[0])),
                frozenset(self.heap.items()), frozenset(self.facts.items()), self.log, self.marks, frozenset(self.within))


class Explorer:
    """client: object with optional hooks
         event(kind, data, node, state)   called for every logged event
         segment(events, state, how, node)   the events of one iteration / of the function
    """
    max_states = 60000
    follow_exc = False                      # take the way into the handlers of a try statement, too

    def __init__(self, repo, f, given=(), absent=(), inline=None, roles=None, log_kinds=("take", "release", "store", "grow", "call"),
                 interesting_calls=(), keep=None, remember=False):
        self.repo, self.f = repo, f
        self.given, self.absent = set(given), set(absent)
        self.roles = roles or {}
        self.fresh = 0
        self.remember = remember            # keep the outcome of every test
        self.keep = keep                    # predicate on store events
        self.interesting = interesting_calls
        self.kinds = log_kinds
        self.cfg = CFG(f, repo, inline=inline or self.default_inline, debug_off=True, max_depth=2)
        self.live = liveness(self.cfg)
        self.every = {}                     # ... and apart by what was known in the end
        self.segments = {}                  # (how, node id, events, within) -> node
        self.seen_events = []
        self.states = 0
        self._loopinfo = {}
        self._multi = self._repeated_tests()

    def default_inline(self, t, call, depth):
        return t.module is self.f.module and t.cls is None and sum(1 for x in ast.walk(t.node) if isinstance(x, ast.stmt)) <= 40

    # -- helpers --------------------------------------------------------------
    def _repeated_tests(self):
        cnt = {}
        for n in self.cfg.nodes:
            if n.kind == "cond":
                for x in ast.walk(n.ast):
                    if isinstance(x, ast.Name):
                        cnt.setdefault(x.id.split("$")[0], set()).add(n.id)
        return {k for k, v in cnt.items() if len(v) > 1}

    def new(self, hint):
        self.fresh += 1
        return ("new", hint, self.fresh)

    def site(self, e, hint):
        """a fresh value named after its place: the same place gives the same name (one per iteration)"""
        return ("at", hint, getattr(e, "lineno", 0), getattr(e, "col_offset", 0))

    def role(self, name):
        return self.roles.get(name, name)

    def init_state(self):
        env = {}
        a = self.f.node.args
        for p in self.f.params + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else []):
            env[p] = ("p", self.role(p))
        p = self.f.parent
        while isinstance(p, Func):                  # closures
            for q in p.params:
                env.setdefault(q, ("p", self.role(q)))
            p = p.parent
        return State(env)

    # -- evaluation -----------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return m(e, st)
        return self.site(e, type(e).__name__)

    def ev_Constant(self, e, st):
        return ("c", e.value)

    def ev_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        r = self.repo.resolve_expr(self.f, e)
        if isinstance(r, tuple) and r[0] == "const":
            if r[2] in ("CAPACITY_EPSILON", "COST_EPSILON"):
                return ("eps", r[2][:3])
            return ("cfg", r[2])
        return ("g", e.id)

    def ev_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.load(("attr", b, e.attr), st)

    def load(self, loc, st):
        if loc in st.heap:
            return st.heap[loc]
        if loc[0] == "attr" and loc[1][0] == "obj":
            for k, v in loc[1][3]:
                if k == loc[2]:
                    return v
        return loc

    def ev_Subscript(self, e, st):
        b = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower else ("c", None)
            hi = self.ev(e.slice.upper, st) if e.slice.upper else ("c", None)
            stp = self.ev(e.slice.step, st) if e.slice.step else ("c", None)
            return ("slice", b, lo, hi, stp)
        i = self.ev(e.slice, st)
        return self.index(b, i, st)

    def index(self, b, i, st):
        if b == ("p", "D"):
            if i[0] == "t" and len(i[1]) == 2 and all(x[0] not in LISTY for x in i[1]):
                return dist(*i[1])
            return ("row", i) if i[0] not in LISTY and i[0] != "t" else ("sub", b, i)
        if b[0] == "row":
            return dist(b[1], i) if i[0] not in LISTY else ("sub", b, i)
        if b == ("p", "d"):
            return ("c", 0) if i == ("c", 0) else ("dem", i)
        if b[0] == "list" and ("sub", b, i) in st.heap:
            return st.heap[("sub", b, i)]
        if b[0] in ("t", "list") and i[0] == "c" and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
            return b[1][i[1]]
        if b[0] == "obj" and i[0] == "c" and isinstance(i[1], int) and i[1] < len(b[3]):
            return self.load(("attr", b, b[3][i[1]][0]), st)
        if b[0] == "cat" and i[0] == "c":
            if b[1][0] == "list" and 0 <= i[1] < len(b[1][1]):
                return b[1][1][i[1]]
            if b[2][0] == "list" and -len(b[2][1]) <= i[1] < 0:
                return b[2][1][i[1]]
        return self.load(("sub", b, i), st)

    def ev_Tuple(self, e, st):
        return ("t", tuple(self.ev(x, st) for x in e.elts))

    def ev_List(self, e, st):
        return ("list", tuple(self.ev(x, st) for x in e.elts))

    def ev_Set(self, e, st):
        return ("set", tuple(self.ev(x, st) for x in e.elts))

    def ev_Dict(self, e, st):
        v = self.site(e, "Dict")
        if all(isinstance(k, ast.Constant) for k in e.keys):
            v = ("dict",) + v[2:]
            for k, x in zip(e.keys, e.values):
                st.heap[("sub", v, ("c", k.value))] = self.ev(x, st)
        return v

    def ev_Starred(self, e, st):
        return ("star", self.ev(e.value, st))

    def ev_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            return mul(v, -1)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not) and v[0] == "c":
            return ("c", not v[1])
        return ("not", v)

    def ev_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        if isinstance(e.op, (ast.Add, ast.Sub)):
            if any(x[0] in LISTY or x[0] == "coll" and x[1] in ("list", "tuple", "sorted", "range") for x in (a, b)):
                return ("cat", a, b) if isinstance(e.op, ast.Add) else ("op", "-", a, b)
            if any(x[0] == "c" and not isinstance(x[1], (int, float)) for x in (a, b)):
                return ("op", "+", a, b)
            return add(a, b, 1 if isinstance(e.op, ast.Add) else -1)
        if isinstance(e.op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x[0] == "c" and isinstance(x[1], (int, float)) and y[0] not in LISTY:
                    return mul(y, x[1])
            if a[0] == "list" or b[0] == "list":
                return ("rep", a, b, self.site(e, "")[2:])
        if isinstance(e.op, ast.Div) and b[0] == "c" and isinstance(b[1], (int, float)) and b[1]:
            return mul(a, 1.0 / b[1])
        return ("op", type(e.op).__name__, a, b)

    def ev_IfExp(self, e, st):
        rs = self.truth(e.test, st)
        if len({o for o, _ in rs}) == 1:
            return self.ev(e.body if rs[0][0] else e.orelse, st)
        a, b = self.ev(e.body, st), self.ev(e.orelse, st)
        return a if a == b else ("if", ast.unparse(e.test), a, b)

    def ev_Compare(self, e, st):
        rs = self.truth(e, st)
        if len(rs) == 1:
            return ("c", rs[0][0])
        return ("cmp", tuple(type(o).__name__ for o in e.ops), self.ev(e.left, st), tuple(self.ev(c, st) for c in e.comparators))

    def ev_BoolOp(self, e, st):
        rs = self.truth(e, st)
        if len({o for o, _ in rs}) == 1:
            return ("c", rs[0][0]) if all(isinstance(v, (ast.Compare, ast.UnaryOp)) for v in e.values) else ("boolop", tuple(self.ev(v, st) for v in e.values))
        return ("boolop", tuple(self.ev(v, st) for v in e.values))

    def ev_Lambda(self, e, st):
        return ("lambda", e.lineno, e.col_offset)

    def ev_GeneratorExp(self, e, st):
        free = sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name) and n.id in st.env})
        bound = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        return ("comp", ast.unparse(e), tuple((v, st.env[v]) for v in free if v not in bound), self.site(e, "")[2:])
    ev_ListComp = ev_SetComp = ev_DictComp = ev_GeneratorExp

    def ev_JoinedStr(self, e, st):
        return ("c", "")

    def fname(self, e):
        return e.func.id if isinstance(e.func, ast.Name) else (e.func.attr if isinstance(e.func, ast.Attribute) else "")

    def ev_Call(self, e, st):
        nm = self.fname(e)
        args = tuple(self.ev(a, st) for a in e.args)
        kw = tuple(sorted(((k.arg or "**", self.ev(k.value, st)) for k in e.keywords), key=lambda x: x[0]))
        if isinstance(e.func, ast.Name):
            if nm in ("float", "abs") and len(args) == 1:
                return args[0] if nm == "float" else ("call", "abs", args)
            if nm == "int" and len(args) == 1:
                return args[0]
            if nm == "bool" and len(args) == 1 and args[0][0] == "c":
                return ("c", bool(args[0][1]))
            if nm in ("list", "tuple", "sorted", "reversed", "set", "frozenset", "OrderedSet", "deque", "dllist", "dict",
                      "defaultdict", "Counter", "OrderedDict"):
                if nm in ("list", "tuple") and args and args[0][0] in LISTY + ("t",):
                    return ("list", args[0][1]) if args[0][0] == "t" else args[0]
                return ("coll", nm, args, self.site(e, "")[2:])
            cls = self.klass(e)
            if cls:
                nm2, fields = cls
                vals = []
                for i, fld in enumerate(fields):
                    if i < len(args):
                        vals.append((fld, args[i]))
                    else:
                        d = dict(kw).get(fld)
                        vals.append((fld, d if d is not None else ("default", fld)))
                return ("obj", nm2, self.site(e, "")[2:], tuple(vals))
            t = self.repo.callee(self.f, e)
            if isinstance(t, Func) or e.func.id in st.env:
                fv = st.env.get(e.func.id, ("g", nm))
                return ("call", fv if e.func.id in st.env else ("g", nm), args + kw)
            return ("call", ("g", nm), args + kw)
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value, st)
            if nm in ("copy",) and not args:
                return b
            if nm in ("tolist", "astype"):
                return b
            if nm in ("_replace",) and b[0] == "obj":
                return ("obj", b[1], b[2], tuple((k, dict(kw).get(k, v)) for k, v in b[3]))
            if nm in ("pop", "popleft", "popitem"):
                return self.site(e, nm)
            if nm in ("peekleft", "peekright", "next"):
                return self.site(e, nm)
            return ("mcall", b, nm, args + kw)
        return self.site(e, "call")

    def klass(self, e):
        """(name, field names) of a record built by the call"""
        r = self.repo.resolve_expr(self.f, e.func)
        if isinstance(r, ClassInfo):
            init = next((x for x in r.node.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
            if init is not None:
                return r.node.name, [a.arg for a in init.args.args[1:]]
            return r.node.name, []
        if isinstance(r, tuple) and r[0] in ("const", "var"):
            v = r[3] if len(r) > 3 else None
        if isinstance(e.func, ast.Name):
            for n in self.f.module.tree.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.func.id and \
                        isinstance(n.value, ast.Call) and self.fname(n.value) == "namedtuple" and len(n.value.args) == 2:
                    a = n.value.args[1]
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        return e.func.id, a.value.replace(",", " ").split()
                    if isinstance(a, (ast.List, ast.Tuple)):
                        return e.func.id, [x.value for x in a.elts if isinstance(x, ast.Constant)]
        return None

    # -- conditions: [(outcome, state)] ----------------------------------------
    def truth(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not o, s) for o, s in self.truth(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out, cur = [], [st]
            for v in e.values:
                nxt = []
                for s in cur:
                    for o, s2 in self.truth(v, s):
                        (out if o is stop else nxt).append((stop, s2) if o is stop else s2)
                cur = nxt
            return out + [(not stop, s) for s in cur]
        if isinstance(e, ast.IfExp):
            out = []
            for o, s in self.truth(e.test, st):
                out += self.truth(e.body if o else e.orelse, s)
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.truth(e.args[0], st)
        if isinstance(e, ast.NamedExpr):
            s2 = st.copy()
            s2.env[e.target.id] = self.ev(e.value, st)
            return self.truth(e.target, s2)
        if isinstance(e, ast.Compare):
            if len(e.ops) > 1:
                parts, left = [], e.left
                for op, c in zip(e.ops, e.comparators):
                    parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[c]), e))
                    left = c
                return self.truth(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), st)
            return self.compare(e, e.ops[0], self.ev(e.left, st), self.ev(e.comparators[0], st), st)
        v = self.ev(e, st)
        return self.truth_of(v, e, st)

    def members(self, e, b):
        """a module's constant list of plain values, spelled out"""
        if b[0] == "cfg" and isinstance(e, ast.Compare):
            r = self.repo.resolve_expr(self.f, e.comparators[0])
            x = r[1].assigns[r[2]] if isinstance(r, tuple) and r[0] == "const" else ()
            x = x[0] if len(x) == 1 else None
            if isinstance(x, (ast.List, ast.Tuple, ast.Set)) and x.elts and all(isinstance(y, ast.Constant) for y in x.elts):
                return ("list", tuple(("c", y.value) for y in x.elts))
        return b

    def truth_of(self, v, e, st):
        if v[0] == "c":
            return [(bool(v[1]), st)]
        if v[0] == "p" and v[1] in self.given:
            return [(True, st)]
        if v[0] == "p" and v[1] in self.absent:
            return [(False, st)]
        if v[0] in ("obj", "lambda"):
            return [(True, st)]
        if v[0] == "lin":                       # the excess over a limit that is known to be exceeded is not zero
            for k, X, E, eps in st.within:
                if k == "beyond" and not any(c > 0 for _, c in eps) and v == add(E, ("p", X), -1):
                    return [(True, st)]
        if v[0] in ("list", "t", "set"):
            return [(len(v[1]) > 0, st)]
        if v[0] == "not":
            return [(not o, s) for o, s in self.truth_of(v[1], e, st)]
        if v[0] == "cmp" and len(v[3]) == 1:
            op = getattr(ast, v[1][0])()
            return self.compare(e, op, v[2], v[3][0], st)
        if v[0] == "new" or v[0] == "at" or not self.tracked(e):
            k = ("truth", v)
            if k in st.facts:
                return [(st.facts[k], st)]
            if not self.tracked(e):
                return [(True, st), (False, st)]
        return self.fork(("truth", v), st)

    def tracked(self, e):
        """is the outcome of the test worth remembering (is it tested again)?"""
        if self.remember:
            return True
        names = {x.id.split("$")[0] for x in ast.walk(e) if isinstance(x, ast.Name)}
        return bool(names & self._multi) or any("$" in x.id for x in ast.walk(e) if isinstance(x, ast.Name))

    def fork(self, key, st, flip=False):
        if key in st.facts:
            return [(st.facts[key] != flip, st)]
        out = []
        for o in (True, False):
            s = st.copy()
            s.facts[key] = o
            out.append((o != flip, s))
        return out

    def compare(self, e, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            for x, y in ((a, b), (b, a)):
                if y == ("c", None):
                    if x[0] == "c":
                        return [((x[1] is None) != neg, st)]
                    if x[0] == "p" and x[1] in self.given:
                        return [(neg, st)]
                    if x[0] == "p" and x[1] in self.absent:
                        return [(not neg, st)]
                    if x[0] in ("obj", "lin", "t", "coll") + LISTY:
                        return [(neg, st)]
            if a == b:
                return [(not neg, st)]
            if a[0] == b[0] == "c":
                return [((a[1] == b[1]) != neg, st)]
            key = ("eq",) + tuple(sorted((a, b), key=repr))
            if key not in st.facts:
                for x, y in ((a, b), (b, a)):
                    if y[0] == "c" and y[1] is not None and any(
                            o and k[0] == "eq" and x in k[1:] and any(z[0] == "c" and z != y for z in k[1:]) for k, o in st.facts.items()):
                        return [(neg, st)]                  # it equals another constant
            if not self.tracked(e) and key not in st.facts:
                return [(True, st), (False, st)]
            return self.fork(key, st, neg)
        if isinstance(op, (ast.In, ast.NotIn)):
            b = self.members(e, b)
            if b[0] in ("list", "t", "set") and b[1] and all(x[0] == "c" for x in b[1]):
                out, cur = [], [st]
                for x in b[1]:
                    nxt = []
                    for s in cur:
                        for o, s2 in self.compare(e, ast.Eq(), a, x, s):
                            if o:
                                out.append((isinstance(op, ast.In), s2))
                            else:
                                nxt.append(s2)
                    cur = nxt
                return out + [(isinstance(op, ast.NotIn), s) for s in cur]
            return self.fork(("in", a, b), st, isinstance(op, ast.NotIn))
        # order: F > 0
        lt = isinstance(op, (ast.Lt, ast.LtE))
        strict = isinstance(op, (ast.Gt, ast.Lt))
        if a[0] in LISTY or b[0] in LISTY or a[0] in ("t",) or b[0] in ("t",):
            return self.fork(("cmp", type(op).__name__, a, b), st)
        F = add(b, a, -1) if lt else add(a, b, -1)
        flip = False
        if not strict:
            F, flip = mul(F, -1), True       # F >= 0  <=>  not (-F > 0)
        tm = terms(F)
        if not tm:
            return [((const(F) > 0) != flip, st)]
        lims = [t for t in tm if t[0] == "p" and t[1] in ("C", "L") and abs(tm[t]) == 1]
        out = []
        if len(lims) == 1 and lims[0][1] in self.given:
            X = lims[0]
            for o in (True, False):
                s = st.copy()
                k = tm[X]
                # F > 0 is o
                E = mul(add(F, X, -k), -k)      # k=-1: E - X (+eps) > 0 ; k=+1: X - E > 0
                eps = {t: c for t, c in terms(E).items() if t[0] == "eps"}
                for t, c in eps.items():
                    E = add(E, t, -c)
                exceeded = o if k == -1 else not o
                fact = ("within" if not exceeded else "beyond", X[1], E, tuple(sorted(eps.items())))
                key = ("lim", X[1], E, tuple(sorted(eps.items())))
                if key in st.facts and st.facts[key] != exceeded:
                    continue
                s.facts[key] = exceeded
                if fact not in s.within:
                    s.within = s.within + (fact,)
                self.event("limit", (X[1], E, tuple(sorted(eps.items())), exceeded), e, s)
                out.append((o != flip, s))
            return out
        key = ("gt", F)
        nkey = ("gt", mul(F, -1))
        if st.facts.get(nkey) is True:
            return [(flip, st)]
        if not self.tracked(e) and key not in st.facts:
            return [(True, st), (False, st)]
        return self.fork(key, st, flip)

    # -- statements -----------------------------------------------------------
    def event(self, kind, data, node, st):
        pass

    def log(self, st, kind, data, node):
        if kind in self.kinds:
            st.log = st.log + ((kind, data, getattr(node, "lineno", 0)),)

    def assign(self, t, v, st, node, aug=None):
        if isinstance(t, ast.Name):
            old = st.env.get(t.id)
            st.env[t.id] = v
            self.stored(("var", t.id.split("$")[0]), old, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.site(x, "rest"), st, node)
                    continue
                if v[0] == "p" and isinstance(x, ast.Name) and x.id in ("D", "d", "C", "L"):
                    self.assign(x, ("p", x.id), st, node)          # problem data handed over in a bundle
                    continue
                self.assign(x, self.item(v, i, len(t.elts), st), st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            loc = ("attr", b, t.attr)
            old = self.load(loc, st)
            st.heap[loc] = v
            self.stored(loc, old, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                self.log(st, "grow", ("slice", b, v), node)
                return
            i = self.ev(t.slice, st)
            loc = ("sub", b, i)
            old = self.load(loc, st)
            st.heap[loc] = v
            self.stored(loc, old, v, st, node)

    def item(self, v, i, n, st):
        if v[0] in ("t", "list") and len(v[1]) == n:
            return v[1][i]
        if v[0] == "obj":
            return self.load(("attr", v, v[3][i][0]), st) if i < len(v[3]) else ("item", v, i)
        return ("item", v, i)

    def stored(self, loc, old, v, st, node):
        if loc[0] == "sub" and v[0] == "c" and isinstance(v[1], bool):
            self.log(st, "take" if v[1] else "release", ("flag", loc[1], loc[2]), node)
            return
        if self.keep is None or self.keep(loc, v):
            self.log(st, "store", (loc, old, v), node)

    def effect_call(self, c, st, node):
        """method calls and calls for their effect"""
        if isinstance(c.func, ast.Attribute):
            m = c.func.attr
            b = self.ev(c.func.value, st)
            args = tuple(self.ev(a, st) for a in c.args)
            if m in ("remove", "discard") and len(args) == 1:
                self.forget(b, st)
                self.log(st, "take", ("pool", b, args[0]), node)
            elif m in ("append", "appendleft", "add", "insert", "extend", "extendleft", "appendright"):
                self.forget(b, st)
                self.log(st, "grow", (m, b, args), node)
            elif m in ("pop", "popleft", "clear", "difference_update", "update", "reverse", "sort"):
                self.forget(b, st)
                self.log(st, "grow", (m, b, args), node)
        nm = self.fname(c)
        if nm in self.interesting:
            self.log(st, "call", (nm, tuple(self.ev(a, st) for a in c.args)), node)

    def forget(self, b, st):
        for k in [k for k in st.facts if k[0] in ("in", "truth", "len") and b in k]:
            del st.facts[k]

    def calls_in_order(self, a):
        out = []

        def go(x):
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.FunctionDef, ast.ClassDef)):
                return
            for c in ast.iter_child_nodes(x):
                go(c)
            if isinstance(x, ast.Call):
                out.append(x)
        go(a)
        return out

    def stmt(self, n, st):
        """list of states after the node"""
        a = n.ast
        if isinstance(a, ast.Assign):
            return self.do_assign(a, st)
        if isinstance(a, ast.AnnAssign) and a.value is not None:
            s = st.copy()
            self.effects(a.value, s, a)
            self.assign(a.target, self.ev(a.value, s), s, a)
            return [s]
        if isinstance(a, ast.AugAssign):
            s = st.copy()
            self.effects(a.value, s, a)
            if isinstance(a.op, (ast.Add, ast.Sub)) and isinstance(a.target, (ast.Name, ast.Attribute, ast.Subscript)):
                x = ast.copy_location(ast.BinOp(left=a.target, op=a.op, right=a.value), a)
                v = self.ev(x, s)
                self.log(s, "grow", ("+=", self.ev(a.target, s), (self.ev(a.value, s),)), a)
            else:
                v = ("op", type(a.op).__name__, self.ev(a.target, s), self.ev(a.value, s))
                if isinstance(a.op, (ast.BitOr, ast.BitAnd)) and isinstance(a.target, ast.Name):
                    e = ast.copy_location(ast.BoolOp(op=ast.Or() if isinstance(a.op, ast.BitOr) else ast.And(), values=[
                        ast.copy_location(ast.Name(id=a.target.id, ctx=ast.Load()), a), a.value]), a)
                    out = []
                    for o, s2 in self.truth(e, s):
                        s2 = s2.copy()
                        self.assign(a.target, ("c", o), s2, a)
                        out.append(s2)
                    return out
            self.assign(a.target, v, s, a)
            return [s]
        if isinstance(a, ast.Delete):
            s = st.copy()
            for t in a.targets:
                if isinstance(t, ast.Subscript):
                    b = self.ev(t.value, s)
                    self.forget(b, s)
                    self.log(s, "grow", ("del", b, () if isinstance(t.slice, ast.Slice) else (self.ev(t.slice, s),)), a)
            return [s]
        if isinstance(a, ast.Expr):
            s = st.copy()
            self.effects(a.value, s, a)
            return [s]
        if isinstance(a, ast.FunctionDef):
            s = st.copy()
            s.env[a.name] = ("lambda", a.lineno, a.col_offset)
            return [s]
        return [st]

    def effects(self, e, st, node):
        for c in self.calls_in_order(e):
            self.effect_call(c, st, node)

    def boolish(self, e):
        return isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) or \
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1

    def split(self, e, st):
        """[(value, state)]: forks where a boolean or conditional expression is stored"""
        if isinstance(e, ast.IfExp):
            out = []
            for o, s in self.truth(e.test, st):
                out += self.split(e.body if o else e.orelse, s)
            return out
        if self.boolish(e) and not (isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and not all(self.boolish(v) for v in e.values)):
            was, self.remember = self.remember, True
            try:
                return [(("c", o), s) for o, s in self.truth(e, st)]
            finally:
                self.remember = was
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("min", "max") and len(e.args) == 2 and \
                not e.keywords and not any(isinstance(x, ast.Starred) for x in e.args):
            a, b = self.ev(e.args[0], st), self.ev(e.args[1], st)
            was, self.remember = self.remember, True
            try:
                rs = self.compare(e, ast.Gt(), a, b, st)
            finally:
                self.remember = was
            return [(b if o == (e.func.id == "min") else a, s) for o, s in rs]
        if isinstance(e, ast.Tuple):
            outs = [((), st)]
            for x in e.elts:
                outs = [(vs + (v,), s2) for vs, s in outs for v, s2 in self.split(x, s)]
            return [(("t", vs), s) for vs, s in outs]
        return [(self.ev(e, st), st)]

    def do_assign(self, a, st):
        out = []
        for v, s in self.split(a.value, st):
            s = s.copy()
            self.effects(a.value, s, a)
            for t in a.targets:
                self.assign(t, v, s, a)
            out.append(s)
        return out

    # -- loops ------------------------------------------------------------------
    def loop_names(self, h):
        if h.id in self._loopinfo:
            return self._loopinfo[h.id]
        lo, hi = h.info
        names, attrs, subs = set(), set(), set()
        ns = [n for n in self.cfg.nodes if lo <= n.id < hi] + [h]
        for n in ns:
            a = n.ast
            if a is None:
                continue
            roots = [a]
            if n.kind == "iter" or n.kind == "iterinit":
                roots = [a.target] if n.kind == "iter" else []
                for r in roots:
                    for x in ast.walk(r):
                        if isinstance(x, ast.Name):
                            names.add(x.id)
                continue
            if n.kind in ("loop", "dispatch", "handler"):
                continue
            for x in ast.walk(a):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    attrs.add(x.attr)
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                    subs.add(1)
            if isinstance(a, ast.AugAssign):
                t = a.target
                if isinstance(t, ast.Name):
                    names.add(t.id)
        self._loopinfo[h.id] = (names, attrs, subs)
        return self._loopinfo[h.id]

    def havoc(self, h, st):
        names, attrs, subs = self.loop_names(h)
        s = st.copy()
        for v in names:
            if v in s.env and v.startswith("$ret"):
                del s.env[v]
                continue
            s.env[v] = ("h", v.split("$")[0], h.id)
        for k in list(s.heap):
            if k[0] == "attr" and k[2] in attrs or k[0] == "sub" and subs:
                del s.heap[k]
        for k in list(s.facts):
            if k[0] == "in" and k[2][0] in ("g", "cfg") and not any(isinstance(x, tuple) and x and (x[0] == "at" or x[0] in ("h", "it") and x[2] == h.id)
                                                           for x in atoms_in(k[1])):
                continue                                    # membership in a module's constant
            if k[0] in ("in", "truth") or any(isinstance(x, tuple) and x and x[0] == "h" and x[2] == h.id for x in atoms_in(k)) \
                    or any(isinstance(x, tuple) and x and x[0] == "at" for x in atoms_in(k)):
                del s.facts[k]
        s.within = tuple(w for w in s.within if not any(isinstance(x, tuple) and x and (x[0] == "h" and x[2] == h.id or x[0] == "at")
                                                        for x in atoms_in(w)))
        return s

    # -- exploration --------------------------------------------------------------
    def segment(self, events, st, how, node):
        key = (how, getattr(node, "id", None), events, frozenset(st.within))
        if key not in self.segments:
            self.segments[key] = (st, node)
        self.every.setdefault((key, frozenset(st.facts.items())), (key, st, node))

    def run(self, st=None):
        st = st or self.init_state()
        seen = set()
        stack = [(self.cfg.entry, st, None)]
        while stack:
            n, st, frm = stack.pop()
            if n.kind in ("iter", "loop"):
                inner = [m for m in st.marks if m[0] == n.id]
                if inner:                                  # came back: the iteration ends
                    mark = inner[-1][1]
                    self.segment(st.log[mark:], st, "iteration", n)
                    continue
                if "loop" in self.kinds and n.kind == "iter":
                    st = st.copy()
                    self.log(st, "loop", (n.id, self.ev(n.ast.iter, st)), n.ast)
                st = self.havoc(n, st)
            # leaving loops: drop the marks of loops the node is not in
            if st.marks:
                keep = tuple(m for m in st.marks if m[0] == n.id or self.inside(n, m))
                if keep != st.marks:
                    st = st.copy()
                    st.marks = keep
            k = (n.id, st.key(self.live[n.id]))
            if k in seen:
                continue
            seen.add(k)
            self.states += 1
            if self.states > self.max_states:
                raise TooBig("%s: more than %d states" % (self.f.where, self.max_states))
            if n.kind == "exit":
                self.segment(st.log, st, "end", n)
                continue
            if n.kind == "raise":
                self.segment(st.log, st, "raise", n)
                continue
            if n.kind == "cond":
                s0 = st.copy()
                self.effects(n.ast, s0, n.ast)
                for o, s in self.truth(n.ast, s0):
                    for m, lab in n.succ:
                        if lab is o:
                            stack.append((m, s, n))
                continue
            if n.kind == "iter":
                for m, lab in n.succ:
                    if lab is True:
                        s = st.copy()
                        s.marks = s.marks + ((n.id, len(s.log), n.info),)
                        it = self.ev(n.ast.iter, s)
                        for s2 in self.bind_loop(n.ast.target, n.ast.iter, it, s, n):
                            stack.append((m, s2, n))
                    elif lab is False:
                        stack.append((m, st, n))
                continue
            if n.kind == "loop":
                for m, lab in n.succ:
                    if lab != "exc":
                        s = st.copy()
                        s.marks = s.marks + ((n.id, len(s.log), n.info),)
                        stack.append((m, s, n))
                continue
            if n.kind == "iterinit":
                s = st.copy()
                self.effects(n.ast.iter, s, n.ast)
                outs = [s]
            elif n.kind == "ret":
                s = st.copy()
                if n.ast.value is not None:
                    self.effects(n.ast.value, s, n.ast)
                    outs = []
                    for v, s2 in self.split(n.ast.value, s):
                        s2 = s2.copy()
                        s2.env["$return"] = v
                        s2.log = s2.log + (("return", v, n.ast.lineno),)
                        outs.append(s2)
                else:
                    s.log = s.log + (("return", ("c", None), n.ast.lineno),)
                    outs = [s]
            elif n.kind == "stmt":
                outs = self.stmt(n, st)
            else:
                outs = [st]
            raising = isinstance(n.ast, ast.Raise)
            if self.follow_exc and not raising:
                for m, lab in n.succ:
                    if lab == "exc" and m.kind == "dispatch":
                        for m2, _ in m.succ:
                            if m2.kind == "handler":
                                stack.append((m2, st, n))
            for s in outs:
                for m, lab in n.succ:
                    if lab == "exc" and not raising:
                        continue
                    if raising and m.kind == "dispatch":
                        # a local handler for an explicit raise
                        for m2, _ in m.succ:
                            stack.append((m2, s, n))
                        continue
                    stack.append((m, s, n))
        return self.segments

    def inside(self, n, mark):
        lo, hi = mark[2]
        return lo <= n.id < hi

    def bind_loop(self, target, iter_e, it, st, n):
        item = ("it", it, n.id)
        if isinstance(iter_e, ast.Call) and isinstance(iter_e.func, ast.Name) and iter_e.func.id in ("enumerate", "zip") and \
                isinstance(target, (ast.Tuple, ast.List)) and iter_e.args:
            srcs = iter_e.args if iter_e.func.id == "zip" else [None, iter_e.args[0]]
            if len(srcs) == len(target.elts):
                for t, s in zip(target.elts, srcs):
                    v = ("ix", n.id) if s is None else ("it", self.ev(s, st), n.id)
                    self.assign(t, v, st, n.ast)
                return [st]
        self.assign(target, item, st, n.ast)
        return [st]


def dist(a, b):
    if a == b:
        return ("c", 0)
    return ("D",) + tuple(sorted((a, b), key=repr))


def show(v, depth=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if isinstance(k, tuple):
        return ", ".join(show(x) for x in v)
    if k == "c":
        return str(v[1])
    if k == "lin":
        s = " + ".join(("%s" % show(t) if c == 1 else "%g*%s" % (c, show(t))) for t, c in v[2])
        return s + (" + %g" % v[1] if v[1] else "")
    if k in ("h", "p", "g"):
        return str(v[1])
    if k == "D":
        return "D[%s,%s]" % (show(v[1]), show(v[2]))
    if k == "dem":
        return "d[%s]" % show(v[1])
    if k == "attr":
        return "%s.%s" % (show(v[1]), v[2])
    if k == "sub":
        return "%s[%s]" % (show(v[1]), show(v[2]))
    if k == "item":
        return "%s[%d]" % (show(v[1]), v[2])
    if k == "it":
        return "an item of %s" % show(v[1])
    if k == "call":
        return "%s(...)" % (show(v[1]) if isinstance(v[1], tuple) else v[1])
    if k == "mcall":
        return "%s.%s(...)" % (show(v[1]), v[2])
    if k == "at":
        return v[1]
    return k
