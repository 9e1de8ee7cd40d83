"""C10: no nondeterministic value can reach an algorithm's result."""
import ast
from .core import Func, ClassInfo, own_walk, src_of, local_names, names_in, calls_in, single_assign, bind_args
from .api import is_aux, solvers
from .sccp import Reach
from .effects import Effects

RANDOM = ("random.", "numpy.random.", "secrets.", "uuid.")
CLOCK = ("time.time", "time.clock", "time.perf_counter", "time.monotonic", "time.process_time", "time.time_ns",
         "time.perf_counter_ns", "time.monotonic_ns", "time.localtime", "time.gmtime", "time.ctime", "time.strftime",
         "time.thread_time", "datetime.", "timeit.", "resource.")
IDENT = ("builtins.id", "builtins.hash", "os.getpid", "os.getppid", "os.urandom", "os.getenv", "os.environ",
         "os.getcwd", "os.getlogin", "os.cpu_count", "os.times", "os.getloadavg", "socket.", "platform.", "getpass.",
         "threading.", "multiprocessing.", "concurrent.", "_thread.", "gc.", "sys.getrefcount", "sys.getsizeof",
         "psutil.", "tracemalloc.", "builtins.input")
LISTING = ("os.listdir", "os.scandir", "glob.glob", "glob.iglob")
SEEDED = {"random.Random", "numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.seed",
          "random.seed", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.SeedSequence"}
# functions whose purpose is randomness / user interaction
EXEMPT = {"generate_CVRP": "random instance generator",
          "_init_with_random": "alternative initialisation that the algorithm does not select by itself"}
CLI = ("verypy.shared_cli", "verypy.VeRyPy", "verypy.local_search.naive_implementations")


def kind(dotted):
    if dotted in SEEDED:
        return "seeded"
    for k, pats in (("random number source", RANDOM), ("clock", CLOCK), ("identity or environment", IDENT),
                    ("directory listing", LISTING)):
        for p in pats:
            if dotted == p or (p.endswith(".") and dotted.startswith(p)):
                return k
            if p == "os.environ" and dotted.startswith("os.environ"):
                return k
    return None


def scope_of(n, m):
    g = n
    while g is not None:
        if hasattr(g, "_func"):
            return g._func
        g = getattr(g, "_parent", None)
    return m


def run(repo, rep):
    eff = Effects(repo)
    pt = eff.pt
    PT[0] = pt
    roots = [s for _, s in solvers(repo, pt)]
    R = Reach(repo, pt, roots)
    rep.rule("no-nondeterministic-source", "a random, clock, identity or environment value is never obtained by code that "
             "an algorithm reaches with the options the registry uses, except to report elapsed time", 3)
    rep.rule("seeded-estimator", "library estimators that draw random numbers get a fixed random state", 2)
    rep.rule("no-state-between-runs", "functions an algorithm reaches keep no state in module variables, "
             "function or class attributes, or mutable defaults", 100)
    rep.rule("ordered-iteration", "no loop, list or pop takes its order from a set of strings or plain objects", 3)

    live_ast = {}
    for f in R.reached:
        s = set()
        for n in R.cfgs[f].nodes:
            if n.id in R.live[f] and n.ast is not None:
                if n.kind in ("iter", "iterinit"):
                    parts = [n.ast.iter, n.ast.target]
                elif n.kind == "handler":
                    parts = [n.ast.type] if n.ast.type is not None else []
                elif n.kind in ("loop", "dispatch"):
                    parts = []
                else:
                    parts = [n.ast]
                for p in parts:
                    for x in ast.walk(p):
                        s.add(id(x))
                        s.add(pos(x))
        live_ast[f] = s

    # -- sources
    for m in repo.modules.values():
        if is_aux(m):
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(n.ctx, ast.Load):
                continue
            if isinstance(getattr(n, "_parent", None), ast.Attribute):
                continue
            f = scope_of(n, m)
            r = repo.resolve_expr(f, n)
            if not (isinstance(r, tuple) and r[0] in ("ext", "module")):
                # attribute chain on an external module: longest resolvable prefix
                r = ext_prefix(repo, f, n)
            if not (isinstance(r, tuple) and r[0] == "ext"):
                continue
            k = kind(r[1])
            if k is None:
                continue
            where = "%s:%s" % (m.rel, f.qualname if isinstance(f, Func) else "<module>")
            call = getattr(n, "_parent", None)
            is_call = isinstance(call, ast.Call) and call.func is n
            if k == "seeded":
                if is_call and (call.args or call.keywords) and not unstable(repo, f, call):
                    rep.ok("no-nondeterministic-source", "%s %s seeded with %s" % (where, r[1], src_of(call)))
                    continue
                k = "random number source"
            if isinstance(f, Func) and outer_exempt(f):
                rep.ok("no-nondeterministic-source", "%s %s: %s" % (where, r[1], outer_exempt(f)))
                continue
            reached = not isinstance(f, Func) or f in R.params
            if reached and isinstance(f, Func) and id(n) not in live_ast[f] and pos(n) not in live_ast[f]:
                rep.ok("no-nondeterministic-source", "%s %s only behind options the registry never sets" % (where, r[1]))
                continue
            if not isinstance(f, Func) and in_annotation(n):
                continue
            if k == "directory listing" and sorted_around(n):
                rep.ok("no-nondeterministic-source", "%s %s is sorted" % (where, r[1]))
                continue
            if not reached and f.module.dotted in CLI and k == "identity or environment" :
                rep.skip("no-nondeterministic-source", "%s %s in command line code" % (where, r[1]))
                continue
            if not isinstance(f, Func) and m.dotted in CLI:
                continue
            if k == "clock" and isinstance(f, Func):
                bad = clock_flow(f, call if is_call else n, m.dotted in CLI)
                if bad is None:
                    rep.ok("no-nondeterministic-source", "%s %s only reports elapsed time" % (where, r[1]))
                    continue
                rep.violate("no-nondeterministic-source", "%s|%s" % (where, r[1]),
                            "%s:%d clock value is used for more than reporting: %s" % (m.rel, n.lineno, bad))
                continue
            if not reached:
                if not reachable_by_ref(repo, f):
                    rep.ok("no-nondeterministic-source", "%s %s: function is not used by any algorithm" % (where, r[1]))
                    continue
            rep.violate("no-nondeterministic-source", "%s|%s" % (where, r[1]),
                        "%s:%d %s (%s) is used by code that an algorithm reaches" % (m.rel, n.lineno, r[1], k))

    # -- estimators
    for m in repo.modules.values():
        if is_aux(m):
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            f = scope_of(n, m)
            r = repo.resolve_expr(f, n.func)
            if not (isinstance(r, tuple) and r[0] == "ext" and r[1].startswith(("sklearn.", "scipy.cluster", "scipy.optimize.", "networkx."))):
                continue
            last = r[1].split(".")[-1]
            rs = [k for k in n.keywords if k.arg in ("random_state", "seed", "rng")]
            where = "%s:%s" % (m.rel, f.qualname if isinstance(f, Func) else "<module>")
            stochastic = (r[1].startswith("sklearn.") and last[:1].isupper() and last not in DETERMINISTIC) or \
                last in ("k_means", "kmeans", "kmeans2", "smacof", "dual_annealing", "differential_evolution", "basinhopping",
                         "spring_layout", "random_layout", "mds")
            if not stochastic and not rs:
                continue
            if not rs and any(k.arg is None for k in n.keywords):
                rep.skip("seeded-estimator", "%s %s(**...)" % (where, last))
                continue
            if not rs or (isinstance(rs[0].value, ast.Constant) and rs[0].value.value is None) or \
                    unstable(repo, f, rs[0].value) or none_valued(f, rs[0].value):
                rep.violate("seeded-estimator", "%s|%s" % (where, last),
                            "%s:%d %s draws random numbers without a fixed random state" % (m.rel, n.lineno, last))
            else:
                rep.ok("seeded-estimator", "%s %s(random_state=%s)" % (where, last, src_of(rs[0].value)))

    state(repo, rep, R, eff)
    order(repo, rep, R)
    rep.assume("external solvers (LKH, Gurobi) are deterministic for equal input; MIP time limits are not hit")
    return {"scope": "%d functions reached from %d registry solvers" % (len(R.reached), len(roots))}


PT = [None]
DETERMINISTIC = {"NearestNeighbors", "AgglomerativeClustering", "DBSCAN", "StandardScaler", "MinMaxScaler", "KDTree", "BallTree"}


def pos(n):
    return (type(n).__name__, getattr(n, "lineno", -1), getattr(n, "col_offset", -1), getattr(n, "end_col_offset", -1))


def ext_prefix(repo, f, n):
    while isinstance(n, ast.Attribute):
        r = repo.resolve_expr(f, n)
        if isinstance(r, tuple) and r[0] == "ext":
            return r
        n = n.value
    return None


def outer_exempt(f):
    while f is not None:
        if f.name in EXEMPT:
            return EXEMPT[f.name]
        f = f.parent
    return None


def in_annotation(n):
    return False


def reachable_by_ref(repo, f):
    """readers, converters and checkers count as used by every algorithm"""
    return f.module.dotted in ("verypy.cvrp_io", "verypy.cvrp_ops", "verypy.util", "verypy.routedata") or \
        f.module.dotted.startswith("verypy.local_search")


def unstable(repo, f, e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            r = repo.resolve_expr(f, n)
            if isinstance(r, tuple) and r[0] == "ext" and kind(r[1]) not in (None, "seeded"):
                return True
            if isinstance(n, ast.Name) and isinstance(f, Func):
                v = single_assign(f, n.id)
                if v is not None and v is not e and not any(x is n for x in ast.walk(v)):
                    for c in ast.walk(v):
                        if isinstance(c, (ast.Name, ast.Attribute)):
                            r = repo.resolve_expr(f, c)
                            if isinstance(r, tuple) and r[0] == "ext" and kind(r[1]) not in (None, "seeded"):
                                return True
    return False


def none_valued(f, e):
    if isinstance(e, ast.Name) and isinstance(f, Func):
        v = single_assign(f, e.id)
        return isinstance(v, ast.Constant) and v.value is None
    return False


def sorted_around(n):
    g = getattr(n, "_parent", None)
    while g is not None and not isinstance(g, ast.stmt):
        if isinstance(g, ast.Call) and isinstance(g.func, (ast.Name, ast.Attribute)):
            nm = g.func.id if isinstance(g.func, ast.Name) else g.func.attr
            if nm in ("sorted", "natural_sort", "len", "any", "set"):
                return True
        g = getattr(g, "_parent", None)
    # assigned to a name that is sorted in place or sorted before use
    if isinstance(g, ast.Assign) and len(g.targets) == 1 and isinstance(g.targets[0], ast.Name):
        nm = g.targets[0].id
        fn = g
        while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.Module)):
            fn = getattr(fn, "_parent", None)
        uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
        for u in uses:
            p = u._parent
            if isinstance(p, ast.Attribute) and p.attr == "sort":
                return True
        return bool(uses) and all(sorted_around(u) for u in uses if not isinstance(u._parent, ast.Assign))
    return False


REPORT = ("print", "log", "debug", "info", "warning", "error", "write", "format", "append")


def clock_flow(f, src, cli):
    """None when the value only feeds reporting, otherwise the offending use."""
    tainted = set()

    def use(n):
        """classify the use of expression n; returns offending text or None"""
        p = n._parent
        if isinstance(p, ast.BinOp) or isinstance(p, (ast.UnaryOp, ast.FormattedValue, ast.JoinedStr)):
            return use(p)
        if isinstance(p, (ast.Tuple, ast.List)):
            return use(p)
        if isinstance(p, ast.Assign):
            if p.value is n:
                for t in p.targets:
                    if isinstance(t, ast.Name):
                        if t.id not in tainted:
                            tainted.add(t.id)
                    else:
                        return "stored in %s" % src_of(t)
                return None
            return None
        if isinstance(p, ast.AugAssign):
            if isinstance(p.target, ast.Name):
                tainted.add(p.target.id)
                return None
            return "stored in %s" % src_of(p.target)
        if isinstance(p, ast.Call):
            if n is p.func:
                return use(p)
            nm = p.func.id if isinstance(p.func, ast.Name) else getattr(p.func, "attr", "")
            if nm in ("print", "log", "debug", "info", "warning", "error", "write") or nm.startswith("print"):
                return None
            if nm in ("format", "str", "round", "float", "int", "max", "min"):
                return use(p)
            if cli:
                return None
            return "passed to %s" % src_of(p.func)
        if isinstance(p, ast.Return):
            return None if cli else "returned"
        if isinstance(p, ast.Expr):
            return None
        if isinstance(p, ast.Compare):
            q = p
            while not isinstance(q, ast.stmt) and not isinstance(q, ast.IfExp):
                q = q._parent
            if isinstance(q, (ast.If, ast.IfExp)) and cli:
                # choosing what to report
                body = q.body if isinstance(q.body, list) else []
                if isinstance(q, ast.IfExp) or all(report_only(s) for s in body + q.orelse):
                    return None
            return "decides %s" % src_of(p)
        if isinstance(p, ast.keyword):
            if isinstance(p._parent, ast.Call):
                p2 = p._parent
                nm = p2.func.id if isinstance(p2.func, ast.Name) else getattr(p2.func, "attr", "")
                if nm in ("print", "log", "format"):
                    return None
            return "passed on" if not cli else None
        if isinstance(p, (ast.If, ast.While)):
            return "decides a branch"
        return None if cli else "used in %s" % type(p).__name__
    bad = use(src)
    if bad:
        return bad
    done = set()
    while tainted - done:
        v = (tainted - done).pop()
        done.add(v)
        for n in own_walk(f.node):
            if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load):
                b = use(n)
                if b:
                    return b
    return None


def report_only(s):
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        nm = s.value.func.id if isinstance(s.value.func, ast.Name) else getattr(s.value.func, "attr", "")
        return nm in ("print", "log") or nm.startswith("print")
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
        return True
    if isinstance(s, ast.If):
        return all(report_only(x) for x in s.body + s.orelse)
    return False


MUT = {"append", "extend", "insert", "remove", "pop", "popleft", "appendleft", "clear", "add", "update", "discard",
       "setdefault", "popitem", "sort", "reverse", "difference_update", "intersection_update", "rotate", "fill",
       "symmetric_difference_update", "__next__"}


def root_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e


def state(repo, rep, R, eff):
    import_time = set()
    for f in R.reached:
        bad = []
        glob = set()
        loc = local_names(f)
        for n in own_walk(f.node):
            if isinstance(n, ast.Nonlocal) and f.parent is not None and f.parent not in R.params:
                glob.update(n.names)
            if isinstance(n, ast.Global):
                glob.update(n.names)

        def persistent(e, depth=0):
            """describe e if it denotes state that outlives the call"""
            if depth > 4:
                return None
            if isinstance(e, ast.Name):
                if e.id in glob:
                    return "module variable %s" % e.id
                g = f
                while g is not None:
                    if e.id in local_names(g):
                        if e.id in g.params and e.id in g.defaults and \
                                isinstance(g.defaults[e.id], (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                            if not rebound_first(g, e.id):
                                return "mutable default of parameter %s" % e.id
                        if g is not f and g not in R.params:
                            return "variable %s of the enclosing %s" % (e.id, g.name)
                        for v in assigned_values(g, e.id):
                            rt = root_name(v)
                            if isinstance(rt, ast.Name) and rt.id != e.id and (isinstance(v, ast.Name) or rt.id not in local_names(g)):
                                w = persistent(rt if not isinstance(v, ast.Attribute) else v, depth + 1)
                                if w:
                                    return w
                        return None
                    g = g.parent
                r = repo.resolve_name(f.module, e.id)
                if isinstance(r, (Func, ClassInfo)):
                    return "attribute of %s" % r.name
                if isinstance(r, tuple) and r[0] == "const":
                    return "module variable %s" % e.id
                if isinstance(r, tuple) and r[0] in ("module", "ext") and e.id in f.module.imports:
                    return "module %s" % e.id
                return None
            if isinstance(e, ast.Attribute):
                b = root_name(e)
                if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and f.cls is not None:
                    if class_level(f.cls, e.attr) and not assigned_in_init(f.cls, e.attr):
                        return "class attribute %s.%s" % (f.cls.name, e.attr)
                    return None
                return persistent(b, depth + 1)
            if isinstance(e, ast.Subscript):
                return persistent(e.value, depth + 1)
            return None

        for n in own_walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(x, ast.Name):
                            if x.id in glob:
                                bad.append((n, "module variable %s" % x.id))
                            elif isinstance(n, ast.AugAssign) and x.id in f.defaults and isinstance(n.op, (ast.Add, ast.BitOr)) \
                                    and isinstance(f.defaults[x.id], (ast.List, ast.Dict, ast.Set)) and not rebound_first(f, x.id):
                                bad.append((n, "mutable default of parameter %s" % x.id))
                        elif isinstance(x, ast.Subscript):
                            w = persistent(x.value)
                            if w:
                                bad.append((n, w))
                        elif isinstance(x, ast.Attribute):
                            if isinstance(x.value, ast.Name) and x.value.id == "self" and f.cls is not None:
                                continue
                            if isinstance(x.value, ast.Attribute) and x.value.attr == "__class__" or \
                                    isinstance(x.value, ast.Call) and src_of(x.value.func) == "type":
                                bad.append((n, "class attribute %s" % x.attr))
                                continue
                            w = persistent(x.value)
                            if w and not w.startswith("mutable default"):
                                bad.append((n, w))
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    if isinstance(repo.callee(f, n), Func):
                        continue
                    b = n.func.value
                    r = repo.resolve_expr(f, n.func)
                    if isinstance(r, tuple) and r[0] == "ext":
                        continue
                    w = persistent(b)
                    if w and not w.startswith("module ") or (w and w.startswith("module variable")):
                        bad.append((n, w))
                elif isinstance(n.func, ast.Name) and n.func.id in ("next", "heappush", "heappop", "setattr", "heapify") and n.args:
                    w = persistent(n.args[0])
                    if w:
                        bad.append((n, w))
                else:
                    for t in eff.pt.callees(f, n):
                        m, _ = bind_args(t, n)
                        for p, a in m.items():
                            if eff.mut.get(t, {}).get(p) and isinstance(a, (ast.Name, ast.Attribute)):
                                w = persistent(a)
                                if w:
                                    bad.append((n, w + " (through %s)" % t.name))
        for p, dflt in f.defaults.items():
            if isinstance(dflt, (ast.List, ast.Dict, ast.Set)) and eff.mut.get(f, {}).get(p) and not rebound_first(f, p):
                bad.append((f.node, "mutable default of parameter %s" % p))
        bad = [(n, w) for n, w in bad if not (set_only_debug(n))]
        if not bad:
            rep.ok("no-state-between-runs", f.where)
        for n, w in bad:
            rep.violate("no-state-between-runs", "%s|%s" % (f.where, w),
                        "%s:%d state survives the call: %s is changed by %s" %
                        (f.module.rel, n.lineno, w, src_of(n)[:80]))


def set_only_debug(n):
    return False


def assigned_values(f, name):
    """Name/attribute/subscript expressions assigned to a local (aliases)."""
    out = []
    for n in own_walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)):
            if any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                out.append(n.value)
    return out


def class_level(cls, attr):
    for s in cls.node.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in s.targets):
            return True
    return False


def assigned_in_init(cls, attr):
    i = cls.methods.get("__init__")
    return i is not None and any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store)
                                 for n in own_walk(i.node))


def rebound_first(f, p):
    """p is rebound unconditionally at the top of f before anything else"""
    for s in f.node.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in s.targets):
            return True
        if any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(s)):
            return False
    return False


def elem_kind(repo, f, e, depth=0):
    """'bad' when elements of set expression e are certainly strings or plain
    objects, 'ok'/'?' otherwise."""
    if depth > 5:
        return "?"
    if isinstance(e, ast.Set):
        ks = {value_kind(repo, f, x, depth + 1) for x in e.elts}
        return "bad" if "bad" in ks else "ok"
    if isinstance(e, ast.SetComp):
        return value_kind(repo, f, e.elt, depth + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
        if not e.args:
            return "?"
        a = e.args[0]
        if isinstance(a, (ast.List, ast.Tuple, ast.Set)):
            ks = {value_kind(repo, f, x, depth + 1) for x in a.elts}
            return "bad" if "bad" in ks else "ok"
        if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
            return value_kind(repo, f, a.elt, depth + 1)
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            return "bad"
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "map" and len(a.args) == 2 and \
                isinstance(a.args[0], ast.Name) and a.args[0].id in ("str", "repr"):
            return "bad"
        return "ok"
    return "?"


def value_kind(repo, f, e, depth=0):
    if isinstance(e, ast.Constant):
        return "bad" if isinstance(e.value, (str, bytes)) else "ok"
    if isinstance(e, (ast.JoinedStr, ast.Lambda)):
        return "bad"
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, (ast.Constant,)) and isinstance(e.left.value, str):
        return "bad"
    if isinstance(e, ast.Tuple):
        ks = {value_kind(repo, f, x, depth + 1) for x in e.elts}
        return "bad" if "bad" in ks else "ok"
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ("str", "repr", "hex", "bin", "format"):
            return "bad"
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("format", "join"):
            return "bad"
        r = repo.callee(f, e) if isinstance(f, Func) else None
        if isinstance(r, ClassInfo) and "__hash__" not in r.methods and not r.node.bases:
            return "bad"
        return "ok"
    if isinstance(e, (ast.Name, ast.Attribute)) and isinstance(f, Func):
        r = repo.resolve_expr(f, e)
        if isinstance(r, Func) or PT[0].values(f, e):
            return "bad"
        if isinstance(e, ast.Name) and depth < 5:
            v = single_assign(f, e.id)
            if v is not None:
                return value_kind(repo, f, v, depth + 1)
    return "ok"


def order(repo, rep, R):
    for f in R.reached:
        # locals that hold sets -> element kind
        kinds = {}
        for n in own_walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(n.value, (ast.Set, ast.SetComp)) or isinstance(n.value, ast.Call) and \
                                isinstance(n.value.func, ast.Name) and n.value.func.id in ("set", "frozenset"):
                            k = elem_kind(repo, f, n.value)
                            kinds[t.id] = "bad" if "bad" in (k, kinds.get(t.id)) else k
        for n in own_walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id in kinds and n.func.attr == "add" and n.args:
                if value_kind(repo, f, n.args[0]) == "bad":
                    kinds[n.func.value.id] = "bad"

        def is_set(e):
            if isinstance(e, ast.Name) and e.id in kinds:
                return kinds[e.id]
            if isinstance(e, (ast.Set, ast.SetComp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
                return elem_kind(repo, f, e)
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
                a, b = is_set(e.left), is_set(e.right)
                if a or b:
                    return "bad" if isinstance(e.op, ast.Sub) and a == "bad" or not isinstance(e.op, ast.Sub) and "bad" in (a, b) else (a or b)
            return None
        for n in own_walk(f.node):
            its = []
            if isinstance(n, ast.For):
                its = [n.iter]
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                par = getattr(n, "_parent", None)
                if isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in ("sorted", "sum", "any", "all", "set", "len", "frozenset", "max", "min"):
                    continue
                its = [g.iter for g in n.generators]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "iter", "enumerate", "zip", "deque", "OrderedSet", "reversed") and n.args:
                par = getattr(n, "_parent", None)
                if isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in ("sorted", "len", "set"):
                    continue
                its = n.args
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args:
                its = [n.func.value]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend") and n.args:
                its = n.args
            for it in its:
                k = is_set(it)
                if k == "bad":
                    rep.violate("ordered-iteration", "%s|%s" % (f.where, src_of(it)),
                                "%s:%d order of %s depends on string or object hashes" % (f.module.rel, n.lineno, src_of(it)))
                elif k:
                    rep.ok("ordered-iteration", "%s: %s holds no strings or objects" % (f.where, src_of(it)))
