"""C11: debug-only code observes and nothing else."""
import ast
from .core import Func, ClassInfo, own_walk, src_of, local_names, names_in, bind_args, is_debug_test
from .api import is_aux
from .cfg import CFG, node_defs, node_uses
from .effects import Effects, FRESH
from .sccp import Reach, C as Const
from .p_c10 import MUT, root_name

LEVELS = {"isEnabledFor", "getEffectiveLevel", "hasHandlers"}
CONFIG_OK = {"set_logger_level", "enable_function_tracing", "settrace", "setprofile"}
GLOBAL_CONFIG = ("numpy.seterr", "numpy.random.seed", "random.seed", "warnings.simplefilter", "warnings.filterwarnings",
                 "sys.setrecursionlimit", "signal.signal", "gc.disable", "gc.enable", "os.chdir", "numpy.errstate")
EXITS = ("sys.exit", "os._exit", "builtins.exit", "builtins.quit", "os.abort", "os.kill")
INPLACE_EXT = {"heapq.heappush", "heapq.heappop", "heapq.heapify", "heapq.heapreplace", "heapq.heappushpop",
               "random.shuffle", "numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.copyto", "numpy.random.shuffle",
               "bisect.insort", "bisect.insort_left", "bisect.insort_right", "builtins.next", "builtins.setattr",
               "builtins.delattr"}
LAZY = {"zip", "map", "filter", "iter", "enumerate", "reversed", "permutations", "combinations", "product", "chain",
        "islice", "groupby", "takewhile", "dropwhile", "izip"}
CONSUME = {"list", "tuple", "sorted", "sum", "max", "min", "set", "any", "all", "len", "dict", "frozenset", "next", "deque", "routes2sol"}


def verb_name(nm):
    return nm in ("verbosity", "DEBUG_VERBOSITY", "DEFAULT_DEBUG_VERBOSITY")


class Taint:
    """Which names carry the optimise flag / verbosity?"""

    def __init__(self, repo, pt):
        self.repo, self.pt = repo, pt
        self.names = {}
        self.funcs = [f for f in repo.all_functions() if not is_aux(f.module)]
        self.params = set()
        for f in self.funcs:
            for p in f.params:
                if verb_name(p):
                    self.params.add((f, p))
        ch = True
        while ch:
            ch = False
            for f in self.funcs:
                s = self.names.setdefault(f, set())
                n0 = len(s)
                s |= {p for p in f.params if (f, p) in self.params}
                for n in own_walk(f.node):
                    if isinstance(n, ast.Assign) and self.expr(f, n.value, calls=False):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                s.add(t.id)
                    elif isinstance(n, ast.Call):
                        for t in pt.callees(f, n):
                            m, _ = bind_args(t, n)
                            for p, a in m.items():
                                if (t, p) not in self.params and self.expr(f, a, calls=False):
                                    self.params.add((t, p))
                                    ch = True
                ch |= len(s) != n0

    def expr(self, f, e, calls=True):
        if not calls and isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id in ("int", "bool", "max", "min", "float")) \
                and not (isinstance(e.func, ast.Attribute) and e.func.attr in LEVELS):
            return False
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                if n.id == "__debug__" or verb_name(n.id) or n.id in self.names.get(f, ()):
                    return True
            elif isinstance(n, ast.Attribute):
                if n.attr in LEVELS or verb_name(n.attr):
                    return True
                if n.attr == "optimize" and src_of(n.value).endswith("flags"):
                    return True
                if n.attr == "level" and "ogg" in src_of(n.value):
                    return True
        return False


def regions_of(f, taint):
    """[(kind, test or None, [stmts])] outermost debug-only regions of f."""
    out = []

    def go(stmts):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.If) and taint.expr(f, s.test):
                if is_debug_test(s.test) and isinstance(s.test, ast.Name) or not s.orelse:
                    out.append((s, s.body))
                    if s.orelse:
                        out.append((s, s.orelse))
                else:
                    out.append((s, s.body))
                    out.append((s, s.orelse))
                continue
            for fld in ("body", "orelse", "finalbody"):
                v = getattr(s, fld, None)
                if isinstance(v, list):
                    go(v)
            for h in getattr(s, "handlers", []) or []:
                go(h.body)
    go(f.node.body)
    return out


def run(repo, rep):
    eff = Effects(repo)
    taint = Taint(repo, eff.pt)
    rep.rule("no-flow-out", "a region that only runs in debug mode or at some verbosity contains no jump out of itself "
             "(return, break, continue, raise, exit)", 150)
    rep.rule("no-state-out", "no name assigned in such a region is read afterwards by code outside such regions", 150)
    rep.rule("no-effect", "such a region changes no object that exists outside of it and consumes no iterator that is used later", 150)
    rep.rule("flag-only-guards", "the debug flag and verbosity decide only the execution of such regions", 150)
    rep.rule("assert-pure", "an assertion's expressions change nothing and no code relies on an assertion to fail", 3)
    R = Reach(repo, eff.pt, [f for f in taint.funcs])
    algo = {f for f in taint.funcs if not f.module.dotted in ("verypy.shared_cli", "verypy.VeRyPy")}
    for m in repo.modules.values():
        if is_aux(m):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ExceptHandler) and n.type is not None and "AssertionError" in names_in(n.type):
                rep.violate("assert-pure", "%s|except AssertionError" % m.rel,
                            "%s:%d catches AssertionError, which is never raised with -O" % (m.rel, n.lineno))
    for f in taint.funcs:
        regs = regions_of(f, taint)
        inreg = {}
        for i, (s, body) in enumerate(regs):
            for b in body:
                for x in ast.walk(b):
                    inreg[id(x)] = i
        # odd uses of the flag
        odd_uses(repo, rep, f, taint, regs, inreg, f in algo, R)
        asserts(repo, rep, f, eff, inreg)
        if not regs:
            continue
        cfg = CFG(f, repo)
        live = liveness(cfg, inreg)
        env = R.envs.get(f, {})
        full_cfg = R.cfgs[f]
        bynode = {}
        for n in full_cfg.nodes:
            if n.ast is not None and n.kind == "stmt":
                bynode.setdefault(id(n.ast), []).append(n)
        for i, (s, body) in enumerate(regs):
            tag = "%s|if %s" % (f.where, src_of(s.test)[:60])
            bad = flow(repo, f, body)
            for b in bad:
                rep.violate("no-flow-out", "%s|%s" % (tag, b[1]), "%s:%d debug-only code alters control flow: %s" %
                            (f.module.rel, b[0].lineno, b[1]))
            if not bad:
                rep.ok("no-flow-out", tag + " #%d" % s.lineno)
            # names
            nb = 0
            for n in cfg.nodes:
                if n.ast is None or n.kind not in ("stmt", "iter", "handler") or inreg.get(id(n.ast)) != i:
                    continue
                outl = set()
                for t, l in n.succ:
                    outl |= live[t.id]
                for v in sorted(node_defs(n) & outl):
                    if n.kind == "stmt" and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Constant) and \
                            all(env.get(k.id, {}).get(v) == Const(n.ast.value.value) for k in bynode.get(id(n.ast), ())
                                if k.id in env) and bynode.get(id(n.ast)):
                        continue
                    nb += 1
                    rep.violate("no-state-out", "%s|%s" % (tag, v),
                                "%s:%d debug-only assignment to '%s' is read by other code" % (f.module.rel, n.ast.lineno, v))
            if not nb:
                rep.ok("no-state-out", tag + " #%d" % s.lineno)
            eb = effects(repo, f, eff, s.test, body, inreg, i, cfg, live)
            for n, t in eb:
                rep.violate("no-effect", "%s|%s" % (tag, t[:70]), "%s:%d debug-only code %s" % (f.module.rel, n.lineno, t))
            if not eb:
                rep.ok("no-effect", tag + " #%d" % s.lineno)
    rep.assume("formatting an object for a message (str, repr, %-formatting) does not change it")
    return {"scope": "%d functions" % len(taint.funcs)}


def liveness(cfg, inreg):
    """live-in ignoring uses made by debug-only regions"""
    uses, defs = {}, {}
    for n in cfg.nodes:
        a = n.ast
        u = node_uses(n)
        if a is not None and id(a) in inreg:
            u = set()
        uses[n.id] = u
        defs[n.id] = node_defs(n) if not (a is not None and id(a) in inreg) else set()
    live = {n.id: set() for n in cfg.nodes}
    work = list(cfg.nodes)
    while work:
        n = work.pop()
        o = set()
        for s, l in n.succ:
            x = live[s.id]
            if n.kind == "iter" and l is True:
                x = x - defs[n.id]
            o |= x
        new = uses[n.id] | (o - (defs[n.id] if n.kind != "iter" else set()))
        if new != live[n.id]:
            live[n.id] = new
            work.extend(p for p, _ in n.pred)
    return live


def flow(repo, f, body):
    out = []

    def go(s, inloop):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(s, ast.Return):
            out.append((s, "return"))
        elif isinstance(s, ast.Raise):
            out.append((s, "raise"))
        elif isinstance(s, (ast.Break, ast.Continue)) and not inloop:
            out.append((s, type(s).__name__.lower()))
        elif isinstance(s, (ast.Yield, ast.YieldFrom)):
            out.append((s, "yield"))
        elif isinstance(s, ast.Call):
            r = repo.callee(f, s)
            if isinstance(r, tuple) and r[0] == "ext" and r[1] in EXITS:
                out.append((s, src_of(s.func)))
        lp = inloop or isinstance(s, (ast.For, ast.While))
        for c in ast.iter_child_nodes(s):
            go(c, lp)
    for b in body:
        go(b, False)
    return out


def effects(repo, f, eff, test, body, inreg, ri, cfg, live):
    out = []
    # names whose every definition lies in this region and is a fresh object
    defs = {}
    for n in own_walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        defs.setdefault(x.id, []).append((inreg.get(id(n)) == ri, n.value if isinstance(t, ast.Name) else None))
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    defs.setdefault(x.id, []).append((False, None))
    def fresh(e, depth=0):
        if depth > 5:
            return False
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.BinOp, ast.Constant,
                          ast.JoinedStr, ast.Tuple, ast.GeneratorExp, ast.Compare)):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("list", "dict", "set", "sorted", "tuple", "deque", "str", "len", "sum", "zip", "map", "enumerate", "range", "reversed"):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "tolist", "split", "items", "keys", "values"):
                return True
            t = repo.callee(f, e)
            if isinstance(t, Func):
                return not eff.ret.get(t, FRESH)[0]
            return isinstance(t, ClassInfo)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            return True        # lists: a copy
        if isinstance(e, ast.Name):
            d = defs.get(e.id)
            return bool(d) and e.id not in f.params and all(i and v is not None and fresh(v, depth + 1) for i, v in d)
        return False

    def shared(e):
        r = root_name(e)
        if isinstance(r, ast.Name):
            if isinstance(e, ast.Name):
                return not fresh(r)
            return not fresh(r) or not isinstance(e, ast.Name) and not fresh(r)
        return not fresh(r)
    exprs = list(body) + [test]
    for b in exprs:
        for n in ast.walk(b):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
                for t in ts:
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(x, (ast.Subscript, ast.Attribute)) and shared(x):
                            out.append((n, "changes %s" % src_of(x)))
                        elif isinstance(n, ast.AugAssign) and isinstance(x, ast.Name) and not fresh(x):
                            if isinstance(n.value, (ast.List, ast.ListComp)) and any(v is not None and isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)) for _, v in defs.get(x.id, [])):
                                out.append((n, "extends %s in place" % x.id))
                        elif isinstance(n, ast.Delete) and isinstance(x, ast.Name) and not fresh(x):
                            out.append((n, "deletes %s" % x.id))
            elif isinstance(n, ast.NamedExpr):
                for c in cfg.nodes:
                    if c.ast is not None and any(y is n for y in ast.walk(c.ast)) and n.target.id in live[c.id]:
                        out.append((n, "assigns %s" % n.target.id))
                        break
            elif isinstance(n, ast.Call):
                if n is test and False:
                    continue
                w = call_effect(repo, f, eff, n, shared)
                if w:
                    out.append((n, w))
                # iterators
                if isinstance(n.func, ast.Name) and n.func.id in CONSUME or isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend"):
                    for a in n.args:
                        w = consumes(f, a, inreg, ri, n)
                        if w:
                            out.append((n, w))
            elif isinstance(n, (ast.For, ast.comprehension)):
                w = consumes(f, n.iter, inreg, ri, n)
                if w:
                    out.append((n if hasattr(n, "lineno") else n.iter, w))
    return out


def call_effect(repo, f, eff, n, shared):
    r = repo.callee(f, n)
    if isinstance(r, tuple) and r[0] == "ext":
        if r[1] in GLOBAL_CONFIG:
            return "changes global settings with %s" % r[1]
        if r[1] in INPLACE_EXT and n.args and shared(n.args[0]):
            return "changes %s with %s" % (src_of(n.args[0]), r[1])
        if r[1].startswith(("random.", "numpy.random.")):
            return "draws from the shared random generator (%s)" % r[1]
    fn = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
    if fn in CONFIG_OK:
        return None
    if isinstance(n.func, ast.Attribute) and n.func.attr in MUT and not isinstance(r, Func) and not \
            (isinstance(r, tuple) and r[0] == "ext"):
        if shared(n.func.value):
            return "changes %s (.%s)" % (src_of(n.func.value), n.func.attr)
    for k in n.keywords:
        if k.arg == "out" and shared(k.value):
            return "writes into %s" % src_of(k.value)
    for t in eff.pt.callees(f, n):
        m, _ = bind_args(t, n, skip_self=False)
        for p, a in m.items():
            if eff.mut.get(t, {}).get(p) and isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)) and shared(a) \
                    and not memo_param(t, p):
                return "changes %s through %s" % (src_of(a), t.name)
    if isinstance(n.func, ast.Attribute) and n.func.attr == "normalize" and shared(n.func.value):
        return "changes %s (.normalize)" % src_of(n.func.value)
    return None


def consumes(f, e, inreg, ri, at):
    """e is a name bound to a one-shot iterator outside the region and used
    elsewhere outside of debug-only code"""
    if not isinstance(e, ast.Name):
        return None
    lazy = False
    for n in own_walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
            v = n.value
            if id(n) in inreg and inreg[id(n)] == ri:
                continue
            if isinstance(v, ast.GeneratorExp) or isinstance(v, ast.Call) and \
                    (v.func.id if isinstance(v.func, ast.Name) else getattr(v.func, "attr", "")) in LAZY:
                lazy = True
    if not lazy:
        return None
    for n in own_walk(f.node):
        if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Load) and id(n) not in inreg:
            return "consumes the iterator %s" % e.id
    return None


REPORT = {"print", "log", "debug", "info", "warning", "error", "critical", "write", "format"}


def odd_uses(repo, rep, f, taint, regs, inreg, algo, R):
    tests = {id(s.test) for s, _ in regs}
    nodes = [n for n in own_walk(f.node)]
    cnt = 0

    def flagged(n, what):
        rep.violate("flag-only-guards", "%s|%s" % (f.where, what[:80]),
                    "%s:%d %s" % (f.module.rel, getattr(n, "lineno", f.node.lineno), what))

    def reporting(n):
        p = n
        while p is not None and not isinstance(p, ast.stmt):
            if isinstance(p, ast.Call):
                nm = p.func.id if isinstance(p.func, ast.Name) else getattr(p.func, "attr", "")
                if nm in REPORT or nm.startswith("print") or nm in CONFIG_OK:
                    return True
            p = getattr(p, "_parent", None)
        return False
    for n in nodes:
        if id(n) in inreg:
            continue
        if isinstance(n, ast.While) and taint.expr(f, n.test):
            flagged(n, "loop condition depends on the debug flag or verbosity: %s" % src_of(n.test))
        elif isinstance(n, ast.For) and taint.expr(f, n.iter, calls=True) and not log_call(n.iter):
            flagged(n, "loop range depends on the debug flag or verbosity: %s" % src_of(n.iter))
        elif isinstance(n, ast.Return) and n.value is not None and taint.expr(f, n.value, calls=False):
            flagged(n, "returned value depends on the debug flag or verbosity: %s" % src_of(n.value))
        elif isinstance(n, ast.IfExp) and taint.expr(f, n.test) and not reporting(n):
            p = n
            while not isinstance(p, ast.stmt):
                p = p._parent
            if isinstance(p, ast.Assign) and all(isinstance(t, ast.Name) for t in p.targets):
                cnt += 1
                continue        # its uses are followed as tainted names
            flagged(n, "value depends on the debug flag or verbosity: %s" % src_of(n))
        elif isinstance(n, ast.Call) and algo and not reporting(n):
            for a in list(n.args) + [k.value for k in n.keywords]:
                if taint.expr(f, a, calls=False):
                    flagged(n, "argument depends on the debug flag or verbosity: %s" % src_of(n)[:80])
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if taint.expr(f, n.value, calls=False) and any(not isinstance(t, ast.Name) for t in ts):
                flagged(n, "stored value depends on the debug flag or verbosity: %s" % src_of(n)[:80])
        elif isinstance(n, ast.comprehension) and any(taint.expr(f, i) for i in n.ifs):
            flagged(n.ifs[0], "filter depends on the debug flag or verbosity")
        elif isinstance(n, ast.BoolOp) and taint.expr(f, n) and not reporting(n):
            p = n
            inside_test = False
            while p is not None and not isinstance(p, ast.stmt):
                if id(p) in tests:
                    inside_test = True
                p = getattr(p, "_parent", None)
            if not inside_test and isinstance(p, ast.Expr):
                flagged(n, "evaluation depends on the debug flag or verbosity: %s" % src_of(n)[:80])
    for s, _ in regs:
        rep.ok("flag-only-guards", "%s|if %s #%d" % (f.where, src_of(s.test)[:50], s.lineno))


def log_call(e):
    return False


def asserts(repo, rep, f, eff, inreg):
    for n in own_walk(f.node):
        if not isinstance(n, ast.Assert):
            continue
        bad = []
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                w = call_effect(repo, f, eff, x, lambda e: True)
                if w:
                    bad.append(w)
            elif isinstance(x, ast.NamedExpr):
                bad.append("assigns %s" % x.target.id)
        tag = "%s|assert %s" % (f.where, src_of(n.test)[:60])
        if bad:
            rep.violate("assert-pure", tag, "%s:%d assertion %s" % (f.module.rel, n.lineno, bad[0]))
        else:
            rep.ok("assert-pure", tag)


def memo_param(t, p):
    """parameter p of t is a memo table: its only change is filling in a missing
    entry, which the next reader would fill in the same way"""
    stores = []
    for n in own_walk(t.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == p \
                    and n.func.attr in MUT:
                return False
            if any(isinstance(a, ast.Name) and a.id == p for a in n.args):
                return False
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
            for x in ts:
                if isinstance(x, ast.Name) and x.id == p:
                    return False
                if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(root_name(x), ast.Name) and root_name(x).id == p:
                    if not (isinstance(n, ast.Assign) and isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)):
                        return False
                    stores.append((n, x))
    for n, x in stores:
        key = src_of(x.slice)
        ok = False
        g, prev = n._parent, n
        while g is not None and not isinstance(g, ast.FunctionDef):
            if isinstance(g, ast.If):
                tt = g.test
                neg = False
                while isinstance(tt, ast.UnaryOp) and isinstance(tt.op, ast.Not):
                    tt, neg = tt.operand, not neg
                if isinstance(tt, ast.Compare) and len(tt.ops) == 1 and src_of(tt.left) == key and src_of(tt.comparators[0]) == p:
                    missing_body = isinstance(tt.ops[0], ast.NotIn) != neg
                    if isinstance(tt.ops[0], (ast.In, ast.NotIn)) and (prev in g.body) == missing_body:
                        ok = True
            elif isinstance(g, ast.ExceptHandler) and g.type is not None and "KeyError" in names_in(g.type):
                ok = True
            prev, g = g, getattr(g, "_parent", None)
        if not ok:
            return False
    return bool(stores)
