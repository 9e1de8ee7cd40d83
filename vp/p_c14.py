"""C14: the algorithm registry (constant propagation of every documented name through the registry)."""
import ast
from .cfg import CFG
from .core import Func, own_walk, bind_args, is_debug_test, calls_in, local_names
from .pointsto import PointsTo
from .api import is_aux
from .roles import CANON

CONTRACT = ("points", "D", "d", "C", "L", "st", "wtt", "single", "minimize_K")
# the published algorithms ("classical") and the others, with the factory that builds each of them
FACTORY = {
    "ps": "get_ps_algorithm", "gpl": "get_gs_algorithm", "ss": "get_ss_algorithm", "gps": "get_gps_algorithm",
    "ims": "get_ims_algorithm", "ps2o": "get_ps2o_algorithm", "si": "get_si_algorithm", "mj": "get_mj_algorithm",
    "pi": "get_pi_algorithm", "mbsa": "get_mm_algorithm", "cmt": "get_cmt2p_algorithm", "sn": "get_snn_algorithm",
    "pn": "get_pnn_algorithm", "ty": "get_ty_algorithm", "swp": "get_swp_algorithm", "wh": "get_wh_algorithm",
    "gm": "get_gm_algorithm", "rfcs": "get_rfcs_algorithm", "gap": "get_gap_algorithm", "ptl": "get_ptl_algorithm",
    "lr3o": "get_lr3opt_algorithm",
}
CLASSICAL = "ps gpl ss gps ims mj mbsa cmt ty wh gm rfcs gap ptl lr3o".split()
GUROBI = ("mbsa", "gap", "ptl")
# documented long names
DOCUMENTED = {
    "ps": "ps cw64-ps cw parallelsavings clarkewright", "gpl": "gpl ga67-ps ga67-ps|pi ga67-ps|lambda gaskellpi gaskelllambda",
    "ss": "ss we64-ss sequentialsavings", "gps": "gps pa88-ps generalizedsavings generalizedparallelsavings paessens",
    "ims": "ims hp76-ps hp76-ps|ims suppression iterativemergesuppression mergesuppressionsavings",
    "ps2o": "ps2o rt79-ps cawlip savingswith2opt", "si": "si ci cheapestinsertion sequentialinsertion",
    "mj": "mj molejameson molejamesoninsertion", "pi": "pi parallelinsertion parallelcheapestinsertion",
    "mbsa": "mbsa dv89-mbsa matching maximummatching mm desrochersverhoog",
    "cmt": "cmt cmt79-2p tp twophase cmt2p cmt2phase cmttwophase", "sn": "sn nn snn", "pn": "pn pnn", "ty": "ty ty68-snn tyagi",
    "swp": "swp sweep", "wh": "wh wh72-swls whs whswp wrenholliday wrenhollidaysweep",
    "gm": "gm gm74-swri gms gmswp gilletmiller gilletmillersweep",
    "rfcs": "rfcs be83-rfcs routefirstclustersecond beasley newtonthomas", "gap": "gap fj81-gap fisherjaikumar",
    "ptl": "ptl fr76-ptl petal fosterryan", "lr3o": "lr3o sg82-lr3opt lr3opt", "all": "all", "classical": "classical classic",
}


class Unk:
    pass


class Made:
    """result of calling a factory"""

    def __init__(self, func):
        self.func = func


UNK = Unk()


class Ev:
    """constant propagation of one algorithm name through the body of get_algorithms"""

    def __init__(self, repo, f, env, table, has_gurobi):
        self.repo, self.f, self.env, self.table, self.hg = repo, f, dict(env), table, has_gurobi
        self.out = []          # (abbreviation, factory, certain)
        self.unsure = 0
        self.lost = None

    def ev(self, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            r = self.repo.resolve_expr(self.f, e)
            if isinstance(r, Func):
                return r
            if isinstance(r, tuple) and r[0] == "const":
                vs = r[1].assigns.get(r[2], [])
                if len(vs) == 1:
                    return self.ev(vs[0])
            return UNK
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            xs = [self.ev(x) for x in e.elts]
            return tuple(xs)
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                k = self.ev(k) if k is not None else UNK
                if k is UNK or isinstance(k, tuple):
                    return UNK
                out[k] = self.ev(v)
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.ev(e.operand)
            return UNK if v is UNK else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(x) for x in e.values]
            if isinstance(e.op, ast.And):
                if any(v is not UNK and not v for v in vs):
                    return False
                return UNK if any(v is UNK for v in vs) else vs[-1]
            if any(v is not UNK and v for v in vs):
                return True
            return UNK if any(v is UNK for v in vs) else vs[-1]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left), self.ev(e.comparators[0])
            if a is UNK or b is UNK or isinstance(b, tuple) and any(x is UNK for x in b):
                return UNK
            op = e.ops[0]
            try:
                if isinstance(op, ast.In):
                    return a in b
                if isinstance(op, ast.NotIn):
                    return a not in b
                if isinstance(op, ast.Eq):
                    return a == b
                if isinstance(op, ast.NotEq):
                    return a != b
                if isinstance(op, ast.Is):
                    return a is b
                if isinstance(op, ast.IsNot):
                    return a is not b
            except TypeError:
                return UNK
            return UNK
        if isinstance(e, ast.Subscript):
            a, k = self.ev(e.value), self.ev(e.slice)
            if isinstance(a, (dict, tuple, str)) and k is not UNK:
                try:
                    return a[k]
                except Exception:
                    return ("error", "KeyError %r" % (k,)) if isinstance(a, dict) else UNK
            return UNK
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.ev(e.left), self.ev(e.right)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, tuple) and isinstance(b, Made):
                return a + (b,)
            return UNK
        if isinstance(e, ast.IfExp):
            t = self.ev(e.test)
            return UNK if t is UNK else self.ev(e.body if t else e.orelse)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                v = self.ev(e.func.value)
                if isinstance(v, str) and e.func.attr in ("lower", "upper", "strip", "casefold"):
                    return getattr(v, e.func.attr)()
                if isinstance(v, dict) and e.func.attr == "get":
                    k = self.ev(e.args[0])
                    d = self.ev(e.args[1]) if len(e.args) > 1 else None
                    return UNK if k is UNK else v.get(k, d)
                return UNK
            fn = self.ev(e.func)
            if isinstance(fn, Func):
                return Made(fn)
            if isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "set", "frozenset", "sorted") and len(e.args) == 1:
                return self.ev(e.args[0])
            return UNK
        return UNK

    def touches(self, s):
        return any(isinstance(n, ast.Name) and n.id == self.acc for n in ast.walk(s))

    def run(self, stmts):
        """False when the iteration ends here"""
        for s in stmts:
            if isinstance(s, ast.If):
                t = self.ev(s.test)
                if t is UNK:
                    if self.touches(s) or any(isinstance(n, (ast.Continue, ast.Break, ast.Return, ast.Assign)) for n in ast.walk(s)):
                        self.unsure += 1
                        self.lost = self.lost or "test %s is not decided" % ast.unparse(s.test)
                    continue
                if not self.run(s.body if t else s.orelse):
                    return False
            elif isinstance(s, ast.Assign):
                v = self.ev(s.value)
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.env[t.id] = v
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and len(v) == len(t.elts):
                        for x, y in zip(t.elts, v):
                            if isinstance(x, ast.Name):
                                self.env[x.id] = y
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.env[x.id] = UNK
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                pass
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == self.acc:
                if s.value.func.attr == "append" and len(s.value.args) == 1:
                    v = self.ev(s.value.args[0])
                    if isinstance(v, tuple) and len(v) >= 2 and isinstance(v[0], str) and isinstance(v[1], Made):
                        self.out.append((v[0], v[1].func))
                    else:
                        self.lost = "append of %s" % ast.unparse(s.value.args[0])
                else:
                    self.lost = ast.unparse(s)
            elif isinstance(s, (ast.Continue, ast.Break)):
                return False
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == self.acc:
                v = self.ev(s.value)
                if isinstance(v, tuple) and all(isinstance(x, tuple) and len(x) >= 2 and isinstance(x[0], str) and
                                                isinstance(x[1], Made) for x in v):
                    self.out += [(x[0], x[1].func) for x in v]
                else:
                    self.lost = ast.unparse(s)
            elif isinstance(s, ast.Raise):
                self.lost = "raises " + ast.unparse(s)
                return False
            elif isinstance(s, (ast.For, ast.While, ast.Try, ast.With)):
                if isinstance(s, ast.For):
                    it = self.ev(s.iter)
                    if isinstance(it, dict):
                        it = tuple(it)
                    if isinstance(it, tuple) and all(x is not UNK for x in it) and len(it) < 200:
                        for x in it:
                            if isinstance(s.target, ast.Name):
                                self.env[s.target.id] = x
                            elif isinstance(x, tuple) and isinstance(s.target, ast.Tuple) and len(x) == len(s.target.elts):
                                for a, b in zip(s.target.elts, x):
                                    self.env[a.id] = b
                            else:
                                self.lost = "loop"
                                break
                            self.run(s.body)
                        continue
                if self.touches(s):
                    self.lost = "loop or try around the registry"
            elif self.touches(s):
                self.lost = ast.unparse(s)[:60]
        return True


def run(repo, rep):
    rep.rule("documented-name", "every documented algorithm name is translated to the algorithm it stands for", 60)
    rep.rule("registry", "constant propagation of each canonical name (with and without Gurobi) through get_algorithms "
                         "reaches exactly the registrations it stands for", 40)
    rep.rule("entry-shape", "each registered factory returns a name, a description and a callable with the common parameters in order", 20)
    rep.rule("solver-result", "each solver returns its heuristic's result on every path that does not raise", 20)
    rep.rule("objective", "each solver uses the requested objective or rejects it explicitly", 20)
    pt = PointsTo(repo)
    m = repo.mod("verypy")
    table = None
    for v in m.assigns.get("algo_name_aliases", []):
        if isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) for k in v.keys):
            table, tnode = {}, v
            for k, x in zip(v.keys, v.values):
                if not isinstance(x, ast.Constant):
                    table = None
                    break
                if k.value in table and table[k.value] != x.value:
                    rep.violate("documented-name", "algo_name_aliases|%s" % k.value,
                                "the name %r is listed twice, for %r and %r" % (k.value, table[k.value], x.value))
                table[k.value] = x.value
    if table is None:
        for k in range(60):
            rep.skip("documented-name", "the table of names is not a literal (%d)" % k)
    else:
        for canon, names in DOCUMENTED.items():
            for n in names.split():
                if n not in table:
                    rep.violate("documented-name", "algo_name_aliases|%s" % n, "the documented name %r resolves to nothing" % n)
                elif table[n] != canon:
                    rep.violate("documented-name", "algo_name_aliases|%s" % n, "%r stands for %r but resolves to %r" % (n, canon, table[n]))
                else:
                    rep.ok("documented-name", "%s -> %s" % (n, canon))
        known = {n for v in DOCUMENTED.values() for n in v.split()}
        for n, c in sorted(table.items()):
            if n in known:
                continue
            if n != n.lower():
                rep.violate("documented-name", "algo_name_aliases|%s" % n, "%r can never match, names are lower-cased first" % n)
            elif table.get(c) != c:
                rep.violate("documented-name", "algo_name_aliases|%s" % n, "%r resolves to %r which is not an algorithm" % (n, c))
            else:
                rep.ok("documented-name", "%s -> %s" % (n, c))
    registry(repo, rep, m, table)
    facs = []
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Name, ast.Attribute)):
            g = n
            while g is not None and not hasattr(g, "_func"):
                g = getattr(g, "_parent", None)
            r = repo.resolve_expr(g._func if g is not None else m, n)
            if isinstance(r, Func) and r.module is not m and r not in facs:
                facs.append(r)
    for mod in repo.modules.values():
        if mod.dotted.startswith("verypy.classic_heuristics."):
            for f in mod.top.values():
                if isinstance(f, Func) and f.name.startswith("get_") and f.name.endswith("_algorithm") and f not in facs:
                    facs.append(f)
    seen = set()
    for f in sorted(facs, key=lambda f: f.where):
        shape(repo, rep, pt, f, seen)
    objective(repo, rep, pt, seen)
    rep.assume("gurobipy is the only optional dependency that get_algorithms may report as missing")
    return {"scope": "verypy/__init__.py and %d factories" % len(facs)}


def registry(repo, rep, m, table):
    f = m.functions.get("get_algorithms")
    loop = acc = None
    if f is not None:
        for n in own_walk(f.node):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Name) and n.iter.id in f.params:
                loop = n
        for n in own_walk(f.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
                acc = n.value.id
    if loop is None or acc is None or table is None:
        for k in range(40):
            rep.skip("registry", "get_algorithms has another shape (%d)" % k)
        return
    # initial values of locals in front of the loop
    pre = {}
    for s in f.node.body:
        if s is loop:
            break
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            pre[s.targets[0].id] = s.value
    gvar = None
    for n in own_walk(f.node):
        if isinstance(n, ast.Try) and any(isinstance(x, ast.Import) and any(a.name == "gurobipy" for a in x.names) for b in n.body for x in ast.walk(b)):
            for h in n.handlers:
                for x in h.body:
                    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                        gvar = x.targets[0].id
    for name in list(FACTORY) + ["all", "classical"] + sorted(n for n in table if n not in FACTORY and n not in ("all", "classical")):
        if table.get(name) is None:
            continue
        for hg in (True, False):
            base = Ev(repo, f, {}, table, hg)
            base.acc = acc
            env = {}
            for k, v in pre.items():
                x = base.ev(v)
                if x is not UNK:
                    env[k] = x
            if gvar:
                env[gvar] = hg
            shown = name.upper() if hg else name
            env[loop.target.id] = shown
            e = Ev(repo, f, env, table, hg)
            e.acc = acc
            e.run(loop.body)
            canon = table[name]
            want = {"all": list(FACTORY), "classical": CLASSICAL}.get(canon, [canon])
            want = [w for w in want if hg or w not in GUROBI]
            what = "%s%s" % (shown, "" if hg else " (no gurobi)")
            if e.lost:
                rep.skip("registry", "%s: %s" % (what, e.lost))
                continue
            got = [a for a, _ in e.out]
            if sorted(got) != sorted(want):
                extra = sorted(set(got) - set(want))
                miss = sorted(set(want) - set(got))
                dup = sorted({x for x in got if got.count(x) > 1})
                rep.violate("registry", "get_algorithms|%s" % canon, "%r selects %s%s%s" %
                            (what, "without %s " % miss if miss else "", "unexpectedly %s " % extra if extra else "",
                             "twice %s" % dup if dup else ""))
                continue
            bad = False
            for a, fac in e.out:
                if fac.name in FACTORY.values() and fac.name != FACTORY.get(a, fac.name):
                    bad = True
                    rep.violate("registry", "get_algorithms|%s" % a, "%r is registered with %s" % (a, fac.where))
            if not bad:
                rep.ok("registry", "%s -> %s" % (what, " ".join(got) if len(got) < 4 else "%d algorithms" % len(got)))


def shape(repo, rep, pt, f, seen):
    rets = [n for n in own_walk(f.node) if isinstance(n, ast.Return)]
    key = "%s" % f.where
    if not rets:
        rep.violate("entry-shape", key, "%s returns nothing" % f.where)
        return
    for r in rets:
        v = r.value
        if isinstance(v, ast.Name):
            from .core import single_assign
            v = single_assign(f, v.id) or v
        if not isinstance(v, ast.Tuple):
            fs = pt.values(f, v) if v is not None else set()
            rep.skip("entry-shape", "%s returns %s" % (key, ast.unparse(v) if v is not None else None))
            for s in fs:
                seen.add((f, s))
            continue
        if len(v.elts) != 3:
            rep.violate("entry-shape", key, "%s returns %d values instead of name, description and solver" % (f.loc(r), len(v.elts)))
            continue
        names = [strval(repo, f, x) for x in v.elts[:2]]
        sol = pt.values(f, v.elts[2])
        if any(n is False for n in names):
            rep.violate("entry-shape", key, "%s: name or description is not a text" % f.loc(r))
            continue
        if not sol:
            if isinstance(v.elts[2], ast.Constant) or isinstance(strval(repo, f, v.elts[2]), str):
                rep.violate("entry-shape", key, "%s: the third value is not a solver" % f.loc(r))
            else:
                rep.skip("entry-shape", "%s: solver %s is not resolved" % (key, ast.unparse(v.elts[2])))
            continue
        ok = True
        for s in sol:
            if s is f:
                continue
            seen.add((f, s))
            ps = s.posargs
            need = [p for p in ps if p not in s.defaults]
            if not s.vararg and (len(ps) < 9 or len(need) > 9) or [k for k in s.kwonly if k not in s.defaults]:
                ok = False
                rep.violate("entry-shape", "%s|%s" % (key, s.name), "%s accepts (%s), not the nine common arguments" % (s.loc(), ", ".join(ps)))
                continue
            for i, p in enumerate(ps[:9]):
                if CANON.get(p) is not None and CANON[p] != CONTRACT[i]:
                    ok = False
                    rep.violate("entry-shape", "%s|%s" % (key, s.name), "%s: parameter %d is %s, solvers are called with %s there" %
                                (s.loc(), i + 1, p, CONTRACT[i]))
                    break
        if ok:
            rep.ok("entry-shape", "%s -> %s" % (key, ", ".join(sorted(s.qualname for s in sol))))


def strval(repo, f, e):
    """text of e, None when unknown, False when certainly no text"""
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, str) else False
    if isinstance(e, ast.JoinedStr):
        return "?"
    if isinstance(e, ast.Name):
        from .core import single_assign
        r = repo.resolve_expr(f, e)
        if isinstance(r, Func):
            return False
        v = single_assign(f, e.id)
        return strval(repo, f, v) if v is not None else None
    return None


def _reach(cfg, p, v):
    """nodes reachable when the objective parameter p has truth value v"""
    seen, st = set(), [cfg.entry]
    alias = {p}
    for n in cfg.nodes:            # parameters of inlined helpers bound to p
        if n.kind == "stmt" and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Name) and n.ast.value.id in alias \
                and isinstance(n.ast.targets[0], ast.Name):
            alias.add(n.ast.targets[0].id)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        for m, l in n.succ:
            if n.kind == "cond" and isinstance(n.ast, ast.Name) and n.ast.id in alias and l in (True, False) and l is not v:
                continue
            if n.kind == "cond" and isinstance(n.ast, ast.Compare) and isinstance(n.ast.left, ast.Name) and n.ast.left.id in alias \
                    and len(n.ast.ops) == 1 and isinstance(n.ast.comparators[0], ast.Constant) and isinstance(n.ast.comparators[0].value, bool) \
                    and isinstance(n.ast.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and l in (True, False):
                if ((n.ast.comparators[0].value == v) == isinstance(n.ast.ops[0], (ast.Is, ast.Eq))) is not l:
                    continue
            if l == "exc":
                continue
            st.append(m)
    return seen


def _returns_under(cfg, p, v):
    r = _reach(cfg, p, v)
    return [n for n in cfg.nodes if n.id in r and n.kind == "ret"]


def _raises_under(cfg, p):
    t, f = _reach(cfg, p, True), _reach(cfg, p, False)
    return any(n.id in t and n.id not in f and n.kind == "stmt" and isinstance(n.ast, ast.Raise) for n in cfg.nodes)


def _honoured(s, ret, p, pt, hon):
    """does the returned value depend on a use of the objective?"""
    deps = {}

    def scan(body, tests):
        for st in body:
            if isinstance(st, (ast.If, ast.While)):
                scan(st.body, tests + [st.test])
                scan(st.orelse, tests + [st.test])
            elif isinstance(st, ast.For):
                scan(st.body, tests + [st.iter])
                scan(st.orelse, tests)
            elif isinstance(st, ast.Try):
                for b in (st.body, st.orelse, st.finalbody):
                    scan(b, tests)
                for h in st.handlers:
                    scan(h.body, tests)
            elif isinstance(st, ast.With):
                scan(st.body, tests)
            elif isinstance(st, (ast.Assign, ast.AugAssign)):
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            deps.setdefault(x.id, []).extend([st.value] + tests)
                            deps.setdefault(("t", st.lineno), []).extend(tests)
    scan(s.node.body, [])

    def enclosing(body, tests):
        for st in body:
            if any(x is ret.ast or getattr(x, "lineno", -1) == getattr(ret.ast, "lineno", -2) and isinstance(x, ast.Return)
                   for x in ast.walk(st)):
                if isinstance(st, (ast.If, ast.While)):
                    for b in (st.body, st.orelse):
                        r = enclosing(b, tests + [st.test])
                        if r is not None:
                            return r
                    return tests
                return tests
        return None
    work = [ret.ast.value] + []
    if ret.ast.value is None:
        return True
    done = set()
    while work:
        e = work.pop()
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                cs = pt.callees(s, n)
                args = list(n.args) + [k.value for k in n.keywords]
                if not any(isinstance(x, ast.Name) and x.id == p for a in args for x in ast.walk(a)):
                    continue
                if not cs:
                    return True
                for t in cs:
                    m, _ = bind_args(t, n)
                    if any(any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(a)) and hon(t, q) for q, a in m.items()):
                        return True
            elif isinstance(n, ast.Name):
                if n.id == p:
                    if not isinstance(e, ast.Call):
                        return True
                elif n.id not in done:
                    done.add(n.id)
                    work += deps.get(n.id, [])
    return False


def objective(repo, rep, pt, seen):
    honours = {}

    def hon(g, p, stack=()):
        """does g act on parameter p (objective choice)?"""
        k = (g, p)
        if k in honours:
            return honours[k]
        if k in stack:
            return False
        res = False
        if g.name == "is_better_sol":
            res = True
        scopes = [g.node] + [h.node for h in g.nested.values() if p not in h.params]
        aliases = {p}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in aliases for x in ast.walk(n.value)) and \
                    not isinstance(n.value, ast.Call):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        aliases.add(t.id)
        for sc in scopes:
            for n in ast.walk(sc):
                if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not is_debug_test(n.test):
                    if any(isinstance(x, ast.Name) and x.id in aliases for x in ast.walk(n.test)):
                        res = True
                elif isinstance(n, (ast.BoolOp, ast.Compare)) and any(isinstance(x, ast.Name) and x.id in aliases for x in ast.walk(n)):
                    res = True
                elif isinstance(n, ast.Call) and not res:
                    own = g
                    for t in pt.callees(own, n):
                        m, _ = bind_args(t, n)
                        for q, a in m.items():
                            if isinstance(a, ast.Name) and a.id in aliases and hon(t, q, stack + (k,)):
                                res = True
                    if not pt.callees(own, n) and any(isinstance(a, ast.Name) and a.id in aliases for a in list(n.args) + [x.value for x in n.keywords]) \
                            and not (isinstance(n.func, ast.Name) and n.func.id in ("log", "print", "str", "repr")):
                        res = True     # handed to a callable that is not resolved
                elif isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and any(isinstance(x, ast.Name) and x.id in aliases for x in n.value.elts):
                    res = True
        honours[k] = res
        return res

    for fac, s in sorted(seen, key=lambda x: (x[0].where, x[1].where, x[1].node.lineno)):
        key = s.where
        solver_result(repo, rep, pt, fac, s)
        if len(s.posargs) < 9:
            continue
        p = s.posargs[8]
        cfg = CFG(s, repo, inline=lambda t, e, d: t.module is s.module and len(list(own_walk(t.node))) < 60 and not any(
            isinstance(x, (ast.For, ast.While)) for x in own_walk(t.node)), debug_off=True)
        rets = {v: _returns_under(cfg, p, v) for v in (True, False)}
        if not rets[False]:
            rep.violate("objective", key, "%s rejects the default objective instead of the unsupported one" % s.loc())
            continue
        if not rets[True]:
            rep.ok("objective", "%s rejects an unsupported objective" % key)
            continue
        lost = [r for r in rets[True] if not _honoured(s, r, p, pt, hon)]
        if lost and len(lost) < len(rets[True]) or (lost and _raises_under(cfg, p)):
            rep.violate("objective", key, "%s returns a solution without acting on the requested objective" % s.loc(lost[0].ast))
            continue
        uses = []
        other = []
        for n in own_walk(s.node):
            if not isinstance(n, ast.Call):
                continue
            for t in pt.callees(s, n):
                m, complete = bind_args(t, n)
                hit = [q for q, a in m.items() if isinstance(a, ast.Name) and a.id == p]
                if hit:
                    uses.append((n, t, hit[0]))
                elif "minimize_K" in t.params:
                    other.append((n, t))
        helper = [n for n in own_walk(s.node) if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == p for a in
                  list(n.args) + [k.value for k in n.keywords]) and not pt.callees(s, n)]
        if any(hon(t, q) for n, t, q in uses) or helper:
            bad = [(n, t, q) for n, t, q in uses if not hon(t, q)]
            if bad:
                rep.violate("objective", key, "%s passes the objective to %s, which never acts on it" % (s.loc(bad[0][0]), bad[0][1].where))
            else:
                rep.ok("objective", "%s -> %s" % (key, ", ".join(sorted({t.name for n, t, q in uses}))))
        elif hon(s, p):
            rep.ok("objective", "%s decides itself" % key)
        else:
            rep.violate("objective", key, "%s neither uses the requested objective nor rejects it%s" %
                        (s.loc(), " (%s ignores it)" % uses[0][1].where if uses else ""))


def solver_result(repo, rep, pt, fac, s):
    key = s.where
    rets = [n for n in own_walk(s.node) if isinstance(n, ast.Return)]
    if isinstance(s.node, ast.Lambda):
        rep.ok("solver-result", key)
        return
    empty = [r for r in rets if r.value is None or isinstance(r.value, ast.Constant) and r.value.value is None]
    if empty:
        rep.violate("solver-result", key, "%s returns nothing" % s.loc(empty[0]))
        return
    if falls_through(s.node.body):
        rep.violate("solver-result", key, "%s can end without returning a solution" % s.loc())
        return
    # the value comes from a call of a heuristic (directly or through locals)
    for r in rets:
        srcs = sources(s, r.value, set())
        if isinstance(r.value, (ast.Tuple, ast.Dict, ast.Set, ast.Compare, ast.BoolOp)) and not isinstance(r.value, ast.BoolOp):
            rep.violate("solver-result", key, "%s returns %s, not a solution" % (s.loc(r), ast.unparse(r.value)))
            return
        if not any(isinstance(x, ast.Call) for x in srcs):
            rep.violate("solver-result", key, "%s returns %s, which is no heuristic's result" % (s.loc(r), ast.unparse(r.value)))
            return
        for x in srcs:
            if not isinstance(x, ast.Call):
                continue
            for t in pt.callees(s, x):
                if any(k for k in (tuple_len(t),) if k) and x is r.value:
                    rep.violate("solver-result", key, "%s returns the %d-tuple of %s" % (s.loc(r), tuple_len(t), t.where))
                    return
    rep.ok("solver-result", key)


def tuple_len(t):
    ls = set()
    for n in own_walk(t.node):
        if isinstance(n, ast.Return):
            ls.add(len(n.value.elts) if isinstance(n.value, ast.Tuple) else 0)
    return ls.pop() if len(ls) == 1 else 0


def sources(s, e, seen):
    if isinstance(e, ast.Name):
        if e.id in seen:
            return []
        seen.add(e.id)
        out = []
        for n in own_walk(s.node):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == e.id for t in n.targets for x in ast.walk(t)):
                out += sources(s, n.value, seen)
            elif isinstance(n, ast.NamedExpr) and n.target.id == e.id:
                out += sources(s, n.value, seen)
            elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                out += sources(s, n.iter, seen)
        return out
    out = [e] + [n for n in ast.walk(e) if isinstance(n, ast.Call)]
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n is not e:
            out += sources(s, n, seen)
    return out


def falls_through(body):
    """can control reach the end of this block?"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise)):
            return False
        if isinstance(s, ast.If) and s.orelse:
            if not falls_through(s.body) and not falls_through(s.orelse):
                return False
        elif isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                not any(isinstance(n, ast.Break) for n in ast.walk(s)):
            return False
        elif isinstance(s, ast.Try):
            b = falls_through(s.body + s.orelse)
            h = any(falls_through(x.body) for x in s.handlers)
            if s.finalbody and not falls_through(s.finalbody):
                return False
            if not b and not h:
                return False
        elif isinstance(s, ast.With):
            if not falls_through(s.body):
                return False
    return True
