"""C08: problem data and limits reach every stage unchanged and unswapped (role flow analysis)."""
import ast
from .core import Func, ClassInfo, own_walk, bind_args, local_names, src_of, is_debug_test
from .pointsto import PointsTo
from .api import is_aux
from .roles import RoleFlow, CANON, SEQ, role, named_roles, NONE

CONTRACT = ("points", "D", "d", "C", "L", "st", "wtt", "single", "minimize_K")

# (module of the caller, called function, role): deliberately not handed over, with the reason
BY_DESIGN = {
    ("wren_holliday_sweep", "sweep_init", "minimize_K"): "one sweep from one start angle has nothing to choose between",
    ("mole_jameson_insertion", "cheapest_insertion_init", "minimize_K"): "a single insertion run has nothing to choose between",
    ("tsp_solver_acotsp", "write_TSPLIB_file", None): "a TSP file has no demands or limits",
    ("tsp_solver_lkh", "write_TSPLIB_file", None): "a TSP file has no demands or limits",
    ("shared_cli", "generate_CVRP", "C"): "random instance with the default capacity",
}
# parameters that a stage accepts but has no use for
UNUSED_OK = {
    "_seems_valid_insertion", "_biggest_seed", "_closest_seed", "_farthest_seed", "_first_seed",
    "_end_of_thoroughfares_seed_points", "_kmeans_seed_points", "_init_with_random", "_init_with_tsp",
    "combine_heuristic", "inspect_heuristic",
}
NEED = ("C", "L", "minimize_K", "d")


def analysed(f):
    return not is_aux(f.module) and "naive" not in f.module.dotted and not f.name.startswith("test")


def outer_roles(f):
    env = {}
    chain = []
    g = f.parent
    while g is not None:
        chain.append(g)
        g = g.parent
    for g in reversed(chain):
        nr = named_roles(g)
        for n in local_names(g):
            env[n] = frozenset([("role", nr[n])]) if n in nr else frozenset([("unk",)])
    return env


def summaries(repo, pt, funcs):
    out = {}
    for k in range(3):
        new = {}
        for f in funcs:
            fl = RoleFlow(repo, pt, f, out, outer=outer_roles(f))
            try:
                fl.run()
            except RecursionError:
                continue
            rets = [r for r in fl.rets if r is not None]
            if rets and len(rets) == len(fl.rets) and len({len(r) for r in rets}) == 1:
                s = [frozenset(x if role(x) else ("unk",) for r in rets for x in r[i]) for i in range(len(rets[0]))]
                if any(role(x) for v in s for x in v):
                    new[f] = s
        if new == out:
            break
        out = new
    return out


def run(repo, rep):
    rep.rule("argument-role", "every argument that is one of the user's inputs (or a copy) lands in the parameter "
                              "meant for that input, in every resolved call, callback call and solver call", 150)
    rep.rule("argument-present", "a stage whose parameter is a limit, the demands or the objective receives it "
                                 "whenever its caller has it (no default, None, literal or altered value instead)", 60)
    rep.rule("binding-role", "where the inputs are unpacked, returned or rebound, each keeps its own name", 25)
    rep.rule("limit-used", "a limit, the demands or the objective accepted by a stage is used by it", 80)
    pt = PointsTo(repo)
    funcs = [f for f in repo.all_functions() if analysed(f)]
    sums = summaries(repo, pt, funcs)
    for f in sorted(funcs, key=lambda f: f.where):
        try:
            one(repo, rep, pt, sums, f)
        except RecursionError:
            rep.skip("argument-role", f.where)
    packs(repo, rep, funcs)
    star_calls(repo, rep, pt, funcs)
    for f in sorted(funcs, key=lambda f: f.where):
        if f.cls is not None:
            continue
        reads = live_reads(f.node)
        for p in f.params:
            if CANON.get(p) not in NEED:
                continue
            if f.module.dotted.endswith("inter_route_3opt_operators"):
                continue
            if p in reads or any(n in ("locals", "vars") for n in reads):
                rep.ok("limit-used", "%s(%s)" % (f.where, p))
            elif f.name in UNUSED_OK or is_stub(f):
                continue
            elif any(t is f for g in funcs for n in own_walk(g.node) if isinstance(n, ast.Call) for t in pt.callees(g, n)):
                rep.violate("limit-used", "%s|%s" % (f.where, p), "%s accepts %s but never looks at it" % (f.loc(), p))
            else:
                # handed over as a callable
                rep.violate("limit-used", "%s|%s" % (f.where, p), "%s accepts %s but never looks at it" % (f.loc(), p))
    rep.assume("an input keeps its role under the names used throughout the package (D, d, C, L, st, points, minimize_K, ...)")
    return {"scope": "%d functions, %d with role carrying results" % (len(funcs), len(sums))}


def live_reads(node):
    """names read outside debug-only blocks and log calls"""
    out, work = set(), [node]
    while work:
        n = work.pop()
        if isinstance(n, ast.If) and is_debug_test(n.test):
            work.extend(n.orelse)
            continue
        if isinstance(n, ast.Assert):
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "log":
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.add(n.id)
        work.extend(ast.iter_child_nodes(n))
    return out


def static(f):
    return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list)


def is_stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def one(repo, rep, pt, sums, f):
    seen = {}

    def note(rule, key, text):
        seen[(rule, key)] = text

    okc, okb = set(), set()
    outer = outer_roles(f)

    def has(env, r):
        if any(("role", r) in v for v in env.values()):
            return True
        return any(n in fl.named and CANON.get(n) == r and len(v) > 1 for n, v in env.items())

    def on_call(call, env, fl):
        targets = [t for t in pt.callees(f, call) if analysed(t)]
        if not targets:
            contract_call(call, env, fl)
            return
        for t in targets:
            m, complete = bind_args(t, call, skip_self=t.cls is not None and isinstance(call.func, ast.Attribute) and not static(t))
            for p in t.params:
                r = CANON.get(p)
                flag = t.defaults.get(p)
                if r is None and m.get(p) is not None and isinstance(flag, ast.Constant) and isinstance(flag.value, bool):
                    v = fl.expr_quiet(m[p], env)
                    if v and all(role(x) in ("points", "D", "d", "C", "L", "st") for x in v):
                        note("argument-role", "%s -> %s|%s" % (f.where, t.qualname, p), "%s:%d %s passes %s (%s) as the switch %s of %s" %
                             (f.module.rel, call.lineno, f.qualname, "/".join(sorted({role(x) for x in v})), src_of(m[p]), p, t.qualname))
                if r is None or r not in named_roles(t).values():
                    continue
                a = m.get(p)
                check(call, t.qualname, t, p, r, a, env, fl, complete)

    def check(call, tname, t, p, r, a, env, fl, complete):
        short = f.module.dotted.split(".")[-1]
        key = "%s -> %s|%s" % (f.where, tname, p)
        lim = r in NEED and (short, tname.split(".")[-1], r) not in BY_DESIGN and (short, tname.split(".")[-1], None) not in BY_DESIGN
        if a is None:
            if not complete or not (t is None or p in t.defaults):
                return
            if lim and has(env, r) and uses(t, p):
                note("argument-present", key, "%s:%d %s calls %s without its %s although it has one" %
                     (f.module.rel, call.lineno, f.qualname, tname, r))
            return
        v = fl.expr_quiet(a, env)
        other = sorted({role(x) for x in v} - {None, r})
        if other:
            note("argument-role", key, "%s:%d %s passes %s (%s) as the %s of %s" %
                 (f.module.rel, call.lineno, f.qualname, "/".join(other), src_of(a), r, tname))
            return
        okc.add(("argument-role", key)) if any(role(x) for x in v) else None
        if lim:
            altered = [x for x in v if x[0] == "alt" and x[1] == r]
            lit = [x for x in v if x == NONE or x[0] == "const"]
            src = a.id if isinstance(a, ast.Name) else None
            if src in fl.named and CANON.get(src) == r and src not in f.params and not altered:
                okc.add(("argument-present", key))
                return
            if altered:
                note("argument-present", key, "%s:%d %s passes an altered %s (%s) to %s" %
                     (f.module.rel, call.lineno, f.qualname, r, src_of(a), tname))
            elif lit and not any(role(x) == r for x in v) and has(env, r):
                note("argument-present", key, "%s:%d %s passes %s as the %s of %s although it has one" %
                     (f.module.rel, call.lineno, f.qualname, src_of(a), r, tname))
            elif lit and src in f.params and CANON.get(src) == r and src is not None:
                note("argument-present", key, "%s:%d on some path %s replaced its %s by a literal before passing it to %s" %
                     (f.module.rel, call.lineno, f.qualname, r, tname))
            elif lit and isinstance(a, ast.IfExp):
                note("argument-present", key, "%s:%d %s passes %s as the %s of %s" %
                     (f.module.rel, call.lineno, f.qualname, src_of(a), r, tname))
            elif any(role(x) == r for x in v):
                okc.add(("argument-present", key))

    def uses(t, p):
        if t is None:
            return True
        return any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(t.node))

    def contract_call(call, env, fl):
        if not isinstance(call.func, ast.Name) or any(isinstance(a, ast.Starred) for a in call.args):
            return
        g = f
        known = False
        while g is not None:
            known = known or call.func.id in local_names(g)
            g = g.parent
        if not known:
            return
        vs = [fl.expr_quiet(a, env) for a in call.args]
        nr = [v for v in vs if any(role(x) for x in v)]
        if len(call.args) + len(call.keywords) < 7 or len(nr) < 5:
            return
        m = dict(zip(CONTRACT, call.args))
        for k in call.keywords:
            if k.arg in CANON:
                m[CANON[k.arg]] = k.value
        for r in CONTRACT:
            if r not in m:
                note("argument-present", "%s -> %s|%s" % (f.where, call.func.id, r),
                     "%s:%d %s calls the solver %s without %s" % (f.module.rel, call.lineno, f.qualname, call.func.id, r))
                continue
            check(call, call.func.id, None, r, r, m[r], env, fl, True)

    def on_assign(s, name, v, env):
        r = CANON.get(name)
        if r is None or name not in fl.named:
            return
        other = sorted({role(x) for x in v} - {None, r})
        key = "%s|%s" % (f.where, name)
        if other:
            note("binding-role", key, "%s:%d %s stores %s in %s" % (f.module.rel, s.lineno, f.qualname, "/".join(other), name))
        elif name in f.params and r in NEED and any(x[0] == "alt" and x[1] == r for x in v):
            note("binding-role", key, "%s:%d %s changes the %s it was given" % (f.module.rel, s.lineno, f.qualname, r))
        else:
            okb.add(("binding-role", key))

    fl = RoleFlow(repo, pt, f, sums, on_call, on_assign, None, outer)

    def quiet(e, env):
        sv = fl.on_call, fl.on_assign
        fl.on_call = fl.on_assign = None
        try:
            return fl.expr(e, dict(env))
        finally:
            fl.on_call, fl.on_assign = sv
    fl.expr_quiet = quiet
    fl.run()
    for (rule, key), text in sorted(seen.items()):
        rep.violate(rule, key, text)
    for rule, key in sorted(okc | okb):
        if (rule, key) not in seen:
            rep.ok(rule, key)


def packs(repo, rep, funcs):
    """inputs handed over inside a tuple: packed and unpacked in the same order"""
    by = {}
    for f in funcs:
        for n in own_walk(f.node):
            if not isinstance(n, ast.Tuple) or len(n.elts) < 4:
                continue
            names = [x.id if isinstance(x, ast.Name) else None for x in n.elts]
            rs = [CANON.get(x) for x in names]
            if len([r for r in rs if r]) < 3:
                continue
            store = isinstance(n.ctx, ast.Store)
            par = getattr(n, "_parent", None)
            if store and not (isinstance(par, ast.Assign) and isinstance(par.value, ast.Name)):
                continue
            if not store and not isinstance(par, (ast.Assign, ast.Call, ast.Return)):
                continue
            by.setdefault((f.module, len(names)), ([], []))[1 if store else 0].append((f, n, names, rs))
    for (m, k), (ld, stt) in sorted(by.items(), key=lambda x: (x[0][0].dotted, x[0][1])):
        for f, n, names, rs in stt:
            for g, n2, names2, rs2 in ld:
                key = "%s -> %s|tuple" % (g.where, f.where)
                bad = [(a, b) for a, b, ra, rb in zip(names2, names, rs2, rs) if ra and rb and ra != rb]
                if bad:
                    rep.violate("binding-role", key, "%s packs %s where %s:%d unpacks %s" %
                                (g.where, bad[0][0], f.where, n.lineno, bad[0][1]))
                else:
                    rep.ok("binding-role", key)


def star_calls(repo, rep, pt, funcs):
    """op(*params): the trailing list display of the parameters against the operator signatures"""
    sigs = {}
    for f in funcs:
        if f.module.dotted.startswith("verypy.local_search.") and f.name.startswith("do_") and "D" in f.params:
            if f.module.dotted.endswith(("naive_implementations", "solution_operators", "inter_route_3opt_operators")):
                continue
            i = f.params.index("D")
            sigs.setdefault(i, []).append(f)
    for f in funcs:
        for n in own_walk(f.node):
            if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords \
                    and isinstance(n.func, ast.Name):
                st = n.args[0].value
                exprs = [st]
                if isinstance(st, ast.Name):
                    exprs = [a.value for a in own_walk(f.node) if isinstance(a, ast.Assign) and
                             any(isinstance(t, ast.Name) and t.id == st.id for t in a.targets)]
                for e in exprs:
                    tail = e.right if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) else e
                    if not isinstance(tail, SEQ):
                        continue
                    names = [x.id if isinstance(x, ast.Name) else None for x in tail.elts]
                    if "D" not in names:
                        continue
                    single = tail is e
                    rest = names[names.index("D"):]
                    for i, fs in sorted(sigs.items()):
                        if single != (i == 1):
                            continue
                        for op in fs:
                            ps = op.params[i:]
                            key = "%s -> %s|star" % (f.where, op.qualname)
                            bad = [(a, b) for a, b in zip(rest, ps) if a and (CANON.get(a) or CANON.get(b)) and CANON.get(a) != CANON.get(b)]
                            need = [p for p in ps[len(rest):] if CANON.get(p)]
                            if bad:
                                rep.violate("argument-role", key, "%s:%d %s passes %s as %s of %s" %
                                            (f.module.rel, n.lineno, f.qualname, bad[0][0], bad[0][1], op.qualname))
                            elif need:
                                rep.violate("argument-present", key, "%s:%d %s leaves out %s of %s" %
                                            (f.module.rel, n.lineno, f.qualname, need, op.qualname))
                            else:
                                rep.ok("argument-role", key)
