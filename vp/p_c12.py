"""C12: a user interrupt always leaves as an interrupt, with the best solution."""
import ast
from .core import Func, own_walk, src_of, local_names, names_in, bind_args
from .api import is_aux
from .cfg import CFG, node_defs, node_uses, liveness, _tnames
from .pointsto import PointsTo

N, F, T = 1, 2, 4           # None / other falsy / truthy
ANY = F | T
TOPMOST = {"main", "cli", "tsp_cli"}      # programs: nobody above them to pass the interrupt to


def catches_ki(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(src_of(t).split(".")[-1] in ("KeyboardInterrupt", "BaseException") for t in ts)


def is_ki(e):
    if isinstance(e, ast.Call):
        e = e.func
    return isinstance(e, ast.Name) and e.id == "KeyboardInterrupt"


class Explore:
    def __init__(self, repo, f, cfg, ev):
        self.repo, self.f, self.cfg, self.ev = repo, f, cfg, ev
        self.ki = set()        # names bound to the caught interrupt

    def val(self, e, env):
        if isinstance(e, ast.Constant):
            return N if e.value is None else (T if e.value else F)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return T if e.elts and not all(isinstance(x, ast.Starred) for x in e.elts) else (F if not e.elts else ANY)
        if isinstance(e, ast.Dict):
            return T if e.keys else F
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
            return ANY
        if isinstance(e, ast.Lambda):
            return T
        if isinstance(e, ast.Name):
            if e.id in self.ki:
                return T
            return env.get(e.id, ANY)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.val(e.operand, env)
            return (F if v & T else 0) | (T if v & (N | F) else 0)
        if isinstance(e, ast.BoolOp):
            vs = [self.val(x, env) for x in e.values]
            cur = vs[0]
            for v in vs[1:]:
                if isinstance(e.op, ast.And):
                    cur = (cur & (N | F)) | (v if cur & T else 0)
                else:
                    cur = (cur & T) | (v if cur & (N | F) else 0)
            return cur
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = e.left, e.comparators[0]
            # the type test of the caught exception
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "type" and l.args and \
                    isinstance(l.args[0], ast.Name) and l.args[0].id in self.ki and isinstance(r, ast.Name):
                same = r.id == "KeyboardInterrupt"
                return T if same == isinstance(e.ops[0], (ast.Is, ast.Eq)) else F
            if isinstance(r, ast.Constant) and r.value is None and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                v = self.val(l, env)
                pos = isinstance(e.ops[0], (ast.Is, ast.Eq))
                res = 0
                if v & N:
                    res |= T if pos else F
                if v & ANY:
                    res |= F if pos else T
                return res
            if isinstance(r, ast.Constant) and isinstance(r.value, bool) and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                v = self.val(l, env)
                pos = isinstance(e.ops[0], (ast.Is, ast.Eq)) == r.value
                return ((T if pos else F) if v & T else 0) | ((F if pos else T) if v & (N | F) else 0)
            return ANY
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and \
                isinstance(e.args[0], ast.Name) and e.args[0].id in self.ki:
            ns = names_in(e.args[1])
            return T if ns & {"KeyboardInterrupt", "BaseException"} else F
        if isinstance(e, ast.IfExp):
            t = self.val(e.test, env)
            return (self.val(e.body, env) if t & T else 0) | (self.val(e.orelse, env) if t & (N | F) else 0)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and e.args:
            v = self.val(e.args[0], env)
            return (T if v & T else 0) | (F if v & (N | F) else 0)
        return ANY

    def assume(self, t, truth, env):
        """refine env by condition t being truth; None if impossible"""
        v = self.val(t, env)
        if truth and not v & T or not truth and not v & (N | F):
            return None
        if isinstance(t, ast.Name) and t.id not in self.ki:
            env = dict(env)
            env[t.id] = env.get(t.id, ANY) & (T if truth else (N | F))
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            pos = isinstance(t.ops[0], (ast.Is, ast.Eq))
            env = dict(env)
            env[t.left.id] = env.get(t.left.id, ANY) & (N if pos == truth else ANY)
            if not env[t.left.id]:
                return None
        s = src_of(t)
        if isinstance(t, ast.Call) and src_of(t.func).endswith("is_better_sol") and not truth:
            # a known candidate that is not better: something at least as good is kept already
            env = dict(env)
            for x, y in self.kept_by(t):
                if not self.val(y, env) & N and x in env:
                    env[x] &= ANY
        for k in self.ki:
            if k + ".args" in s and truth:
                env = dict(env)
                env["$args"] = T
            if s in ("len(%s.args) == 0" % k, "not %s.args" % k, "len(%s.args) < 1" % k) and not truth:
                env = dict(env)
                env["$args"] = T
        return env

    def kept_by(self, t):
        g = t
        while g is not None and not isinstance(g, ast.If):
            g = getattr(g, "_parent", None)
        out = []
        for s in g.body if g is not None else []:
            if isinstance(s, ast.Assign):
                for x in s.targets:
                    if isinstance(x, ast.Name):
                        out.append((x.id, s.value))
                    elif isinstance(x, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(x.elts) == len(s.value.elts):
                        out += [(a.id, b) for a, b in zip(x.elts, s.value.elts) if isinstance(a, ast.Name)]
        return out

    def step(self, n, env):
        a = n.ast
        if n.kind == "stmt":
            if isinstance(a, ast.Assign):
                v = self.val(a.value, env)
                for t in a.targets:
                    env = self._bind(t, v, a.value, env)
            elif isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name):
                env = dict(env)
                old = env.get(a.target.id, ANY)
                add = self.val(a.value, env)
                if isinstance(a.op, ast.Add) and (old == T and isinstance(a.value, (ast.List, ast.ListComp, ast.Name, ast.Call)) or add == T and isinstance(a.value, ast.List)):
                    env[a.target.id] = T if not isinstance(a.value, ast.Constant) else ANY
                else:
                    env[a.target.id] = ANY
            elif isinstance(a, (ast.FunctionDef, ast.ClassDef)):
                env = dict(env)
                env[a.name] = T
            if not isinstance(a, (ast.FunctionDef, ast.ClassDef)):
                for c in ast.walk(a):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                        x = c.func.value.id
                        if c.func.attr in ("append", "appendleft", "add", "insert"):
                            env = dict(env)
                            env[x] = T
                        elif c.func.attr in ("pop", "popleft", "remove", "clear", "discard", "difference_update"):
                            if x in env:
                                env = dict(env)
                                env[x] = ANY
        elif n.kind == "iter":
            env = dict(env)
            for x in _tnames(a.target):
                env[x] = ANY
        return env

    def _bind(self, t, v, value, env):
        env = dict(env)
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                vs = [self.val(x, env) for x in value.elts]
                for x, y, w in zip(t.elts, value.elts, vs):
                    env = self._bind(x, w, y, env)
            else:
                for x in _tnames(t):
                    env[x] = ANY
        return env

    def forward(self):
        """joined environment at every node (names absent = not assigned)"""
        env0 = {p: N | F | T if p in self.f.defaults and isinstance(self.f.defaults[p], ast.Constant) and self.f.defaults[p].value is None else ANY
                for p in self.f.params}
        ins = {self.cfg.entry.id: env0}
        work = [self.cfg.entry]
        while work:
            n = work.pop()
            env = ins[n.id]
            out = self.step(n, env)
            for s, l in n.succ:
                o = out
                if n.kind == "cond" and l in (True, False):
                    o = self.assume(n.ast, l, env)
                    if o is None:
                        continue
                elif l == "exc":
                    o = {k: env.get(k, 0) | out.get(k, 0) for k in set(env) | set(out)}
                elif n.kind == "iter" and l is False:
                    o = env
                cur = ins.get(s.id)
                new = o if cur is None else {k: cur.get(k, 0) | o.get(k, 0) for k in set(cur) | set(o)}
                new = {k: v for k, v in new.items() if k != "$args"}
                if new != cur:
                    ins[s.id] = new
                    if s not in work:
                        work.append(s)
        return ins


def payload_raisers(repo, pt):
    """functions an interrupt can leave carrying a solution"""
    direct = set()
    calls = {}
    for f in repo.all_functions():
        if is_aux(f.module):
            continue
        cs = set()
        for n in own_walk(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None and is_ki(n.exc) and isinstance(n.exc, ast.Call) and n.exc.args:
                direct.add(f)
            if isinstance(n, ast.Call):
                cs |= pt.callees(f, n)
        calls[f] = cs
    ch = True
    out = set(direct)
    while ch:
        ch = False
        for f, cs in calls.items():
            if f not in out and cs & out and not any(isinstance(n, ast.Try) and any(catches_ki(h) for h in n.handlers) for n in own_walk(f.node)):
                out.add(f)
                ch = True
    return out


def run(repo, rep):
    pt = PointsTo(repo)
    rep.rule("never-swallowed", "from every handler that can catch a KeyboardInterrupt each path ends in raising a "
             "KeyboardInterrupt again, before any further search", 20)
    rep.rule("carries-best", "the re-raised interrupt carries the solution the function would return (its kept best, or the "
             "partial solution completed with the unserved customers)", 15)
    rep.rule("inner-solution-used", "a handler around a call that may itself be interrupted with a solution uses that solution", 3)
    rep.rule("handler-cannot-fail", "before the interrupt is raised again nothing is used that may be unset, None or missing", 20)
    rep.rule("no-suppression", "no finally block, suppress() or signal handler drops an interrupt; a solver status that means "
             "'interrupted' raises KeyboardInterrupt", 5)
    payload = payload_raisers(repo, pt)
    only_ki = only_in_handlers(repo, pt)
    nsup = 0
    for f in repo.all_functions():
        if is_aux(f.module):
            continue
        suppression(repo, rep, f)
        trys = [n for n in own_walk(f.node) if isinstance(n, ast.Try) and any(catches_ki(h) for h in n.handlers)]
        if not trys:
            continue

        def want(t, call, depth, f=f):
            return t.module is f.module and t.parent is None and t.cls is None and t not in payload_big and \
                any(isinstance(x, ast.Raise) and x.exc is not None and is_ki(x.exc) for x in own_walk(t.node)) and \
                not any(isinstance(x, (ast.For, ast.While, ast.Try)) for x in own_walk(t.node))
        cfg = CFG(f, repo, inline=want)
        ev = None
        ex = Explore(repo, f, cfg, ev)
        ins = ex.forward()
        assigned = definitely(cfg, f)
        live = liveness(cfg)
        for tr in trys:
            h = next(h for h in tr.handlers if catches_ki(h))
            i = trys.index(tr)
            tag = "%s|%s#%d" % (f.where, "except " + (src_of(h.type) if h.type else ""), i)
            runs_algo = any(isinstance(c, ast.Call) for s in tr.body for c in ast.walk(s))
            if not any(isinstance(c, (ast.Call, ast.For, ast.While)) for s in tr.body for c in ast.walk(s)) or \
                    trivial_try(repo, f, tr, pt):
                rep.notes.append("%s: the protected statements are only an import or a file read" % tag)
                continue
            hnodes = [n for n in cfg.nodes if n.kind == "handler" and n.ast is h]
            if f.name in TOPMOST:
                rep.notes.append("%s: top level program" % tag)
                ex.ki = {h.name} if h.name else set()
                body = {id(x) for s in tr.body for x in ast.walk(s)}
                if any(isinstance(c, ast.Call) and not repo.callee(f, c) for s in tr.body for c in ast.walk(s)) and \
                        not trivial_try(repo, f, tr, pt):
                    for hn in hnodes[:1]:
                        top_level(repo, rep, f, cfg, ex, ins, h, hn, tag, body)
                continue
            if f in only_ki:
                rep.ok("never-swallowed", tag + " runs only while an interrupt is being handled, callers raise it again")
                continue
            body_ids = {id(x) for s in tr.body for x in ast.walk(s)}
            ex.ki = {h.name} if h.name else set()
            for hn in hnodes:
                check_handler(repo, rep, f, cfg, ex, ins, assigned, live, tr, h, hn, tag, body_ids, payload, pt)
    rep.assume("an interrupt may arrive at every statement of a protected block")
    return {"scope": "all functions of the package; %d functions may be left with an interrupt that carries a solution" % len(payload)}


payload_big = set()


def trivial_try(repo, f, tr, pt):
    """import fallback, or reading a file at top level"""
    if all(isinstance(s, (ast.Import, ast.ImportFrom, ast.Assign)) and not any(isinstance(x, ast.Call) for x in ast.walk(s)) for s in tr.body):
        return True
    for s in tr.body:
        for c in ast.walk(s):
            if isinstance(c, ast.Call) and pt.callees(f, c):
                return False
            if isinstance(c, (ast.For, ast.While)):
                return False
    return len(tr.body) <= 2 and all(isinstance(s, (ast.Import, ast.ImportFrom)) or
                                     isinstance(s, ast.Assign) and "load" in src_of(s.value) for s in tr.body)


def only_in_handlers(repo, pt):
    """functions whose every call sits in a handler of a KeyboardInterrupt"""
    sites = {}
    for f in repo.all_functions():
        for n in own_walk(f.node):
            if isinstance(n, ast.Call):
                for t in pt.callees(f, n):
                    g, inh = n, False
                    while g is not None and not isinstance(g, (ast.FunctionDef,)):
                        if isinstance(g, ast.ExceptHandler) and catches_ki(g):
                            inh = True
                        g = getattr(g, "_parent", None)
                    sites.setdefault(t, []).append(inh)
    return {t for t, s in sites.items() if s and all(s)}


def definitely(cfg, f):
    """definitely assigned names at node entry (normal and exceptional edges)"""
    allv = set(local_names(f)) | {"$"}
    ins = {n.id: None for n in cfg.nodes}
    ins[cfg.entry.id] = set(f.params) | ({f.vararg} if f.vararg else set()) | ({f.kwarg} if f.kwarg else set())
    work = [cfg.entry]
    while work:
        n = work.pop()
        out = ins[n.id] | (node_defs(n) if n.kind != "iter" else set())
        for s, l in n.succ:
            o = out
            if l == "exc" and n.kind != "handler":
                o = ins[n.id]
            if n.kind == "iter" and l is True:
                o = ins[n.id] | node_defs(n)
            new = o if ins[s.id] is None else ins[s.id] & o
            if new != ins[s.id]:
                ins[s.id] = set(new)
                work.append(s)
    return ins


def first_nodes(cfg, stmt):
    """CFG nodes of the first statement of a block"""
    ids = {id(x) for x in ast.walk(stmt)}
    return [n for n in cfg.nodes if n.ast is not None and id(n.ast) in ids]


def check_handler(repo, rep, f, cfg, ex, ins, assigned, live, tr, h, hn, tag, body_ids, payload, pt):
    line = h.lineno
    env0 = dict(ins.get(hn.id, {}))
    if h.name:
        env0[h.name] = T
    start = [(hn, tuple(sorted(env0.items())))]
    seen = set(start)
    work = list(start)
    bad = []
    raises = []
    unsafe = []
    # names that an interrupt may find unassigned: not assigned before the block
    pre = None
    for n in cfg.nodes:
        if n.ast is not None and id(n.ast) in body_ids and assigned[n.id] is not None:
            a = assigned[n.id]
            pre = set(a) if pre is None else pre & a
    pre = pre if pre is not None else set()
    maybe_unset = {v for v in local_names(f) if v not in pre and v != h.name}
    reassigned = {}
    steps = 0
    while work:
        n, et = work.pop()
        steps += 1
        if steps > 60000:
            rep.skip("never-swallowed", tag + ": too many paths")
            return
        env = dict(et)
        if n is cfg.exit:
            bad.append("can end in a normal return")
            continue
        if n is cfg.raise_exit:
            continue
        if n is not hn and n.ast is not None and id(n.ast) in body_ids and n.kind != "dispatch":
            bad.append("can go on with the search")
            continue
        if n.ast is not None and n.kind in ("stmt", "cond", "ret", "iterinit"):
            unsafe.extend(unsafe_uses(ex, n, env, maybe_unset, h))
        if n.kind == "stmt" and isinstance(n.ast, ast.Raise):
            raises.append((n, env))
            x = n.ast.exc
            if x is None or is_ki(x) or isinstance(x, ast.Name) and x.id == h.name:
                continue
            # a raise that the interrupt cannot reach is not reported here
            bad.append("is turned into another error (%s)" % src_of(n.ast)[:60])
            continue
        out = ex.step(n, env) if n is not hn else env
        nd = node_defs(n)
        if nd & maybe_unset:
            out = dict(out)
            for v in nd & maybe_unset:
                out["$set:" + v] = T
        for s, l in n.succ:
            if l == "exc":
                continue
            o = out
            if n.kind == "cond":
                o = ex.assume(n.ast, l, env)
                if o is None:
                    continue
                if nd & maybe_unset:
                    o = dict(o)
            elif n.kind == "iter" and l is False:
                o = env
            st = (s, tuple(sorted(o.items())))
            if st not in seen:
                seen.add(st)
                work.append(st)
    for b in sorted(set(bad)):
        rep.violate("never-swallowed", "%s|%s" % (tag, b), "%s:%d a caught interrupt %s" % (f.module.rel, line, b))
    if not bad:
        rep.ok("never-swallowed", tag)
    for w in sorted(set(unsafe)):
        rep.violate("handler-cannot-fail", "%s|%s" % (tag, w), "%s:%d after an interrupt %s" % (f.module.rel, line, w))
    if not unsafe:
        rep.ok("handler-cannot-fail", tag)
    carries(repo, rep, f, cfg, ins, tr, h, tag, raises, pt)
    # inner solutions
    inner, par = set(), set()
    for s in tr.body:
        for c in ast.walk(s):
            if isinstance(c, ast.Call):
                inner |= {t for t in pt.callees(f, c) if t in payload and t is not f}
                if isinstance(c.func, ast.Name) and c.func.id in f.params and "algo" in c.func.id and not pt.callees(f, c):
                    par.add(c.func.id)
    if inner or par:
        uses = any(takes_payload(n.ast, h.name) for n, _ in seen if n.kind == "stmt")
        bare = any(isinstance(x, ast.Raise) and x.exc is None for s in h.body for x in ast.walk(s))
        names = ",".join(sorted([t.name for t in inner] + list(par)))

        def own(n, env):
            x = n.ast.exc
            if not (isinstance(x, ast.Call) and len(x.args) == 1):
                return False
            cp = copies(f, names_in(x.args[0]))
            return any(not env.get(v, ANY) & N and env.get(v) is not None and v not in maybe_unset for v in cp)
        if uses or bare:
            rep.ok("inner-solution-used", "%s uses the solution of %s" % (tag, names))
        elif raises and all(own(n, env) for n, env in raises):
            rep.ok("inner-solution-used", "%s has a complete solution of its own when %s is interrupted" % (tag, names))
        else:
            rep.violate("inner-solution-used", tag, "%s:%d the solution carried by an interrupt of %s is dropped" % (f.module.rel, line, names))


def takes_payload(stmt, name):
    """the statement passes the caught interrupt or its arguments on (not just tests them)"""
    if not name or isinstance(stmt, (ast.FunctionDef, ast.ClassDef)) or in_debug(stmt):
        return False
    for x in ast.walk(stmt):
        if not (isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)):
            continue
        g, use = x, True
        while g is not stmt:
            p = g._parent
            if isinstance(p, ast.Call) and g in p.args and isinstance(p.func, ast.Name) and p.func.id in ("type", "len", "isinstance", "print", "log", "str", "repr", "bool"):
                use = False
            if isinstance(p, (ast.Compare, ast.UnaryOp)) or isinstance(p, ast.IfExp) and p.test is g:
                use = False
            g = p
        if use:
            return True
    return False


def top_level(repo, rep, f, cfg, ex, ins, h, hn, tag, body_ids):
    """in a program: some path that an interrupt takes uses the solution the interrupt carries"""
    env0 = dict(ins.get(hn.id, {}))
    if h.name:
        env0[h.name] = T
    start = (hn, tuple(sorted(env0.items())))
    seen, work, hit = {start}, [start], False
    while work and len(seen) < 20000:
        n, et = work.pop()
        env = dict(et)
        if n is not hn and n.ast is not None and id(n.ast) in body_ids and n.kind != "dispatch":
            continue
        if n.kind == "stmt" and takes_payload(n.ast, h.name):
            hit = True
            break
        out = ex.step(n, env) if n is not hn else env
        for s, l in n.succ:
            if l == "exc":
                continue
            o = out
            if n.kind == "cond":
                o = ex.assume(n.ast, l, env)
                if o is None:
                    continue
            st = (s, tuple(sorted(o.items())))
            if st not in seen:
                seen.add(st)
                work.append(st)
    if hit:
        rep.ok("inner-solution-used", tag + " (program) takes the solution from the interrupt")
    else:
        rep.violate("inner-solution-used", tag, "%s:%d the solution carried by the interrupt is dropped" % (f.module.rel, h.lineno))


def copies(f, names):
    """names whose value is copied unchanged into one of the given names"""
    out = set(names)
    ch = True
    while ch:
        ch = False
        for n in own_walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    ps = list(zip(t.elts, n.value.elts)) if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                        len(t.elts) == len(n.value.elts) else [(t, n.value)]
                    for x, y in ps:
                        if isinstance(x, ast.Name) and x.id in out and isinstance(y, ast.Name) and y.id not in out:
                            out.add(y.id)
                            ch = True
    return out


def unsafe_uses(ex, n, env, maybe_unset, h):
    out = []
    a = n.ast if n.kind != "iterinit" else n.ast.iter
    if isinstance(a, (ast.FunctionDef, ast.ClassDef)):
        return out
    if in_debug(a):
        return out
    for x in node_uses(n):
        if x in maybe_unset and "$set:" + x not in env and not comp_local(a, x):
            out.append("'%s' may not have a value yet" % x)
    for e in ast.walk(a):
        nm = None
        if isinstance(e, (ast.Attribute, ast.Subscript)) and isinstance(e.value, ast.Name):
            nm, how = e.value.id, "accessed"
            if nm == h.name and isinstance(e, ast.Attribute) and e.attr == "args":
                p = getattr(e, "_parent", None)
                if isinstance(p, ast.Subscript) and p.value is e and not isinstance(p.slice, ast.Slice) and env.get("$args") != T and not locally_guarded(p, h.name):
                    out.append("the interrupt's solution is read without checking that there is one")
                continue
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "objf", "list", "sum", "without_empty_routes", "recalculate_objective", "sorted", "sol2routes", "routes2sol", "normalize_solution") and e.args and isinstance(e.args[0], ast.Name):
            nm, how = e.args[0].id, "passed to %s" % e.func.id
        elif isinstance(e, ast.comprehension) and isinstance(e.iter, ast.Name):
            nm, how = e.iter.id, "iterated"
        elif isinstance(e, ast.BinOp) and isinstance(e.left, ast.Name) and isinstance(e.op, (ast.Add, ast.Sub)):
            nm, how = e.left.id, "added to"
        if nm is not None and env.get(nm, ANY) & N and not guarded_inside(e, nm):
            out.append("'%s' may be None when it is %s" % (nm, how))
    if n.kind == "iterinit" and isinstance(a, ast.Name) and env.get(a.id, ANY) & N:
        out.append("'%s' may be None when it is iterated" % a.id)
    return out


def comp_local(a, x):
    return False


def in_debug(a):
    from .core import is_debug_test
    g = a
    while g is not None:
        if isinstance(g, ast.If) and is_debug_test(g.test):
            return True
        g = getattr(g, "_parent", None)
    return False


def locally_guarded(e, nm):
    g = e
    while g is not None and not isinstance(g, ast.stmt):
        p = getattr(g, "_parent", None)
        if isinstance(p, ast.IfExp) and p.body is g and nm + ".args" in src_of(p.test):
            return True
        if isinstance(p, ast.BoolOp) and isinstance(p.op, ast.And):
            i = p.values.index(g)
            if any(nm + ".args" in src_of(v) for v in p.values[:i]):
                return True
        g = p
    while g is not None:
        if isinstance(g, ast.Try) and any("IndexError" in names_in(hh.type) or "Exception" in names_in(hh.type) for hh in g.handlers if hh.type is not None):
            return True
        g = getattr(g, "_parent", None)
    return False


def guarded_inside(e, nm):
    g = e
    while g is not None and not isinstance(g, ast.stmt):
        p = getattr(g, "_parent", None)
        if isinstance(p, ast.IfExp) and g in (p.body, p.orelse) and nm in names_in(p.test):
            return True
        if isinstance(p, ast.BoolOp):
            i = p.values.index(g) if g in p.values else 0
            if any(nm in names_in(v) for v in p.values[:i]):
                return True
        g = p
    return False


def closure(f, names, depth=8):
    """names the given names are computed from (flow-insensitive)"""
    dep = {}
    for n in own_walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in _store_names(t):
                    dep.setdefault(x, set()).update(names_in(n.value))
        elif isinstance(n, ast.AugAssign):
            for x in _store_names(n.target):
                dep.setdefault(x, set()).update(names_in(n.value))
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in _store_names(n.target):
                dep.setdefault(x, set()).update(names_in(n.iter))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.attr in ("append", "extend", "add", "update", "insert", "appendleft"):
            for a in n.args:
                dep.setdefault(n.func.value.id, set()).update(names_in(a))
    out = set(names)
    work = list(names)
    while work:
        v = work.pop()
        for w in dep.get(v, ()):
            if w not in out:
                out.add(w)
                work.append(w)
    return out


def _store_names(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[_store_names(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return _store_names(t.value)
    if isinstance(t, (ast.Subscript, ast.Attribute)):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        return _store_names(t)
    return set()


def direct(f, e):
    """names e is built from through single-purpose temporaries"""
    out = set(names_in(e))
    for _ in range(4):
        more = set()
        for v in out:
            vals = [n for n in own_walk(f.node) if isinstance(n, (ast.Assign, ast.AugAssign)) and v in
                    set().union(*[_store_names(t) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])])]
            if vals and len(vals) <= 3:
                for n in vals:
                    more |= names_in(n.value)
        if more <= out:
            break
        out |= more
    return out


def carries(repo, rep, f, cfg, ins, tr, h, tag, raises, pt):
    rets = [n.value for n in own_walk(f.node) if isinstance(n, ast.Return) and n.value is not None
            and not (isinstance(n.value, ast.Constant) and n.value.value is None)]
    retnames = set().union(*[names_in(r) for r in rets]) & local_names(f) if rets else set()
    # pools of unserved customers that drive the protected search
    pools = set()
    for s in tr.body:
        for w in ast.walk(s):
            if isinstance(w, ast.While):
                for v in names_in(w.test):
                    if any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)
                           and c.func.value.id == v and c.func.attr in ("remove", "discard", "difference_update")
                           for c in ast.walk(w)):
                        pools.add(v)
    # kept best: returned name that is None until something better is found
    best = set()
    for r in rets:
        if isinstance(r, ast.Name) and r.id in local_names(f):
            vals = [n.value for n in own_walk(f.node) if isinstance(n, ast.Assign) and
                    any(r.id in _store_names(t) for t in n.targets)]
            flat = []
            for n in own_walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                            for x, y in zip(t.elts, n.value.elts):
                                if isinstance(x, ast.Name) and x.id == r.id:
                                    flat.append(y)
                        elif isinstance(t, ast.Name) and t.id == r.id:
                            flat.append(n.value)
            if any(isinstance(v, ast.Constant) and v.value is None for v in flat) and len(flat) > 1:
                best.add(r.id)
    if not raises:
        return
    done = set()
    for n, env in raises:
        x = n.ast.exc
        key = id(n.ast)
        if key in done:
            continue
        done.add(key)
        if x is None or isinstance(x, ast.Name) and x.id == h.name:
            if best and any(b in env for b in best):
                rep.violate("carries-best", "%s|re-raise" % tag, "%s:%d the interrupt is passed on without the best solution (%s)" %
                            (f.module.rel, n.ast.lineno, ",".join(sorted(best))))
            else:
                rep.ok("carries-best", tag + " passed on unchanged")
            continue
        if not is_ki(x):
            continue
        if not isinstance(x, ast.Call) or len(x.args) != 1 or isinstance(x.args[0], ast.Constant):
            rep.violate("carries-best", "%s|%s" % (tag, src_of(x)), "%s:%d the interrupt is raised again without a solution" %
                        (f.module.rel, n.ast.lineno))
            continue
        arg = x.args[0]
        have = direct(f, arg) | names_in(arg)
        have_in = {v.split("$")[0] for v in have}
        # inlined helper: the raise is in another function, look through its parameter bindings
        have_in |= inlined_names(cfg, have)
        kept = {b for b in best if b in env}
        if kept and not (kept & have_in):
            rep.violate("carries-best", "%s|%s" % (tag, src_of(arg)),
                        "%s:%d the interrupt carries %s although the best solution so far is kept in %s" %
                        (f.module.rel, n.ast.lineno, src_of(arg), ",".join(sorted(kept))))
            continue
        if retnames and not kept:
            cl_ret = closure(f, retnames)
            if not (closure(f, have_in) & retnames) and not (have_in & cl_ret):
                rep.violate("carries-best", "%s|%s" % (tag, src_of(arg)),
                            "%s:%d the interrupt carries %s, which has nothing of the solution being built (%s)" %
                            (f.module.rel, n.ast.lineno, src_of(arg), ",".join(sorted(retnames))))
                continue
        hc = closure(f, have_in)
        lost = [p for p in pools if p not in handler_closure(f, h, arg)]
        if lost:
            rep.violate("carries-best", "%s|%s|%s" % (tag, src_of(arg), ",".join(lost)),
                        "%s:%d the interrupted solution leaves out the customers still in %s" %
                        (f.module.rel, n.ast.lineno, ",".join(lost)))
            continue
        rep.ok("carries-best", "%s raises with %s" % (tag, src_of(arg)))


def inlined_names(cfg, have):
    out = set()
    m = {}
    for n in cfg.nodes:
        if n.kind == "stmt" and isinstance(n.ast, ast.Assign) and isinstance(n.ast.targets[0], ast.Name) and "$" in n.ast.targets[0].id:
            m.setdefault(n.ast.targets[0].id, set()).update(names_in(n.ast.value))
    work = list(have)
    seen = set(work)
    while work:
        v = work.pop()
        for w in m.get(v, ()):
            if w not in seen:
                seen.add(w)
                work.append(w)
                out.add(w)
    return out


def handler_closure(f, h, arg):
    """names feeding arg through the statements of the handler (or after it)"""
    names = set(names_in(arg))
    ch = True
    while ch:
        ch = False
        for n in own_walk(f.node):
            if getattr(n, "lineno", 0) < h.lineno:
                continue
            src, dst = None, set()
            if isinstance(n, ast.Assign):
                dst = set().union(*[_store_names(t) for t in n.targets])
                src = n.value
            elif isinstance(n, ast.AugAssign):
                dst, src = _store_names(n.target), n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                dst = {n.func.value.id}
                src = ast.Tuple(elts=list(n.args), ctx=ast.Load())
            elif isinstance(n, ast.For):
                dst, src = _store_names(n.target), n.iter
            if src is not None and dst & names:
                more = names_in(src) - names
                if more:
                    names |= more
                    ch = True
    return names


def suppression(repo, rep, f):
    for n in own_walk(f.node):
        if isinstance(n, ast.Try) and n.finalbody:
            def go(s, inloop):
                if isinstance(s, ast.Return):
                    return "return"
                if isinstance(s, (ast.Break, ast.Continue)) and not inloop:
                    return type(s).__name__.lower()
                if isinstance(s, (ast.FunctionDef, ast.Lambda)):
                    return None
                for c in ast.iter_child_nodes(s):
                    w = go(c, inloop or isinstance(s, (ast.For, ast.While)))
                    if w:
                        return w
                return None
            w = next((go(s, False) for s in n.finalbody if go(s, False)), None)
            if w:
                rep.violate("no-suppression", "%s|finally %s" % (f.where, w),
                            "%s:%d '%s' in finally drops a pending interrupt" % (f.module.rel, n.lineno, w))
            else:
                rep.ok("no-suppression", "%s finally at %d" % (f.where, n.lineno))
        elif isinstance(n, ast.Call):
            r = repo.callee(f, n)
            d = r[1] if isinstance(r, tuple) and r[0] == "ext" else ""
            if d.endswith("contextlib.suppress") or d == "contextlib.suppress":
                if any(is_ki(a) or src_of(a) == "BaseException" for a in n.args):
                    rep.violate("no-suppression", "%s|suppress" % f.where, "%s:%d suppress() swallows interrupts" % (f.module.rel, n.lineno))
            elif d == "signal.signal" and n.args and src_of(n.args[0]).endswith("SIGINT"):
                if len(n.args) > 1 and not src_of(n.args[1]).endswith("default_int_handler"):
                    rep.violate("no-suppression", "%s|%s" % (f.where, src_of(n)), "%s:%d interrupts are redirected: %s" % (f.module.rel, n.lineno, src_of(n)))
                else:
                    rep.ok("no-suppression", "%s %s" % (f.where, src_of(n)))
    # solver statuses
    opts = [c for c in own_walk(f.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "optimize"
            and not (isinstance(repo.callee(f, c), Func))]
    if opts:
        good = False
        for n in own_walk(f.node):
            if isinstance(n, ast.If) and "INTERRUPTED" in src_of(n.test):
                neg = isinstance(n.test, ast.UnaryOp) or any(isinstance(o, ast.NotEq) for c in ast.walk(n.test) if isinstance(c, ast.Compare) for o in c.ops)
                body = n.orelse if neg else n.body
                if any(isinstance(x, ast.Raise) and x.exc is not None and is_ki(x.exc) for s in body for x in ast.walk(s)):
                    good = True
        if good:
            rep.ok("no-suppression", "%s raises KeyboardInterrupt for an interrupted optimisation" % f.where)
        else:
            helper = any(isinstance(repo.callee(f, c), Func) and any(isinstance(x, ast.Raise) and x.exc is not None and is_ki(x.exc)
                         for x in own_walk(repo.callee(f, c).node)) and "INTERRUPTED" in src_of(repo.callee(f, c).node)
                         for c in own_walk(f.node) if isinstance(c, ast.Call))
            if helper:
                rep.ok("no-suppression", "%s leaves the status check to a helper" % f.where)
            else:
                rep.violate("no-suppression", "%s|optimize" % f.where,
                            "%s:%d an interrupted optimisation is not reported as KeyboardInterrupt" % (f.module.rel, opts[0].lineno))
