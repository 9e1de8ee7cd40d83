"""Control flow graphs over Python statements with short-circuit decomposition,
exception edges, duplicated finally bodies and CFG-level inlining of helpers."""
import ast, copy, itertools
from .core import Func, bind_args, own_walk


class Node:
    __slots__ = ("id", "kind", "ast", "succ", "pred", "func", "depth", "info")

    def __init__(self, id, kind, a=None, func=None, depth=0, info=None):
        self.id, self.kind, self.ast, self.func, self.depth, self.info = id, kind, a, func, depth, info
        self.succ = []     # (node, label)  label in None/True/False/'exc'
        self.pred = []

    def __repr__(self):
        s = ""
        if self.ast is not None:
            try:
                s = ast.unparse(self.ast).split("\n")[0][:60]
            except Exception:
                s = type(self.ast).__name__
        return "<%d %s %s>" % (self.id, self.kind, s)


class Ctx:
    __slots__ = ("brk", "cont", "ret", "exc", "retvar")

    def __init__(self, brk=None, cont=None, ret=None, exc=None, retvar=None):
        self.brk, self.cont, self.ret, self.exc, self.retvar = brk, cont, ret, exc, retvar

    def but(self, **kw):
        c = Ctx(self.brk, self.cont, self.ret, self.exc, self.retvar)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class _Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(id=self.m[n.id], ctx=n.ctx), n)
        return n

    def visit_FunctionDef(self, n):
        n.name = self.m.get(n.name, n.name)
        self.generic_visit(n)
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.m:
            n.name = self.m[n.name]
        self.generic_visit(n)
        return n

    def visit_Lambda(self, n):
        inner = {a.arg for a in n.args.args}
        sub = _Rename({k: v for k, v in self.m.items() if k not in inner})
        n.body = sub.visit(n.body)
        return n


class CFG:
    """kinds: entry exit raise stmt cond iter handler bind ret"""

    def __init__(self, func, repo=None, inline=None, max_depth=3, debug_off=False):
        self.func, self.repo = func, repo
        self.inline = inline          # callable(callee Func, call, depth) -> bool
        self.max_depth = max_depth
        self.debug_off = debug_off    # analyse as under -O: skip `if __debug__` bodies and asserts
        self.nodes = []
        self.inlined = []             # (callee.where)
        self._ctr = itertools.count()
        self.exit = self._new("exit")
        self.raise_exit = self._new("raise")
        self._stack = [func]
        self._cur_func = func
        self._depth = 0
        ctx = Ctx(ret=self.exit, exc=self.raise_exit)
        first = self.build(func.node.body, self.exit, ctx)
        self.entry = self._new("entry")
        self._edge(self.entry, first)
        self._prune()

    # -- construction ---------------------------------------------------
    def _new(self, kind, a=None, info=None):
        n = Node(len(self.nodes), kind, a, getattr(self, "_cur_func", None), getattr(self, "_depth", 0), info)
        self.nodes.append(n)
        return n

    def _edge(self, a, b, label=None):
        a.succ.append((b, label))

    def _prune(self):
        seen = set()
        st = [self.entry]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            for s, _ in n.succ:
                st.append(s)
        self.nodes = [n for n in self.nodes if n.id in seen or n in (self.exit, self.raise_exit)]
        for n in self.nodes:
            n.pred = []
        for n in self.nodes:
            for s, l in n.succ:
                s.pred.append((n, l))

    def build(self, stmts, nxt, ctx):
        for s in reversed(stmts):
            nxt = self.stmt(s, nxt, ctx)
        return nxt

    def _may_raise(self, e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Raise, ast.Assert,
                              ast.Import, ast.ImportFrom, ast.Yield)):
                return True
        return False

    def _stmt_node(self, s, nxt, ctx, kind="stmt"):
        n = self._new(kind, s)
        self._edge(n, nxt)
        if ctx.exc is not None and self._may_raise(s):
            self._edge(n, ctx.exc, "exc")
        return self._with_inlines(s, n, ctx)

    # hoist inlinable calls in the expressions evaluated by node n
    def _with_inlines(self, s, n, ctx):
        if self.inline is None or self._depth >= self.max_depth:
            return n
        calls = []

        def find(e):
            if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp,
                              ast.FunctionDef, ast.ClassDef)):
                return
            if isinstance(e, ast.IfExp):
                find(e.test)
                return
            if isinstance(e, ast.BoolOp):
                find(e.values[0])
                return
            for c in ast.iter_child_nodes(e):
                find(c)
            if isinstance(e, ast.Call):
                t = self.repo.callee(self._cur_func, e)
                if isinstance(t, Func) and t not in self._stack and not getattr(e, "_noinline", False) \
                        and self.inline(t, e, self._depth):
                    m, ok = bind_args(t, e, skip_self=(t.cls is not None and isinstance(e.func, ast.Attribute)
                                                       and "staticmethod" not in [getattr(d, "id", "") for d in t.node.decorator_list]))
                    if ok and t.vararg is None and t.kwarg is None and not any(
                            isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_walk(t.node)):
                        calls.append((e, t, m))
        find(s)
        if not calls:
            return n
        # replace calls by temps in a copy of the statement
        tmp = {}
        for e, t, m in calls:
            tmp[id(e)] = "$ret%d" % next(self._ctr)
        s2 = _copy_replace(s, tmp)
        n.ast = s2
        if not self._may_raise(s2):
            n.succ = [(m, l) for m, l in n.succ if l != "exc"]
        entry = n
        for e, t, m in reversed(calls):
            entry = self._inline_call(e, t, m, tmp, entry, ctx)
        return entry

    def _inline_call(self, e, t, m, tmp, nxt, ctx):
        k = next(self._ctr)
        from .core import local_names
        ren = {v: "%s$%d" % (v, k) for v in local_names(t)}
        body = [_Rename(ren).visit(_copy_replace(x, {})) for x in t.node.body]
        retvar = tmp[id(e)]
        self.inlined.append(t.where)
        self._stack.append(t)
        oldf, self._cur_func = self._cur_func, t
        self._depth += 1
        inner = Ctx(ret=nxt, exc=ctx.exc, retvar=retvar)
        fall = self._new("stmt", _assign(retvar, ast.Constant(value=None), e))
        self._edge(fall, nxt)
        first = self.build(body, fall, inner)
        self._depth -= 1
        self._cur_func = oldf
        self._stack.pop()
        for p in reversed(t.params):
            if p in m:
                v = _copy_replace(m[p], tmp)
            elif p in t.defaults:
                v = copy.copy(t.defaults[p])
                v = _copy_replace(v, {})
            else:
                v = ast.Constant(value=None)
            b = self._new("stmt", _assign(ren.get(p, p), v, e))
            self._edge(b, first)
            first = b
        return first

    def cond(self, test, t, f, ctx):
        """Return the entry node of the evaluation of `test`."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.cond(test.operand, f, t, ctx)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                for v in reversed(test.values):
                    t = self.cond(v, t, f, ctx)
                return t
            for v in reversed(test.values):
                f = self.cond(v, t, f, ctx)
            return f
        if isinstance(test, ast.Constant):
            return t if test.value else f
        if isinstance(test, ast.Name) and test.id == "__debug__" and self.debug_off:
            return f
        n = self._new("cond", test)
        self._edge(n, t, True)
        self._edge(n, f, False)
        if ctx.exc is not None and self._may_raise(test):
            self._edge(n, ctx.exc, "exc")
        return self._with_inlines(test, n, ctx)

    def stmt(self, s, nxt, ctx):
        if isinstance(s, ast.If):
            return self.cond(s.test, self.build(s.body, nxt, ctx), self.build(s.orelse, nxt, ctx), ctx)
        if isinstance(s, ast.While):
            head = self._new("loop", s)
            orelse = self.build(s.orelse, nxt, ctx)
            n0 = len(self.nodes)
            body = self.build(s.body, head, ctx.but(brk=nxt, cont=head))
            c = self.cond(s.test, body, orelse, ctx)
            head.info = (n0, len(self.nodes))       # ids of the nodes of the loop
            self._edge(head, c)
            return head
        if isinstance(s, (ast.For, ast.AsyncFor)):
            head = self._new("iter", s)
            orelse = self.build(s.orelse, nxt, ctx)
            n0 = len(self.nodes)
            body = self.build(s.body, head, ctx.but(brk=nxt, cont=head))
            head.info = (n0, len(self.nodes))
            self._edge(head, body, True)
            self._edge(head, orelse, False)
            if ctx.exc is not None:
                self._edge(head, ctx.exc, "exc")
            pre = self._new("iterinit", s)     # evaluation of the iterable
            self._edge(pre, head)
            if ctx.exc is not None and self._may_raise(s.iter):
                self._edge(pre, ctx.exc, "exc")
            return pre
        if isinstance(s, ast.Return):
            if ctx.retvar is not None:
                v = s.value if s.value is not None else ast.Constant(value=None)
                n = self._new("stmt", _assign(ctx.retvar, v, s))
            else:
                n = self._new("ret", s)
            self._edge(n, ctx.ret)
            if ctx.exc is not None and s.value is not None and self._may_raise(s.value):
                self._edge(n, ctx.exc, "exc")
            return self._with_inlines(n.ast, n, ctx)
        if isinstance(s, ast.Break):
            n = self._new("stmt", s)
            self._edge(n, ctx.brk)
            return n
        if isinstance(s, ast.Continue):
            n = self._new("stmt", s)
            self._edge(n, ctx.cont)
            return n
        if isinstance(s, ast.Raise):
            n = self._new("stmt", s)
            self._edge(n, ctx.exc, "exc")
            return n
        if isinstance(s, (ast.With, ast.AsyncWith)):
            body = self.build(s.body, nxt, ctx)
            for it in reversed(s.items):
                n = self._new("stmt", ast.copy_location(ast.Assign(targets=[it.optional_vars], value=it.context_expr), s)
                              if it.optional_vars is not None else ast.copy_location(ast.Expr(value=it.context_expr), s))
                self._edge(n, body)
                if ctx.exc is not None:
                    self._edge(n, ctx.exc, "exc")
                body = self._with_inlines(n.ast, n, ctx)
            return body
        if isinstance(s, ast.Try):
            outer = ctx
            if s.finalbody:
                cache = {}

                def fin(target):
                    if target is None:
                        return None
                    if target.id not in cache:
                        cache[target.id] = self.build(s.finalbody, target, outer)
                    return cache[target.id]
                nxt2 = fin(nxt)
                inner = Ctx(fin(ctx.brk), fin(ctx.cont), fin(ctx.ret), fin(ctx.exc), ctx.retvar)
            else:
                nxt2, inner = nxt, ctx
            if s.handlers:
                disp = self._new("dispatch", s)
                for h in s.handlers:
                    hn = self._new("handler", h)
                    self._edge(hn, self.build(h.body, nxt2, inner))
                    self._edge(disp, hn, h)
                if not any(_catches_all(h) for h in s.handlers):
                    self._edge(disp, inner.exc, "exc")
                bctx = inner.but(exc=disp)
            else:
                bctx = inner
            after = self.build(s.orelse, nxt2, inner) if s.orelse else nxt2
            return self.build(s.body, after, bctx)
        if isinstance(s, ast.Assert):
            if self.debug_off:
                return nxt
            n = self._new("stmt", s)
            self._edge(n, nxt)
            self._edge(n, ctx.exc, "exc")
            return n
        if isinstance(s, ast.Pass):
            return nxt
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return nxt
        return self._stmt_node(s, nxt, ctx)


def _catches_all(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(t, ast.Name) and t.id == "BaseException" for t in ts)


def _assign(name, value, at):
    a = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=value)
    for n in ast.walk(a):
        if not hasattr(n, "lineno"):
            n.lineno = getattr(at, "lineno", 0)
            n.col_offset = getattr(at, "col_offset", 0)
            n.end_lineno = n.lineno
            n.end_col_offset = n.col_offset
    a.lineno = getattr(at, "lineno", 0)
    return a


def _copy_replace(n, tmp):
    """Shallow structural copy of an AST with Call nodes in tmp replaced."""
    if id(n) in tmp:
        return ast.copy_location(ast.Name(id=tmp[id(n)], ctx=ast.Load()), n)
    if not isinstance(n, ast.AST):
        return n
    new = type(n)()
    if hasattr(n, "_func"):
        new._func = n._func
    for f in n._fields:
        v = getattr(n, f, None)
        if isinstance(v, list):
            v = [_copy_replace(x, tmp) if isinstance(x, ast.AST) else x for x in v]
        elif isinstance(v, ast.AST):
            v = _copy_replace(v, tmp)
        setattr(new, f, v)
    for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
        if hasattr(n, a):
            setattr(new, a, getattr(n, a))
    return new


# ---------------------------------------------------------------- dataflow

def node_defs(n):
    """Names (strongly) assigned by a CFG node."""
    a = n.ast
    out = set()
    if a is None:
        return out
    if n.kind == "handler":
        if a.name:
            out.add(a.name)
        return out
    if n.kind == "iter":
        return _tnames(a.target)
    if n.kind in ("cond", "iterinit", "loop", "dispatch"):
        es = [a] if n.kind == "cond" else ([a.iter] if n.kind == "iterinit" else [])
    else:
        es = [a]
    for e in es:
        if isinstance(e, ast.Assign):
            for t in e.targets:
                out |= _tnames(t)
        elif isinstance(e, ast.AugAssign):
            out |= _tnames(e.target)
        elif isinstance(e, ast.AnnAssign) and e.value is not None:
            out |= _tnames(e.target)
        elif isinstance(e, (ast.FunctionDef, ast.ClassDef)):
            out.add(e.name)
        elif isinstance(e, (ast.Import, ast.ImportFrom)):
            for x in e.names:
                out.add((x.asname or x.name).split(".")[0])
        elif isinstance(e, ast.Delete):
            for t in e.targets:
                out |= _tnames(t)
        for w in ast.walk(e):
            if isinstance(w, ast.NamedExpr):
                out.add(w.target.id)
    return out


def _tnames(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        s = set()
        for x in t.elts:
            s |= _tnames(x)
        return s
    if isinstance(t, ast.Starred):
        return _tnames(t.value)
    return set()


def _free_loads(e):
    """Names loaded by e, incl. inside lambdas/comprehensions (minus their bound)."""
    out = set()

    def go(x, bound):
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, ast.Load) and x.id not in bound:
                out.add(x.id)
            return
        if isinstance(x, ast.Lambda):
            b = bound | {a.arg for a in x.args.args + x.args.kwonlyargs}
            for d in x.args.defaults:
                go(d, bound)
            go(x.body, b)
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for g in x.generators:
                go(g.iter, b)
                b |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for i in g.ifs:
                    go(i, b)
            if isinstance(x, ast.DictComp):
                go(x.key, b)
                go(x.value, b)
            else:
                go(x.elt, b)
            return
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = getattr(x, "_func", None)
            if f is not None:
                from .core import local_names
                b = bound | local_names(f)
            else:
                b = bound | {a.arg for a in x.args.args} | {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for s in x.body:
                go(s, b)
            for d in x.args.defaults:
                go(d, bound)
            return
        for c in ast.iter_child_nodes(x):
            go(c, bound)
    go(e, frozenset())
    return out


def node_uses(n):
    a = n.ast
    if a is None or n.kind in ("loop", "dispatch"):
        return set()
    if n.kind == "handler":
        return _free_loads(a.type) if a.type is not None else set()
    if n.kind == "iter":
        return set()
    if n.kind == "iterinit":
        return _free_loads(a.iter)
    if isinstance(a, ast.AugAssign):
        u = _free_loads(a)
        if isinstance(a.target, ast.Name):
            u.add(a.target.id)
        return u
    return _free_loads(a)


def liveness(cfg):
    """live-in per node id."""
    live = {n.id: set() for n in cfg.nodes}
    uses = {n.id: node_uses(n) for n in cfg.nodes}
    defs = {n.id: node_defs(n) for n in cfg.nodes}
    work = list(cfg.nodes)
    inq = {n.id for n in work}
    while work:
        n = work.pop()
        inq.discard(n.id)
        out = set()
        for s, lab in n.succ:
            out |= live.get(s.id, set())
        if n.kind == "iter":
            new = out - set()       # target defined only on True edge; keep conservative
            tdef = defs[n.id]
            o = set()
            for s, lab in n.succ:
                o |= (live.get(s.id, set()) - tdef) if lab is True else live.get(s.id, set())
            new = o
        else:
            exc = set()
            for s, lab in n.succ:
                if lab == "exc":          # the assignment has not happened on this edge
                    exc |= live.get(s.id, set())
            new = uses[n.id] | (out - defs[n.id]) | exc
        if new != live[n.id]:
            live[n.id] = new
            for p, _ in n.pred:
                if p.id not in inq:
                    inq.add(p.id)
                    work.append(p)
    return live


def reachable(start, stop=lambda n: False, labels=None, skip_exc=False):
    """Set of node ids reachable from start's successors (start excluded unless in a cycle)."""
    seen, st = set(), [s for s, l in start.succ if not (skip_exc and l == "exc")]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if stop(n):
            continue
        for s, l in n.succ:
            if skip_exc and l == "exc":
                continue
            st.append(s)
    return seen


def dominators(cfg, skip_exc=False):
    ids = [n.id for n in cfg.nodes]
    full = set(ids)
    dom = {i: set(full) for i in ids}
    dom[cfg.entry.id] = {cfg.entry.id}
    changed = True
    order = _rpo(cfg)
    while changed:
        changed = False
        for n in order:
            if n is cfg.entry:
                continue
            ps = [p for p, l in n.pred if not (skip_exc and l == "exc")]
            if not ps:
                continue
            new = set.intersection(*[dom[p.id] for p in ps]) | {n.id}
            if new != dom[n.id]:
                dom[n.id] = new
                changed = True
    return dom


def _rpo(cfg):
    seen, out = set(), []
    st = [(cfg.entry, 0)]
    seen.add(cfg.entry.id)
    while st:
        n, i = st.pop()
        if i < len(n.succ):
            st.append((n, i + 1))
            s = n.succ[i][0]
            if s.id not in seen:
                seen.add(s.id)
                st.append((s, 0))
        else:
            out.append(n)
    return out[::-1]
