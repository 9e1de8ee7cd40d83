"""Interprocedural may-mutate analysis: which parameters can a function change
in place?  Flow-sensitive alias analysis over the CFG with function summaries."""
import ast
from .core import Func, ClassInfo, bind_args, own_walk, calls_in, local_names, src_of
from .cfg import CFG, _tnames
from .pointsto import PointsTo

MUT_METHODS = {"append", "extend", "insert", "remove", "pop", "popleft", "appendleft", "clear", "sort",
               "reverse", "update", "add", "discard", "difference_update", "intersection_update",
               "symmetric_difference_update", "setdefault", "popitem", "fill", "itemset", "rotate",
               "extendleft", "resize", "put", "__setitem__", "__delitem__"}
EXT_MUT = {  # external functions that change argument k in place
    "numpy.fill_diagonal": 0, "random.shuffle": 0, "numpy.random.shuffle": 0, "heapq.heappush": 0,
    "heapq.heappop": 0, "heapq.heapify": 0, "heapq.heapreplace": 0, "heapq.heappushpop": 0,
    "numpy.put": 0, "numpy.copyto": 0, "numpy.place": 0, "bisect.insort": 0, "operator.setitem": 0,
    "builtins.setattr": 0, "builtins.delattr": 0,
}
ELEMWISE = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted", "builtins.enumerate",
            "builtins.zip", "builtins.reversed", "builtins.iter", "builtins.map", "builtins.filter",
            "builtins.dict", "builtins.frozenset", "collections.deque", "itertools.permutations",
            "itertools.combinations", "itertools.product", "itertools.chain", "itertools.islice",
            "copy.copy", "builtins.list.copy", "itertools.cycle", "itertools.groupby"}
PICK = {"builtins.min", "builtins.max", "builtins.next", "random.choice"}
ALIAS = {"numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.transpose", "numpy.squeeze", "numpy.atleast_2d"}
FRESH = (frozenset(), frozenset())
MAXD = 4
ATTR = "attribute store: "


def elem(v, by=1):
    """value of an element of v: origins are (param, access depth)."""
    s = frozenset((p, k + by) for p, k in v[0] if k + by < levels(p))
    return (s | v[1], frozenset())


def _noarr(v):
    """Plain numeric arrays/lists have no attributes of their own: an object whose
    attribute is accessed is not one of them."""
    na = ("D", "D_c", "d", "demands", "W")
    return (frozenset(x for x in v[0] if x[0].split("$")[0] not in na),
            frozenset(x for x in v[1] if x[0].split("$")[0] not in na))


def levels(p):
    """Number of container levels a parameter of this (documented) name has."""
    b = p.split("$")[0]
    if b in ("D", "D_c", "W"):
        return 2
    if b in ("d", "demands", "route", "nodes", "ls_ops", "giant_tour") or b.endswith(("_nodes", "_idxs", "_idx")):
        return 1
    if b in ("C", "L", "st", "N", "K", "i", "j", "k", "n"):
        return 0
    return 3


def _j(a, b):
    if a == b:
        return a
    return (a[0] | b[0], a[1] | b[1])


def _noraise(n):
    """Plain copies of names/constants (argument binding) cannot fail."""
    return n.kind == "stmt" and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, (ast.Name, ast.Constant)) \
        and all(isinstance(t, ast.Name) for t in n.ast.targets)


class Effects:
    """mut[f] : {param: [(file loc, description, node)]}"""

    def __init__(self, repo, pt=None):
        self.repo = repo
        self.pt = pt or PointsTo(repo)
        self.mut = {}
        self.ret = {}
        self.funcs = list(repo.all_functions())
        self.cfgs = {}
        self.sites = {}
        self.meth = {}
        self.restored = {}
        # fields that a route record fills lazily from its own route
        self.cache_fields = set()
        for q in ("RouteData.update_auxiliary_data", "RouteData.update_node_set"):
            m = repo.modules.get("verypy.routedata")
            g = m.functions.get(q) if m else None
            for n in ast.walk(g.node) if g else ():
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.cache_fields.add(n.attr)
        for f in self.funcs:
            if f.cls is not None:
                self.meth.setdefault(f.name, []).append(f)
        for f in self.funcs:
            self.mut[f] = {}
            self.ret[f] = FRESH
        work = True
        rounds = 0
        while work and rounds < 15:
            work = False
            rounds += 1
            for f in self.funcs:
                m, r = self._analyse(f)
                if {(p,k[0]) for p in m for k in m[p]} != {(p,k[0]) for p in self.mut[f] for k in self.mut[f][p]} or r != self.ret[f]:
                    work = True
                self.mut[f], self.ret[f] = m, r
        self.rounds = rounds

    # -- per function ------------------------------------------------------
    def free_vars(self, f):
        """Free variables of a nested function that are locals of an enclosing one."""
        c = getattr(f, "_free", None)
        if c is not None:
            return c
        out = set()
        g = f.parent
        mine = local_names(f)
        enc = set()
        while g is not None:
            enc |= local_names(g)
            g = g.parent
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id not in mine and n.id in enc:
                out.add(n.id)
        f._free = out
        return out

    def _analyse(self, f):
        if f not in self.cfgs:
            self.cfgs[f] = CFG(f, self.repo)
        cfg = self.cfgs[f]
        init = {}
        sc = self._scalars(f)
        for p in f.params + [x for x in (f.vararg, f.kwarg) if x]:
            init[p] = (frozenset([(p, 0)]) if levels(p) and p not in sc else frozenset(), frozenset())
        for p in self.free_vars(f):
            init[p] = (frozenset([(p, 0)]) if levels(p) else frozenset(), frozenset())
        muts = {}
        states = {cfg.entry.id: init}
        work = [cfg.entry]
        ret = FRESH
        self.cur = f
        self.sites_cur = {}
        while work:
            n = work.pop()
            st = states.get(n.id)
            if st is None:
                continue
            out = dict(st)
            r = self._transfer(f, n, out, muts)
            if r is not None:
                ret = _j(ret, r)
            for s, lab in n.succ:
                o = out
                if n.kind == "iter" and lab is True:
                    o = dict(out)
                    v = self.val(f, n.ast.iter, st, muts)
                    self._bind(n.ast.target, elem(v), o)
                old = states.get(s.id)
                if old is None:
                    states[s.id] = dict(o)
                    work.append(s)
                else:
                    ch = False
                    for k, v in o.items():
                        if k not in old:
                            old[k] = v
                            ch = True
                        else:
                            nv = _j(old[k], v)
                            if nv != old[k]:
                                old[k] = nv
                                ch = True
                    if ch:
                        work.append(s)
        for p in list(muts):
            if self._restored(f, cfg, p, muts[p]):
                self.restored.setdefault(f, set()).add(p)
                del muts[p]
        # keep parameters only
        ps = set(f.params) | self.free_vars(f) | {f.vararg, f.kwarg}
        muts = {p: v for p, v in muts.items() if p in ps}
        return muts, ret

    def _scalars(self, f):
        """Parameters used as an index or in arithmetic and never as a container."""
        c = getattr(f, "_scal", None)
        if c is not None:
            return c
        idx, cont = set(), set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript):
                if isinstance(n.value, ast.Name):
                    cont.add(n.value.id)
                if not isinstance(n.slice, ast.Slice):
                    for x in (n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]):
                        if isinstance(x, ast.Name):
                            idx.add(x.id)
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                cont.add(n.iter.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                cont.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "list", "set", "tuple", "enumerate", "zip"):
                cont |= {a.id for a in n.args if isinstance(a, ast.Name)}
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                cont.add(n.id)
        f._scal = {p for p in f.params if p in idx and p not in cont}
        return f._scal

    def _restored(self, f, cfg, p, sites):
        """Every in-place change of p is a temporary element store that is undone
        (by storing back a value read from the same cell) on every path out.
        Small helpers are looked into by inlining them into the graph."""
        if all(isinstance(x, ast.Subscript) for x in sites.values()):
            pass
        elif any(isinstance(x, ast.Call) for x in sites.values()):
            def want(t, call, depth):
                return t.module is f.module and t.cls is None and bool(self.mut.get(t)) and t is not f
            cfg = CFG(f, self.repo, inline=want, max_depth=2)
            if not cfg.inlined:
                return False
        else:
            return False
        # aliases introduced by inlining / plain copies
        defs = {}
        for n in cfg.nodes:
            if n.kind == "stmt" and isinstance(n.ast, ast.Assign):
                for t in n.ast.targets:
                    for nm in _tnames(t):
                        defs.setdefault(nm, []).append((t, n.ast.value))
            elif n.kind == "iter":
                for nm in _tnames(n.ast.target):
                    defs.setdefault(nm, []).append((None, None))

        def root(nm, k=0):
            ds = defs.get(nm, [])
            if k < 8 and ds and nm not in f.params and all(
                    isinstance(t, ast.Name) and isinstance(v, ast.Name) for t, v in ds) and len({v.id for _, v in ds}) == 1:
                return root(ds[0][1].id, k + 1)
            return nm

        def canon(e):
            if isinstance(e, ast.Slice):
                return "slice"
            x = ast.parse(src_of(e).replace("$", "_S_"), mode="eval").body
            for w in ast.walk(x):
                if isinstance(w, ast.Name):
                    w.id = root(w.id.replace("_S_", "$")).replace("$", "_S_")
            return src_of(x)

        def key(sub):
            sl = sub.slice
            if isinstance(sl, ast.Tuple):
                return frozenset(canon(x) for x in sl.elts)
            return frozenset([canon(sl)])

        def is_p(sub):
            return isinstance(sub, ast.Subscript) and isinstance(sub.value, ast.Name) and root(sub.value.id) == p
        stores, saved, seen_calls = [], {}, False
        for n in cfg.nodes:
            a = n.ast
            if n.kind != "stmt" or not isinstance(a, ast.Assign):
                continue
            for t in a.targets:
                if is_p(t):
                    stores.append((n, t))
            if len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and is_p(a.value):
                saved.setdefault(a.targets[0].id, set()).add(key(a.value))
        if not stores:
            return False
        # anything else that still changes p (calls that were not inlined)?
        nst = {(getattr(t, "lineno", 0)) for _, t in stores}
        for x in sites.values():
            if isinstance(x, ast.Call):
                tgts = self.pt.callees(f, x)
                if not all(t.where in cfg.inlined for t in tgts):
                    return False
            elif getattr(x, "lineno", 0) not in nst:
                return False
        restoring, changing = [], []
        for n, t in stores:
            v = n.ast.value
            nm = root(v.id) if isinstance(v, ast.Name) else None
            cell = [canon(x) for x in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice])]
            if nm is not None and saved.get(nm) == {key(t)}:
                restoring.append((n, cell))
            else:
                changing.append((n, cell))
        if not restoring:
            return False
        sids = {n.id for n, _ in stores}
        for n, cell in changing:
            good = {m.id for m, x in restoring if x == cell}
            seen, stk = set(), [s for s, l in n.succ if l != "exc"]
            while stk:
                m = stk.pop()
                if m.id in seen or m.id in good:
                    continue
                seen.add(m.id)
                if m in (cfg.exit, cfg.raise_exit):
                    return False
                for s, l in m.succ:
                    if l == "exc" and (m.id in sids or _noraise(m)):
                        continue
                    stk.append(s)
        return True

    def _bind(self, t, v, st):
        if isinstance(t, ast.Name):
            st[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self._bind(x, elem(v), st)
        elif isinstance(t, ast.Starred):
            self._bind(t.value, v, st)

    def _mutate(self, f, v, node, what, muts):
        for p, k in v[0]:
            muts.setdefault(p, {})[(k, getattr(node, "lineno", 0), what)] = node

    def _transfer(self, f, n, st, muts):
        a = n.ast
        if a is None or n.kind in ("loop", "dispatch"):
            return None
        if n.kind == "iterinit":
            self.val(f, a.iter, st, muts)
            return None
        if n.kind == "iter":
            return None
        if n.kind == "handler":
            if a.name:
                st[a.name] = FRESH
            return None
        if n.kind == "cond":
            self.val(f, a, st, muts)
            return None
        if isinstance(a, ast.Return):
            return self.val(f, a.value, st, muts) if a.value is not None else None
        if isinstance(a, ast.Assign):
            v = self.val(f, a.value, st, muts)
            for t in a.targets:
                self._store(f, t, v, a.value, st, muts)
        elif isinstance(a, ast.AnnAssign):
            if a.value is not None:
                self._store(f, a.target, self.val(f, a.value, st, muts), a.value, st, muts)
        elif isinstance(a, ast.AugAssign):
            v = self.val(f, a.value, st, muts)
            if isinstance(a.target, ast.Name):
                old = st.get(a.target.id, FRESH)
                if old[0] and self._inplace_aug(f, a, old):
                    self._mutate(f, old, a, src_of(a), muts)
                    st[a.target.id] = (old[0], old[1] | v[1])
                elif not self._inplace_aug(f, a, old):
                    st[a.target.id] = FRESH if not v[1] else (frozenset(), v[1] | old[1])
                else:
                    st[a.target.id] = (old[0], old[1] | v[1])
            else:
                self._store(f, a.target, v, a.value, st, muts)
        elif isinstance(a, ast.Delete):
            for t in a.targets:
                if isinstance(t, ast.Subscript):
                    self._mutate(f, self.val(f, t.value, st, muts), a, src_of(a), muts)
        elif isinstance(a, ast.FunctionDef):
            st[a.name] = FRESH
        else:
            for e in ast.iter_child_nodes(a):
                if isinstance(e, ast.expr):
                    self.val(f, e, st, muts)
        return None

    def _listish(self, e):
        return isinstance(e, (ast.List, ast.ListComp, ast.Tuple)) or \
            (isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice)) or \
            (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "sorted", "tuple", "set")) or \
            (isinstance(e, ast.BinOp) and (self._listish(e.left) or self._listish(e.right)))

    def _inplace_aug(self, f, a, old):
        if self._listish(a.value):
            return True
        # direct alias of a parameter that the function treats as a container
        name = a.target.id
        for p, k in old[0]:
            if k == 0 and self._is_container(f, p):
                return True
        return False

    def _is_container(self, f, p):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p:
                return True
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id == p:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and \
                    n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == p:
                return True
        return False

    def _store(self, f, t, v, value, st, muts):
        if isinstance(t, ast.Name):
            st[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                vs = [self.val(f, x, st, {}) for x in value.elts]
                for x, w, e in zip(t.elts, vs, value.elts):
                    self._store(f, x, w, e, st, muts)
            else:
                for x in t.elts:
                    self._store(f, x, elem(v), None, st, muts)
        elif isinstance(t, ast.Starred):
            self._store(f, t.value, (frozenset(), elem(v)[0]), None, st, muts)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            base = self.val(f, t.value, st, muts)
            if isinstance(t, ast.Attribute):
                base = _noarr(base)
            if not (isinstance(t, ast.Attribute) and t.attr in self.cache_fields):
                self._mutate(f, base, t, (ATTR if isinstance(t, ast.Attribute) else "") + src_of(t) + " = ...", muts)
            # the stored value becomes reachable from the base variable
            r = t.value
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
            if isinstance(r, ast.Name) and r.id in st and (v[0] or v[1]):
                st[r.id] = (st[r.id][0], st[r.id][1] | v[0] | v[1])

    # -- expression values ----------------------------------------------------
    def val(self, f, e, st, muts):
        if e is None or isinstance(e, ast.Constant):
            return FRESH
        if isinstance(e, ast.Name):
            return st.get(e.id, FRESH)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            d = frozenset()
            for x in e.elts:
                v = self.val(f, x, st, muts)
                d |= v[0] | v[1]
            return (frozenset(), d)
        if isinstance(e, ast.Dict):
            d = frozenset()
            for x in e.values + [k for k in e.keys if k is not None]:
                v = self.val(f, x, st, muts)
                d |= v[0] | v[1]
            return (frozenset(), d)
        if isinstance(e, ast.Attribute):
            v = self.val(f, e.value, st, muts)
            if e.attr in ("T", "flat", "real"):
                return v
            return elem(_noarr(v))
        if isinstance(e, ast.Subscript):
            v = self.val(f, e.value, st, muts)
            self.val(f, e.slice, st, muts)
            if isinstance(e.slice, ast.Slice):
                # list slice copies; a slice of a matrix parameter is a view
                if isinstance(e.value, ast.Name) and e.value.id in ("D", "D_c"):
                    return v
                return (frozenset(), elem(v)[0])
            if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
                return v                # numpy view
            if isinstance(e.slice, ast.Tuple):
                return elem(v, len(e.slice.elts))
            return elem(v)
        if isinstance(e, ast.IfExp):
            self.val(f, e.test, st, muts)
            return _j(self.val(f, e.body, st, muts), self.val(f, e.orelse, st, muts))
        if isinstance(e, ast.BoolOp):
            r = FRESH
            for x in e.values:
                r = _j(r, self.val(f, x, st, muts))
            return r
        if isinstance(e, ast.BinOp):
            l, r = self.val(f, e.left, st, muts), self.val(f, e.right, st, muts)
            return (frozenset(), elem(l)[0] | elem(r)[0]) if isinstance(e.op, ast.Add) else (frozenset(), l[1] | r[1])
        if isinstance(e, ast.UnaryOp):
            self.val(f, e.operand, st, muts)
            return FRESH
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                self.val(f, x, st, muts)
            return FRESH
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            st2 = dict(st)
            for g in e.generators:
                v = self.val(f, g.iter, st2, muts)
                self._bind(g.target, elem(v), st2)
                for i in g.ifs:
                    self.val(f, i, st2, muts)
            if isinstance(e, ast.DictComp):
                v = _j(self.val(f, e.key, st2, muts), self.val(f, e.value, st2, muts))
            else:
                v = self.val(f, e.elt, st2, muts)
            return (frozenset(), v[0] | v[1])
        if isinstance(e, ast.Lambda):
            # effects of the body count where the lambda is created
            st2 = dict(st)
            for p in e.args.args:
                st2[p.arg] = FRESH
            self.val(f, e.body, st2, muts)
            return FRESH
        if isinstance(e, ast.Starred):
            return self.val(f, e.value, st, muts)
        if isinstance(e, ast.NamedExpr):
            v = self.val(f, e.value, st, muts)
            st[e.target.id] = v
            return v
        if isinstance(e, ast.Call):
            return self._call(f, e, st, muts)
        if isinstance(e, ast.JoinedStr):
            return FRESH
        return FRESH

    def _call(self, f, e, st, muts):
        args = [self.val(f, a, st, muts) for a in e.args]
        kws = {k.arg: self.val(f, k.value, st, muts) for k in e.keywords}
        r = self.repo.callee(f, e)
        if isinstance(r, ClassInfo):
            d = frozenset()
            init = r.methods.get("__init__")
            if init is not None:
                kept = self._stored_params(init)
                m, _ = bind_args(init, e, skip_self=True)
                for p, a in m.items():
                    if p in kept:
                        d |= self.val(f, a, st, {})[0]
            else:
                for v in args + list(kws.values()):
                    d |= v[0] | v[1]
            return (frozenset(), d)
        ts = self.pt.callees(f, e)
        recv = None
        if not ts and isinstance(e.func, ast.Attribute) and not (isinstance(r, tuple) and r[0] == "ext"):
            recv = self.val(f, e.func.value, st, muts)
            ms = self.meth.get(e.func.attr, [])
            if e.func.attr in MUT_METHODS:
                at = any(isinstance(x, ast.Attribute) for x in ast.walk(e.func.value))
                self._mutate(f, recv, e, (ATTR if at else "") + src_of(e.func) + "(...)", muts)
                root = e.func.value
                while isinstance(root, (ast.Subscript, ast.Attribute)):
                    root = root.value
                d = frozenset()
                for v in args:
                    d |= v[0] | v[1]
                if isinstance(root, ast.Name) and root.id in st and d:
                    st[root.id] = (st[root.id][0], st[root.id][1] | d)
                return elem(recv)
            for m in ms:
                self._apply(f, m, e, st, muts, recv)
            if e.func.attr in ("copy", "astype", "tolist", "flatten"):
                return (frozenset(), elem(recv)[0] if e.func.attr == "copy" else frozenset())
            if e.func.attr in ("items", "keys", "values", "get", "reshape", "view", "ravel", "transpose"):
                if e.func.attr in ("reshape", "view", "ravel", "transpose"):
                    return recv
                return (frozenset(), elem(recv)[0]) if e.func.attr != "get" else elem(recv)
            return FRESH
        if ts:
            out = FRESH
            for t in ts:
                out = _j(out, self._apply(f, t, e, st, muts, None))
            return out
        if isinstance(r, tuple) and r[0] == "ext":
            nm = r[1]
            if nm in EXT_MUT and len(args) > EXT_MUT[nm]:
                self._mutate(f, args[EXT_MUT[nm]], e, src_of(e), muts)
            if nm in ELEMWISE:
                d = frozenset()
                for v in args:
                    d |= elem(v)[0]
                return (frozenset(), d)
            if nm in PICK:
                d = FRESH
                for v in args:
                    d = _j(d, elem(v) if len(args) == 1 else v)
                return d
            if nm in ALIAS and args:
                return args[0]
            if "numpy" in nm:
                for k in e.keywords:
                    if k.arg == "out":
                        self._mutate(f, kws["out"], e, src_of(e), muts)
                if nm == "numpy.array":
                    for k in e.keywords:
                        if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False:
                            return args[0] if args else FRESH
        return FRESH

    def _stored_params(self, init):
        """Constructor parameters kept (uncopied) in the object."""
        c = getattr(init, "_kept", None)
        if c is None:
            c = set()
            for n in own_walk(init.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) for t in n.targets):
                    vs = [n.value]
                    while vs:
                        v = vs.pop()
                        if isinstance(v, ast.Name):
                            c.add(v.id)
                        elif isinstance(v, ast.IfExp):
                            vs += [v.body, v.orelse]
                        elif isinstance(v, ast.BoolOp):
                            vs += v.values
            init._kept = c
        return c

    def _apply(self, f, t, e, st, muts, recv):
        skip = recv is not None
        m, ok = bind_args(t, e, skip_self=skip)
        vals = {}
        for p, a in m.items():
            vals[p] = self.val(f, a, st, {})
        if skip and t.posargs:
            vals[t.posargs[0]] = recv
        for p in self.free_vars(t):
            if p in st:
                vals[p] = st[p]
        for p, sites in self.mut.get(t, {}).items():
            v = vals.get(p)
            if v is None:
                continue
            for dk, at in {(x[0], x[2].startswith(ATTR)) for x in sites}:
                inner = sorted(x for x in sites if (x[0], x[2].startswith(ATTR)) == (dk, at))[0]
                w = _noarr(v) if at else v
                txt = "%scall %s(...), which changes its '%s' (line %d: %s)" % (
                    ATTR if at else "", t.qualname, p, inner[1], inner[2].replace(ATTR, "")[:60])
                for q, k in w[0]:
                    if k + dk <= MAXD:
                        muts.setdefault(q, {})[(k + dk, getattr(e, "lineno", 0), txt)] = e
                if dk >= 1:
                    for q, k in w[1]:
                        if k + dk - 1 <= MAXD:
                            muts.setdefault(q, {})[(k + dk - 1, getattr(e, "lineno", 0), txt)] = e
        rs, rd = self.ret.get(t, FRESH)

        def sub(orig):
            o = frozenset()
            for p, k in orig:
                v = vals.get(p)
                if v is None:
                    continue
                for _ in range(k):
                    v = elem(v)
                o |= v[0]
            return o
        return (sub(rs), sub(rd))
