"""C17: service times are baked into the distances once, exactly, for customers only, and the baked matrix is the one everybody works on.

D2D_c is explored path by path; the matrix is abstracted to four regions of cells (customer-customer, depot row, depot column, diagonal),
each a linear form in the original cell and the service time.  Roundings stay opaque terms until a test on the path shows them exact."""
import ast
from .core import Func, own_walk
from .symx import Explorer, TooBig, add, mul, terms, const, show

ALL = ("cc", "0c", "c0", "cd", "00")
COPIES = ("copy", "array", "astype", "asfarray")
FLOATS = ("d", "f8", "float64", "float", "double", "float_", "<f8", "longdouble")


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk(x)


class Num(Explorer):
    """keeps roundings apart; follows what is added to the regions of matrices"""
    def is_mat(self, v):
        return v[0] == "mat" or v == ("p", "D")

    def reg(self, m, r, st):
        return st.heap.get(("reg", m, r), ("c", 0))

    def fresh_mat(self, src, flo, e, st, alias=False):
        """alias: it is the source itself when that has the type asked for"""
        alias = alias and (src == ("p", "D") or len(src) == 5)
        m = ("mat", getattr(e, "lineno", 0), getattr(e, "col_offset", 0), flo) + (("maybe the same",) if alias else ())
        for r in ALL:
            st.heap[("reg", m, r)] = self.reg(src, r, st)
        return m

    def ev_Call(self, e, st):
        nm = self.fname(e)
        args = [self.ev(a, st) for a in e.args]
        kw = {k.arg: k.value for k in e.keywords}
        if isinstance(e.func, ast.Name) and nm == "float" and len(args) == 1:
            return args[0]
        if (isinstance(e.func, ast.Name) and nm in ("int", "round") or isinstance(e.func, ast.Attribute) and nm in ("floor", "rint", "trunc", "ceil", "round", "int64", "int_")) \
                and len(args) == 1 and not self.is_mat(args[0]):
            return args[0] if args[0][0] == "c" and isinstance(args[0][1], int) else ("trunc", args[0])
        if isinstance(e.func, ast.Attribute):
            o = e.func.value
            if nm == "type" and len(args) == 1:
                return ("conv", args[0])
            if nm in ("float64", "double", "longdouble", "float_") and len(args) == 1 and not self.is_mat(args[0]):
                return args[0]
            b = self.ev(o, st)
            no = any(k == "copy" and isinstance(v, ast.Constant) and v.value is False for k, v in kw.items())
            if nm == "is_integer" and not args:
                return ("isint", b)
            if self.is_mat(b) and nm == "copy":
                return self.fresh_mat(b, b[0] == "mat" and b[3], e, st)
            if self.is_mat(b) and nm == "astype":
                t = e.args[0] if e.args else kw.get("dtype")
                flo = self.floating(t)
                return b if no and not flo else self.fresh_mat(b, flo, e, st, alias=no)
            if args and self.is_mat(args[0]):
                t = kw.get("dtype") or (e.args[1] if len(e.args) > 1 and nm in ("array", "asarray") else None)
                if nm == "copy" or nm == "array" and not no:
                    return self.fresh_mat(args[0], self.floating(t) if t is not None else args[0][0] == "mat" and args[0][3], e, st)
                if nm in ("asarray", "asanyarray", "array"):
                    return args[0] if t is None else self.fresh_mat(args[0], self.floating(t), e, st, alias=True)
                if nm in ("add", "subtract") and len(args) == 2 and not kw:
                    return self.plus(args[0], args[1], 1 if nm == "add" else -1, e, st)
        return super().ev_Call(e, st)

    def floating(self, t):
        if t is None:
            return False
        if isinstance(t, ast.Constant):
            return t.value in FLOATS
        return (t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None) in FLOATS

    def plus(self, m, v, k, e, st):
        n = self.fresh_mat(m, "promoted", e, st)
        for r in ALL:
            st.heap[("reg", n, r)] = add(self.reg(m, r, st), v, k)
        return n

    def ev_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        if isinstance(e.op, (ast.Add, ast.Sub)) and self.is_mat(a) and not self.is_mat(b):
            return self.plus(a, b, 1 if isinstance(e.op, ast.Add) else -1, e, st)
        if isinstance(e.op, ast.FloorDiv) and b[0] == "c":
            return ("trunc", mul(a, 1.0 / b[1]))
        if isinstance(e.op, ast.Mod):
            return ("mod", a, b)
        return super().ev_BinOp(e, st)

    def ev_Slice(self, e, st):
        g = lambda x: self.ev(x, st) if x is not None else ("c", None)
        return ("slc", g(e.lower), g(e.upper), g(e.step))

    def truth_of(self, v, e, st):
        if v[0] == "mod":
            return self.compare(e, ast.NotEq(), v, ("c", 0), st)
        if v[0] == "isint":
            return self.compare(e, ast.Eq(), ("trunc", v[1]), v[1], st)
        return super().truth_of(v, e, st)

    def axis(self, x):
        """0: the depot, 1: the customers, 2: both"""
        if x == ("c", 0):
            return 0
        if x[0] == "slc" and x[3] in (("c", None), ("c", 1)) and x[2] == ("c", None):
            return 2 if x[1] in (("c", None), ("c", 0)) else 1 if x[1] == ("c", 1) else None
        if x[0] == "slc" and x[2] == ("c", 1) and x[1] in (("c", None), ("c", 0)):
            return 0
        return None

    def region(self, ix):
        if ix[0] == "slc" or ix == ("c", 0):
            ix = ("t", (ix, ("slc", ("c", None), ("c", None), ("c", None))))
        if ix[0] != "t" or len(ix[1]) != 2:
            return None
        if ix[1][0] == ix[1][1] and ix[1][0][0] in ("it", "ix"):
            it = ix[1][0][1] if ix[1][0][0] == "it" else None
            if it is not None and it[0] == "call" and it[1] == ("g", "range"):
                return ("cd", "00") if len(it[2]) == 1 or it[2][0] == ("c", 0) else ("cd",) if it[2][0] == ("c", 1) else None
            return None
        a, b = self.axis(ix[1][0]), self.axis(ix[1][1])
        if a is None or b is None:
            return None
        out = []
        if a in (1, 2) and b in (1, 2):
            out += ["cc", "cd"]
        if a in (0, 2) and b in (1, 2):
            out.append("0c")
        if a in (1, 2) and b in (0, 2):
            out.append("c0")
        if a in (0, 2) and b in (0, 2):
            out.append("00")
        return tuple(out)

    def place(self, t, st):
        """(matrix, regions or None) that the target of an assignment is"""
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            if b[0] == "sub" and self.is_mat(b[1]) and not isinstance(t.slice, ast.Tuple):
                i = self.ev(t.slice, st)
                return b[1], self.region(("t", (b[2], i)))
            if b[0] == "slice" and self.is_mat(b[1]):
                return b[1], None
            if self.is_mat(b):
                i = self.ev(t.slice, st)
                return b, self.region(i)
        if isinstance(t, ast.Name):
            b = st.env.get(t.id, ("?",))
            if self.is_mat(b):
                return b, ALL
        return None, None

    def touch(self, m, rs, how, v, st, node):
        self.log(st, "mat", (m, how, rs, v), node)
        for r in rs or ():
            st.heap[("reg", m, r)] = v if how == "set" else add(self.reg(m, r, st), v)

    def stmt(self, n, st):
        a = n.ast
        if isinstance(a, ast.AugAssign):
            m, rs = self.place(a.target, st)
            if m is not None:
                s = st.copy()
                if isinstance(a.op, (ast.Add, ast.Sub)):
                    self.touch(m, rs, "add", mul(self.ev(a.value, s), 1 if isinstance(a.op, ast.Add) else -1), s, a)
                else:
                    self.touch(m, None, "op", ("?",), s, a)
                return [s]
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Subscript):
            m, rs = self.place(a.targets[0], st)
            if m is not None:
                s = st.copy()
                v = self.ev(a.value, s)
                if v[0] == "c":
                    self.touch(m, rs, "set", v, s, a)
                else:
                    src = [t for t in terms(v) if t[0] in ("sub", "slice", "D", "row") and (t[0] in ("D", "row") or self.is_mat(t[1]))]
                    ok = len(src) == 1 and terms(v)[src[0]] == 1 and src[0][0] == "sub" and self.region(src[0][2]) == rs and rs is not None
                    if ok:
                        rest = add(v, src[0], -1)
                        for r in rs:
                            st2 = add(self.reg(src[0][1], r, s), rest)
                            self.touch(m, (r,), "set" if src[0][1] != m else "put", st2, s, a)
                            s.heap[("reg", m, r)] = st2
                    else:
                        self.touch(m, None, "op", ("?",), s, a)
                return [s]
        return super().stmt(n, st)

    def ev_Subscript(self, e, st):
        b = self.ev(e.value, st)
        if self.is_mat(b) and (isinstance(e.slice, (ast.Tuple, ast.Slice))):
            return ("sub", b, self.ev(e.slice, st))
        return super().ev_Subscript(e, st)

    def effect_call(self, c, st, node):
        nm = self.fname(c)
        if nm == "fill_diagonal" and c.args:
            m = self.ev(c.args[0], st)
            if self.is_mat(m):
                v = self.ev(c.args[1], st) if len(c.args) > 1 else ("c", 0)
                self.touch(m, ("cd", "00"), "set", v, st, node)
                return
        super().effect_call(c, st, node)


def norm(v, facts):
    """v with every rounding replaced by what a test on the path shows it equal to"""
    for _ in range(6):
        hit = None
        for t in sorted(set(x for x in walk(v) if isinstance(x, tuple) and x and x[0] in ("trunc", "conv")), key=repr):
            for k, o in facts:
                if k[0] == "eq" and o and t in k[1:]:
                    u = k[1] if k[2] == t else k[2]
                    if t not in set(walk(u)):
                        hit = (t, u)
                if k[0] == "eq" and o and t[0] == "trunc" and ("c", 0) in k[1:]:
                    m = k[1] if k[2] == ("c", 0) else k[2]
                    if m[0] == "mod" and m[2][0] == "c" and m[2][1] and t[1] == mul(m[1], 1.0 / m[2][1]):
                        hit = (t, t[1])
            if hit:
                break
        if not hit:
            return v
        v = subst(v, *hit)
        facts = [(subst(k, *hit), o) if k[0] == "eq" else (k, o) for k, o in facts]
    return v


def subst(v, a, b):
    if v == a:
        return b
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "lin":
        out = ("c", v[1])
        for t, c in v[2]:
            out = add(out, mul(subst(t, a, b), c))
        return out
    return tuple(subst(x, a, b) for x in v)


def charged(repo, rep):
    f = repo.func("verypy.cvrp_ops", "D2D_c")
    if len(f.params) < 2:
        rep.skip("charged", "parameters of %s" % f.where)
        return
    ex = Num(repo, f, roles={f.params[0]: "D", f.params[1]: "st"}, given=("st",), remember=True, log_kinds=("mat",))
    ex.run()
    st_, half = ("p", "st"), mul(("p", "st"), 0.5)
    for (how, nid, ev, w), st, node in ex.every.values():
        if how != "end":
            continue
        rets = [d for k, d, _ in ev if k == "return"]
        if len(rets) != 1:
            rep.skip("charged", "result of %s" % f.name)
            continue
        m = rets[0]
        facts = list(st.facts.items())
        where = "%s" % f.name
        bad = [d for k, d, _ in ev if k == "mat" and d[0] == ("p", "D")]
        own = [d for k, d, _ in ev if k == "mat" and len(d[0]) == 5]
        if not bad and (own or len(m) == 5 and m[0] == "mat"):
            if any("dtype" in show(x) for k2, o in facts for x in walk(k2) if isinstance(x, tuple) and x and x[0] in ("attr", "eq", "in", "truth")):
                rep.skip("unchanged", "%s: a copy is made depending on the matrix' type" % where)
            else:
                rep.violate("unchanged", where, "the matrix the service time is added to is the caller's own when it has the type asked for")
        elif bad or m == ("p", "D"):
            rep.violate("unchanged", where, "the service time is added to the caller's matrix itself" if bad else "the matrix returned is the caller's own")
        elif m[0] == "mat":
            rep.ok("unchanged", "%s works on a copy" % where)
        if not ex.is_mat(m) or any(k == "mat" and d[2] is None for k, d, _ in ev) or \
                any(k == "mat" and d[0] == m and not set(d[2] or ("?",)) <= {"cd", "00"} for (h2, n2, ev2, w2), s2, nd2 in ex.every.values() if h2 == "iteration" for k, d, _ in ev2):
            rep.skip("charged", "matrix returned by %s: %s" % (where, show(m)))
            continue
        about = {x for k, o in facts for x in walk(k) if isinstance(x, tuple) and x and x[0] in ("trunc", "conv", "mod", "isint") and st_ in set(walk(x))}
        for r, want, text in (("cc", st_, "between two customers"), ("0c", half, "from the depot to a customer"), ("c0", half, "from a customer to the depot")):
            got = norm(ex.reg(m, r, st), facts)
            if got == want:
                rep.ok("charged", "%s: %s charged %s" % (where, show(want), text))
            elif any(isinstance(x, tuple) and x and x[0] in ("trunc", "conv") for x in walk(got)):
                if about:
                    open_ = [x for x in walk(got) if isinstance(x, tuple) and x and x[0] in ("trunc", "conv")]
                    # the test on the path says that it is not exact
                    if any(k[0] == "eq" and not o and any(x in k[1:] for x in open_) for k, o in facts) or not any(
                            k[0] in ("eq",) and o and any(x in set(walk(k)) for x in about) for k, o in facts):
                        rep.violate("exact", "%s:%s" % (where, r), "what is charged %s is rounded to %s although it is not a whole number" % (text, rnd(got)))
                    else:
                        rep.violate("exact", "%s:%s" % (where, r), "what is charged %s is rounded to %s, and the test made does not show it exact" % (text, rnd(got)))
                else:
                    rep.violate("exact", "%s:%s" % (where, r), "what is charged %s is rounded to %s without any test that it is exact" % (text, rnd(got)))
            elif set(terms(got)) <= {st_}:
                rep.violate("charged", "%s:%s" % (where, r), "the leg %s is charged %s instead of %s" % (text, show(got) if got != ("c", 0) else "nothing", show(want)))
            else:
                rep.skip("charged", "%s: %s" % (where, show(got)))
        inloop = [d for (h2, n2, ev2, w2), s2, nd2 in ex.every.values() if h2 == "iteration" for k, d, _ in ev2 if k == "mat" and d[0] == m]
        for r in ("cd", "00"):
            got = norm(ex.reg(m, r, st), facts)
            if any(r in (d[2] or ()) and d[1] == "set" for d in inloop):
                got = [d[3] for d in inloop if r in (d[2] or ())][0]
            if got == ("c", 0) or got == ("c", 0.0):
                rep.ok("charged", "%s: the diagonal stays zero" % where)
            elif set(terms(got)) <= {st_}:
                rep.violate("charged", "%s:diagonal" % where, "staying at a node is charged %s" % show(got))
            else:
                rep.skip("charged", "%s: diagonal %s" % (where, show(got)))
        # a matrix of whole numbers takes whole numbers only
        for k, d, _ in ev:
            if k == "mat" and d[0][0] == "mat" and d[0][3] is False and d[1] in ("add", "set", "put"):
                fr = [x for x in walk(d[3]) if x == st_ or isinstance(x, tuple) and x and x[0] == "lin" and st_ in terms(x)]
                if fr and not wholes(d[3]):
                    if not any(isinstance(x, tuple) and x and x[0] in ("attr", "call", "mcall") and "dtype" in show(x) for k2, o in facts for x in walk(k2)):
                        rep.violate("exact", "%s:dtype" % where, "%s is added in place to a copy that has whole numbers when the caller's matrix does" % show(d[3]))
            if k == "mat" and d[0][0] == "mat" and d[0][3] is False and d[1] == "add" and wholes(d[3]):
                rep.ok("exact", "%s: only values of the matrix' own type are added to it" % where)
            if k == "mat" and d[0][0] == "mat" and d[0][3]:
                rep.ok("exact", "%s: fractions are added to a real matrix" % where)


def rnd(v):
    return " + ".join("%s(%s)" % ("int" if t[0] == "trunc" else "D.dtype.type" if t[0] == "conv" else "", show(t[1])) if t[0] in ("trunc", "conv") else show(t)
                      for t in terms(v)) or show(v)


def wholes(v):
    return all(t[0] in ("trunc", "conv") and c == int(c) for t, c in terms(v).items()) and const(v) == int(const(v))


# ---- the drivers -----------------------------------------------------------------
def ours(v):
    """the data of a problem file, its distances or its service time"""
    return v[0] in ("call", "mcall") and (called(v).startswith("read_TS") or called(v) == "load") or is_raw(v) or is_st(v) or baked(v) is not None or v[0] == "val" or \
        v[0] == "gt" and any(ours(x) for x in terms(v[1])) or v[0] in ("truth", "eq") and any(isinstance(x, tuple) and x and ours(x) for x in v[1:])


class Driver(Explorer):
    follow_exc = True

    def ev_Call(self, e, st):
        v = super().ev_Call(e, st)
        if called(v) in ("objf", "recalculate_objective"):
            t = self.repo.callee(self.f, e)
            a = v[3] if v[0] == "mcall" else v[2]
            if isinstance(t, Func) and len(t.params) > 1 and len(a) > 1:
                m = arg(a, 1, t.params[1])
                return ("val", "cost" if baked(m) else "length" if is_raw(m) else "?")
        return v

    def tracked(self, e):
        return True                                         # see fork

    def assign(self, t, v, st, node, aug=None):
        if not ours(v) and not (v[0] == "attr" and v[2] in self.switches):
            v = ("any",)                                    # nothing to do with a problem's distances
        if not isinstance(t, (ast.Name, ast.Tuple, ast.List)):
            return
        super().assign(t, v, st, node)

    def item(self, v, i, n, st):
        v = v if v == ("any",) else super().item(v, i, n, st)
        return v if ours(v) else ("any",)

    def switch(self, key):
        """a setting that chooses the matrix the solution is valued with"""
        return key[0] == "truth" and key[1][0] == "attr" and key[1][2] in self.switches

    def fork(self, key, st, flip=False):
        if not ours(key) and not self.switch(key):
            return [(True, st), (False, st)]
        return super().fork(key, st, flip)

    def compare(self, e, op, a, b, st):
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and a[0] == b[0] == "val" and "?" not in (a[1], b[1]):
            self.sink("compared", (("a", a), ("b", b)), st)
        return super().compare(e, op, a, b, st)

    def sink(self, name, args, st):
        facts = frozenset((k, o) for k, o in st.facts.items() if any(isinstance(x, tuple) and x and is_st(x) for x in walk(k)))
        self.sinks.add((name, args, facts))

    def havoc(self, h, st):
        s = super().havoc(h, st)
        for k, o in st.facts.items():
            if self.switch(k) or any(isinstance(x, tuple) and x and is_st(x) for x in walk(k)):
                s.facts.setdefault(k, o)
        return s

    def effect_call(self, c, st, node):
        t = self.repo.callee(self.f, c)
        args = tuple(self.ev(a, st) for a in c.args)
        kw = {k.arg: self.ev(k.value, st) for k in c.keywords if k.arg}
        if isinstance(t, Func):
            names = {}
            for p, v in zip(t.params, args):
                names[p] = v
            names.update(kw)
            if t.name in SINKS:
                self.sink(t.name, tuple(sorted(names.items())), st)
        elif len(args) + len(kw) >= 7 and isinstance(c.func, (ast.Name, ast.Attribute, ast.Subscript)):
            self.sink("solver", tuple(("%d" % i, v) for i, v in enumerate(args)) + tuple(sorted(kw.items())), st)
        super().effect_call(c, st, node)


SINKS = {"validate_solution_feasibility": ("D", "cost"), "print_solution_statistics": ("D_cost", "cost"), "do_local_search": ("D", "any"),
         "recalculate_objective": ("D", "any"), "objf": ("D", "any"), "is_better_sol": (None, None)}
RAWS = ("floor", "rint", "round", "ceil", "around", "copy", "array", "astype", "asarray", "trunc")


def called(v):
    n = v[1][1] if v[0] == "call" and isinstance(v[1], tuple) and len(v[1]) == 2 else v[2] if v[0] == "mcall" else ""
    return n if isinstance(n, str) else ""


def is_raw(v):
    """the distance matrix of the problem file, rounded or not"""
    for _ in range(5):
        if v[0] == "item" and v[2] == 4 and v[1][0] in ("call", "mcall") and ("read_TSPLIB" in called(v[1]) or called(v[1]) == "load"):
            return True
        if v[0] == "attr" and v[2] == "distance_matrix":
            return True
        if called(v) == "calculate_D":
            return True
        if v[0] == "mcall" and v[2] in RAWS and v[3]:
            v = v[3][0] if v[1][0] == "g" else v[1]
        elif v[0] in ("call",) and v[1] == ("g", "round") and v[2]:
            v = v[2][0]
        else:
            return False
    return False


def baked(v):
    """(matrix, service time) of D2D_c"""
    if v[0] == "mcall" and v[2] == "D2D_c" and len(v[3]) >= 2:
        return arg(v[3], 0, "D"), arg(v[3], 1, "st")
    if v[0] == "call" and called(v) == "D2D_c" and len(v[2]) >= 2:
        return arg(v[2], 0, "D"), arg(v[2], 1, "st")
    return None


def arg(a, i, name):
    for x in a:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == name and isinstance(x[1], tuple):
            return x[1]
    return a[i]


def is_st(v):
    return len(v) == 3 and v[0] in ("item", "sub") and v[2] in (2, ("c", 2)) and isinstance(v[1], tuple) and v[1][0] in ("call", "mcall") and "additional" in called(v[1]) \
        or len(v) == 3 and v[0] == "item" and v[2] == 9 and isinstance(v[1], tuple) and v[1][0] in ("call", "mcall") and called(v[1]) == "load" \
        or v[0] == "attr" and v[2] == "service_time_at_customer"


def drivers(repo, rep):
    for f in repo.all_functions():
        if f.module.dotted.startswith("verypy.visual") or f.name == "D2D_c":
            continue
        if not any(isinstance(n, ast.Call) and (getattr(n.func, "attr", None) or getattr(n.func, "id", None)) == "read_TSBLIB_additional_constraints" for n in own_walk(f.node)):
            continue
        used = any(isinstance(n, ast.Call) and (getattr(n.func, "attr", None) or getattr(n.func, "id", None)) in ("D2D_c",) for n in own_walk(f.node))
        solves = any(isinstance(n, ast.Call) and len(n.args) + len(n.keywords) >= 7 and not isinstance(repo.callee(f, n), Func) for n in own_walk(f.node))
        if not used and not solves:
            continue
        one(repo, rep, f)


def is_timed(facts):
    """does the path know that there is (no) service time?"""
    r = None
    for x, o in facts:
        v = None
        if x[0] == "truth" and is_st(x[1]):
            v = o
        elif x[0] == "eq" and (("c", None) in x[1:] or ("c", 0) in x[1:]) and any(is_st(y) for y in x[1:]):
            v = not o
        elif x[0] == "gt" and list(terms(x[1]).values()) == [1] and const(x[1]) == 0 and is_st(list(terms(x[1]))[0]):
            v = o
        r = v if r is None or v is False else r
    return r


def switches(repo, f):
    """attributes that decide, anywhere in the drivers, with what matrix a solution is valued"""
    out = set()
    for g in repo.all_functions():
        if g.module is not f.module and g.module.dotted not in ("verypy.shared_cli", "verypy.VeRyPy"):
            continue
        named = {t.id: n.value.attr for n in own_walk(g.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) for t in n.targets if isinstance(t, ast.Name)}
        valued = {x.id for n in own_walk(g.node) if isinstance(n, ast.Call) and (getattr(n.func, "attr", None) or getattr(n.func, "id", None)) in ("objf", "recalculate_objective")
                  for a in n.args[1:2] + [k.value for k in n.keywords if k.arg == 'D'] for x in ast.walk(a) if isinstance(x, ast.Name)}
        for n in own_walk(g.node):
            if isinstance(n, ast.If):
                simple = [b for b in n.body + n.orelse if isinstance(b, (ast.Assign, ast.Expr, ast.Return))]
                if not any(isinstance(x, ast.Name) and x.id in valued for b in simple for x in ast.walk(b)):
                    continue
            elif isinstance(n, ast.IfExp):
                if not any(isinstance(a, ast.Assign) and n is a.value and any(isinstance(t, ast.Name) and t.id in valued for t in a.targets) for a in own_walk(g.node)) and \
                        not any(isinstance(x, ast.Name) and x.id in valued for b in (n.body, n.orelse) for x in ast.walk(b)):
                    continue
            else:
                continue
            for x in ast.walk(n.test):
                if isinstance(x, ast.Attribute) and not any(isinstance(c, ast.Call) and x is c.func for c in ast.walk(n.test)):
                    out.add(x.attr)
                elif isinstance(x, ast.Name) and x.id in named:
                    out.add(named[x.id])
    return out


def one(repo, rep, f):
    ex = Driver(repo, f, remember=False, log_kinds=("sink",), inline=lambda t, c, d: t.module.dotted in ("verypy.shared_cli", "verypy.VeRyPy") and t.name not in SINKS and t is not f
                and sum(1 for x in ast.walk(t.node) if isinstance(x, ast.stmt)) <= 12)
    ex.sinks = set()
    ex.switches = switches(repo, f)
    try:
        ex.run()
    except TooBig as e:
        rep.skip("same matrix", "%s: too many paths" % f.where)
        return
    seen = set()
    for (how, nid, ev, w), st, node in ex.every.values():
        for k, d, _ in ev:
            if k == "return" and how == "end" and d[0] == "t":
                vals = [x[1] for x in d[1] if isinstance(x, tuple) and x[0] == "val"]
                if len(vals) == 2 and is_timed(st.facts.items()) is not False:
                    if vals == ["length", "cost"]:
                        seen.add(("ok", "%s:result" % f.name, ""))
                    elif "?" not in vals:
                        seen.add(("bad", "%s:result" % f.name, "with a service time the %s and the %s of the solution are returned as its length and its cost" % tuple(vals)))
    for name, a, facts in sorted(ex.sinks, key=repr):
        if True:
            a = dict(a)
            if name == "compared":
                if a["a"] == a["b"]:
                    seen.add(("ok", "%s:compared values" % f.name, ""))
                elif any(n == "compared" and dict(x) == {"a": a["b"], "b": a["a"]} for n, x, _ in ex.sinks):
                    seen.add(("skip", "%s:compared values" % f.name, "what chooses between lengths and costs is not seen"))
                elif is_timed(facts) is not False:
                    seen.add(("bad", "%s:compared values" % f.name, "a %s is compared with a %s: one has the service time in it and the other not" % (a["a"][1], a["b"][1])))
                continue
            if name == "is_better_sol":
                v = a.get("sol_f", list(a.values())[0])
                if v == ("val", "length") and is_timed(facts) is not False:
                    seen.add(("bad", "%s:is_better_sol" % f.name, "solutions are compared by lengths that do not include the service time"))
                elif v[0] == "val" and v[1] != "?":
                    seen.add(("ok", "%s:is_better_sol" % f.name, ""))
                continue
            m = a.get("1") if name == "solver" else a.get(SINKS[name][0]) if SINKS[name][0] else None
            if m is None:
                continue
            want = "cost" if name == "solver" else SINKS[name][1]
            timed = is_timed(facts)
            timed = [] if timed is None else [timed]
            b = baked(m)
            key = "%s:%s" % (f.name, name if name != "solver" else "solver call")
            if b is not None:
                if not is_raw(b[0]):
                    seen.add(("skip", key, "matrix %s" % show(b[0])))
                elif not is_st(b[1]):
                    seen.add(("bad", key, "the service time charged is %s" % show(b[1])))
                else:
                    seen.add(("ok", key, b[0]))
            elif is_raw(m):
                if want == "cost" and (not timed or timed[0]):
                    seen.add(("bad", key, "%s works on distances without the service time" % ("the algorithm" if name == "solver" else name)))
                else:
                    seen.add(("raw", key, m))
            elif m[0] == "item" or any(isinstance(x, tuple) and x and x[0] == "item" and x[2] == 4 for x in walk(m)) and m[0] != "h":
                seen.add(("skip", key, show(m)))
            else:
                seen.add(("skip", key, show(m)))
            if name == "print_solution_statistics" and baked(a.get("D", ("?",))):
                seen.add(("bad", key, "the matrix meant for the length of the solution has the service time in it"))
            # the roundings asked for are made before the service time is added
            raws = [v for n2, v in a.items() if n2 == "D" and is_raw(v)]
            if b is not None and raws and is_raw(b[0]) and raws[0] != b[0]:
                seen.add(("bad", key, "the service time was added to another version of the distances than the one reported"))
    for what, key, x in sorted(seen, key=repr):
        if what == "ok":
            rep.ok("same matrix", "%s: with a service time, D2D_c of the problem's distances" % key)
        elif what == "raw":
            rep.ok("same matrix", "%s: plain distances where there is no service time or lengths are asked for" % key)
        elif what == "bad":
            rep.violate("same matrix", key, x)
        else:
            rep.skip("same matrix", "%s: %s" % (key, x))


# ---- no other place charges it ------------------------------------------------------
def uses(repo, rep):
    for f in repo.all_functions():
        if f.name in ("D2D_c", "read_TSBLIB_additional_constraints") or f.module.dotted.startswith("verypy.visual"):
            continue
        names = {p for p in f.params if p in ("st", "service_time")}
        for n in own_walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (getattr(n.value.func, "attr", None) or getattr(n.value.func, "id", None)) == \
                    "read_TSBLIB_additional_constraints" and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) == 3 and isinstance(n.targets[0].elts[2], ast.Name):
                names.add(n.targets[0].elts[2].id)
        if not names:
            continue
        par = {}
        for n in own_walk(f.node):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        grew = True
        derived = {}                                      # names computed from it -> node
        while grew:
            grew = False
            for n in own_walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in names and n.targets[0].id not in derived:
                    if isinstance(n.value, ast.Name) and n.value.id in names:
                        names.add(n.targets[0].id)
                        grew = True
                    elif numeric(n.value, names | set(derived)):
                        derived[n.targets[0].id] = n.value
                        grew = True
        for n in own_walk(f.node):
            if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names):
                continue
            p, c = par.get(n), n
            while isinstance(p, ast.BoolOp) and isinstance(p.op, ast.Or) and c is p.values[0] and isinstance(p.values[-1], ast.Constant) or \
                    isinstance(p, ast.IfExp) and c is not p.test and isinstance(p.orelse, ast.Constant):
                c, p = p, par.get(p)
            n0 = c
            while p is not None and (isinstance(p, ast.UnaryOp) and not isinstance(p.op, ast.Not) or isinstance(p, ast.BinOp) and isinstance(p.op, (ast.Mult, ast.Div, ast.FloorDiv))) \
                    or isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("int", "float", "round") and c in p.args:
                c, p = p, par.get(p)
            if c is n0 and not (isinstance(p, ast.BinOp) and not strs(p.left) or isinstance(p, ast.AugAssign)):
                rep.ok("not again", "%s: %s is handed on or tested" % (f.where, n.id))
                continue
            # arithmetic
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id in derived:
                for a in own_walk(f.node):
                    if isinstance(a, (ast.AugAssign, ast.BinOp)) and any(isinstance(x, ast.Name) and x.id == p.targets[0].id and isinstance(x.ctx, ast.Load) for x in ast.iter_child_nodes(a)):
                        added(repo, rep, f, a, c, par)
            else:
                a = p if isinstance(p, (ast.AugAssign, ast.BinOp)) else c
                added(repo, rep, f, a, c, par)


def strs(e):
    return isinstance(e, ast.Constant) and isinstance(e.value, str) or isinstance(e, ast.BinOp) and strs(e.left)


def numeric(e, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e)) and all(
        isinstance(x, (ast.BinOp, ast.UnaryOp, ast.IfExp, ast.Name, ast.Constant, ast.Load, ast.operator, ast.unaryop)) or
        isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("int", "float", "round") for x in ast.walk(e))


def added(repo, rep, f, a, c, par):
    """a: the statement or sum that charges the value c"""
    # distances of new points (seeds): the leaving half is due for the customers' columns
    tgt = a.target if isinstance(a, ast.AugAssign) else a.left if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) else None
    base = tgt.value if isinstance(tgt, ast.Subscript) else tgt
    src = None
    if isinstance(base, ast.Name):
        src = [n.value for n in own_walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == base.id for t in n.targets)
               and any(isinstance(x, ast.Call) and (getattr(x.func, "id", None) or getattr(x.func, "attr", None)) == "calculate_D" for x in ast.walk(n.value))]
    key = "%s:%s" % (f.name, ast.unparse(tgt) if tgt is not None else "arithmetic")
    if not src:
        rep.violate("not again", key, "the service time, already in the distances given, is charged again: %s" % ast.unparse(a if isinstance(a, ast.AugAssign) else c))
        return
    ix = tgt.slice if isinstance(tgt, ast.Subscript) else None
    cols = ix.elts[1] if isinstance(ix, ast.Tuple) and len(ix.elts) == 2 else None
    rows = ix.elts[0] if cols is not None else None
    allrows = isinstance(rows, ast.Slice) and rows.lower is None and rows.upper is None
    cust = isinstance(cols, ast.Slice) and isinstance(cols.lower, ast.Constant) and cols.lower.value == 1 and cols.upper is None
    if not (allrows and cust):
        if ix is None or cols is not None and isinstance(cols, ast.Slice) and cols.lower is None and cols.upper is None:
            rep.violate("not again", key + ":depot", "the distances to the depot are charged a service time, too")
        else:
            rep.skip("not again", "%s: columns %s" % (f.where, ast.unparse(tgt)))
        return
    v = c
    hs = halves(v)
    if hs == "half":
        rep.ok("not again", "%s: distances computed anew are charged the leaving half for customers" % f.where)
    elif hs is None:
        rep.skip("not again", "%s: %s" % (f.where, ast.unparse(v)))
    else:
        rep.violate("not again", key + ":half", "distances computed anew are charged %s: %s" % (hs, ast.unparse(v)))
    real = any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == base.id for t in n.targets) and "calculate_D" not in ast.dump(n.value)
               for n in own_walk(f.node))
    if isinstance(a, ast.AugAssign) and not real and isinstance(src[0], ast.Call) and (getattr(src[0].func, "id", None) or getattr(src[0].func, "attr", None)) == "calculate_D":
        rep.violate("exact", key + ":dtype", "half of a service time is added in place to distances that calculate_D gives as whole numbers for the rounded distance types")
    else:
        rep.ok("exact", "%s: half of the service time is added out of place or to real numbers" % f.where)


def halves(v):
    if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Div, ast.Mult)) and isinstance(v.right, ast.Constant):
        k = v.right.value if isinstance(v.op, ast.Mult) else 1.0 / v.right.value
        return "half" if k == 0.5 else "%g times the service time" % k
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.FloorDiv) or isinstance(v, ast.Call) and getattr(v.func, "id", None) in ("int", "round"):
        return "a half that is rounded"
    if isinstance(v, ast.Name):
        return "all of the service time"
    if isinstance(v, ast.IfExp):
        r = [halves(x) for x in (v.body, v.orelse)]
        return r[0] if r[0] == r[1] else next(x for x in r if x != "half")
    return None


def run(repo, rep):
    rep.rule("charged", "D2D_c adds the service time between customers, half of it between depot and customer, nothing elsewhere", 4)
    rep.rule("exact", "nothing that is added is rounded unless a test shows it whole, and fractions go to real matrices", 1)
    rep.rule("unchanged", "the caller's distances are not changed", 1)
    rep.rule("same matrix", "algorithms, feasibility checks and cost reports of each driver work on the matrix with the service time", 4)
    rep.rule("not again", "nobody else charges the service time, except the leaving half on distances computed anew", 5)
    for fn, rules in ((charged, ("charged", "exact", "unchanged")), (drivers, ("same matrix",)), (uses, ("not again",))):
        try:
            fn(repo, rep)
        except TooBig as e:
            for r in rules:
                rep.skip(r, "too many paths: %s" % e)
    for r in rep.instances:
        rep.instances[r] = list(dict.fromkeys(rep.instances[r]))
    for r, mn in rep.required.items():
        have = len(rep.instances[r]) + sum(1 for u in rep.undecided if u.startswith(r + ":"))
        for i in range(have, mn):
            rep.skip(r, "not recognised (%d)" % i)
    return {"scope": "verypy/cvrp_ops.py: D2D_c; drivers that read additional constraints; all uses of service times"}
