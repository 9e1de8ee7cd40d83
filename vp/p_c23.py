"""C23: what the travelling-salesman back ends return, by constant propagation of the node list through their source with the distances
left symbolic.  The list's nodes enter only through equality and order, so a few lists of each size stand for all; whatever the external
program may answer (every tour, in every rotation and direction) is given to the source that interprets it."""
import ast
import itertools
from .ccp import CCP, C, X, TOP, NONE, GiveUp, Stop, alts, isc, OR, mentions

PRE = "verypy.tsp_solvers."
LISTS = {1: ((0,), (7,)), 2: ((0, 5), (5, 0), (9, 4)), 3: ((0, 5, 2), (5, 0, 2), (9, 4, 6)), 4: ((0, 5, 2, 9), (5, 0, 9, 2), (9, 4, 6, 3)), 5: ((0, 7, 2, 9, 4), (3, 1, 2, 8, 0))}


def leg(a, b):
    return ("x", "D", min(a, b), max(a, b))


def poly(v):
    """the polynomial of a sum of terms, as {term: coefficient}, with constants under 1; None when not one"""
    if isc(v):
        return {1: v[2]} if isinstance(v[2], (int, float)) and not isinstance(v[2], bool) else None
    if v[:2] == ("x", "sum"):
        return dict(v[2])
    if v[:2] == ("x", "op") and len(v) == 5:
        a, b = poly(v[3]), poly(v[4])
        if a is None or b is None:
            return None
        if v[2] in ("Add", "Sub"):
            out = dict(a)
            for t, k in b.items():
                out[t] = out.get(t, 0) + (k if v[2] == "Add" else -k)
            return out
        if v[2] in ("Mult", "Div"):
            if v[2] == "Mult" and set(a) <= {1}:
                a, b = b, a
            if not set(b) <= {1}:
                return {v: 1}
            k = b.get(1, 0)
            if v[2] == "Div" and not k:
                return None
            return {t: (c * k if v[2] == "Mult" else c / k) for t, c in a.items()}
        return {v: 1}
    if v[:3] == ("x", "call", "float") and len(v) == 4:
        return poly(v[3])
    return {v: 1}


def clean(p):
    return {t: k for t, k in p.items() if abs(k) > 1e-12}


def total(p):
    """a polynomial as a value"""
    p = clean(p)
    if set(p) <= {1}:
        return C(p.get(1, 0))
    return ("x", "sum", tuple(sorted(p.items(), key=repr)))


def legs(seq):
    out = {}
    for a, b in zip(seq, seq[1:]):
        if a != b:
            out[leg(a, b)] = out.get(leg(a, b), 0) + 1
    return out


def ints(v):
    return [x[2] for x in v[2]] if v[0] == "l" and all(isc(x) and isinstance(x[2], int) for x in v[2]) else None


def ground(v):
    return isc(v) or v[0] == "l" and all(ground(x) for x in v[2])


class Tour(CCP):
    """CCP with a symbolic distance matrix, exact sums, files with known lines, and assignment to elements of lists of lists"""
    floats = True
    lines = ()

    def binop(self, op, a, b):
        if a[0] == "or" or b[0] == "or" or isc(a) and isc(b) or a[0] in "ld" and len(a[0]) == 1 or b[0] in "ld" and len(b[0]) == 1:
            if isinstance(op, ast.Mult) and a[0] == "l" and isc(b) and isinstance(b[2], int) and b[2] < 50:
                return ("l", a[1], a[2] * b[2])
            if isinstance(op, ast.Mult) and b[0] == "l" and isc(a) and isinstance(a[2], int) and a[2] < 50:
                return ("l", b[1], b[2] * a[2])
            return super().binop(op, a, b)
        v = X("op", type(op).__name__, a, b)
        p = poly(v) if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) else None
        return total(p) if p is not None else v

    def at(self, v, i, n=None):
        if v == ("x", "param", "D") and ground(i):
            ij = ints(i) if i[0] == "l" else None
            if ij and len(ij) == 2:
                return leg(*ij) if ij[0] != ij[1] else C(0)
            if isc(i):
                return ("x", "row", i[2])
        if v[:2] == ("x", "row") and isc(i) and isinstance(i[2], int):
            return leg(v[2], i[2]) if v[2] != i[2] else C(0)
        if v[0] == "l" and isc(i) and isinstance(i[2], int) and not -len(v[2]) <= i[2] < len(v[2]):
            raise Stop()
        return super().at(v, i, n)

    def compare(self, op, a, b):
        if a == b and ground(a) and not isc(a) and isinstance(op, (ast.Eq, ast.NotEq)):
            return C(isinstance(op, ast.Eq))
        if isinstance(op, (ast.Eq, ast.NotEq)) and ground(a) and ground(b) and a[0] == b[0] == "l":
            return C((a[2] == b[2]) == isinstance(op, ast.Eq))
        return super().compare(op, a, b)

    def ev_Attribute(self, e, env, f):
        v = super().ev_Attribute(e, env, f)
        if v[:2] == ("x", "attr") and v[3] == "kind" and mentions(v[2], "dtype"):
            return C("f" if self.floats else "i")
        return v

    def bind(self, t, v, env, f):
        if isinstance(t, ast.Subscript):
            path, b = [], t
            while isinstance(b, ast.Subscript):
                if isinstance(b.slice, ast.Slice):
                    break
                path.insert(0, self.ev(b.slice, env, f))
                b = b.value
            if isinstance(b, ast.Name) and b.id in env:
                new = self.put(env[b.id], path, v)
                if new is not None:
                    env[b.id] = new
                    return
        return super().bind(t, v, env, f)

    def put(self, b, path, v):
        if not path:
            return v
        i = path[0]
        if b[0] == "l" and isc(i) and isinstance(i[2], int) and -len(b[2]) <= i[2] < len(b[2]):
            new = self.put(b[2][i[2]], path[1:], v)
            l = list(b[2])
            l[i[2]] = new
            return None if new is None else ("l", b[1], tuple(l))
        if b[0] == "d" and ground(i) and all(ground(k) for k, _ in b[1]):
            old = next((x for k, x in b[1] if k == i), None)
            new = self.put(old, path[1:], v) if len(path) == 1 or old is not None else None
            return None if new is None else ("d", tuple([(k, x) for k, x in b[1] if k != i] + [(i, new)]))
        return None

    def method(self, base, fn, name, args, kw, env, f):
        if base[0] == "l" and base[1] == "file":
            if name == "readlines":
                return ("l", "list", base[2])
            if name == "read":
                return C("".join(x[2] for x in base[2]))
            if name == "readline":
                raise GiveUp("a file is read line by line")
        if isc(base) and isinstance(base[2], str) and name in ("decode", "encode", "splitlines", "partition", "rpartition"):
            if name in ("decode", "encode"):
                return base
            return ("l", "list", tuple(C(x) for x in getattr(base[2], name)(*[a[2] for a in args if isc(a)])))
        if base[0] == "l" and isinstance(fn.value, ast.Subscript) and name in ("append", "extend") and len(args) == 1:
            add = (args[0],) if name == "append" else args[0][2] if args[0][0] == "l" else None
            if add is not None:
                env2 = env
                self.bind(fn.value, ("l", base[1], base[2] + add), env2, f)
                return NONE
        if base[0] == "l" and name == "add" and isinstance(fn.value, ast.Name) and fn.value.id in env and len(args) == 1 and ground(args[0]):
            if args[0] not in base[2]:
                env[fn.value.id] = ("l", base[1], base[2] + (args[0],))
            return NONE
        if base[0] == "l" and name in ("reverse", "sort") and not args and not kw and isinstance(fn.value, ast.Name) and fn.value.id in env and ground(base):
            l = base[2][::-1] if name == "reverse" else tuple(sorted(base[2], key=lambda x: x[2])) if all(isc(x) for x in base[2]) else None
            if l is not None:
                env[fn.value.id] = ("l", base[1], l)
                return NONE
        if base[0] == "l" and name == "copy":
            return base
        if name in ("rotate", "appendleft", "popleft") and base[0] == "l" and isinstance(fn.value, ast.Name) and fn.value.id in env:
            l = list(base[2])
            if name == "rotate":
                k = args[0][2] if args and isc(args[0]) else 1
                k %= len(l) or 1
                l, r = l[len(l) - k:] + l[:len(l) - k], NONE
            elif name == "appendleft":
                l, r = [args[0]] + l, NONE
            else:
                if not l:
                    raise Stop()
                r = l.pop(0)
            env[fn.value.id] = ("l", base[1], tuple(l))
            return r
        return super().method(base, fn, name, args, kw, env, f)

    def builtin(self, n, args, kw):
        if n in ("sum", "fsum") and args and args[0][0] == "l":
            r = args[1] if len(args) > 1 else C(0)
            for x in args[0][2]:
                r = self.binop(ast.Add(), r, x)
            return r
        if n in ("min", "max") and len(args) == 1 and not kw and args[0][0] == "l" and args[0][2] and all(isc(x) for x in args[0][2]):
            return C((min if n == "min" else max)(x[2] for x in args[0][2]))
        if n == "sorted" and len(args) == 1 and args[0][0] == "l" and all(isc(x) for x in args[0][2]) and not set(kw) - {"reverse"}:
            r = kw.get("reverse", C(False))
            return ("l", "list", tuple(sorted(args[0][2], key=lambda x: x[2], reverse=bool(isc(r) and r[2]))))
        if n in ("set", "frozenset", "OrderedDict", "OrderedSet") and len(args) == 1 and args[0][0] == "l" and ground(args[0]):
            l = tuple(dict.fromkeys(args[0][2]))
            if n.endswith("set"):
                l = tuple(sorted(l, key=lambda x: x[2])) if all(isc(x) for x in l) else l
            return ("l", "list", l)
        if n == "deque" and len(args) == 1 and args[0][0] == "l":
            return args[0]
        if n == "sqrt" and len(args) == 1 and isc(args[0]):
            return C(args[0][2] ** .5)
        if n == "float" and len(args) == 1 and args[0][0] == "x":
            return args[0]
        if n == "permutations" or n == "combinations":
            l = args[0][2]
            k = args[1][2] if len(args) > 1 else len(l)
            return ("l", "list", tuple(("l", "tuple", t) for t in getattr(itertools, n)(l, k)))
        return super().builtin(n, args, kw)


def seen_float(v):
    return lambda s, a, k: C(v)


class Back:
    """one back end: its function, and how its surroundings answer"""
    def __init__(self, repo, rep, name, mod, fn):
        self.repo, self.rep, self.name = repo, rep, name
        try:
            self.f = repo.func(PRE + mod, fn)
        except Exception:
            self.f = None
        self.bad, self.good, self.off = {}, {}, {}

    def run(self, sel, floats=True, models=None, inline=None, extra=None):
        D = ("x", "param", "D")
        kind = lambda s, a, k: C(floats)
        m = {"issubclass": kind, "issubdtype": kind, "is_integer_dtype": lambda s, a, k: C(not floats),
             "objf": objective, "totald": lambda s, a, k: TOP, "isinstance": lambda s, a, k: TOP}
        m.update(models or {})
        c = Tour(self.repo, opaque=("write_TSPLIB_file", "log", "objf"), models=m, inline=inline or (lambda t: t.module.dotted.startswith(PRE)))
        c.floats = floats
        p = self.f.params
        args = {p[0]: D, p[1]: ("l", "list", tuple(C(i) for i in sel))}
        args.update(extra or {})
        r = c.run(self.f, args)
        return r, c

    def judge(self, sel, r, what, cost=None, order=None):
        """r: the value returned for the node list sel"""
        want = list(dict.fromkeys(sel))
        for v in alts(r) if r is not None else ():
            if v == TOP or v[0] != "l" and v != NONE or v[0] == "l" and len(v[2]) != 2:
                self.skip("tour", "%s: what is returned" % what)
                continue
            t, k = v[2] if v != NONE else (NONE, NONE)
            for t in alts(t):
                s = ints(t)
                if t == NONE:
                    self.put("tour", False, "a tour is returned", what)
                    continue
                if s is None:
                    self.skip("tour", "%s: the tour" % what)
                    continue
                if t[1] not in ("list", "tuple", "file"):
                    continue
                self.put("start", bool(s) and s[0] == sel[0] == s[-1], "it starts and ends at the first given node", "%s: %s" % (what, s))
                inner = s[:-1] if len(s) > 1 else s
                self.put("visits", sorted(inner) == sorted(want), "it visits each given node once", "%s: %s" % (what, s))
                if order is not None and sorted(inner) == sorted(want):
                    self.put("order", same_cycle(inner, order), "it is the tour that the solver found", "%s: %s" % (what, s))
                for kk in alts(k):
                    p = poly(kk)
                    if p is None or kk == TOP:
                        self.skip("cost", "%s: the cost" % what)
                    elif same(p, legs(s)):
                        self.put("cost", True, "the cost is that of the tour", what)
                    elif cost is not None and same(p, cost):
                        self.put("cost", True, "the cost is the one the solver reports for the tour, in the units of the distances", what)
                    else:
                        self.put("cost", False, "the cost is that of the tour", "%s: tour %s, cost %s" % (what, s, show(p)))
        if r is None:
            self.put("tour", False, "a tour is returned", what)

    def put(self, key, ok, text, what):
        (self.good if ok else self.bad).setdefault((key, text), []).append(what)

    def skip(self, rule, what):
        self.off.setdefault(rule, []).append(what)

    def report(self):
        for (k, t), w in sorted(self.bad.items()):
            self.rep.violate("tour", "%s: %s" % (self.name, t), "not for %s (%d of the lists and answers tried)" % (w[0], len(w)))
        for (k, t), w in sorted(self.good.items()):
            if (k, t) not in self.bad:
                self.rep.ok("tour", "%s: %s, in %d cases" % (self.name, t, len(w)))
        for k, w in self.off.items():
            self.rep.skip("tour", "%s %s: not understood, e.g. %s" % (self.name, k, w[0]))


def show(p):
    return " + ".join("%s%s" % ("" if k == 1 else "%g*" % k, "D[%d,%d]" % t[2:] if isinstance(t, tuple) and t[:2] == ("x", "D") else t if t != 1 else "1") for t, k in
                      sorted(clean(p).items(), key=repr))[:120] or "0"


def same(p, q):
    d = dict(p)
    for t, k in q.items():
        d[t] = d.get(t, 0) - k
    return not any(abs(v) > 1e-9 for v in d.values())


def same_cycle(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    for x in (b, b[::-1]):
        if any(x[i:] + x[:i] == a for i in range(len(x))):
            return True
    return False


def objective(s, a, k):
    seq = ints(a[0]) if a else None
    D = a[1] if len(a) > 1 else k.get("D", TOP)
    if seq is None or D != ("x", "param", "D"):
        return TOP
    return total(legs(seq))


def guard(b, what, fn):
    try:
        fn()
    except (GiveUp, RecursionError) as e:
        b.skip("tour", "%s: %s" % (what, e))


def closed(l):
    return list(l) + [l[0]]


def tiny(b, sizes, close=False, models=None):
    for n in sizes:
        for l in LISTS[n]:
            for sel in [list(l)] + ([closed(l)] if close and n > 1 else []):
                for fl in (True, False):
                    what = "nodes %s%s" % (sel, "" if fl else " with integer distances")
                    def go():
                        r, c = b.run(sel, fl, models)
                        b.judge(sel, r, what)
                    guard(b, what, go)


def writes(b, c, sel, fl, acc, what):
    for name, args, kw, t, where in c.calls:
        if t is None or t.name != "write_TSPLIB_file":
            continue
        kw = dict(kw)
        val = lambda p: kw.get(p) or (args[t.params.index(p)] if p in t.params and t.params.index(p) < len(args) else None)
        s = val("selected_idxs")
        b.put("file", val("D") == ("x", "param", "D") and s is not None and ints(s) == list(sel), "the problem given to the solver is the one of the given nodes", what)
        a = val("float_to_int_precision") or NONE
        b.put("file", a == (C(acc) if fl else NONE), "real distances are scaled to integers for the solver, integers are not", what)


def lkh(repo, rep):
    b = Back(repo, rep, "solve_tsp_lkh", "tsp_solver_lkh", "solve_tsp_lkh")
    if b.f is None or len(b.f.params) < 2:
        return rep.skip("tour", "solve_tsp_lkh")
    tiny(b, (1, 2, 3))
    acc = [p for p in b.f.params if "accuracy" in p or "precision" in p]
    for l in LISTS[4]:
        for fl in (True, False):
            for perm in itertools.permutations(range(1, 5)):
                text = ["NAME : x.tour\n", "COMMENT : Length = 123\n", "COMMENT : Found by LKH\n", "TYPE : TOUR\n", "DIMENSION : 4\n", "TOUR_SECTION\n"] + ["%d\n" % i for i in perm] + ["-1\n", "EOF\n"]

                def opened(s, a, k):
                    mode = a[1] if len(a) > 1 else k.get("mode", C("r"))
                    return ("l", "file", tuple(C(x) for x in text)) if isc(mode) and mode[2][:1] == "r" else X("call", "open", *a)
                what = "nodes %s, solver's tour %s%s" % (list(l), perm, "" if fl else ", integer distances")

                def go():
                    r, c = b.run(l, fl, {"open": opened}, extra={acc[0]: C(1000.0)} if acc else None)
                    b.judge(l, r, what, cost={1: .123 if fl else 123}, order=[l[i - 1] for i in perm])
                    writes(b, c, l, fl, 1000.0, what)
                guard(b, what, go)
    b.report()


def acotsp(repo, rep):
    b = Back(repo, rep, "solve_tsp_acotsp", "tsp_solver_acotsp", "solve_tsp_acotsp")
    if b.f is None or len(b.f.params) < 2:
        return rep.skip("tour", "solve_tsp_acotsp")
    tiny(b, (1, 2, 3))
    acc = [p for p in b.f.params if "accuracy" in p or "precision" in p]
    for l in LISTS[4]:
        for fl in (True, False):
            for perm in itertools.permutations(range(4)):
                text = "try 0, Best 123, found at iteration 1\nbest solution so far is %s\ntry 0, Best 123, found at\n" % " ".join(map(str, perm))
                out = ("l", "tuple", (C(text), C("")))
                m = {"communicate": lambda s, a, k: out, "check_output": lambda s, a, k: C(text)}
                what = "nodes %s, solver's tour %s%s" % (list(l), perm, "" if fl else ", integer distances")

                def go():
                    r, c = b.run(l, fl, m, extra={acc[0]: C(1000.0)} if acc else None)
                    b.judge(l, r, what, cost={1: .123 if fl else 123}, order=[l[i] for i in perm])
                    writes(b, c, l, fl, 1000.0, what)
                guard(b, what, go)
    b.report()


def gurobi(repo, rep):
    b = Back(repo, rep, "solve_tsp_gurobi", "tsp_solver_gurobi", "solve_tsp_gurobi")
    if b.f is None or len(b.f.params) < 2:
        return rep.skip("tour", "solve_tsp_gurobi")
    tiny(b, (1, 2, 3), close=True)
    for n in (4, 5):
        tours = [(0,) + p for p in itertools.permutations(range(1, n)) if p[0] < p[-1]]
        for l in LISTS[n]:
            for sel in (list(l), closed(l)):
                for t in tours:
                    edges = {frozenset((t[i - 1], t[i])) for i in range(n)}

                    def values(s, a, k):
                        vs = a[-1] if a else TOP
                        if vs[0] != "d":
                            raise GiveUp("the variables asked for")
                        out = []
                        for key, var in vs[1]:
                            ij = ints(key)
                            if not ij or len(ij) != 2:
                                raise GiveUp("the variables' keys")
                            out.append((key, C(1.0 if frozenset(ij) in edges and ij[0] != ij[1] else 0.0)))
                        return ("d", tuple(out))
                    what = "nodes %s, solver's tour %s" % (sel, t)

                    def go():
                        m = {"getAttr": values, "addVar": lambda s, a, k: X("var", k.get("obj", a[2] if len(a) > 2 else NONE))}
                        r, c = b.run(sel, True, m)
                        cost = None
                        objs = [dict(kw).get("obj") for name, args, kw, tt, w in c.calls if name == "addVar"]
                        want = [C(0) if i == j else leg(sel[i], sel[j]) for i in range(n) for j in range(i + 1)]
                        if None not in objs and objs:
                            key = lambda o: sorted((x for x in o if x != C(0)), key=repr)
                            ok = key(objs) == key(want) or key(objs) == key(want + [x for x in want])
                            b.put("model", ok, "the solver minimises the legs' distances", what)
                            if ok:
                                cost = "objVal"
                        obj = next((p for p in [obj_val(r)] if p is not None), None)
                        b.judge(sel, r, what, cost=obj if cost else None, order=[sel[i] for i in t])
                    guard(b, what, go)
    b.report()


def obj_val(r):
    for v in alts(r) if r is not None else ():
        if v[0] == "l" and len(v[2]) == 2 and v[2][1][:2] == ("x", "attr") and v[2][1][3] in ("objVal", "ObjVal", "objval"):
            return {v[2][1]: 1}
    return None


def ropt(repo, rep):
    for fn in ("solve_tsp_ropt", "solve_tsp_2opt", "solve_tsp_3opt"):
        b = Back(repo, rep, fn, "tsp_solver_ropt", fn)
        if b.f is None or len(b.f.params) < 2:
            rep.skip("tour", fn)
            continue
        flags = [p for p in b.f.params[2:]]
        for n in LISTS:
            for l in LISTS[n]:
                for sel in [list(l)] + ([closed(l)] if n > 1 else []):
                    for moves in (0, 1, 2):
                        for on in ([{}] + [{p: C(True)} for p in flags] + [{p: C(False)} for p in flags] if n in (3, 4) else [{}]):
                            what = "nodes %s, %d improvements%s" % (sel, moves, "".join(", %s=%s" % (p, v[2]) for p, v in on.items()))
                            count = {}

                            def op(name):
                                def move(s, a, k):
                                    seq = ints(a[0]) if a else None
                                    if seq is None or (a[1] if len(a) > 1 else k.get("D")) != ("x", "param", "D"):
                                        raise GiveUp("what %s is given" % name)
                                    count[name] = count.get(name, 0) + 1
                                    if count[name] > moves or len(seq) < 4:
                                        return ("l", "tuple", (NONE, NONE))
                                    new = [seq[0]] + (seq[1:-1][::-1] if count[name] % 2 == 0 else seq[2:-1] + seq[1:2]) + [seq[-1]]
                                    p = legs(new)
                                    for t, c in legs(seq).items():
                                        p[t] = p.get(t, 0) - c
                                    return ("l", "tuple", (("l", "list", tuple(C(x) for x in new)), total(p)))
                                return move

                            def shuffled(s, a, k):
                                return NONE
                            m = {"shuffle": shuffled}
                            for g in repo.all_functions():
                                if g.name.startswith("do_") and g.name.endswith("_move") and g.module.dotted.startswith("verypy.local_search"):
                                    m[g.name] = op(g.name)

                            def go():
                                r, c = b.run(sel, True, m, extra=on)
                                b.judge(sel, r, what)
                            guard(b, what, go)
        b.report()


def fast(repo, rep):
    b = Back(repo, rep, "solve_tsp_fast", "tsp_solver_fast", "solve_tsp_fast")
    if b.f is None or len(b.f.params) < 2:
        return rep.skip("tour", "solve_tsp_fast")
    for n in range(1, 31):
        sel = list(range(2 + n, 2, -1))
        what = "%d nodes" % n

        def answer(s, a, k):
            return ("x", "answer", a[0] if a else k.get("D"), a[1] if len(a) > 1 else k.get("selected_idxs"))

        def go():
            m = {g.name: answer for g in repo.all_functions() if g.name.startswith("solve_tsp_") and g.name != "solve_tsp_fast"}
            r, c = b.run(sel, True, m)
            if r is None or any(v[0] == "x" and v[:2] != ("x", "answer") for v in alts(r)):
                return b.skip("tour", what)
            b.put("passes", all(v == ("x", "answer", ("x", "param", "D"), ("l", "list", tuple(C(i) for i in sel))) for v in alts(r)),
                  "one of the other back ends is asked for exactly the given nodes, and its answer returned", what)
        guard(b, what, go)
    b.report()


def run(repo, rep):
    rep.rule("tour", "the tour starts and ends at the first given node, visits the given nodes once, and has the cost returned", 24)
    for fn in (ropt, lkh, acotsp, gurobi, fast):
        fn(repo, rep)
    have = len(rep.instances["tour"]) + sum(1 for u in rep.undecided if u.startswith("tour:"))
    for i in range(have, 24):
        rep.skip("tour", "not recognised (%d)" % i)
    rep.assume("distances are symmetric with zero diagonal; node lists have distinct nodes (apart from a closing first node for the r-opt and Gurobi back ends)")
    rep.assume("the external solver answers with a tour over the problem's nodes; lists of 4 and 5 nodes stand for all longer ones")
    rep.assume("the operators used by the r-opt back end return a route over the same nodes with the change of its cost (C01, C02)")
    return {"scope": "solve_tsp_ropt, solve_tsp_2opt, solve_tsp_3opt, solve_tsp_lkh, solve_tsp_acotsp, solve_tsp_gurobi, solve_tsp_fast"}
