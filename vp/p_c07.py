"""C07: guarded growth.  Every route total a construction heuristic advances (load, cost) was compared with its limit on the
path, at the value it is advanced to, and the amounts are the demand and the cost change of the customers added."""
import ast
from .core import Func, AnalysisBroken
from . import symx
from .symx import Explorer, TooBig, terms, const, add, atoms_in, show

H = "verypy.classic_heuristics."
EPSKIND = {"C": "CAP", "L": "COS"}
NAME = {"C": "load", "L": "cost"}
CONFIGS = (("C", "L"), ("C",), ("L",))


class Ex(Explorer):
    def __init__(self, *a, **k):
        self.limits = []
        Explorer.__init__(self, *a, **k)

    def event(self, kind, data, node, st):
        if kind == "limit":
            self.limits.append((data, getattr(node, "lineno", 0)))


def explore(repo, f, given, cls=Ex, **kw):
    ex = cls(repo, f, given=("D", "d") + tuple(given), absent=tuple(x for x in ("C", "L") if x not in given), **kw)
    ex.run()
    return ex


def acc_key(t):
    if t[0] == "h":
        return ("var", t[1])
    if t[0] == "attr":
        return ("attr", t[2])
    if t[0] == "sub":
        return ("sub", t[1])
    return None


def loc_key(loc):
    if loc[0] == "var":
        return loc
    return ("attr", loc[2]) if loc[0] == "attr" else ("sub", loc[1])


def opaque(t):
    return t[0] in ("call", "mcall") or t[0] == "item" and opaque(t[1]) or t[0] == "sub" and opaque(t[1])


def degrees(v):
    """node -> number of legs gained; other terms"""
    deg, rest = {}, {}
    for t, c in terms(v).items():
        if t[0] == "D":
            for x in t[1:]:
                deg[x] = deg.get(x, 0) + c
        else:
            rest[t] = c
    return {k: v for k, v in deg.items() if v}, rest


def contains(new, old):
    to, tn = terms(old), terms(new)
    return bool(to) and all(tn.get(t) == c for t, c in to.items())


def customer_pool(b):
    return b[0] == "coll" and b[1] in ("set", "frozenset", "OrderedSet") or b[0] == "set" or b[0] == "comp" and b[1].startswith("{") or b[0] == "p"


def slack_ok(lim, eps):
    for t, c in eps:
        if t[1] != EPSKIND[lim] and c < 0:
            return "the tolerance of another quantity"
        if c < -1:
            return "%g times the tolerance" % -c
    return None


class Growth:
    def __init__(self, repo, rep, f, given):
        self.repo, self.rep, self.f, self.given = repo, rep, f, given
        self.bad = {}
        self.n = {"compared": 0, "amount": 0, "tolerance": 0}

    def violate(self, rule, text, line):
        self.bad.setdefault((rule, text), line)

    def run(self):
        ex = explore(self.repo, self.f, self.given)
        self.ex = ex
        self.accs = {"C": set(), "L": set()}
        for (lim, E, eps, exceeded), line in ex.limits:
            for t in terms(E):
                k = acc_key(t)
                if k:
                    self.accs[lim].add(k)
            s = slack_ok(lim, eps)
            self.n["tolerance"] += 1
            if s:
                self.violate("tolerance", "a %s is compared with %s with %s" % (NAME[lim], lim, s), line)
        for (how, nid, ev, w), st, node in ex.every.values():
            if how == "raise":
                continue
            self.segment(ev, w, st, how, node)

    def records(self, ev, st):
        """a record put back where it was unpacked from holds what its parts have become"""
        parts = {}
        for k, d, l in ev:
            if k != "store":
                continue
            if d[0][0] == "var" and d[2][0] == "item" and isinstance(d[2][2], int):
                parts.setdefault(d[2][1], {})[d[2][2]] = d[0][1]
            if d[0][0] == "sub" and d[2][0] == "obj" and d[0] in parts:
                self.n["amount"] += 1
                for i, (fld, v) in enumerate(d[2][3]):
                    var = parts[d[0]].get(i)
                    if var and any(k in self.accs[X] for X in self.given for k in [("var", var)]) and st.env.get(var) not in (None, v):
                        self.violate("amount", "the %s stored with the route is not the one it was advanced to" % fld, l)

    def segment(self, ev, within, st, how, node):
        self.records(ev, st)
        accs = self.accs["C"] | self.accs["L"]
        moves = any(k == "grow" or k == "store" and loc_key(d[0]) in accs for k, d, l in ev)
        takes = [(d, l) for k, d, l in ev if k == "take" and (d[0] == "flag" and d[1][0] != "sub" and moves or
                                                              d[0] == "pool" and customer_pool(d[1]))]
        merges = []
        for k, d, l in ev:
            if k == "grow" and d[0] in ("extend", "+=") and d[1][0] == "sub" and len(d[2]) == 1 and d[2][0][0] == "sub" and d[2][0][1] == d[1][1]:
                merges.append((d[1][2], d[2][0][2], l))
        if not takes and not merges:
            return
        nodes = [d[2] for d, l in takes]
        line = (takes[0][1] if takes else merges[0][2])
        for lim in ("C", "L"):
            if lim not in self.given:
                continue
            S = [(d[0], d[1], d[2], l) for k, d, l in ev if k == "store" and loc_key(d[0]) in self.accs[lim] and not
                 (d[2][0] == "c" and d[2][1] is None)]
            grown, restarts = [], []
            for loc, old, new, l in S:
                if old is not None and contains(new, old):
                    grown.append((loc, old, new, add(new, old, -1), l))
                elif any(opaque(t) for t in terms(new)):
                    if any(x in atoms_in(new) for x in nodes) or merges:
                        grown.append((loc, old, new, None, l))     # else: the same route put in another order
                elif new[0] in ("h", "item", "attr", "sub") :
                    continue                                   # taken over from another record
                else:
                    restarts.append((loc, new, l))
            if not grown and not restarts:
                self.violate("compared", "a customer is added without comparing and advancing the route's %s" % NAME[lim], line)
                continue
            good = True
            for loc, old, new, inc, l in grown:
                self.n["compared"] += 1
                passed = [(E, eps) for k, X, E, eps in within if k == "within" and X == lim]
                hit = [E for E, eps in passed if E == new]
                if not hit and lim == "L" and inc is not None:
                    hit = [E for E, eps in passed if self.closing(E, new, inc, nodes)]
                if not hit:
                    good = False
                    self.violate("compared", "the %s is advanced to a value that was not compared with %s" % (NAME[lim], lim), l)
            if good:
                self.amounts(lim, grown, restarts, nodes, merges, ev, line)

    def closing(self, E, new, inc, nodes):
        deg, rest = degrees(inc)
        if rest or len(nodes) != 1 or deg.get(nodes[0]) != 1 or len(deg) != 2:
            return False
        x = [k for k in deg if k != nodes[0]][0]
        if deg[x] != 1:
            return False
        cl = add(E, new, -1)
        cd, cr = degrees(cl)
        if cr or const(cl) or cd.get(("c", 0)) != 2 or cd.get(nodes[0]) != 1 or len(cd) != 3:
            return False
        y = [k for k in cd if k not in (nodes[0], ("c", 0))][0]
        if cd[y] != 1:
            return False
        if x[0] == y[0] == "sub" and x[1] == y[1]:
            return {x[2], y[2]} == {("c", 0), ("c", -1)}
        return x != y

    def amounts(self, lim, grown, restarts, nodes, merges, ev, line):
        self.n["amount"] += 1
        opq = [g for g in grown if g[3] is None]
        if lim == "C":
            tot = ("c", 0)
            for g in grown:
                if g[3] is None:
                    return
                tot = add(tot, g[3])
            for r in restarts:
                tot = add(tot, r[1])
            if merges and not nodes:
                i, j, l = merges[0]
                if not (len(grown) == 1 and grown[0][0][0] == "sub" and grown[0][0][2] == i and grown[0][3] == ("sub", grown[0][0][1], j)):
                    self.violate("amount", "the load of a merged route is not advanced by the load of the other route", l)
                return
            want = ("c", 0)
            for n in nodes:
                want = add(want, ("dem", n))
            if tot != want:
                self.violate("amount", "the load is advanced by %s where %s is added" % (pretty(tot), ", ".join(pretty(n) for n in nodes)), line)
            return
        if opq:
            return
        for loc, old, new, inc, l in grown:
            deg, rest = degrees(inc)
            if merges and not nodes:
                i, j, l2 = merges[0]
                if deg != {("c", 0): -2} or rest != {("sub", loc[1], j): 1} or loc[2] != i or const(inc):
                    self.violate("amount", "the cost of a merged route is not that of both routes less two depot legs plus the joining leg", l)
                continue
            want = {n: 2 for n in nodes}
            if deg == want and not rest and not const(inc):
                continue
            if not rest and len(nodes) == 1 and deg.get(nodes[0]) == 1 and len(deg) == 2 and sum(deg.values()) == 2 and not const(inc):
                self.position(deg, nodes[0], ev, l)
                continue
            self.violate("amount", "the cost is advanced by something else than the legs of the added customer", l)
        for loc, new, l in restarts:
            deg, rest = degrees(new)
            if new in (("c", 0), ("c", 0.0)):
                continue
            want = {n: 2 for n in nodes}
            want[("c", 0)] = 2 * len(nodes)
            if rest or deg != want or const(new):
                self.violate("amount", "a new route's cost is not the way to its customer and back", l)

    def position(self, deg, n, ev, l):
        x = [k for k in deg if k != n][0]
        for k, d, l2 in ev:
            if k == "grow" and d[0] in ("append", "appendleft", "appendright") and d[2] == (n,) and x[0] == "sub" and x[1] == d[1]:
                if (x[2] == ("c", 0)) != (d[0] == "appendleft"):
                    self.violate("amount", "the customer is put to the other end than the one its legs were counted for", l)


def pretty(v):
    return show(v)


GENERIC = [("parallel_savings", "parallel_savings_init", "CL"), ("sequential_savings", "sequential_savings_init", "CL"),
           ("nearest_neighbor", "nearest_neighbor_init", "CL"), ("cmt_2phase", "_phase_one", "CL"), ("cmt_2phase", "_phase_two", "CL")]


def generic(repo, rep):
    for m, q, lims in GENERIC:
        try:
            f = repo.func(H + m, q)
        except AnalysisBroken as e:
            for r in ("compared", "amount", "tolerance"):
                rep.skip(r, str(e))
            continue
        bad = {}
        n = {}
        for given in CONFIGS:
            g = Growth(repo, rep, f, given)
            try:
                g.run()
            except TooBig as e:
                rep.skip("compared", str(e))
                continue
            for k, l in g.bad.items():
                bad.setdefault(k, l)
            for k, v in g.n.items():
                n[k] = n.get(k, 0) + v
                if v and not any(b[0] == k for b in g.bad):
                    rep.ok(k, "%s[%s] %d" % (f.where, "".join(given), v))
        for (rule, text), l in sorted(bad.items()):
            rep.violate(rule, "%s|%s" % (f.where, text), "%s:%s (%s): %s" % (f.module.rel, l, f.qualname, text))


# ---- heuristics with their own way of growing ------------------------------------
def within(w, lim):
    return [E for k, X, E, eps in w if k == "within" and X == lim]


def last_return(ev):
    r = [d for k, d, l in ev if k == "return"]
    return r[-1] if r else None


def flat(v):
    """records in a returned value"""
    if v[0] in ("t", "list"):
        for x in v[1]:
            yield from flat(x)
    elif v[0] == "cat":
        yield from flat(v[1])
        yield from flat(v[2])
    elif v[0] == "obj":
        yield v


class Custom:
    """one function explored under each combination of limits; `check` looks at every segment"""
    name = module = None
    config = CONFIGS
    opts = {}
    explorer = Ex

    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep

    def run(self, f=None):
        rep = self.rep
        try:
            f = f or self.repo.func(H + self.module, self.name)
        except AnalysisBroken as e:
            rep.skip("compared", str(e))
            return
        self.f = f
        self.bad, self.n = {}, {}
        for given in self.config:
            self.given = given
            try:
                ex = self.ex = explore(self.repo, f, given, cls=self.explorer, **self.opts)
            except TooBig as e:
                rep.skip("compared", str(e))
                continue
            self.tolerance(ex)
            self.setup()
            for (how, nid, ev, w), st, node in ex.every.values():
                if how != "raise":
                    self.how, self.st, self.node = how, st, node
                    self.check(ev, w)
            self.done()
        for k, v in sorted(self.n.items()):
            if not any(b[0] == k for b in self.bad):
                rep.ok(k, "%s %d" % (f.where, v))
        if not self.n.get("compared") and not self.bad:
            rep.skip("compared", "%s: no growth of a route recognised" % f.where)
        for (rule, text), l in sorted(self.bad.items()):
            rep.violate(rule, "%s|%s" % (f.where, text), "%s:%s (%s): %s" % (f.module.rel, l, f.qualname, text))

    def setup(self):
        pass

    def done(self):
        pass

    def tolerance(self, ex):
        for (lim, E, eps, exceeded), line in ex.limits:
            s = slack_ok(lim, eps)
            self.count("tolerance")
            if s:
                self.violate("tolerance", "a %s is compared with %s with %s" % (NAME[lim], lim, s), line)

    def count(self, rule):
        self.n[rule] = self.n.get(rule, 0) + 1

    def violate(self, rule, text, line):
        self.bad.setdefault((rule, text), line)

    def need(self, w, lim, E, what, line):
        if lim not in self.given:
            return
        self.count("compared")
        if E not in within(w, lim):
            self.violate("compared", "%s although its %s was not found to be within %s" % (what, NAME[lim], lim), line)

    def want(self, ok, text, line):
        self.count("amount")
        if not ok:
            self.violate("amount", text, line)


class InsertCallback(Custom):
    """accept -> totals advanced by the compared change; reject -> the route is as before"""
    def setup(self):
        p = self.f.params
        self.ins, self.rd = ("p", p[0]), ("p", p[1])
        self.inits, self.steps = {}, {}

    def check(self, ev, w):
        for k, d, l in ev:
            if k == "store" and d[0][0] == "var":
                v = d[2]
                if self.how == "iteration" and d[1] is not None and d[1][0] == "h" and contains(v, d[1]):
                    self.steps.setdefault(d[0][1], set()).add(add(v, d[1], -1))
        r = last_return(ev)
        if self.how != "end" or r is None or r[0] != "t" or r[1][0] not in (("c", True), ("c", False)):
            return
        ok = r[1][0][1]
        line = [l for k, d, l in ev if k == "return"][-1]
        stores = [(d[0], d[1], d[2], l) for k, d, l in ev if k == "store" and d[0][0] == "attr" and d[0][1] == self.rd]
        if not ok:
            ins = [d[1] for k, d, l in ev if k == "grow" and d[0] in ("insert", "append", "appendleft", "appendright")]
            outs = [d[1] for k, d, l in ev if k == "take"]
            self.count("compared")
            for b in outs:
                if b in ins:
                    ins.remove(b)
            if ins or any(s[0][2] != "potential_insertions" for s in stores):
                self.violate("compared", "a rejected insertion leaves the route changed", line)
            return
        inc = {}
        for loc, old, new, l in stores:
            if contains(new, old) or old[0] != "c" and new != old and terms(new).get(old) == 1:
                inc[loc[2]] = (old, new, add(new, old, -1), l)
        for lim, fld in (("C", "demand_delta"), ("L", "cost_delta")):
            src = ("attr", self.ins, fld)
            hit = [(a, x) for a, x in inc.items() if self.traces(x[2], src, ev)]
            self.want(bool(hit), "an accepted insertion does not add the insertion's %s to the route's %s" % (fld, NAME[lim]), line)
            for a, (old, new, dlt, l) in hit:
                if lim == "L":
                    self.need(w, "L", new, "an insertion is accepted", l)

    def traces(self, dlt, src, ev):
        if dlt == src:
            return True
        if dlt[0] == "h":                        # accumulated in a loop
            first = [d[2] for k, d, l in ev if k == "store" and d[0] == ("var", dlt[1])]
            v = [s for s in self.origin(dlt[1])]
            return src in v
        t = terms(dlt)
        return t.get(src) == 1 and all(opaque(x) or x == src for x in t)

    def origin(self, name):
        out = set()
        for (how, nid, ev, w), (st, node) in self.ex.segments.items():
            for k, d, l in ev:
                pass
        # the value assigned before the loop (names are dropped from the log only for fresh variables)
        for key, (st, node) in self.ex.segments.items():
            for k, d, l in key[2]:
                if k == "store" and d[0] == ("var", name) and how_first(d):
                    out.add(d[2])
        return out


def how_first(d):
    return d[1] is None or d[1][0] != "h"


class Potential(Custom):
    module, name = "cheapest_insertion", "_new_potential_insertions"
    opts = {"interesting_calls": ("heappush", "append")}

    def check(self, ev, w):
        for k, d, l in ev:
            objs = [x for a in (d[1] if k == "call" else d[2] if k == "grow" else ()) for x in flat(a)]
            for o in objs:
                f = dict(o[3])
                if not {"customer", "cost_delta", "demand_delta", "after_node", "before_node"} <= set(f):
                    continue
                c, a, b = f["customer"], ("attr", f["after_node"], "value"), ("attr", f["before_node"], "value")
                self.count("compared")
                if "C" in self.given:
                    self.want(f["demand_delta"] == ("dem", c), "an insertion's demand change is not the demand of its customer", l)
                want = add(add(symx.dist(a, c), symx.dist(c, b)), symx.dist(a, b), -1)
                self.want(f["cost_delta"] == want, "an insertion's cost change is not that of its customer between its neighbours", l)


class SeedRoute(Custom):
    """the totals a new emerging route starts from are those of its seed customers"""
    module, name = "cheapest_insertion", "_EmergingRouteData.__init__"
    opts = {"interesting_calls": ("dllist",)}

    def check(self, ev, w):
        me = ("p", self.f.params[0])
        at = {d[0][2]: (d[2], l) for k, d, l in ev if k == "store" and d[0][0] == "attr" and d[0][1] == me}
        if "route" not in at or "used_capacity" not in at or "cost" not in at:
            return
        r = at["route"][0]
        nodes = r[2][0] if r[0] in ("call", "coll") and r[2] else None
        if nodes is None:
            return
        seeds = [x for x in atoms_in(nodes) if x == ("p", self.f.params[1])]
        dem, l = at["used_capacity"]
        self.count("compared")
        if seeds:
            if dem[0] in ("h", "new", "at", "mcall"):
                return                                   # summed up in another way
            ok = dem[0] == "call" and dem[1] == ("g", "sum") and dem[2] and dem[2][0][0] == "comp" and self.total(dem[2][0], nodes)
            self.want(ok, "a new route's load is not the demand of all its seed customers", l)
            c, l = at["cost"]
            self.want(c[0] in ("h", "new", "at", "mcall") or c[0] == "call" and nodes in c[2], "a new route's cost is not that of the way through its seed customers", l)
        else:
            self.want(dem in (("c", 0), ("c", 0.0)) and at["cost"][0] in (("c", 0), ("c", 0.0)), "an empty route starts with a load or a cost", l)

    def total(self, comp, nodes):
        try:
            e = ast.parse(comp[1], mode="eval").body
        except SyntaxError:
            return False
        if not isinstance(e, (ast.GeneratorExp, ast.ListComp)) or len(e.generators) != 1 or e.generators[0].ifs:
            return False
        g = e.generators[0]
        env = dict(comp[2])
        if not (isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Subscript) and isinstance(e.elt.value, ast.Name) and
                isinstance(e.elt.slice, ast.Name) and e.elt.slice.id == g.target.id and env.get(e.elt.value.id) == ("p", "d")):
            return False
        src = env.get(g.iter.id) if isinstance(g.iter, ast.Name) else None
        return src is not None and (src == nodes or src == ("p", self.f.params[1]))


class InsertLoop(Custom):
    module, name = "cheapest_insertion", "cheapest_insertion_init"
    opts = {"interesting_calls": ("insert_callback",)}

    def check(self, ev, w):
        for i, (k, d, l) in enumerate(ev):
            if k == "call" and d[0] == "insert_callback" and len(d[1]) > 2 and "C" in self.given:
                ins, rd = d[1][0], d[1][1]
                e = add(("attr", rd, "used_capacity"), ("dem", ("attr", ins, "customer")))
                self.need(w, "C", e, "an insertion is tried", l)


class Sweep(Custom):
    module, name = "sweep", "do_one_sweep"
    opts = {"interesting_calls": ("_ensure_L_feasible",), "inline": lambda t, c, d: False,
            "keep": lambda loc, v: loc[0] == "attr" and loc[2] in ("demand", "cost", "route")}

    def trusted(self, o):
        return o[0] == "item" and o[1][0] == "call"                 # handed back by an improvement callback

    def check(self, ev, w):
        if self.how != "iteration":
            return
        taken = [(d[2], l) for k, d, l in ev if k == "take" and d[0] == "flag"]
        added = [(d[1], d[2][0], l) for k, d, l in ev if k == "grow" and d[0] == "add" and len(d[2]) == 1]
        cs = [(d[0], d[1], d[2], l) for k, d, l in ev if k == "store" and d[0][0] == "attr" and d[0][2] == "demand"]
        for b, n, l in added:
            if not any(t == n for t, _ in taken):
                continue
            if "C" in self.given:
                hit = [x for x in cs if terms(x[2]).get(("dem", n)) == 1]
                self.want(len(hit) == 1 and add(hit[0][2], ("dem", n), -1) == hit[0][1], "the load of the emerging route is not advanced by the demand of the added customer", l)
                for loc, old, new, l2 in hit:
                    if loc[1][0] == "obj" or self.trusted(loc[1]):
                        continue
                    self.need(w, "C", new, "a customer is added to the emerging route", l2)
        if "L" not in self.given:
            return
        ensured = []
        for k, d, l in ev:
            if k == "call" and len(d[1]) > 4:
                ensured.append(d[1][4])
            elif k == "store" and d[0][2] in ("cost", "route") and d[0][1] in ensured:
                ensured.remove(d[0][1])
            elif k == "grow" and d[0] == "append" and len(d[2]) == 1:
                o = d[2][0]
                if o[0] == "obj":
                    o = next((x[1] for _, v in o[3] for x in sorted(atoms_in(v), key=repr) if x[:1] == ("attr",) and
                              x[2] in ("cost", "route", "demand", "node_set") and x[1][0] in ("h", "item", "obj")), o)
                if o[0] not in ("h", "obj", "item"):
                    continue
                self.count("compared")
                if o not in ensured and not (self.trusted(o) and ensured):
                    self.violate("compared", "a route is stored without having been shortened to the maximum route cost", l)


class Shorten(Custom):
    module, name = "sweep", "_ensure_L_feasible"
    config = (("C", "L"), ("L",))

    def check(self, ev, w):
        rd = ("p", self.f.params[4])
        if self.how == "end":
            self.need(w, "L", ("attr", rd, "cost"), "the route is handed back", self.f.node.lineno)
            return
        outs = [(d[2], l) for k, d, l in ev if k == "take" and d[0] == "pool" and d[1] == ("attr", rd, "node_set")]
        for n, l in outs:
            self.want(any(k == "release" and d[2] == n for k, d, _ in ev), "a customer is removed from the route but stays marked as routed", l)
            if "C" in self.given:
                dem = [d for k, d, _ in ev if k == "store" and d[0] == ("attr", rd, "demand")]
                self.want(len(dem) == 1 and add(dem[0][2], dem[0][1], -1) == mul(("dem", n), -1), "the demand of a removed customer is not taken off the load", l)
            self.want(any(k == "store" and d[0] == ("attr", rd, "cost") for k, d, _ in ev), "the cost is not updated when a customer is removed", l)


def mul(v, c):
    return symx.mul(v, c)


class Replace(Custom):
    """records built by the function and stored / returned"""
    receiving = None

    def records(self, ev):
        for k, d, l in ev:
            if k == "return":
                for o in flat(d):
                    yield o, l
            elif k == "store" and d[0][0] == "sub" and d[2][0] == "obj":
                yield d[2], l

    def check(self, ev, w):
        for o, l in self.records(ev):
            if o[1] != "RouteData" or len(o[3]) < 3:
                continue
            cost, dem = o[3][1][1], o[3][2][1]
            if cost == ("default", "cost") or any(x[:1] in (("h",), ("item",)) and self.unpacked(x) for x in atoms_in(cost)):
                continue
            self.need(w, "L", cost, "a changed route is kept", l)
            self.need(w, "C", dem, "a changed route is kept", l)
            self.amount(o, ev, l)

    def unpacked(self, x):
        return x[0] == "h"

    def amount(self, o, ev, l):
        pass


class GilletMiller(Replace):
    module, name = "gillet_miller_sweep", "_improvement_callback"
    config = (("C", "L"),)
    opts = {"keep": lambda loc, v: False, "inline": lambda t, c, d: False}

    def unpacked(self, x):
        return False

    def amount(self, o, ev, l):
        nodes = o[3][3][1] if len(o[3]) > 3 else None
        gone = [d[2] for k, d, _ in ev if k == "take" and d[0] == "pool" and d[1] == nodes]
        came = [d[2][0] for k, d, _ in ev if k == "grow" and d[0] == "add" and d[1] == nodes]
        if gone or came:
            tot = o[3][2][1]
            for n in came:
                tot = add(tot, ("dem", n), -1)
            for n in gone:
                tot = add(tot, ("dem", n))
            self.want(not any(t[0] == "dem" for t in terms(tot)), "the load of a changed route is not that of its customers", l)


class Complain(Replace):
    module, name = "wren_holliday_sweep", "complain_heuristic"
    opts = {"keep": lambda loc, v: loc[0] == "sub"}


class Partition(Custom):
    module, name = "rfcs", "_partition_to_routes_with_cost_matrix"

    def check(self, ev, w):
        for k, d, l in ev:
            if k == "store" and d[0][0] == "sub" and any(opaque(t) and t[0] == "item" for t in terms(d[2])) and d[0][1][0] == "mcall":
                if "L" in self.given:
                    self.count("compared")
                    if not any(contains(d[2], E) for E in within(w, "L")):
                        self.violate("compared", "a sequence of customers is offered as a route although its cost was not found to be within L", l)
                if "C" in self.given:
                    self.count("compared")
                    cum = [x[2] for kk, x, _ in ev if kk == "store" and x[0][0] == "var" and x[2] in within(w, "C")]
                    nd = [t for E in within(w, "C") for t in terms(E) if t[0] == "dem"]
                    idx = atoms_in(d[0][2])
                    if not nd or not any(x in idx for t in nd for x in (t[1], t[1][-1]) if isinstance(x, tuple)):
                        self.violate("compared", "a sequence of customers is offered as a route although its load was not found to be within C", l)
                    else:
                        self.want(bool(cum), "the running load is not advanced by the demand of the customer added to the sequence", l)


class MatchSavings(Custom):
    module, name = "matchingvrp", "_calculate_savings"
    opts = {"keep": lambda loc, v: False}

    def check(self, ev, w):
        if self.how != "end":
            return
        r, l = last_return(ev), [l for k, d, l in ev if k == "return"][-1]
        if r == ("p", self.f.params[4]):
            return
        t = terms(r)
        for lim in self.given:
            self.count("compared")
            Es = within(w, lim)
            if lim == "L":
                ok = any(t.get(E) == -1 for E in Es)
            else:
                ok = any(len(terms(E)) == 2 and not const(E) and all(c == 1 for c in terms(E).values()) for E in Es)
            if not ok:
                self.violate("compared", "a merge of two routes is given savings although its %s was not found to be within %s" % (NAME[lim], lim), l)


class GreedyMerge(Custom):
    module, name = "matchingvrp", "_geedy_merge"
    opts = {"keep": lambda loc, v: loc[0] == "sub"}

    def check(self, ev, w):
        if self.how != "iteration":
            return
        merged = any(k == "store" and d[0][0] == "sub" and d[0][1] == ("p", "route_sets") for k, d, l in ev)
        for k, d, l in ev:
            if k == "store" and d[0][0] == "sub" and d[0][1] == ("p", "tsp_cache") and d[2][0] == "t" and len(d[2][1]) == 2:
                cost = d[2][1][1]
                self.need(w, "L", cost, "a merged route is kept", l)
                if merged and "C" in self.given:
                    self.count("compared")
                    if not any(len(terms(E)) == 2 for E in within(w, "C")):
                        self.violate("compared", "routes are merged although their load was not found to be within C", l)


class Interchange(Custom):
    module, name = "tyagi_nearest_neighbor", "route_end_interchange"

    def setup(self):
        self.chosen = set()
        for key in self.ex.segments:
            for k, d, l in key[2]:
                if k == "return":
                    self.chosen |= {x[1] for x in atoms_in(d) if isinstance(x, tuple) and x[:1] == ("h",)}

    def check(self, ev, w):
        route, load, cost = [("p", x) for x in self.f.params[:3]]
        for k, d, l in ev:
            if k != "store" or d[0][0] != "var" or d[0][1] not in self.chosen or self.how != "iteration" or d[2] == ("c", None) or opaque(d[2]) or d[2][0] == "at":
                continue
            if not any(x[:1] == ("it",) for x in atoms_in(d[2]) if isinstance(x, tuple)):
                continue
            for lim, base in (("C", load), ("L", cost)):
                if lim not in self.given:
                    continue
                self.count("compared")
                Es = [E for E in within(w, lim) if terms(E).get(base) == 1]
                if not Es:
                    self.violate("compared", "an interchange is chosen although the %s was not found to be within %s" % (NAME[lim], lim), l)
                    continue
                inc = add(Es[0], base, -1)
                if lim == "C":
                    t = terms(inc)
                    self.want(sorted(t.values()) == [-1, 1] and all(x[0] == "dem" for x in t), "an interchange's load change is not the difference of the two demands", l)
                else:
                    deg, rest = degrees(inc)
                    ok = not rest and sorted(deg.values()) == [-2, 2] and not const(inc)
                    self.want(ok, "an interchange's cost change is not that of the exchanged legs", l)


class Penalties(Custom):
    """lr3opt: the accumulating check of a whole solution"""
    module, name = "lr3opt", "_check_CL_constraints"
    opts = {"remember": True}

    def check(self, ev, w):
        if self.how == "end":
            r = last_return(ev)
            l = [l for k, d, l in ev if k == "return"][-1] if r else 0
            if r == ("c", False):
                self.count("compared")
                if not any(x[0] == "beyond" for x in w):
                    self.violate("compared", "a solution is rejected without a limit exceeded", l)
            return
        node = [d[2] for k, d, l in ev if k == "store" and d[0][0] == "var" and d[2][0] == "it"]
        if not node:
            return
        node = node[0]
        zero = is_zero(node, self.st)
        for lim in self.given:
            Es = within(w, lim)
            acc = [E for E in Es]
            self.count("compared")
            if lim == "C":
                if zero is False and not any(terms(E).get(("dem", node)) == 1 for E in Es):
                    self.violate("compared", "a customer's demand is not counted and compared with C", self.f.node.lineno)
            else:
                prev_none = any(k[0] == "eq" and ("c", None) in k and v for k, v in self.st.facts.items() if isinstance(k, tuple))
                if not prev_none and not any(t[0] == "D" and node in t for E in Es for t in terms(E)):
                    self.violate("compared", "a leg of the solution is not counted and compared with L", self.f.node.lineno)
        # what the next node starts from
        for k, v in self.st.env.items():
            if zero is False:
                for E in within(w, "C"):
                    olds = [t for t in terms(E) if t[0] == "h"]
                    if ("h", k) == (olds[0][:2] if olds else None):
                        self.want(v == E, "the running load is not kept", self.f.node.lineno)
            if zero is True:
                for lim in self.given:
                    for E in within(w, lim):
                        olds = [t for t in terms(E) if t[0] == "h"]
                        if olds and olds[0][1] == k and lim == "L":
                            self.want(v in (("c", 0), ("c", 0.0)), "the running cost is not started anew at the depot", self.f.node.lineno)


def is_zero(node, st):
    for k, v in st.facts.items():
        if k[0] == "eq" and node in k and (("c", 0) in k):
            return v
        if k == ("truth", node):
            return not v
    return None


class Force(Custom):
    module, name = "lr3opt", "_force_feasible"
    opts = {"remember": True}

    def check(self, ev, w):
        if self.how != "iteration":
            return
        node = [d[2] for k, d, l in ev if k == "store" and d[0][0] == "var" and d[2][0] == "it"]
        for k, d, l in ev:
            if k != "grow" or d[0] != "append" or not node or d[2] != (node[-1],):
                continue
            n = node[-1]
            if d[1][0] == "list":
                continue                         # a route of its own
            alone = [v for kk, v in self.st.facts.items() if kk[0] == "gt" and any(isinstance(x, tuple) and x[:1] == ("call",) and d[1] in x[2] for x in atoms_in(kk))]
            if alone and alone[0] is False:
                continue                         # the route is still empty
            for lim in self.given:
                self.count("compared")
                if lim == "C":
                    ok = any(terms(E).get(("dem", n)) == 1 for E in within(w, lim))
                else:
                    ok = any(degrees(E)[0].get(n) == 2 and degrees(E)[0].get(("c", 0)) == 1 for E in within(w, lim))
                if not ok:
                    self.violate("compared", "a customer is put on a route although its %s was not found to be within %s" % (NAME[lim], lim), l)


class Relaxed(Custom):
    module, name = "petalvrp", "_generate_solution_relaxation_petals"
    opts = {"keep": lambda loc, v: False, "inline": lambda t, c, d: False}

    def check(self, ev, w):
        for k, d, l in ev:
            if k != "grow" or d[0] != "extend":
                continue
            for o in [x for a in d[2] for x in flat(a)]:
                cost, dem = o[3][1][1], o[3][2][1]
                if dem[0] == "if":
                    dem = dem[2]
                if not any(t[0] == "dem" and c == 1 for t, c in terms(dem).items()):
                    continue
                self.need(w, "L", cost, "a customer is moved to a route", l)
                self.need(w, "C", dem, "a customer is moved to a route", l)


class GapEx(Ex):
    """keeps only the flags, the joined routes and what the limits said: the search settings do not matter here"""
    max_states = 400000

    def prepare(self):
        f, repo = self.f, self.repo
        self.flags, self.counters, self.lists = set(), set(), set()
        for n in ast.walk(f.node):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AugAssign) else None
            if not isinstance(t, ast.Name):
                continue
            v = n.value
            if isinstance(n, ast.Assign) and isinstance(v, ast.Constant) and isinstance(v.value, bool):
                self.flags.add(t.id)
            elif isinstance(n, ast.AugAssign) and (isinstance(v, ast.Constant) or isinstance(v, ast.Name) and v.id.isupper()):
                self.counters.add(t.id)
            elif isinstance(n, ast.Assign) and isinstance(v, ast.Name) and isinstance(repo.resolve_expr(f, v), Func):
                self.counters.add(t.id)
            elif isinstance(n, ast.Assign) and isinstance(v, ast.List):
                self.lists.add(t.id)

    def run(self, st=None):
        self.prepare()
        return Ex.run(self, st)

    def tracked(self, e):
        return any(isinstance(x, ast.Name) and x.id.split("$")[0] in self.flags for x in ast.walk(e))

    def log(self, st, kind, data, node):
        if kind == "store" and data[0][0] == "var" and (data[2][0] in ("h", "cat") or data[2][0] == "list"):
            if data[0][1] in self.lists or any(x[0] == "h" and x[1] in self.lists for x in atoms_in(data[2]) if isinstance(x, tuple) and x):
                Ex.log(self, st, kind, data, node)
        elif kind == "grow" and data[1][0] == "h" and data[1][1] in self.lists:
            Ex.log(self, st, kind, data, node)

    def stmt(self, n, st):
        a = n.ast
        t = a.target if isinstance(a, ast.AugAssign) else a.targets[0] if isinstance(a, ast.Assign) else None
        if isinstance(t, ast.Name) and t.id in self.counters:
            s = st.copy()
            s.env[t.id] = ("count", t.id)
            return [s]
        return Ex.stmt(self, n, st)


class GapCheck(Custom):
    """routes joined to a solution of the relaxed assignment are within L, and within C when the relaxation may break it"""
    module, name = "gapvrp", "gap_init"
    config = (("C", "L"), ("L",))
    explorer = GapEx

    def grown(self, ev):
        """(list, route cost and demand source, loop) joined in the segment"""
        out = []
        for k, d, l in ev:
            if k == "grow" and d[0] in ("+=", "extend") and d[1][0] == "h":
                for v in d[2]:
                    for x in atoms_in(v):
                        if isinstance(x, tuple) and len(x) > 1 and x[0] == "item" and isinstance(x[1], tuple) and x[1][0] == "call":
                            out.append((d[1], x[1], l))
        return out

    def check(self, ev, w):
        joined = self.grown(ev)
        kept = [(d[2], l) for k, d, l in ev if k == "store" and d[2][0] == "h" and d[0][1] != d[2][1]]
        for lst, call, l in joined:
            its = [x for x in atoms_in(call) if isinstance(x, tuple) and len(x) == 3 and x[0] == "it"]
            mine = self.how == "iteration" and its and max(x[2] for x in its) == self.node.id      # the innermost loop
            if not mine and not any(v == lst for v, _ in kept):
                continue
            for lim in self.given:
                self.count("compared")
                if not any(call in atoms_in(E) and len(terms(E)) == 1 and not const(E) for E in within(w, lim)):
                    self.violate("compared", "a route is joined to the solution although its %s was not found to be within %s" % (NAME[lim], lim), l)
        for v, l in kept:
            self.count("compared")
            for k, X, E, eps in w:
                if k == "beyond" and any(isinstance(x, tuple) and len(x) == 3 and x[0] == "it" for x in atoms_in(E)):
                    self.violate("compared", "a solution is kept although a route was found to exceed %s" % X, l)


CUSTOM = [Potential, SeedRoute, InsertLoop, Sweep, Shorten, GilletMiller, Complain, Partition, MatchSavings, GreedyMerge, Interchange, Penalties,
          Force, Relaxed, GapCheck]


def callbacks(repo):
    """functions given as insert_callback (default or argument)"""
    out = {}
    ci = repo.func(H + "cheapest_insertion", "cheapest_insertion_init")
    a = ci.node.args
    for p, dflt in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
        if p.arg == "insert_callback" and isinstance(dflt, ast.Name):
            r = repo.resolve_expr(ci, dflt)
            if isinstance(r, Func):
                out[r.where] = r
    for f in repo.all_functions():
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call):
                for k in c.keywords:
                    if k.arg == "insert_callback":
                        r = repo.resolve_expr(f, k.value)
                        if isinstance(r, Func):
                            out[r.where] = r
    return list(out.values())


def run(repo, rep):
    rep.rule("compared", "with a limit given, the route total is advanced only to a value that was compared with the limit on the path", 8)
    rep.rule("amount", "the total is advanced by the demand, or by the change of legs, of exactly the customers added", 8)
    rep.rule("tolerance", "comparisons with a limit allow at most the documented tolerance of that quantity", 8)
    generic(repo, rep)
    for c in CUSTOM:
        c(repo, rep).run()
    cbs = []
    try:
        cbs = callbacks(repo)
    except AnalysisBroken as e:
        rep.skip("compared", str(e))
    for f in cbs:
        InsertCallback(repo, rep).run(f)
    return {"scope": "growth steps of the construction heuristics"}
