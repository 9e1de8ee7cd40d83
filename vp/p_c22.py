"""C22: construction heuristics serve every customer once: what a path takes from the unserved customers is what it puts on routes."""
import ast
from collections import Counter
from .core import Func, ClassInfo, AnalysisBroken
from . import symx
from .symx import Explorer, TooBig, terms, atoms_in, show
from .p_c07 import callbacks

H = "verypy.classic_heuristics."
ADD = ("append", "appendleft", "appendright", "add")
COLL = ("list", "tuple", "deque", "OrderedSet", "set", "frozenset", "sorted", "_PeekQueue", "reversed")
ZERO = ("c", 0)


def ends(t, side):
    """the first (0) or last (-1) element of a list term, None when not known"""
    if t[0] in ("list", "t"):
        return t[1][side] if t[1] else None
    if t[0] == "cat":
        x = t[1] if side == 0 else t[2]
        y = t[2] if side == 0 else t[1]
        if x[0] in ("list", "t") and not x[1]:
            return ends(y, side)
        return ends(x, side)
    if t[0] == "coll" and len(t) > 2 and len(t[2]) == 1 and t[1] in ("list", "tuple", "deque"):
        return ends(t[2][0], side)
    if tour_of(t) is not None:
        return ends(tour_of(t), 0)
    return None


def tour_of(t):
    """the nodes a tour is made of, when t is a routing result"""
    if t[0] == "item" and t[2] == 0 and t[1][0] in ("call", "mcall"):
        c = t[1]
        args = c[-1]
        if len(args) == 2 and args[0] == ("p", "D"):
            return args[1]
    return None


def content(t):
    """the customers in a list: elements and whole collections, or None"""
    k = t[0]
    if k in ("list", "t"):
        return Counter({x: n for x, n in Counter(t[1]).items() if x != ZERO})
    if k == "cat":
        a, b = content(t[1]), content(t[2])
        return None if a is None or b is None else a + b
    if k == "coll" and t[1] in COLL:
        if not t[2]:
            return Counter()
        return content(t[2][0])
    if k == "rev":
        return content(t[1])
    if tour_of(t) is not None:
        return content(tour_of(t))
    if k == "slice":
        lo, hi, step = (x[1] if x[0] == "c" else "?" for x in t[2:5])
        if step not in (None, 1, -1):
            return None
        c = content(t[1])
        if c is None or lo not in (None, 0, 1) or hi not in (None, -1):
            return None
        c = Counter(c)
        for cut, side in ((lo == 1, 0), (hi == -1, -1)):
            if cut:
                e = ends(t[1], side)
                if e is None:
                    c[("end", side)] -= 1          # an end that is not known: the depot by the convention of routes
                    del c[("end", side)]
                elif e != ZERO:
                    c[e] -= 1
        return Counter({x: n for x, n in c.items() if n})
    if k == "c" and t[1] is None:
        return Counter()
    if k in ("lin", "comp", "rep", "lambda"):
        return None
    return Counter({("all", t): 1})


def mentions(t, xs):
    a = atoms_in(t)
    return any(x in a for x in xs)


def flag_pool(b):
    """a list of served flags, one per node (and not, say, one per route and node)"""
    return b[0] in ("rep", "p", "h") or b[0] == "coll" or b[0] == "comp" and " for " in b[1] and not b[1].startswith("[[")


def all_customers(b):
    """a set that starts as every node but the depot"""
    return any(x[0] == "call" and x[1] == ("g", "range") for x in atoms_in(b) if isinstance(x, tuple) and len(x) > 1 and isinstance(x[0], str))


def unserved_pool(b):
    return b[0] == "coll" and b[1] in ("set", "frozenset", "OrderedSet", "list") and all_customers(b) or \
        b[0] in ("p", "h") and len(b) > 1 and isinstance(b[1], str) and b[1].startswith("unrouted")


def base_of(b):
    while b[0] == "attr":
        b = b[1]
    return b


class Ex(Explorer):
    def __init__(self, *a, **k):
        self.origin = {}                       # ends of queues: value term -> (queue, is the value used)
        Explorer.__init__(self, *a, **k)
        self.plain = {id(n.ast.value) for n in self.cfg.nodes if isinstance(n.ast, ast.Expr)}

    def ev_Call(self, e, st):
        v = Explorer.ev_Call(self, e, st)
        if v[0] == "at" and isinstance(e.func, ast.Attribute):
            self.origin[v] = (self.ev(e.func.value, st), id(e) not in self.plain)
        return v

    def tracked(self, e):
        x = e.operand if isinstance(e, ast.UnaryOp) else e
        return Explorer.tracked(self, e) or isinstance(x, (ast.Subscript, ast.Name)) or \
            isinstance(x, ast.Compare) and all(isinstance(y, ast.Name) for y in [x.left] + x.comparators)

    def compare(self, e, op, a, b, st):
        was = self.remember
        self.remember = was or any(isinstance(t, tuple) and t[0] == "call" and t[1] == ("g", "len") for v in (a, b) for t in terms(v))
        out = Explorer.compare(self, e, op, a, b, st)
        self.remember = was
        return out

    def forget(self, b, st):
        self.before = dict(st.facts)
        Explorer.forget(self, b, st)
        self.resized(b, st)

    def resized(self, b, st):
        n = ("call", ("g", "len"), (b,))
        if impossible(st):
            st.facts[("contradiction",)] = True
        for k in [k for k in st.facts if k[0] in ("gt", "eq") and n in atoms_in(k)]:
            del st.facts[k]

    def log(self, st, kind, data, node):
        if kind == "take" and data[0] == "flag":          # what was known at that moment
            data += (st.facts.get(("truth", ("sub", data[1], data[2]))),)
        if kind == "take" and data[0] == "pool":
            data += (tuple((k[1], v) for k, v in st.facts.items() if k[0] == "truth" and k[1][0] == "item"),
                     self.before.get(("in", data[2], data[1])))
        if kind == "store":
            data += (st.facts.get(("truth", data[1])) if data[1] else None,)
        Explorer.log(self, st, kind, data, node)

    def havoc(self, h, st):
        """keep what is known of list elements when the loop changes no list element and not that element"""
        s = Explorer.havoc(self, h, st)
        names, attrs, subs = self.loop_names(h)
        lo, hi = h.info
        body = [x for n in self.cfg.nodes if lo <= n.id < hi and n.ast is not None and n.kind not in ("loop", "iter", "dispatch", "handler")
                for x in ast.walk(n.ast)]
        grown = [self.ev(x.func.value, st) for x in body if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)]
        for g in grown:
            self.resized(g, s)
        named = {st.env[x.id] for x in body if isinstance(x, ast.Name) and x.id in st.env}
        for k, v in st.facts.items():
            if k[0] != "truth" or k in s.facts or any(isinstance(x, tuple) and x and (x[0] == "h" and x[2] == h.id or x[0] == "at") for x in atoms_in(k)):
                continue
            if k[1][0] == "sub" and not subs and not any(g in (k[1], k[1][1]) for g in grown) or \
                    k[1][0] == "coll" and k[1] not in named:
                s.facts[k] = v
        return s


class Paths:
    """one function, all its paths under given limits"""
    config = (("C", "L"), ("C",), ("L",))
    opts = {}

    def __init__(self, repo, rep, module, name):
        self.repo, self.rep, self.module, self.name = repo, rep, module, name
        self.bad, self.n, self.und = {}, {}, {}

    def segments(self):
        for given in self.config:
            ex = Ex(self.repo, self.f, given=("D", "d") + given, absent=tuple(x for x in ("C", "L") if x not in given),
                          log_kinds=("take", "release", "grow", "store", "return", "call"), **self.opts)
            ex.max_states = 300000
            ex.run()
            self.ex = ex
            yield [(how, nid, ev, st, node) for (how, nid, ev, w), st, node in ex.every.values()]

    def run(self):
        try:
            self.f = self.repo.func(H + self.module, self.name)
            self.gather()
        except (AnalysisBroken, TooBig) as e:
            self.rep.skip(self.main, "%s: %s" % (self.name, e))
            return
        f = self.f
        for k, v in sorted(self.n.items()):
            if not any(b[0] == k for b in self.bad):
                self.rep.ok(k, "%s %d paths" % (f.where, v))
        for (rule, text) in sorted(self.und):
            self.rep.skip(rule, "%s: %s" % (f.where, text))
        if not self.n.get(self.main) and not self.bad and not any(k[0] == self.main for k in self.und):
            self.rep.skip(self.main, "%s: nothing recognised" % f.where)
        for (rule, text), l in sorted(self.bad.items()):
            self.rep.violate(rule, "%s|%s" % (f.where, text), "%s:%s (%s): %s" % (f.module.rel, l, f.qualname, text))

    def gather(self):
        for segs in self.segments():
            self.check(segs)

    def count(self, rule):
        self.n[rule] = self.n.get(rule, 0) + 1

    def violate(self, rule, text, line):
        self.bad.setdefault((rule, text), line)

    def undecided(self, rule, text):
        self.und[(rule, text)] = 1


def impossible(st):
    """the first and the last node of a route are the same although it has more than one (and serves nobody twice)"""
    if ("contradiction",) in st.facts:
        return True
    for k, v in st.facts.items():
        if v and k[0] == "eq":
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if y[0] == "sub" and y[2] == ("c", 0):
                    last = ("sub", y[1], ("c", -1))
                    if (st.facts.get(("eq", x, last)) or st.facts.get(("eq", last, x))) and \
                            any(c and g[0] == "gt" and ("call", ("g", "len"), (y[1],)) in atoms_in(g) for g, c in st.facts.items()):
                        return True
    return False


def moved(ev):
    """(node, container, +1/-1, position, line): what the path puts on and takes off containers; unserved pools apart"""
    out = []
    for i, (k, d, l) in enumerate(ev):
        if k == "grow":
            op, b, args = d[0], d[1], d[2] if len(d) > 2 and isinstance(d[2], tuple) else ()
            if op in ADD and args or op == "insert":
                for a in args[:1] if op in ADD else args:
                    out.append((a, b, 1, i, l))
            elif op in ("extend", "+=") and args and args[0][0] in ("list", "cat", "slice", "t", "coll"):
                for x, n in (content(args[0]) or {}).items():
                    if x[0] != "all":
                        out += [(x, b, 1, i, l)] * n
        elif k == "store":
            loc, old, new = d[:3]
            if new[0] not in ("list", "cat", "slice", "coll", "obj", "rev"):
                continue
            if i and ev[i - 1][0] == "grow" and ev[i - 1][1][0] == "+=" and ev[i - 1][2] == l:
                continue
            vals = [v for _, v in new[3]] if new[0] == "obj" else [new]
            for v in vals:
                if v[0] not in ("list", "cat", "slice", "coll", "rev"):
                    continue
                a = content(old) if old else None
                c = content(v)
                if c is None:
                    continue
                for x, n in (c - (a or Counter())).items():
                    if x[0] != "all":
                        out += [(x, loc, 1, i, l)] * n
        elif k == "take" and d[0] == "pool" and not unserved_pool(d[1]):
            out.append((d[2], d[1], -1, i, l))
    return out


def exhausted(p, st):
    n = ("call", ("g", "len"), (p,))
    for k, v in st.facts.items():
        if k == ("truth", p) and v is False:
            return True
        if k[0] == "gt" and v is False and terms(k[1]).get(n) == 1 and symx.const(k[1]) >= 0:
            return True
        if k[0] == "eq" and v and {k[1], k[2]} == {n, ("c", 0)}:
            return True
    return False


class Ledger(Paths):
    """served flags and unserved pools against route containers"""
    main = "paired"

    def gather(self):
        self.check([s for segs in self.segments() for s in segs])

    def check(self, segs):
        recv = set()
        rows = []
        for how, nid, ev, st, node in segs:
            if how == "raise" or impossible(st):
                continue
            takes = [(d[0], d[1], d[2], i, l, d[-1]) for i, (k, d, l) in enumerate(ev) if k == "take" and d[2] != ZERO and
                     (d[0] == "flag" and flag_pool(d[1]) or d[0] == "pool" and unserved_pool(d[1]))]
            frees = [(d[1], d[2], i, l) for i, (k, d, l) in enumerate(ev) if k == "release" and flag_pool(d[1])]
            mv = moved(ev)
            rows.append((how, nid, ev, st, node, takes, frees, mv))
            for _, _, n, _, _, _ in takes:
                recv |= {c for x, c, s, _, _ in mv if x == n and s > 0}
        self.recv = recv
        live = self.holders(rows)
        for how, nid, ev, st, node, takes, frees, mv in rows:
            seen = {}
            for kind, pool, n, i, l, known in takes:
                seen[n] = seen.get(n, 0) + 1
                if self.bulk(n, pool, ev, st):
                    continue
                self.count("paired")
                per = Counter()
                for x, c, s, _, _ in mv:
                    if x == n:
                        per[c] += s
                if seen[n] > 1:
                    self.violate("paired", "%s is marked as served twice" % show(n), l)
                if not [c for c, v in per.items() if v > 0 and (c[0] != "var" or c in live or not live)]:
                    self.violate("paired", "%s is marked as served but not put on a route on the same path" % show(n), l)
                elif max(per.values()) > 1:
                    self.violate("paired", "%s is put twice on the same route" % show(n), l)
                self.count("fresh")
                if kind == "pool":
                    if known is not True and pool not in atoms_in(n):
                        self.violate("fresh", "%s is put on a route without knowing that it is not served yet" % show(n), l)
                else:
                    if known is not False and not self.known_fresh(n, pool, ev, st):
                        self.violate("fresh", "%s is put on a route without knowing that it is not served yet" % show(n), l)
            for pool, n, i, l in frees:
                if self.bulk(n, pool, ev, st):
                    continue
                self.count("paired")
                if not any(x == n and s < 0 for x, c, s, _, _ in mv):
                    self.violate("paired", "%s is marked as not served but stays on its route" % show(n), l)
            for x, c, s, i, l in mv:
                if c in recv and s > 0 and (c[0] != "var" or c in live) and x != ZERO and x not in seen and not self.bulk(x, None, ev, st):
                    self.violate("paired", "%s is put on a route but not marked as served on the same path" % show(x), l)
                if s < 0 and not any(n == x for _, n, _, _ in frees) and base_of(c) in {base_of(r) for r in recv if r[0] == "attr"}:
                    self.violate("paired", "%s is taken off its route but stays marked as served" % show(x), l)
        self.kept(rows)
        self.leftovers(rows)
        self.finished(rows)

    def bulk(self, n, pool, ev, st):
        """flags set for all members of a collection somebody else answers for"""
        return n[0] == "it" and (n[1][0] in ("item", "call", "mcall", "at") or n[1][0] == "p")

    def known_fresh(self, n, pool, ev, st):
        return False

    # -- a route that was being built is stored before it is forgotten ---------
    def holders(self, rows):
        """locations of routes under construction"""
        out = {}
        for how, nid, ev, st, node, takes, frees, mv in rows:
            ns = {t[2] for t in takes}
            for x, c, s, i, l in mv:
                if x not in ns or s < 0:
                    continue
                if c[0] == "var":
                    out.setdefault(c, set())
                    continue
                b = c
                while True:
                    hit = [("var", v.split("$")[0]) for v, t in st.env.items() if t == b and b[0] not in ("c",)]
                    for k, d, l2 in ev:
                        if k == "store" and d[2] == b:
                            hit.append(d[0] if d[0][0] == "var" else ("sub", d[0][1]) if d[0][0] == "sub" else None)
                    if b[0] == "h":
                        hit.append(("var", b[1]))
                    if b[0] == "sub":
                        hit.append(("sub", b[1]))
                    if hit or b[0] != "attr":
                        break
                    b = b[1]
                for h in hit:
                    if h:
                        out.setdefault(h, set())
        return [h for h in out if self.carried(h, rows)]

    def carried(self, h, rows):
        """the location keeps a route from one iteration to the next, and the route leaves it for a container somewhere"""
        kept = left = False
        for how, nid, ev, st, node, takes, frees, mv in rows:
            env = [t for v, t in st.env.items() if ("var", v.split("$")[0]) == h and t[0] not in ("c",)]
            vals = self.values(h, ev, st) + env
            stored = any(k == "store" and d[0] == h for k, d, l in ev)
            left = left or any(self.handed(e, vals, h) for e in ev)
            if h[0] == "sub" or how == "iteration" and not stored and any(c in env or base_of(c) in env for x, c, s, i, l in mv) or \
                    any(isinstance(x, tuple) and len(x) == 3 and x[0] == "h" and x[1] == h[1]
                        for k, d, l in ev if k in ("store", "grow") and not (k == "store" and d[0] == h and d[1] and d[1][0] == "h" and h[1] == d[1][1]
                                                                          and d[1] not in atoms_in(d[2]))
                        for x in atoms_in(d)):
                kept = True
        return kept and left

    def values(self, h, ev, st, upto=None):
        """terms the holder's value may have on the path"""
        out = []
        for k, d, l in ev[:upto]:
            if k == "store" and (d[0] == h or h[0] == "sub" and d[0][0] == "sub" and d[0][1] == h[1]):
                out += [x for x in (d[1], d[2]) if x and x[0] != "c"]
            if k == "grow" and h[0] == "sub" and d[0] != "slice" and d[1][0] == "sub" and d[1][1] == h[1]:
                out.append(d[1])
        return out

    def handed(self, e, vals, name):
        """the event moves one of the values to another container"""
        k, d, l = e
        if k == "grow" and d[0] in ADD + ("extend", "+=", "insert") and not any(d[1] == v or base_of(d[1]) == v for v in vals):
            return any(self.has(a, vals, name) for a in d[2])
        if k == "store" and d[0][0] != "var" and d[2][0] != "c":
            return not (base_of(d[0]) in vals or d[0] == name or name[0] == "sub" and d[0][0] == "sub" and d[0][1] == name[1]) and self.has(d[2], vals, name)
        return False

    def has(self, t, vals, name):
        if t[0] in ("lin", "D", "dem", "c", "cmp") or t[0] == "call" and t[1] in (("g", "len"), ("g", "sum")):
            return False                                    # a number
        a = atoms_in(t)
        return any(v in a for v in vals) or name[0] == "var" and any(
            isinstance(x, tuple) and len(x) == 3 and x[0] == "h" and x[1] == name[1] for x in a)

    def kept(self, rows):
        for h in self.holders(rows):
            if self.returned(h, rows):
                continue
            clean, dirty_at = {}, {}
            for how, nid, ev, st, node, takes, frees, mv in rows:
                if how != "iteration":
                    continue
                vals = self.values(h, ev, st)
                env = [t for v, t in st.env.items() if ("var", v.split("$")[0]) == h and t[0] not in ("c",)]
                last = max([i for i, (k, d, l) in enumerate(ev) if k == "store" and d[0] == h and d[2][0] != "c" or
                            k == "grow" and d[0] in ADD + ("+=", "extend", "insert") and (d[1] in vals + env or base_of(d[1]) in vals + env)], default=None)
                flush = max([i for i, e in enumerate(ev) if self.handed(e, vals + env, h)], default=None)
                ok = last is None or flush is not None and flush > last or self.flagged(h, rows, st)
                clean[nid] = clean.get(nid, True) and ok
            for how, nid, ev, st, node, takes, frees, mv in rows:
                for i, (k, d, l) in enumerate(ev):
                    if k != "store" or not (d[0] == h or h[0] == "sub" and d[0][0] == "sub" and d[0][1] == h[1]):
                        continue
                    old, new = d[1], d[2]
                    if not old or old[0] == "c" or new == old:
                        continue
                    if self.continues(old, new, h):
                        continue
                    if d[3] is False or self.empty(old, st):
                        continue
                    self.count("kept")
                    vals = self.values(h, ev, st, i) + [old]
                    if any(self.handed(e, vals, h) for e in ev[:i]):
                        continue
                    if old[0] == "h" and clean.get(old[2]):
                        continue
                    if old[0] in ("list", "obj", "t", "coll") and not any(x[0] != "all" for x in (content(old) or ())) and \
                            not any(c == old or base_of(c) == old for x, c, s, j, _ in mv if j < i):
                        continue                        # as it was created: nobody on it
                    self.violate("kept", "a route under construction (%s) is replaced before its customers went to the solution" % h[1], l) \
                        if h[0] == "var" else self.violate("kept", "a route under construction is replaced before its customers went to the solution", l)

    def leftovers(self, rows):
        """routes built side by side: those left in the end are handed over one by one"""
        for h in self.holders(rows):
            if h[0] != "sub" or self.returned(h, rows):
                continue
            seen = False
            for how, nid, ev, st, node, takes, frees, mv in rows:
                if how != "iteration" or node.kind != "iter" or self.ex.ev(node.ast.iter, st) != h[1]:
                    continue
                seen = True
                self.count("kept")
                it = ("it", h[1], nid)
                if st.facts.get(("truth", it)) is not False and not any(k == "grow" and d[0] in ADD + ("extend", "+=") and any(it in atoms_in(a) for a in d[2])
                                                                      for k, d, l in ev):
                    self.violate("kept", "a route that is left in the end does not go to the solution", node.ast.lineno)
            if not seen:
                self.undecided("kept", "the routes left in the end")

    def continues(self, old, new, h):
        """the new value holds what the old one held"""
        if new[0] in ("list", "cat", "slice", "rev", "coll"):
            c = content(new) or {}
            o = content(old) or {}
            return bool(o) and all(x in c for x in o)
        if new[0] in ("call", "mcall", "item", "obj"):
            return old in atoms_in(new)
        return False

    def empty(self, old, st):
        for k, v in st.facts.items():
            if k[0] == "gt" and not v and symx.const(k[1]) >= -1:          # at most the depot
                t = [x for x, c in terms(k[1]).items() if c == 1]
                if len(t) == 1 and len(terms(k[1])) == 1 and t[0][0] == "call" and t[0][1] == ("g", "len") and base_of(t[0][2][0]) == old:
                    return True
        return False

    def flagged(self, h, rows, st):
        """nothing was added: a flag set with every addition is not set"""
        for k, v in st.facts.items():
            if k[0] == "truth" and v is False and k[1][0] == "h":
                name = k[1][1]
                sets = [r for r in rows if r[5] and r[0] == "iteration"]
                if sets and all(any(v2.split("$")[0] == name and t == ("c", True) for v2, t in r[3].env.items()) for r in sets):
                    return True
        return False

    def returned(self, h, rows):
        ends = [r for r in rows if r[0] == "end"]
        return bool(ends) and all(any(k == "return" and (self.has(d, [t for v, t in r[3].env.items() if ("var", v.split("$")[0]) == h], h) or d == ("c", None))
                                      for k, d, l in r[2]) for r in ends)

    def finished(self, rows):
        """the function ends normally only when nobody is left in the pool"""
        pools = {t[1] for r in rows for t in r[5] if t[0] == "pool"}
        for how, nid, ev, st, node, takes, frees, mv in rows:
            if how != "end" or not pools:
                continue
            ret = [d for k, d, l in ev if k == "return"]
            if not ret or ret[-1][0] == "t" and len(ret[-1][1]) > 1 and ret[-1][1][1] == ("c", None) or ret[-1] == ("c", None):
                continue
            self.count("all")
            if not any(exhausted(p, st) for p in pools):
                self.violate("all", "a solution is returned without knowing that every customer is served", ev[-1][2])


class Queues(Paths):
    """neighbour lists lose only nodes that are served: they end when everybody is"""
    main = "dropped"

    def segments(self):
        for segs in Paths.segments(self):
            yield segs

    def lists(self):
        """what the lists of neighbours start with"""
        for a in ast.walk(self.f.node):
            if not (isinstance(a, ast.Call) and isinstance(self.repo.resolve_expr(self.f, a.func), ClassInfo) and len(a.args) == 1):
                continue
            x = a.args[0]
            while isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("sorted", "list", "iter") and x.args:
                x = x.args[0]
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "enumerate":
                self.count("dropped")
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp)) and len(x.generators) == 1:
                g = x.generators[0]
                it = g.iter
                if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "range", "zip")):
                    self.undecided("dropped", "what a list of neighbours starts with")
                    continue
                self.count("dropped")
                idx = [ast.unparse(g.target)] if isinstance(g.target, ast.Name) else [ast.unparse(g.target.elts[0])]
                if isinstance(g.target, ast.Name):
                    idx.append(ast.unparse(g.target) + "[0]")
                owner = {t.id for l in ast.walk(self.f.node) if isinstance(l, ast.For) and a in ast.walk(l) for t in ast.walk(l.target) if isinstance(t, ast.Name)}
                owner |= {t.id for l in ast.walk(self.f.node) if isinstance(l, (ast.ListComp, ast.GeneratorExp)) and l is not x and a in ast.walk(l)
                          for t in ast.walk(l.generators[0].target) if isinstance(t, ast.Name)}
                for c in g.ifs:
                    ok = isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.NotEq, ast.IsNot))
                    sides = {ast.unparse(c.left), ast.unparse(c.comparators[0])} if ok else set()
                    if not ok or not sides & set(idx) or not sides & owner:
                        self.violate("dropped", "a list of neighbours leaves out more than the node itself", x.lineno)
            else:
                self.undecided("dropped", "what a list of neighbours starts with")

    def check(self, segs):
        org = self.ex.origin
        self.lists()
        for how, nid, ev, st, node in segs:
            if how == "raise":
                continue
            facts = {}
            for k, d, l in ev:
                if k == "take" and d[0] == "flag":
                    facts[d[2]] = True
            for k, v in st.facts.items():
                if k[0] == "truth" and v and k[1][0] == "sub" and flag_pool(k[1][1]):
                    facts[k[1][2]] = True
            for k, d, l in ev:
                if k != "grow" or d[0] not in ("popleft", "popright") or d[1][0] not in ("sub", "obj", "new", "coll"):
                    continue
                lists = {b for b, _ in org.values()}
                if d[1] not in lists and d[1][0] != "obj":
                    continue
                side = d[0][3:]
                self.count("dropped")
                cand = [(f, t) + e for t, (b, used) in org.items() if b == d[1] and (
                    t[1] == "peek" + side or t[1] == d[0] and used and t[2] == l) for f, e in (("item", (0,)), ("sub", (("c", 0),)))]
                if not cand and any(t[1] == d[0] and t[2] == l for t in org):
                    self.violate("dropped", "a node is dropped from a list of neighbours without looking whether it is served", l)
                elif not any(facts.get(c) for c in cand) and not any(facts.get(t[1]) for t in cand):
                    self.violate("dropped", "a node is dropped from a list of neighbours although it may not be served", l)


class Callback(Paths):
    """insert_callback: accepted means that the customer is in the route, rejected that it is not"""
    main = "callback"

    def check(self, segs):
        cust = ("attr", ("p", self.f.params[0]), "customer")
        for how, nid, ev, st, node in segs:
            if how != "end":
                continue
            ret = [d for k, d, l in ev if k == "return"]
            if not ret or ret[-1][0] != "t" or ret[-1][1][0] not in (("c", True), ("c", False)):
                self.undecided("callback", "the answer of the callback")
                continue
            self.count("callback")
            n, line = 0, ev[-1][2]
            for k, d, l in ev:
                if k == "grow" and d[0] in ("insert",) + ADD and cust in d[2]:
                    n += 1
                elif k == "take" and d[0] == "pool" and (d[2] == cust or d[2][0] == "mcall" and d[2][2] == "insert" and cust in d[2][3]):
                    n -= 1
                elif k == "store" and d[0][0] == "attr" and d[2][0] in ("list", "cat", "slice", "coll", "call", "mcall") and d[1] and d[1] == ("attr", d[0][1], d[0][2]):
                    src = {x[1] for x in atoms_in(d[2]) if isinstance(x, tuple) and len(x) == 3 and x[0] == "h"}
                    if not mentions(d[2], [d[1]]) and not any(k2 == "store" and d2[0][0] == "var" and d2[0][1] in src and mentions(d2[2], [d[1]])
                                                              for k2, d2, _ in ev):
                        self.undecided("callback", "the route is replaced")
            want = 1 if ret[-1][1][0] == ("c", True) else 0
            if n != want:
                self.violate("callback", "the customer is in the route %d times when the callback answers %s" % (n, bool(want)), line)


class InsertLoop(Paths):
    """a customer leaves the pool exactly when the callback accepted it, finished routes are kept"""
    main = "accepted"
    config = (("C", "L"),)

    def check(self, segs):
        for how, nid, ev, st, node in segs:
            if how == "raise":
                continue
            ans = {}
            for k, v in st.facts.items():
                if k[0] == "truth" and k[1][0] == "item" and k[1][2] == 0 and k[1][1][0] == "call" and k[1][1][1][0] == "p":
                    c = k[1][1]
                    if c[2] and c[2][0][0] in ("item", "at"):
                        ans[c[2][0]] = v
            for ins, ok in ans.items():
                self.count("accepted")
                n = sum(1 for k, d, l in ev if k == "take" and d[0] == "pool" and d[2] == ("attr", ins, "customer"))
                if n != (1 if ok else 0):
                    self.violate("accepted", "an insertion that was %s takes its customer from the unserved ones %d times" % (
                        "accepted" if ok else "rejected", n), ev[-1][2] if ev else 0)
            for k, d, l in ev:
                if k == "take" and d[0] == "pool" and d[2][0] == "attr" and d[2][2] == "customer" and not any(
                        v and x[2] == 0 and x[1][0] == "call" and x[1][1][0] == "p" and x[1][2] and x[1][2][0] == d[2][1] for x, v in d[3]):
                    self.violate("accepted", "a customer is taken from the unserved ones without an accepted insertion", l)
            # replacing a route
            for i, (k, d, l) in enumerate(ev):
                if k == "store" and d[0][0] == "sub" and d[2][0] == "obj" and d[1] and d[1][0] == "sub":
                    self.count("kept")
                    if not any(k2 == "grow" and d2[0] in ADD and d2[2] and d2[2][0] == d[1] for k2, d2, _ in ev[:i]):
                        self.violate("kept", "a route is replaced by a new one before it is kept with the finished ones", l)
            if how == "end":
                ret = [d for k, d, l in ev if k == "return"]
                if not ret:
                    continue
                pools = {d[1] for r in segs for k, d, l in r[2] if k == "take" and d[0] == "pool" and unserved_pool(d[1])}
                self.count("all")
                if not any(exhausted(p, st) for p in pools):
                    self.violate("all", "a solution is returned without knowing that every customer is served", ev[-1][2])


class SeedRoute(Paths):
    """the customers a new route starts with are those taken from the pool"""
    main = "paired"
    config = (("C", "L"),)

    def check(self, segs):
        looped = set()
        for how, nid, ev, st, node in segs:
            for k, d, l in ev:
                if k == "take" and d[0] == "pool" and unserved_pool(d[1]) and d[2][0] == "it":
                    looped.add(d[2][1])
                elif k == "take" and d[0] == "pool" and unserved_pool(d[1]):
                    looped.add(d[2])
        for how, nid, ev, st, node in segs:
            if how != "end":
                continue
            ret = [(d, l) for k, d, l in ev if k == "return"]
            if not ret or ret[-1][0][0] != "obj" or not ret[-1][0][3]:
                self.undecided("paired", "the new route")
                continue
            (o, l) = ret[-1]
            self.count("paired")
            seed = o[3][0][1]
            pops = {("at", d[0], l2) for k, d, l2 in ev if k == "grow" and d[0] == "pop" and unserved_pool(d[1])}
            ok = seed in looped or seed[0] == "list" and seed[1] and all(x in looped or (x[0] == "at" and x[:3] in pops) for x in seed[1])
            base = seed
            if not ok and seed[0] == "h":
                ok = any(x[0] == "h" and x[1] == seed[1] for x in looped)
            if not ok:
                self.violate("paired", "a new route starts with customers that are not taken from the unserved ones", l)


class Merge(Paths):
    """two routes of a collection become one: the union takes the place of one, the other one goes"""
    main = "merged"

    def check(self, segs):
        for how, nid, ev, st, node in segs:
            if how == "raise":
                continue
            pos = {id(e): i for i, e in enumerate(ev)}
            gone, absorbed, joined = [], [], []
            for i, (k, d, l) in enumerate(ev):
                if k == "store" and d[0][0] == "sub" and d[1] and d[1][0] == "sub" and d[0][1] == d[1][1]:
                    X, old, new = d[0][1], d[1], d[2]
                    if X[0] not in ("comp", "p", "h"):
                        continue
                    u = self.union(new)
                    if u:
                        joined.append((X, d[0][2], u, i, l))
                    elif new == ("c", None) or new == ("list", ()) or self.index_of(new, ev, X):
                        gone.append((X, d[0], i, l, new))
                elif k == "grow" and d[0] in ("extend", "+=") and d[1][0] == "sub" and len(d[2]) == 1:
                    v = d[2][0]
                    v = v[1] if v[0] == "rev" else v
                    if v[0] == "sub" and v[1] == d[1][1]:
                        absorbed.append((d[1], v, i, l))
                elif k == "grow" and d[0] == "del" and len(d[2]) == 1 and d[1][0] in ("comp", "p", "h"):
                    gone.append((d[1], ("sub", d[1], d[2][0]), i, l, None))
                elif k == "grow" and d[0] == "pop" and len(d[2]) == 1 and d[1][0] in ("comp", "p", "h"):
                    gone.append((d[1], ("sub", d[1], d[2][0]), i, l, None))
            for a, b, i, l in absorbed:
                self.count("merged")
                if not any(g[1] == b and g[2] > i for g in gone):
                    self.violate("merged", "a route is appended to another one and stays in the solution itself", l)
                if not self.apart(a[2], b[2], st):
                    self.violate("merged", "a route may be appended to itself", l)
            for X, idx, u, i, l in joined:
                self.count("merged")
                rest = [x for x in u if x[0] == "sub" and x[1] == X]
                if len(u) != 2 or len(rest) != 2:
                    self.violate("merged", "the merged route is not the union of two routes", l)
                    continue
                rm = [g for g in gone if g[0] == X and g[1] in rest]
                if len(rm) != 1:
                    self.violate("merged", "two routes are merged and %d of them leave the solution" % len(rm), l)
                    continue
                keep = [x for x in rest if x != rm[0][1]]
                dele = rm[0][4] is None
                if dele:
                    if not self.shifted(idx, keep[0][2], rm[0][1][2], st):
                        self.violate("merged", "the merged route replaces another one than the two it was made of", l)
                else:
                    if idx != keep[0][2]:
                        self.violate("merged", "the merged route replaces another one than the two it was made of", l)
                    if rm[0][4] != idx and rm[0][4] not in (("c", None), ("list", ())):
                        self.violate("merged", "the merged-in route refers to another one than the one it is merged with", l)
                if not self.apart(keep[0][2], rm[0][1][2], st):
                    self.undecided("merged", "two routes that are known to differ")
            for g in gone:
                if not any(b == g[1] for _, b, _, _ in absorbed) and not any(g[1] in u for _, _, u, _, _ in joined):
                    self.violate("merged", "a route leaves the solution and its customers are on no other one", g[3])
            for op in ("joined",):
                pass

    def union(self, t):
        if t[0] == "mcall" and t[2] in ("union",) and len(t[3]) == 1:
            return [t[1], t[3][0]]
        if t[0] == "op" and t[1] == "BitOr":
            return list(t[2:4])
        return None

    def index_of(self, new, ev, X):
        """an index of the collection (a reference to the route this one was merged with)"""
        return any(k == "store" and d[0][0] == "sub" and d[0][1] == X and d[0][2] == new and self.union(d[2]) for k, d, l in ev)

    def apart(self, i, j, st):
        for k, v in st.facts.items():
            if k[0] == "eq" and v is False and {k[1], k[2]} == {i, j}:
                return True
        return i[0] in ("item", "sub") and j[0] == i[0] and i[2] != j[2] and i[1] == j[1] and (i[0] == "item" or i[2][0] == j[2][0] == "c")         # a pair of indices from a matching or a list of pairs

    def shifted(self, idx, keep, out, st):
        """idx is where `keep` is after `out` was deleted"""
        if idx == keep:
            return any(k[0] == "gt" and v is False and self.diff(k[1], keep, out) or k[0] == "gt" and v and self.diff(k[1], out, keep)
                       for k, v in st.facts.items())
        if symx.add(keep, ("c", -1)) == idx:
            return any(k[0] == "gt" and v and self.diff(k[1], keep, out) or k[0] == "gt" and v is False and self.diff(k[1], out, keep)
                       for k, v in st.facts.items())
        return False

    def diff(self, e, a, b):
        t = terms(e)
        return t.get(a) == 1 and t.get(b) == -1 and len(t) == 2


class Exchange(Paths):
    """the answer of the route improvement: what it says was added and removed is what changed on the route"""
    main = "exchanged"

    def nodes_of(self, t, ev, upto):
        """customers on a node set when event `upto` happens, relative to the route given"""
        c = Counter()
        if t[0] == "coll" and len(t[2]) == 1:
            inner = t[2][0]
            if inner[0] == "coll":
                c.update(self.nodes_of(inner, ev, upto) or {})
            elif inner[0] in ("item", "attr", "p", "h"):
                pass
            else:
                return None
        elif t[0] not in ("item", "attr"):
            return None
        for k, d, l in ev[:upto]:
            if k == "grow" and d[0] in ADD and d[1] == t:
                c[d[2][0]] += 1
            elif k == "take" and d[0] == "pool" and d[1] == t:
                c[d[2]] -= 1
        return c

    def check(self, segs):
        rd = ("p", self.f.params[0])
        for how, nid, ev, st, node in segs:
            if how != "end":
                continue
            ret = [(d, l) for k, d, l in ev if k == "return"]
            if not ret or ret[-1][0][0] != "t" or len(ret[-1][0][1]) != 4:
                self.undecided("exchanged", "the answer")
                continue
            (t, l) = ret[-1]
            data, inc, ign, _ = t[1]
            inc, ign = content(inc), content(ign)
            if inc is None or ign is None or any(x[0] == "all" for x in list(inc) + list(ign)):
                self.undecided("exchanged", "the nodes said to be added and removed")
                continue
            self.count("exchanged")
            if data == rd:
                net = Counter()
            elif data[0] == "obj" and len(data[3]) > 3:
                net = self.nodes_of(data[3][3][1], ev, len(ev))
                route = data[3][0][1]
                tour = tour_of(route)
                at = max([i for i, (k, d, _) in enumerate(ev) if k == "store" and d[2] == route], default=None)
                if net is None or tour is None or at is None:
                    self.undecided("exchanged", "the new route")
                    continue
                had = self.nodes_of(tour[2][0] if tour[0] == "coll" and tour[1] == "list" and tour[2] else tour, ev, at)
                if had is not None and +had != +net or had is not None and -had != -net:
                    self.violate("exchanged", "the new route does not visit the nodes of its node set", l)
            else:
                self.undecided("exchanged", "the new route")
                continue
            plus, minus = +net, -net
            if +inc != plus:
                self.violate("exchanged", "the nodes reported as added are not those put on the route (%s)" % ", ".join(sorted(map(show, set(inc) ^ set(plus)))), l)
            if any(x not in ign for x in minus):
                self.violate("exchanged", "a node taken off the route is not reported", l)
            for x in ign:
                if x not in minus and st.facts.get(("truth", ("sub", ("p", self.f.params[-1]), x))) is not False:
                    self.violate("exchanged", "a node is reported as removed that may still be on a route", l)
                if x in inc and (x, True) not in self.differ(st, x, inc):
                    self.violate("exchanged", "a node is reported as added and as removed", l)

    def differ(self, st, x, inc):
        return ()


class EndInterchange(Paths):
    """one node of the route changes place with an unserved one; their flags change with them"""
    main = "exchanged"

    def check(self, segs):
        route = ("p", self.f.params[0])
        for how, nid, ev, st, node in segs:
            if how != "end":
                continue
            ret = [(d, l) for k, d, l in ev if k == "return"]
            if not ret:
                continue
            t, l = ret[-1]
            takes = [d for k, d, _ in ev if k == "take" and d[0] == "flag"]
            frees = [d for k, d, _ in ev if k == "release"]
            self.count("exchanged")
            if t == route:
                if takes or frees:
                    self.violate("exchanged", "served flags change but the route stays as it was", l)
                continue
            parts = self.parts(t)
            if parts is None:
                self.undecided("exchanged", "the new route")
                continue
            new = [x for x in parts if x[0] != "slice"]
            sl = [x for x in parts if x[0] == "slice"]
            ok = len(sl) == 2 and all(x[1] == route for x in sl) and sl[0][2] in (("c", None), ("c", 0)) and sl[1][3] == ("c", None)
            if len(sl) == 2 and all(x[1] == route for x in sl) and not ok and sl[1][3] == sl[1][2]:
                self.violate("exchanged", "the new route leaves out other nodes than the one exchanged", l)
                continue
            if not ok:
                self.undecided("exchanged", "the new route")
                continue
            hi, lo = sl[0][3], sl[1][2]
            if symx.add(hi, ("c", 1)) != lo:
                self.violate("exchanged", "the new route leaves out other nodes than the one exchanged", l)
                continue
            out = ("sub", route, hi)
            if [d[2] for d in takes] != new:
                self.violate("exchanged", "the node put on the route is not the one marked as served", l)
            if [d[2] for d in frees] != [out]:
                self.violate("exchanged", "the node taken off the route is not the one marked as not served", l)

    def parts(self, t):
        if t[0] == "cat":
            a, b = self.parts(t[1]), self.parts(t[2])
            return None if a is None or b is None else a + b
        if t[0] == "list":
            return list(t[1])
        return [t] if t[0] == "slice" else None


def run(repo, rep):
    rep.rule("paired", "a path that marks a customer as served puts it on one route, and the other way round", 6)
    rep.rule("fresh", "a customer is marked as served only when it is known not to be", 2)
    rep.rule("kept", "a route under construction is handed to the solution before it is replaced", 4)
    rep.rule("all", "a solution is returned only when no customer is left", 4)
    rep.rule("dropped", "a list of neighbours starts with all other nodes and loses only nodes that are served", 2)
    rep.rule("callback", "an insert callback that accepts leaves the customer in the route once, one that rejects leaves the route without it", 2)
    rep.rule("accepted", "a customer leaves the pool exactly when its insertion was accepted", 1)
    rep.rule("merged", "of two merged routes one becomes their union and the other one leaves the solution", 3)
    rep.rule("exchanged", "the nodes an improvement step reports (or flags) as added and removed are those it adds to and removes from the route", 2)
    for m, n in LEDGERS:
        Ledger(repo, rep, m, n).run()
    for m, n in (("nearest_neighbor", "nearest_neighbor_init"), ("tyagi_nearest_neighbor", "route_end_interchange")):
        Queues(repo, rep, m, n).run()
    InsertLoop(repo, rep, "cheapest_insertion", "cheapest_insertion_init").run()
    SeedRoute(repo, rep, "cheapest_insertion", "_initialize_new_route").run()
    for m, n in (("parallel_savings", "parallel_savings_init"), ("matchingvrp", "_geedy_merge"), ("matchingvrp", "mbsa_init")):
        Merge(repo, rep, m, n).run()
    Exchange(repo, rep, "gillet_miller_sweep", "_improvement_callback").run()
    EndInterchange(repo, rep, "tyagi_nearest_neighbor", "route_end_interchange").run()
    try:
        cbs = callbacks(repo)
    except AnalysisBroken as e:
        rep.skip("callback", str(e))
        cbs = []
    for f in cbs:
        Callback(repo, rep, f.module.rel[:-3].replace("/", ".")[len(H):], f.qualname).run()
    return {"scope": "construction heuristics"}


LEDGERS = (("sequential_savings", "sequential_savings_init"), ("nearest_neighbor", "nearest_neighbor_init"), ("sweep", "do_one_sweep"),
           ("sweep", "_ensure_L_feasible"), ("cmt_2phase", "_phase_one"), ("cmt_2phase", "_phase_two"))
