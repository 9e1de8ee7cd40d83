"""C06: the local search driver.  One exploration of do_local_search (helpers inlined, loops generalised to one iteration) and rules
on what its iterations do with the results of operators, the memo of searched combinations and the flag that ends the search."""
import ast, itertools, re, sys
from .core import AnalysisBroken
from .symx import Explorer, TooBig, atoms_in, terms, add, const, show

NONE = ("c", None)


def has(v, x):
    return x in atoms_in(v)


class Driver:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep
        self.bad = {}
        self.n = {}

    def violate(self, rule, text, line=0):
        self.bad.setdefault((rule, text), line)

    def count(self, rule):
        self.n[rule] = self.n.get(rule, 0) + 1

    def want(self, rule, ok, text, line=0):
        self.count(rule)
        if not ok:
            self.violate(rule, text, line)
        return ok

    # -- roles --------------------------------------------------------------
    def is_op(self, v):
        return isinstance(v, tuple) and len(v) > 1 and (v[0] in ("sub", "it") and v[1] == self.ops or
                                                        v[0] == "item" and self.is_op(v[1]))

    def op_calls(self, v):
        return {x for x in atoms_in(v) if isinstance(x, tuple) and len(x) == 3 and x[0] == "call" and self.is_op(x[1])}

    def is_delta(self, v):
        return isinstance(v, tuple) and len(v) == 3 and v[0] in ("sub", "item") and v[2] in (("c", -1), -1) and v[1][0] == "call" and self.is_op(v[1][1])

    def run(self):
        repo, rep = self.repo, self.rep
        f = repo.func("verypy.local_search", "do_local_search")
        self.f = f
        self.ops = ("p", f.params[0])
        ex = self.ex = Explorer(repo, f, remember=True, log_kinds=("take", "release", "store", "grow", "call", "loop"))
        try:
            ex.run()
        except TooBig as e:
            for r in RULES:
                rep.skip(r, str(e))
            return
        self.segs = [(how, nid, ev, w, st, node) for (how, nid, ev, w), st, node in ex.every.values() if how != "raise"]
        self.RD = self.routes()
        if self.RD is None:
            for r in RULES:
                rep.skip(r, "the routes under search are not recognised")
            return
        self.heads = {n.id: n for n in ex.cfg.nodes if n.kind in ("iter", "loop")}
        self.combos = {nid for how, nid, ev, w, st, node in self.segs if how == "iteration" and self.combo_of(nid) is not None}
        self.results()
        self.apply()
        self.memo()
        self.stop()
        self.returned()
        for k in sorted(self.n):
            if not any(b[0] == k for b in self.bad):
                rep.ok(k, "%s %d" % (f.where, self.n[k]))
        for k in RULES:
            if not self.n.get(k) and not any(b[0] == k for b in self.bad):
                rep.skip(k, "not recognised")
        for (rule, text), l in sorted(self.bad.items()):
            rep.violate(rule, "%s|%s" % (f.where, text), "%s:%s (%s): %s" % (f.module.rel, l, f.qualname, text))

    def routes(self):
        for how, nid, ev, w, st, node in self.segs:
            for v in st.env.values():
                for x in atoms_in(v):
                    if isinstance(x, tuple) and len(x) == 4 and x[0] == "mcall" and x[2] == "from_solution":
                        return x
        return None

    def combo_of(self, nid):
        """the combination an iteration of the loop examines: the loop element whose routes an operator gets"""
        if not hasattr(self, "_combo"):
            self._combo = {}
            for how, n, ev, w, st, node in self.segs:
                for k, d, l in ev:
                    for c in self.op_calls(d):
                        for x in atoms_in(c[2]):
                            if isinstance(x, tuple) and len(x) == 3 and x[0] == "it" and not self.is_op(x) and x[1] != self.ops:
                                self._combo[x[2]] = x
        return self._combo.get(nid)

    # -- operators get the routes of the combination, results are kept with it ------------
    def args_ok(self, call, combo):
        """None unknown, else the verdict"""
        args = []
        for a in call[2]:
            a = a[1] if a[0] == "star" else a
            if not self.flatten(a, args):
                return None
        if not args:
            return None
        a0 = args[0]
        if a0[0] == "comp":
            try:
                e = ast.parse(a0[1], mode="eval").body
            except SyntaxError:
                return None
            env = dict(a0[2])
            if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and isinstance(e.generators[0].iter, ast.Call) and \
                    isinstance(e.generators[0].iter.func, ast.Name) and e.generators[0].iter.func.id in ("sorted", "reversed", "set") and \
                    any(isinstance(x, ast.Name) and env.get(x.id) == combo for x in ast.walk(e.generators[0].iter)):
                return False
            if not (isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and isinstance(e.generators[0].iter, ast.Name) and
                    isinstance(e.elt, ast.Subscript) and isinstance(e.elt.value, ast.Name) and isinstance(e.elt.slice, ast.Name)):
                return None
            g = e.generators[0]
            return not g.ifs and env.get(g.iter.id) == combo and env.get(e.elt.value.id) == self.RD and \
                isinstance(g.target, ast.Name) and e.elt.slice.id == g.target.id
        if a0[0] == "attr" and a0[1][0] == "sub":
            return a0 == ("attr", ("sub", self.RD, ("sub", combo, ("c", 0))), "route")
        if a0[0] == "sub" and a0[1] == self.RD:
            return a0[2] == ("sub", combo, ("c", 0))
        return None

    def flatten(self, a, out):
        if a[0] == "cat":
            return self.flatten(a[1], out) and self.flatten(a[2], out)
        if a[0] in ("list", "t"):
            for x in a[1]:
                if x[0] == "star":
                    if not self.flatten(x[1], out):
                        return False
                else:
                    out.append(x)
            return True
        out.append(a)
        return True

    def fact(self, st, key):
        return st.facts.get(key)

    def none(self, st, v):
        """True/False/None: was v found to be None"""
        return st.facts.get(("eq",) + tuple(sorted((NONE, v), key=repr)))

    def results(self):
        R = "kept-with-routes"
        self.kept = set()
        for how, nid, ev, w, st, node in self.segs:
            if how != "iteration" or self.combo_of(nid) is None:
                continue
            combo = self.combo_of(nid)
            calls = set()
            for k, d, l in ev:
                calls |= self.op_calls(d)
            calls = {c for c in calls if has(c, combo)}
            for c in calls:
                ok = self.args_ok(c, combo)
                if ok is not None:
                    self.want(R, ok, "an operator is applied to other routes than those of the combination examined")
            self.keep(calls, combo, ev, st)
            # an improvement found is kept or lost to a better one
            for c in calls:
                deltas = [x for x in self.all_atoms(ev, st) if self.is_delta(x) and x[1] == c]
                for dl in set(deltas):
                    if self.none(st, dl) is False:
                        self.improvement(dl, c, ev, st)
        # leaving the enumeration early: only with an improvement in hand
        for how, nid, ev, w, st, node in self.segs:
            if how == "iteration" and self.combo_of(nid) is not None:
                continue
            for cid, combo in self._combo.items():
                calls = set()
                opened = False
                for k, d, l in ev:
                    if k == "store" and d[2] == combo:
                        opened = True
                    calls |= {c for c in self.op_calls(d) if has(c, combo)}
                if not opened:
                    continue
                self.keep(calls, combo, ev, st)
                deltas = {x for x in self.all_atoms(ev, st) if self.is_delta(x) and x[1] in calls}
                self.want("all-combinations", any(self.none(st, x) is False for x in deltas),
                          "the enumeration of route combinations is left without an improvement")

    def all_atoms(self, ev, st):
        out = set()
        for k, d, l in ev:
            atoms_in(d, out)
        for k in st.facts:
            atoms_in(k, out)
        return out

    def candidate(self, v, calls, combo):
        """the operator call whose routes v holds for its combination; False when they are mixed up; None when v is something else"""
        for c in calls:
            if not has(v, c):
                continue
            if v[0] == "coll" and v[1] in ("list", "tuple") and v[2]:
                return self.candidate(v[2][0], calls, combo)
            if v[0] == "call" and v[1] == ("g", "zip"):
                return c if v[2] == (combo, ("slice", c, NONE, ("c", -1), NONE)) else False
            if v[0] == "list" and len(v[1]) == 1:
                return self.pair(v[1][0], c, combo)
        return None

    def pair(self, p, c, combo):
        if p[0] != "t" or len(p[1]) != 2:
            return None
        i, rd = p[1]
        if i != ("sub", combo, ("c", 0)):
            return False
        if rd[0] != "obj" or rd[1] != "RouteData":
            return None
        f = dict(rd[3])
        old = ("sub", self.RD, i)
        ok = f.get("route") in (("sub", c, ("c", 0)), ("item", c, 0)) and f.get("demand") == ("attr", old, "demand")
        d = add(f.get("cost", ("c", 0)), ("attr", old, "cost"), -1)
        return c if ok and self.is_delta(d) and d[1] == c else False

    def keep(self, calls, combo, ev, st):
        R = "kept-with-routes"
        got, deltas = {}, {}
        for k, d, l in ev:
            if k == "store" and d[0][0] == "var":
                r = self.candidate(d[2], calls, combo)
                if r is not None and d[2][0] != "obj":
                    if self.want(R, r is not False, "the routes of a result are kept for other positions than it was computed from", l):
                        got[d[0][1]] = (r, l, d[1])
                if d[1] is not None and any(self.is_delta(t) for t in terms(d[2])) and not self.is_delta_source(d, ev):
                    deltas[d[0][1]] = (d[2], l, d[1])
            if k == "grow" and d[0] == "append" and len(d[2]) == 1 and d[2][0][0] == "t":
                for c in calls:
                    if has(d[2][0], c):
                        r = self.pair(d[2][0], c, combo)
                        if r is not None:
                            if self.want(R, r is not False, "a changed route is kept for another position, or with another cost or load, than it has", l):
                                got["+"] = (r, l, None)
        if got:
            self.kept |= set(got)
            self.want(R, bool(deltas) or not self.deltavars(), "the kept result and the kept improvement are not replaced together", list(got.values())[0][1])
        elif deltas:
            self.want(R, False, "the kept improvement is replaced but the kept result is not", list(deltas.values())[0][1])

    def deltavars(self):
        """variables a kept improvement lives in"""
        if not hasattr(self, "_dv"):
            self._dv = set()
            for how, nid, ev, w, st, node in self.segs:
                for k, d, l in ev:
                    if k == "store" and d[0][0] == "var" and d[1] is not None and any(self.is_delta(t) for t in terms(d[2])) and \
                            not self.is_delta_source(d, ev):
                        self._dv.add(d[0][1])
        return self._dv

    def is_delta_source(self, d, ev):
        """the first variable that takes the improvement straight from the call"""
        for k, e, l in ev:
            if k == "store" and e[0][0] == "var" and self.is_delta(e[2]):
                return e[0][1] == d[0][1]
        return False

    def improvement(self, dl, c, ev, st):
        """an iteration whose operator found an improvement"""
        R = "improvement-kept"
        stored = False
        for k, d, l in ev:
            if k == "store" and d[0][0] == "var" and d[2][0] != "obj" and has(d[2], c) and not self.is_delta(d[2]) and d[2] != c and d[0][1] in self.kept:
                stored = True
            if k == "grow" and d[0] == "append" and any(has(a, c) for a in d[2]):
                stored = True
        rel = self.relation(dl, st)            # list of (other, sign-known) facts
        had = [x for x in self.all_atoms(ev, st) if isinstance(x, tuple) and x and x[0] == "h" and self.none(st, x) is False]
        if stored:
            fresh = any(self.none(st, x) is True for x in self.all_atoms(ev, st) if isinstance(x, tuple) and x and x[0] == "h")
            extended = any(k == "grow" and d[0] == "append" and d[1][0] == "h" and has(d, c) for k, d, l in ev)
            worse = any(r == "not-better" for r in rel)
            self.want(R, fresh or extended or not worse or not had, "a result is replaced by one that was found not to improve more")
        else:
            self.want(R, any(r in ("not-better", "worse") for r in rel), "an improvement found by an operator is dropped")

    def relation(self, dl, st):
        out = []
        for k, v in st.facts.items():
            if k[0] != "gt":
                continue
            t = dict(terms(k[1]))
            if dl not in t:
                continue
            eps = sum(c for x, c in t.items() if x[0] == "eps")
            others = [x for x in t if x != dl and x[0] != "eps"]
            if len(others) != 1 or t[others[0]] != -t[dl] or const(k[1]):
                continue
            if t[dl] == -1:        # best - delta (-eps) > 0
                out.append("better" if v else "not-better")
            else:                  # delta - best (+eps) > 0
                out.append("worse" if v else "better")
        return out

    # -- applying a result ----------------------------------------------------------------
    def apply(self):
        R = "applied-in-place"
        self.applies = {}
        for how, nid, ev, w, st, node in self.segs:
            for k, d, l in ev:
                if k == "store" and d[0][0] == "sub" and d[0][1] == self.RD:
                    i, v = d[0][2], d[2]
                    if i[0] == "item" and v[0] == "item" and i[1] == v[1]:
                        self.want(R, (i[2], v[2]) == (0, 1), "a result is stored at another position than the one it was computed for", l)
                    elif i[0] == "item" or v[0] == "item":
                        self.want(R, False, "a result is stored at another position than the one it was computed for", l)
                    else:
                        continue
                    if how == "iteration":
                        self.applies.setdefault(nid, []).append((i, v, ev, st, l))
        for nid, items in self.applies.items():
            for i, v, ev, st, l in items:
                self.emptied(i, v, ev, st, l)
            for how, n, ev, w, st, node in self.segs:
                if how == "iteration" and n == nid:
                    self.want(R, any(k == "store" and d[0][0] == "sub" and d[0][1] == self.RD for k, d, l in ev),
                              "a changed route of the result is left as it was", items[0][4])

    def emptied(self, i, v, ev, st, l):
        R = "emptied-dropped"
        ln = ("call", ("g", "len"), (("attr", v, "route"),))
        small = None
        for k, val in st.facts.items():
            if k[0] == "gt" and ln in terms(k[1]) and len(terms(k[1])) == 1:
                a, c = terms(k[1])[ln], const(k[1])
                if a == 1:              # len + c > 0  <=> len >= 1 - c  (integers)
                    small = (None if val else (-c)) if small is None else small
                    bound = -c          # len > bound is val
                    small = ("le", bound) if not val else ("gt", bound)
                elif a == -1:           # c - len > 0
                    small = ("le", c - 1) if val else ("gt", c - 1)
        taken = [d for k, d, l2 in ev if k == "take" and d[0] == "pool" and d[2] == i]
        if small is None:
            if not taken and not any(has(k, v) for k in st.facts):
                self.want(R, False, "an emptied route stays in the search", l)
            return
        if small[0] == "le":
            if small[1] in (2, 1, 0):
                if small[1] == 2:
                    self.want(R, bool(taken), "an emptied route stays in the search", l)
                else:
                    self.want(R, False, "a route of nothing but the depot stays in the search", l)
            else:
                self.want(R, not taken, "a route that has customers is dropped from the search", l)
        else:
            self.want(R, not taken, "a route that has customers is dropped from the search", l)
            if small[1] < 2:
                self.want(R, False, "a route of nothing but the depot stays in the search", l)

    # -- the memo of searched combinations ------------------------------------------------
    def memo(self):
        # the memo: tested for the operator before an operator call of the combination
        self.memos = set()
        for how, nid, ev, w, st, node in self.segs:
            for k in st.facts:
                if k[0] == "in" and self.is_op(k[1]) and k[2][0] == "sub":
                    self.memos.add(k[2][1])
        marks = []
        for how, nid, ev, w, st, node in self.segs:
            for k, d, l in ev:
                if k == "grow" and d[0] == "add" and d[1][0] == "sub" and d[1][1] in self.memos:
                    marks.append((how, nid, d, l, ev, st))
        if self.memos:
            self.skipping()
            self.marking(marks)
            self.clearing()

    def skipping(self):
        R = "all-combinations"
        for how, nid, ev, w, st, node in self.segs:
            combo = self.combo_of(nid)
            if how != "iteration" or combo is None:
                continue
            if any(has(c, combo) for k, d, l in ev for c in self.op_calls(d)):
                continue
            known = any(k[0] == "in" and self.is_op(k[1]) and k[2][0] == "sub" and k[2][1] in self.memos and k[2][2] == combo and v
                        for k, v in st.facts.items())
            unsorted = any(k[0] == "truth" and k[1][0] == "call" and k[1][1] == ("g", "is_sorted") and k[1][2] == (combo,) and not v
                           for k, v in st.facts.items())
            sens = [v for k, v in st.facts.items() if k[0] == "in" and self.is_op(k[1]) and k[2][0] in ("g", "cfg")]
            if not known and not unsorted and any(has(k, combo) for k in st.facts) and \
                    not any(k[0] == "in" and k[2][0] == "sub" and k[2][2] == combo or k[0] == "truth" and k[1][:2] == ("call", ("g", "is_sorted"))
                            for k in st.facts):
                continue                                   # some other test: not understood
            self.want(R, known or unsorted and sens and not any(sens),
                      "a combination of routes is skipped although it is neither searched already nor the same as another one")

    def marking(self, marks):
        R = "marked-when-searched"
        for how, nid, d, l, ev, st in marks:
            op, key = d[2][0] if d[2] else None, d[1][2]
            if op is None:
                continue
            combo = self.combo_of(nid)
            if combo is not None and key == combo:                     # marked at once
                self.searched(ev, st, combo, l)
                continue
            if key[0] != "it":
                continue
            src = key[1]
            # collected earlier: where from
            for how2, nid2, ev2, w2, st2, node2 in self.segs:
                combo2 = self.combo_of(nid2)
                for k2, d2, l2 in ev2:
                    if k2 == "grow" and d2[1] == src and d2[0] in ("add", "update", "append") and combo2 is not None:
                        x = d2[2][0] if d2[2] else None
                        x = x[1][0] if x is not None and d2[0] == "update" and x[0] in ("t", "list", "set") and len(x[1]) == 1 else x
                        if x != combo2:
                            self.want(R, False, "another combination than the one examined is remembered as searched", l2)
                        else:
                            self.searched(ev2, st2, combo2, l2)
            # the collection starts empty for each operator
            born = any(k2 == "store" and d2[2] == src and how2 == "iteration" and self.is_oploop(nid2) for how2, nid2, ev2, w2, st2, node2 in self.segs for k2, d2, l2 in ev2)
            if src[0] == "coll":
                self.want(R, born, "combinations searched with one operator are remembered as searched with another", l)
            if not self.is_op(op):
                self.want(R, False, "something else than the operator is remembered", l)
        # each mark is registered with the routes it is about
        for how, nid, d, l, ev, st in marks:
            key = d[1][2]
            joins = self.registered(key, ev)
            if joins is None:
                continue
            self.want("forgotten-when-changed", bool(joins), "a searched combination is not registered with the routes it is about", l)
            self.joins = getattr(self, "joins", set()) | joins

    def is_oploop(self, nid):
        return any(x[0] in ("sub", "it") for x in self.opvals() if x[0] == "it" and x[2] == nid or x[0] == "sub" and has(x, nid) or
                   any(isinstance(a, tuple) and len(a) == 3 and a[0] == "h" and a[2] == nid for a in atoms_in(x)))

    def opvals(self):
        if not hasattr(self, "_ov"):
            self._ov = {c[1] for how, nid, ev, w, st, node in self.segs for k, d, l in ev for c in self.op_calls(d)}
        return self._ov

    def searched(self, ev, st, combo, l):
        calls = {c for k, d, l2 in ev for c in self.op_calls(d) if has(c, combo)}
        deltas = {x for x in self.all_atoms(ev, st) if self.is_delta(x) and x[1] in calls}
        self.want("marked-when-searched", any(self.none(st, x) is True for x in deltas),
                  "a combination is remembered as searched although an improvement was found there, or nothing was tried", l)

    def registered(self, key, ev):
        """collections J with J[i] growing by `key` for every element i of key; None when not understood"""
        loops = [d for k, d, l in ev if k == "loop" and d[1] == key]
        js = set()
        for d in loops:
            segs = [s for s in self.segs if s[0] == "iteration" and s[1] == d[0]]
            for how, nid, ev2, w, st, node in segs:
                for k2, d2, l2 in ev2:
                    if k2 == "grow" and d2[0] in ("append", "add") and d2[1][0] == "sub" and d2[1][2][0] == "it" and d2[1][2][1] == key and d2[2] == (key,):
                        js.add(d2[1][1])
        if js or not loops and not any(k == "grow" and d[1][0] == "sub" and d[1][1] not in self.memos and has(d[2], key) and
                                       not (d[1][2][0] == "sub" and d[1][2][1] == key and d[1][2][2][0] == "c") for k, d, l in ev):
            return js
        return None

    def clearing(self):
        R = "forgotten-when-changed"
        joins = getattr(self, "joins", set())
        for nid, items in self.applies.items():
            for i, v, ev, st, l in items:
                ok = any(k == "grow" and d[0] == "clear" and d[1] in self.memos for k, d, l2 in ev)
                for k, d, l2 in ev:
                    if k == "loop" and d[1][0] == "sub" and (not joins or d[1][1] in joins) and d[1][2] == i:
                        segs = [s for s in self.segs if s[0] == "iteration" and s[1] == d[0]]
                        if segs and all(any(k3 == "grow" and d3[0] == "clear" and d3[1][0] == "sub" and d3[1][1] in self.memos and
                                            d3[1][2][0] == "it" and d3[1][2][2] == d[0] for k3, d3, l3 in s[2]) for s in segs):
                            ok = True
                self.want(R, ok, "combinations that a changed route takes part in are not examined again", l)

    # -- the end of the search --------------------------------------------------------------
    def stop(self):
        R = "stops-at-optimum"
        outer = None
        for n in self.ex.cfg.nodes:
            if n.kind == "loop":
                outer = n
                break
        if outer is None:
            return
        flags = set()
        for how, nid, ev, w, st, node in self.segs:
            if how == "end":
                for k in st.facts:
                    if k[0] == "truth" and k[1][0] == "h":
                        flags.add(k[1][1])
        # the variable tested at the head of the search loop
        t = getattr(outer.ast, "test", None)
        names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} if t is not None else set()
        flag = None
        for x in names:
            if any(k == "store" and d[0] == ("var", x) and d[2][0] == "c" and isinstance(d[2][1], bool) for s in self.segs for k, d, l in s[2]):
                flag = x
        if flag is None or isinstance(t, ast.UnaryOp):
            return
        ap = set(self.applies)
        opl = {nid for how, nid, ev, w, st, node in self.segs if how == "iteration" and self.is_oploop(nid) and self.combo_of(nid) is None and nid not in ap
               and any(k == "loop" and d[0] in self._combo for k, d, l in ev)}
        for how, nid, ev, w, st, node in self.segs:
            applied = [(d, l) for k, d, l in ev if k == "loop" and d[0] in ap]
            if applied:
                after = [d[2] for k, d, l in ev if k == "store" and d[0] == ("var", flag)]
                early = [l for k, d, l in ev if k == "store" and d[0] == ("var", flag) and d[2] == ("c", True)]
                val = st.env.get(flag)
                if how == "iteration":
                    self.want(R, val == ("c", True) or bool(early) and val == ("c", True), "an improvement was applied but the search may stop after this pass", applied[0][1])
            elif how == "iteration" and nid in opl:
                # nothing applied: the operator found nothing, or the result waits for the end of the pass
                self.pending(ev, st, ap)
        self.progress(opl, ap, flag)

    def pending(self, ev, st, ap):
        R = "stops-at-optimum"
        have = [x for x in self.resultvars(ap)]
        got = [v for v in have if self.none(st, self.value(st, v, ev)) is False]
        if not got:
            return
        # found something, not applied: kept for the pass, only when it is the best of it
        kept = any(k == "store" and d[0][0] == "var" and d[2] == self.value(st, v, ev) and d[0][1] != v for v in got for k, d, l in ev)
        lost = any(k[0] == "gt" and not v and len(terms(k[1])) >= 2 for k, v in st.facts.items())
        self.want(R, kept or lost, "an operator's improvement is neither applied nor kept")
        keepers = {d[0][1] for s in self.segs for k, d, l in s[2] if k == "store" and d[0][0] == "var" and
                   d[2][0] == "h" and d[2][1] in self.deltavars() and d[2][1] != d[0][1]}
        for x in self.deltavars() - keepers:
            dl = self.value(st, x, ev)
            if dl[0] != "h":
                continue
            rel = self.relation(dl, st)
            if kept:
                fresh = any(k[0] == "eq" and NONE in k[1:] and val and any(y[0] == "h" for y in k[1:]) for k, val in st.facts.items())
                self.want(R, fresh or not any(r in ("not-better", "worse") for r in rel), "an operator's result is kept though it was found not to improve more")
            else:
                self.want(R, not rel or any(r in ("not-better", "worse") for r in rel), "the best improvement of the pass is not the one kept")

    def value(self, st, v, ev):
        return st.env.get(v, ("none",))

    def resultvars(self, ap):
        out = set()
        for how, nid, ev, w, st, node in self.segs:
            for k, d, l in ev:
                if k == "loop" and d[0] in ap and d[1][0] == "h":
                    out.add(d[1][1])
        return out

    def progress(self, opl, ap, flag):
        R = "every-operator"
        for how, nid, ev, w, st, node in self.segs:
            if how != "iteration" or nid not in opl or self.heads[nid].kind != "loop":
                continue
            idx = {x[2] for x in self.opvals() if x[0] == "sub" and x[2][0] == "h" and x[2][2] == nid}
            for h in idx:
                v = st.env.get(h[1])
                if v is None:
                    continue
                applied = any(k == "loop" and d[0] in ap for k, d, l in ev)
                step = add(v, h, -1)
                if step == ("c", 1):
                    self.count(R)
                elif applied and (step == ("c", 0) or v[0] == "c"):
                    self.want(R, v in (h, ("c", 0), ("c", 1)), "operators are left out of the pass")
                elif applied and step[0] == "c" and step[1] < 0:
                    self.count(R)
                else:
                    self.want(R, False, "an operator is left out of the pass, or tried for ever")

    def returned(self):
        R = "returned"
        for how, nid, ev, w, st, node in self.segs:
            if how != "end":
                continue
            r = [d for k, d, l in ev if k == "return"]
            if r:
                v = r[-1]
                if v[0] == "mcall" and v[2] == "to_solution":
                    self.want(R, v[3] and v[3][0] == self.RD, "something else than the searched routes is returned")
                elif v[0] in ("p", "c", "mcall", "call"):
                    self.want(R, False, "something else than the searched routes is returned")


class Ordered:
    """operators that do something else to their first route than to their second are tried in both orders"""
    R = "both-orders"
    SET = "ROUTE_ORDER_SENSITIVE_OPERATORS"

    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep

    def members(self):
        """functions put into the set; None when a use is not understood"""
        out = set()
        home = self.repo.modules.get("verypy.local_search")
        if home is None:
            return None
        seen = False
        for m in self.repo.modules.values():
            names = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    names |= {a.asname or a.name for a in n.names if a.name == self.SET}
            if m is home:
                names.add(self.SET)
            if not names:
                continue
            parent = {c: n for n in ast.walk(m.tree) for c in ast.iter_child_nodes(n)}
            funcs = {f.node: f for f in self.repo.all_functions() if f.module is m}
            for n in ast.walk(m.tree):
                if not (isinstance(n, ast.Name) and n.id in names):
                    continue
                p = parent[n]
                if isinstance(p, ast.Compare):
                    continue
                if isinstance(p, ast.Assign) and n in p.targets:
                    v = p.value
                    if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords:
                        v = v.args[0]
                    els = [] if isinstance(v, ast.Call) and not v.args else getattr(v, "elts", None)
                    if els is None:
                        return None
                    seen = True
                elif isinstance(p, ast.Attribute) and isinstance(parent[p], ast.Call) and parent[p].func is p and p.attr in ("add", "update"):
                    els = parent[p].args
                    if p.attr == "update":
                        els = [x for a in els for x in getattr(a, "elts", [None])]
                else:
                    return None
                for e in els:
                    g = n
                    while g in parent and not isinstance(g, (ast.FunctionDef, ast.Lambda)):
                        g = parent[g]
                    fn = funcs.get(g)
                    if e is None:
                        return None
                    if fn is not None and isinstance(e, ast.Name) and e.id in fn.params:
                        for t in self.repo.all_functions():
                            for d in t.node.decorator_list:
                                if self.repo.resolve_expr(t.parent or t.module, d) is fn:
                                    out.add(t)
                        for c in ast.walk(m.tree):
                            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == fn.name and len(c.args) == 1:
                                out.add(self.repo.resolve_expr(m, c.args[0]))
                        continue
                    t = self.repo.resolve_expr(fn or m, e)
                    if t is None:
                        return None
                    out.add(t)
        return out if seen else None

    def run(self):
        from . import ops, movecheck as M
        rep = self.rep
        mem = self.members()
        if mem is None:
            rep.skip(self.R, "members of %s not understood" % self.SET)
            return
        M._repo = self.repo
        sys.setrecursionlimit(20000)
        for name, (mod, n) in ops.OPS.items():
            if n < 2 or name == "do_insert_move":
                continue
            f = ops.find_op(self.repo, name)
            shifts = set()
            try:
                run = ops.run_op(self.repo, name, 0, 0, 2, 0)
                for r in run.rets if not run.undecided else ():
                    outs = M.outcome(run, r)
                    for o in outs if isinstance(outs, list) else ():
                        if not o.vague:
                            shifts.add(tuple(str(M.length(b) - M.length(a)) for a, b in zip(run.inputs, o.routes)))
            except Exception as e:
                rep.skip(self.R, "%s: %s" % (f.where, e))
                continue
            if not shifts:
                rep.skip(self.R, "%s: moves not resolved" % f.where)
                continue
            plain = [v for v in shifts if all(re.fullmatch(r"-?\d+", x) for x in v)]
            one_way = [v for v in plain if any(p not in shifts for p in itertools.permutations(v))]
            if one_way and f not in mem:
                rep.violate(self.R, f.where, "%s: %s changes the lengths of its routes by (%s) but not the other way round, and is not among the operators tried "
                            "in every order of the routes" % (f.where, name, ", ".join(one_way[0])))
            else:
                rep.ok(self.R, "%s %s%s" % (f.where, "moves customers one way" if one_way else "same moves in any order", ", registered" if f in mem else ""))


RULES = ("kept-with-routes", "improvement-kept", "applied-in-place", "emptied-dropped", "all-combinations", "marked-when-searched",
         "forgotten-when-changed", "stops-at-optimum", "every-operator", "returned")


def run(repo, rep):
    rep.rule("kept-with-routes", "a result is kept with the positions (and costs and loads) of the routes it was computed from", 1)
    rep.rule("improvement-kept", "an improvement is kept, or lost to a better one only", 1)
    rep.rule("applied-in-place", "each route of a result replaces the route it was computed from", 1)
    rep.rule("emptied-dropped", "exactly the emptied routes leave the search", 1)
    rep.rule("all-combinations", "a combination is skipped only when searched already or equal to another; enumeration ends early only with an improvement", 1)
    rep.rule("marked-when-searched", "a combination is remembered for an operator only after the operator found nothing there", 1)
    rep.rule("forgotten-when-changed", "a change of a route makes all its combinations searchable again", 1)
    rep.rule("stops-at-optimum", "a pass that applied something is followed by another; a pass that found something applies it", 1)
    rep.rule("every-operator", "operators are tried one after another", 1)
    rep.rule("returned", "the searched routes are returned", 1)
    rep.rule(Ordered.R, "an operator whose moves differ with the order of its routes is tried in every order of them", 2)
    Driver(repo, rep).run()
    Ordered(repo, rep).run()
    rep.assume("operators return (changed routes..., improvement) as decided by C01-C05")
    return {"scope": "verypy/local_search/__init__.py: do_local_search"}
