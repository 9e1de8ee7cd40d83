"""C13: of several alternatives the best one by the chosen objective is returned."""
import ast, itertools
from .core import Func, own_walk, single_assign
from . import best
from .best import Explorer, TooBig, better, consistent, is_const, NONE, DOM, INF, constval, UNK


def _uses(repo, f):
    for x in own_walk(f.node):
        if isinstance(x, ast.Call):
            t = repo.callee(f, x)
            if isinstance(t, Func) and t.name == "is_better_sol" and t.module.dotted.endswith("util"):
                return True
    return False


def _spec(rep, repo):
    f = repo.func("verypy.util", "is_better_sol")
    n = bad = 0
    unknown = False
    for bf, bK, sf, sK in itertools.product((None, 0, 1), repeat=4):
        for mk in (True, False):
            env = dict(zip(f.params, [("c", v) for v in (bf, bK, sf, sK, mk)]))
            if sf is None or sK is None:
                want = False
            elif bf is None or bK is None:
                want = True
            else:
                want = better((bf, bK), (sf, sK), mk)
            ex = Explorer(repo, f, keep=f.params).run(env)
            rets = [(n_, st) for n_, k, st in ex.arrivals if k == "ret"]
            got = set()
            for n_, st in rets:
                ex.node, ex.cur = n_, f
                if n_.ast.value is None:
                    got.add(False)
                    continue
                for b, _ in ex.truth(n_.ast.value, st):
                    got.add(b)
            n += 1
            if got == {want}:
                rep.ok("order", "case kept=(%s,%s) candidate=(%s,%s) by %s" % (bf, bK, sf, sK, "vehicles" if mk else "cost"))
            elif len(got) != 1:
                unknown = True
                rep.skip("order", "case kept=(%s,%s) candidate=(%s,%s): not decided" % (bf, bK, sf, sK))
            elif not bad:
                bad = 1
                rep.violate("order", f.where, "with the kept solution's (cost, vehicles)=(%s,%s) and the candidate's "
                            "(%s,%s) under %s as primary objective it answers %s, the documented order gives %s"
                            % (bf, bK, sf, sK, "vehicle count" if mk else "cost", sorted(got)[0], want))
    return n


def _groups(ex):
    """(S, F, K) variable triples of kept records, discovered from what is compared and stored."""
    out = []
    fs, ks = sorted(ex.cmp_f), sorted(ex.cmp_k)
    return fs, ks


def _store_companions(f, names):
    """variables stored together with the kept record"""
    out = {}
    for x in ast.walk(f.node):
        for field in ("body", "orelse", "finalbody"):
            stm = getattr(x, field, None)
            if not isinstance(stm, list):
                continue
            asg = [s for s in stm if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)]
            if any(s.targets[0].id in names for s in asg):
                for s in asg:
                    v = s.targets[0].id
                    if v not in names and isinstance(s.value, ast.Name):
                        out.setdefault(v, set()).add(s.value.id)
    return out


def _find_S(ex, F, K):
    """variables that receive the candidate solution together with its cost"""
    score = {}
    for n, kind, st in ex.arrivals:
        f, k = ex.get(st, F), ex.get(st, K)
        if f is None or is_const(f) or (f[0] == "h" and f[2] == F):
            continue
        for v, t in st.env.items():
            if v in (F, K):
                continue
            if v == F or (t[0] == "h" and t[2] == v):
                continue
            r = (f[0] == "F" and t == f[1]) or (f[0] == "h" and t[0] == "h" and t[1] == f[1] and t not in (f, k)) or (f[0] != "F" and t[0] == "proj" and t != f and t != k and
                                                best.droots(t) == best.droots(f))
            if r:
                score[v] = score.get(v, 0) + 1
    return score


class Fn:
    def __init__(self, repo, rep, f):
        self.repo, self.rep, self.f = repo, rep, f

    def run(self):
        rep, f = self.rep, self.f
        try:
            ex = Explorer(self.repo, f).run()
        except TooBig:
            rep.skip("replace", "%s: too many paths" % f.where)
            return
        fs, ks = _groups(ex)
        groups = []
        for F in fs:
            hs = {h.id for h in ex.heads if F.split("[")[0] in ex.assigned[h.id]}
            K = [k for k in ks if k != F and any(k.split("[")[0] in ex.assigned[h] for h in hs)]
            Kf = [k for k in K if all((k.split("[")[0] in ex.assigned[h.id]) == (h.id in hs) for h in ex.heads)] or K
            Kf = sorted(Kf, key=lambda k: -ex.cmp_k[k])
            groups.append((F, Kf[0] if Kf else None))
        # names given as the kept record and carried round the loop (whether or not they are ever replaced)
        for nid, prs in sorted(ex.argnames.items()):
            hs = [h for h in ex.heads if nid in ex.body[h.id]]
            inn = [h for h in hs if not any(g is not h and g.id in ex.body[h.id] for g in hs)]
            for kept, cand in sorted(prs, key=repr):
                for q in (kept, cand):
                    if None not in q and inn and all(v in self.live(ex, inn[0]) for v in q):
                        if not any(q[0] == F or q[1] == K for F, K in groups):
                            groups.append(q)
                        break
        if not groups:
            rep.skip("replace", "%s: no comparison with a kept cost was recognised" % f.where)
            return
        # solution variable: re-run keeping every assigned name alive
        cands = set()
        for h in ex.heads:
            cands |= ex.assigned[h.id]
        done = set()
        plan = []
        for F, K in groups:
            hs = [h for h in ex.heads if F.split("[")[0] in ex.assigned[h.id] or (K and K.split("[")[0] in ex.assigned[h.id])] \
                or [h for h in ex.heads if any(nid in ex.body[h.id] for nid, prs in ex.argnames.items()
                                               if any(F in q for pr in prs for q in pr))]
            keep = set()
            for h in hs:
                keep |= ex.assigned[h.id]
            if "[" in F:
                base = F.split("[")[0]
                Ss = None
                for n in ex.cfg.nodes:
                    if n.kind == "stmt" and isinstance(n.ast, ast.Assign) and isinstance(n.ast.targets[0], ast.Name) and \
                            n.ast.targets[0].id == base and isinstance(n.ast.value, ast.Tuple):
                        idx = [i for i in range(len(n.ast.value.elts)) if "%s[%d]" % (base, i) not in (F, K)]
                        Ss = "%s[%d]" % (base, idx[0]) if idx else None
                plan.append((Ss, F, K))
                continue
            live_heads = []
            for h in hs:
                live_heads.append(self.live(ex, h))
            sc = _find_S(ex, F, K)
            if not sc:
                want = set.intersection(*live_heads) & keep if live_heads else set()
                grown = {n.ast.target.id for n in ex.cfg.nodes if n.kind == "stmt" and isinstance(n.ast, ast.AugAssign)
                         and isinstance(n.ast.target, ast.Name)}
                try:
                    sc = _find_S(Explorer(self.repo, f, keep=want - grown).run(), F, K)
                except TooBig:
                    rep.skip("replace", "%s: too many paths" % f.where)
                    continue
            # must be carried round every loop and not be the candidate itself
            ok = {v: c for v, c in sc.items() if live_heads and all(v in l for l in live_heads) and
                  any(v in ex.assigned[h.id] for h in hs)}
            S = max(sorted(ok), key=lambda v: ok[v]) if ok else None
            plan.append((S, F, K))
        Sall = {S for S, _, _ in plan if S}
        for S, F, K in plan:
            if S is None:
                rep.violate("replace", "%s|%s" % (f.where, F), "no variable keeps the solution whose cost is stored in '%s'" % F)
                continue
            self.check(S, F, K, Sall)

    @staticmethod
    def live(ex, h):
        return set(ex.live_in.get(h.id) or ())

    def check(self, S, F, K, Sall):
        rep, f, repo = self.rep, self.f, self.repo
        names = {x for x in (S, F, K) if x}
        comps = _store_companions(f, names)
        conds = set()
        pre = Explorer(repo, f)
        for n in pre.cfg.nodes:
            if n.kind == "cond":
                conds |= {x.id for x in ast.walk(n.ast) if isinstance(x, ast.Name)}
            elif n.kind == "stmt" and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, (ast.BoolOp, ast.UnaryOp)):
                conds |= {x.id for x in ast.walk(n.ast.value) if isinstance(x, ast.Name)}
        flag = [(v, next(iter(ws))) for v, ws in comps.items() if v in conds and len(ws) == 1 and next(iter(ws)) in conds]
        flag = flag[0] if len(flag) == 1 else None
        group = (S, F, K) + ((flag[0],) if flag else ())
        keep = set(Sall) | ({flag[1]} if flag else set())
        try:
            ex = Explorer(repo, f, group=group, keep=keep).run()
        except TooBig:
            rep.skip("replace", "%s: too many paths" % f.where)
            return
        who = "%s|%s" % (f.where, S)
        bad = {}
        good = 0
        obligations = set()
        mknames = ex.mknames or ({"minimize_K"} if "minimize_K" in f.params else set())
        n_arr = 0
        for n, kind, st in ex.arrivals:
            if st.base is None:
                if kind == "enter" and n.id in ex.gheads:
                    s, c, k = (ex.get(st, g) for g in (S, F, K))
                    r = consistent(s, c, k, self.others(st, c, k)) if s is not None and c is not None else None
                    if r is False:
                        bad.setdefault("initial", "%s: before the search '%s' is %s but '%s' is %s" % (who, S, show(s), F, show(c)))
                continue
            if kind in ("ret", "raise"):
                self.returned(ex, n, kind, st, S, Sall, bad)
            res = self.outcome(ex, st, S, F, K, flag, mknames, obligations)
            if res is None:
                continue
            n_arr += 1
            if res is not True:
                bad.setdefault(res[0], "%s: %s" % (f.where, res[1]))
            else:
                good += 1
        # exits of the loops that hold the comparison
        self.exits(ex, S, F, K, flag, mknames, bad)
        # accumulated candidates
        for (H, a, b, c) in sorted(obligations):
            self.accumulated(ex, H, a, b, c, bad)
        used = {t[0][2] for t in ex.cand_pairs if t[0][0] == "F"}
        per = {nm: ts & used for nm, ts in ex.dsrc.items() if ts & used}
        if len({frozenset(v) for v in per.values()}) > 1:
            bad.setdefault("matrix", "%s: the costs of the compared solutions are computed with different distances: %s"
                           % (f.where, ", ".join(sorted(per))))
        if n_arr == 0:
            rep.skip("replace", "%s: comparison found but no case decided" % who)
        labels = {"decide": "replace", "mixed": "record", "initial": "record", "matrix": "record", "accumulate": "record",
                  "return": "returned", "exit": "searchall"}
        done = set()
        for key, text in sorted(bad.items()):
            rep.violate(labels[key.split(":")[0]], "%s|%s" % (f.where, key), text)
            done.add(labels[key.split(":")[0]])
        for rule in ("replace", "record", "returned", "searchall"):
            if rule not in done:
                rep.ok(rule, "%s keeps (%s, %s, %s): %d path ends decided, %d states explored" % (f.where, S, F, K, n_arr, ex.steps))

    @staticmethod
    def others(st, f, k):
        return {x for p in st.cands for x in p} - {f, k}

    def classify(self, ex, st, S, F, K):
        """('old'|pair|None-solution|'mixed', detail)"""
        cur = tuple(ex.get(st, g) for g in (S, F, K))
        if cur[0] is not None and st.bools.get(cur[0]) is False and cur[1] is not None and is_const(cur[1]):
            cur = (NONE,) + cur[1:]         # an empty solution: nothing found
        if st.base is None or cur[0] is None or cur[1] is None or st.base[0] is None or st.base[1] is None or \
                (K is not None and (cur[2] is None or st.base[2] is None)):
            return None, cur
        if cur == tuple(st.base[:3]):
            return "old", cur
        for p in st.cands:
            if p[0] == cur[1] and (K is None or p[1] == cur[2]):
                # the candidates' own numbers
                oth = {x for q in st.cands if q != p for x in q}
                if cur[0] == NONE and (is_const(cur[1]) or st.vals.get(cur[1], 0) is None):
                    return "none", cur
                r = consistent(cur[0], cur[1], cur[2] if K is not None else None, oth)
                if r is False:
                    return "mixed", cur
                return p, cur
        if cur[0] == NONE and is_const(cur[1]):
            return "none", cur
        r = consistent(cur[0], cur[1], cur[2] if K is not None else None)
        if r and not is_const(cur[1]) and cur[1][0] != "h":
            return (cur[1], cur[2]), cur          # replaced without comparison
        return "mixed", cur

    def outcome(self, ex, st, S, F, K, flag, mknames, obligations):
        c, cur = self.classify(ex, st, S, F, K)
        if c is None:
            return None
        if c == "old" and not st.cands:
            return None
        if c == "mixed":
            parts = [("solution '%s'" % S, cur[0], st.base[0]), ("cost '%s'" % F, cur[1], st.base[1])]
            if K:
                parts.append(("count '%s'" % K, cur[2], st.base[2]))
            return ("mixed", "the kept solution, cost and count stop belonging together: " + "; ".join(
                "%s %s" % (p, "unchanged" if a == b else "becomes " + show(a)) for p, a, b in parts))
        s0, f0, k0 = st.base[:3]
        for p in st.cands:
            if p[0][0] == "h" and p[0][1] not in ex.gheads and cur[0] is not None and p == c:
                if cur[0][0] == "h" and p[1] is not None and p[1][0] == "h":
                    obligations.add((p[0][1], cur[0][2], p[0][2], p[1][2]))
        # items
        terms = set()
        items = {}
        if s0 == NONE or (is_const(f0) and f0[1] in (None, INF)):
            items["old"] = None
        else:
            items["old"] = (f0, k0)
            terms |= {f0, k0}
        for p in set(st.cands) | ({c} if isinstance(c, tuple) else set()):
            if is_const(p[0]) or (p[0] in st.vals and st.vals[p[0]] is None):
                continue
            items[p] = p
            terms |= set(p)
        terms = {t for t in terms if t is not None and not is_const(t)}
        miss = sorted((t for t in terms if t not in st.vals), key=repr)
        if len(miss) > 6:
            return None
        mkv = [False]
        if mknames:
            mk = None
            for m in mknames:
                t = st.env.get(m, ("p", m))
                if t[0] == "c":
                    mk = bool(t[1])
                elif t in st.bools:
                    mk = st.bools[t]
            mkv = [mk] if mk is not None else [True, False]
        bo, bc = [True], [True]
        if flag:
            t0, t1 = st.base[3], ex.get(st, flag[1])
            cf = cur_f = None
            bo = [bool(t0[1])] if t0 is not None and t0[0] == "c" else [st.bools[t0]] if t0 in st.bools else [True, False]
            bc = [bool(t1[1])] if t1 is not None and t1[0] == "c" else [st.bools[t1]] if t1 in st.bools else [True, False]
        for vs in itertools.product(DOM, repeat=len(miss)):
            val = dict(st.vals)
            val.update(zip(miss, vs))

            def num(t):
                if t is None:
                    return 0
                if t[0] == "c":
                    return t[1] if isinstance(t[1], (int, float)) else 0
                return val[t]
            its = {k: None if v is None else (num(v[0]), num(v[1])) for k, v in items.items()}
            for mk in mkv:
                for fo in bo:
                    for fc in bc:
                        msg = self.decide(its, c, mk, fo, fc, flag)
                        if msg:
                            return ("decide", msg)
        return True

    def decide(self, its, c, mk, fo, fc, flag):
        obj = "vehicle count first" if mk else "cost"
        if c == "none":
            if its.get("old") is not None or any(v is not None for k, v in its.items() if k != "old"):
                return "an existing solution is replaced by none"
            return None
        ch = its.get(c)
        if flag:
            old = its.get("old")
            for k, v in its.items():
                if k == "old":
                    continue
                want = None
                if old is None:
                    want = None
                elif fo != fc:
                    want = k if fc else "old"
                elif better(old, v, mk):
                    want = k
                elif better(v, old, mk):
                    want = "old"
                elif v != old:
                    want = "old"
                if want is not None and want != c:
                    return ("%s although the candidate is %s (kept %s: cost, vehicles %s; candidate %s: %s; objective: %s)"
                            % ("replaced" if c != "old" else "kept", "not better" if c != "old" else "better",
                               "feasible" if fo else "infeasible", old, "feasible" if fc else "infeasible", v, obj))
            return None
        for k, v in its.items():
            if k != c and v is not None and better(ch, v, mk):
                return ("with objective '%s' %s is kept although %s is better: (cost, vehicles) %s against %s"
                        % (obj, "the old solution" if c == "old" else "a candidate",
                           "the old one" if k == "old" else "the candidate", ch, v))
        if c != "old":
            old = its.get("old")
            if old is not None and not better(old, ch, mk) and old != ch:
                return ("with objective '%s' the kept solution (cost, vehicles)=%s is replaced by %s, which is not better"
                        % (obj, old, ch))
        return None

    def returned(self, ex, n, kind, st, S, Sall, bad):
        if "in" not in st.flags:
            return
        ex.node, ex.cur = n, n.func or self.f
        if kind == "ret":
            e = n.ast.value
            if e is None and not any(isinstance(x, ast.Return) and x.value is not None for x in own_walk(self.f.node)):
                return                          # a procedure: what it finds is printed or stored
            if e is None:
                bad.setdefault("return", "%s: returns nothing after the search" % self.f.where)
                return
        else:
            e = n.ast.exc
            if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "KeyboardInterrupt" and len(e.args) == 1):
                return
            e = e.args[0]
        for t, s in ex.ev(e, st):
            want = {ex.get(s, x) for x in Sall}
            if t in want:
                continue
            if t[0] == "t" and any(x in want for x in t[1]):
                continue
            if t[0] in ("call",) and isinstance(e, ast.Call) and any(
                    ex.ev(a, s)[0][0] in want for a in e.args):
                continue
            if t == NONE and all(w == NONE for w in want):
                continue
            bad.setdefault("return", "%s: %s after the search carries %s, not the kept solution '%s'"
                           % (self.f.where, "the value returned" if kind == "ret" else "the interrupt raised", ast.unparse(e), S))

    def exits(self, ex, S, F, K, flag, mknames, bad):
        byid = {n.id: n for n in ex.cfg.nodes}
        for hid in sorted(ex.gheads):
            h = byid[hid]
            inner = [g for g in ex.gheads if g in ex.body[hid]]
            if inner:
                continue
            # every way through the loop body back to the head
            tot = set()
            for n, kind, st in ex.arrivals:
                if n is h and kind == "back" and "exc" not in st.flags:
                    tot |= self.kinds(ex, st, S, F, K)
            ex_out = {}
            for (h2, src), lst in ex.exits.items():
                if h2 != hid or src == hid:
                    continue
                for l, st in lst:
                    if l == "exc" or "exc" in st.flags:
                        continue
                    ex_out.setdefault(src, set()).update(self.kinds(ex, st, S, F, K))
            for src, ks in sorted(ex_out.items()):
                if ks == {"new"} and "old" in tot | set().union(*[k for s, k in ex_out.items() if s != src] or [set()]):
                    bad.setdefault("exit", "%s: the search over the alternatives ends as soon as one of them replaces the kept "
                                   "solution; the remaining ones are not tried" % self.f.where)
                if ks == {"old"} and h.kind == "iter":
                    bad.setdefault("exit", "%s: the search over the alternatives ends at the first one that is not better; "
                                   "the remaining ones are not tried" % self.f.where)
            if not tot and h.kind == "iter" and ex_out:
                bad.setdefault("exit", "%s: only the first alternative is tried" % self.f.where)

    def kinds(self, ex, st, S, F, K):
        if not st.cands:
            return set()
        if st.base and st.base[0] == NONE:
            return set()
        c, _ = self.classify(ex, st, S, F, K)
        if c is None:
            return set()
        return {"old" if c == "old" else "new"}

    def accumulated(self, ex, H, a, b, c, bad):
        for n, kind, st in ex.arrivals:
            if n.id != H or kind != "back":
                continue
            ta, tb, tc = st.env.get(a), st.env.get(b), st.env.get(c)
            if None in (ta, tb, tc):
                continue
            ch = [t != ("h", H, v) for t, v in ((ta, a), (tb, b), (tc, c))]
            if not any(ch):
                continue
            if not all(ch):
                bad.setdefault("accumulate", "%s: '%s', '%s' and '%s' are not advanced together for every route"
                               % (self.f.where, a, b, c))
                continue

            def part(t, v):
                if t[0] == "bin" and t[1] == "Add" and t[2] == ("h", H, v):
                    return t[3]
                return None
            pa, pb, pc = part(ta, a), part(tb, b), part(tc, c)
            if pb is not None and pa is not None and best.droots(pa)[0] == "call" and best.droots(pb)[0] == "call" \
                    and best.droots(pa) != best.droots(pb):
                bad.setdefault("accumulate", "%s: '%s' grows by the cost of another route than the one added to '%s'"
                               % (self.f.where, b, a))
            if pc is not None and pc[0] == "c" and pc[1] != 1:
                bad.setdefault("accumulate", "%s: '%s' does not count one vehicle per route" % (self.f.where, c))


def show(t):
    if t is None:
        return "?"
    if t[0] == "c":
        return repr(t[1])
    if t[0] == "p":
        return t[1]
    if t[0] == "h":
        return "the old '%s'" % t[2]
    if t[0] == "F":
        return "the cost of %s" % show(t[1])
    if t[0] == "K":
        return "the vehicle count of %s" % show(t[1])
    if t[0] == "call":
        return "the result of %s(...)" % t[2]
    if t[0] == "proj":
        return "item %s of %s" % (t[2], show(t[1]))
    if t[0] in ("len", "cnt", "attr"):
        return "%s of %s" % (t[0], show(t[1]))
    return "another value"


def run(repo, rep):
    rep.rule("order", "the comparison function orders solutions by the chosen objective, for every weak order of costs and counts", 100)
    rep.rule("replace", "in every case a path can be in, the record kept is the best of the kept and the compared ones", 8)
    rep.rule("record", "kept solution, cost and count are always replaced together and belong together", 8)
    rep.rule("returned", "what is returned or raised after the search is the kept solution", 8)
    rep.rule("searchall", "the search is not cut short depending on whether an alternative was better", 8)
    rep.assume("Costs and vehicle counts are only compared with each other, so three distinct values per quantity "
               "represent every case of up to three solutions.")
    rep.assume("objf and count(0)-1 are the cost and the vehicle count of a solution (see C04, C18 for what they sum).")
    _spec(rep, repo)
    fns = []
    for f in repo.all_functions():
        if "naive" in f.module.rel or not f.module.dotted.startswith("verypy"):
            continue
        if _uses(repo, f) and any(isinstance(x, (ast.For, ast.While)) for x in own_walk(f.node)):
            fns.append(f)
    for f in fns:
        Fn(repo, rep, f).run()
    return dict(scope="%d search functions that compare alternatives with a kept solution" % len(fns))
