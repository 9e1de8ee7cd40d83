"""Runs the abstract interpreter over the local search operators and collects,
for every way an operator can return, the symbolic routes, records and cost
change together with the facts that hold there."""
import ast, time
from .core import AnalysisBroken, ClassInfo, Func
from . import lin
from .lin import Lin, atom, const, sym, entails, contradictory, CLOSED, PL, PD, symbols
from .absint import Interp, State, Undecided, TOP, NONE, whole, length, content, pathcost, ends, is_node

C = atom(("r", "C"))
L = atom(("r", "L"))
S_EPS = atom(("r", "S_EPS"))
C_EPS = atom(("r", "C_EPS"))
B = atom(("r", "B"))

INTRA = "verypy.local_search.intra_route_operators"
INTER = "verypy.local_search.inter_route_operators"

OPS = {
    "do_2opt_move": (INTRA, 1), "do_3opt_move": (INTRA, 1), "do_relocate_move": (INTRA, 1), "do_exchange_move": (INTRA, 1),
    "do_2optstar_move": (INTER, 2), "do_1point_move": (INTER, 2), "do_2point_move": (INTER, 2),
    "do_insert_move": (INTER, 2), "do_chain_move": (INTER, 3),
}


class Ret:
    """one way of returning: list of out routes (seq), records, delta, facts"""

    def __init__(self, st, val, node):
        self.st, self.val, self.node = st, val, node


class Run:
    def __init__(self, op, mode, strategy, base):
        self.op, self.mode, self.strategy, self.base = op, mode, strategy, base
        self.rets = []
        self.accepts = []     # (func, level before, level after, facts, already accepted)
        self.early = []       # early exits of a best accept search
        self.inputs = []
        self.undecided = None
        self.premise = []

    @property
    def label(self):
        return "%s[%s,%s%s]" % (self.op, self.mode, "first" if self.strategy == 1 else "best", ",level" if self.base else "")


def rd_summaries():
    def upd(ip, st, f, args, kw):
        me = args[0]
        if not (isinstance(me, tuple) and me[0] == "ref"):
            return None
        o = dict(st.heap.get(me[1], {}))
        r = o.get("route")
        dd = args[2] if len(args) > 2 else kw.get("d", NONE)
        if not (isinstance(r, tuple) and r[0] == "seq" and len(r[2]) == 1 and r[2][0][0] == "seg" and r == whole(r[2][0][1])):
            vals = dict.fromkeys(("fwd_l", "rwd_l", "fwd_d", "rwd_d"), TOP)
        else:
            R = r[2][0][1]
            vals = {k: ("arr", k, R) for k in ("fwd_l", "rwd_l")}
            for k in ("fwd_d", "rwd_d"):
                vals[k] = ("arr", k, R) if dd == ("vec", "d") else TOP
        o.update(vals)
        s = st.copy()
        s.heap[me[1]] = o
        return [(s, NONE)]
    return {"update_auxiliary_data": upd}


def find_op(repo, name):
    mod = OPS[name][0]
    m = repo.modules.get(mod)
    f = m.functions.get(name) if m else None
    if f is None:
        cands = [g for g in repo.all_functions() if g.name == name and g.parent is None]
        f = cands[0] if len(cands) == 1 else None
    if f is None:
        raise AnalysisBroken("operator %s not found" % name)
    return f


def start_state(ip, repo, name, f, capd, lim, strategy, level, unrouted="record"):
    nroutes = OPS[name][1]
    rdcls = repo.modules["verypy.routedata"].classes["RouteData"]
    st = State([{}], {}, frozenset())
    args, inputs = [], []
    CLOSED.clear()
    for k in range(nroutes):
        R = "route%d" % (k + 1)
        CLOSED[R] = True
        inputs.append(whole(R))
        st = st.add([(atom(("N", R)) - const(2), False)])
        if OPS[name][0] == INTRA:
            args.append(whole(R))
            continue
        if name == "do_insert_move" and k == 0 and unrouted == "node":
            inputs[0] = ("seq", "list", (("el", ("x", "u")),))
            args.append(("x", "u"))
            continue
        if name == "do_insert_move" and k == 0 and unrouted == "two":
            inputs[0] = ("seq", "list", (("el", ("x", "u")), ("el", ("x", "v"))))
            args.append(inputs[0])
            continue
        if name == "do_insert_move" and k == 0 and unrouted == "list":
            CLOSED["pool"] = False
            inputs[0] = whole("pool")
            args.append(whole("pool"))
            continue
        st, ref = ip.alloc(st, rdcls, {
            "route": whole(R), "cost": PL(R, atom(("N", R)) - const(1)),
            "demand": PD(R, atom(("N", R)) - const(1)) if capd else NONE, "node_set": TOP,
            "aux_data_updated": ("const", False), "fwd_l": NONE, "rwd_l": NONE, "fwd_d": NONE, "rwd_d": NONE})
        args.append(ref)
    if level:
        st = st.add([(B, True)] if level == 1 else [(-B, True)])
    premise = []
    for i in inputs:
        it = i[2][0]
        if it[0] == "seg":
            R = it[1]
            if CLOSED.get(R):
                if capd:
                    premise.append((C + C_EPS - atom(("DEM", R)), False))
                if lim:
                    premise.append((L + S_EPS - atom(("COST", R)), False))
    enum = lambda k: ("enum", str(k), "E")
    params = f.posargs
    env = {}
    pos = list(args)
    for p in params:
        if pos:
            env[p] = pos.pop(0)
        elif p == "D":
            env[p] = ("mat", "D")
        elif p == "d":
            env[p] = ("vec", "d") if capd else NONE
        elif p == "C":
            env[p] = C if capd else NONE
        elif p == "L":
            env[p] = L if lim else NONE
        elif p == "strategy":
            env[p] = enum(strategy)
        elif p == "best_delta":
            env[p] = B if level else NONE
    for p in params:
        env.setdefault(p, TOP)
    return State([env], st.heap, st.facts | frozenset(premise), st.marks), inputs, premise


def run_op(repo, name, capd, lim, strategy, level, unrouted="record", budget=600000):
    f = find_op(repo, name)
    r = Run(name, ("C" if capd else "-") + ("L" if lim else "-") + ("" if unrouted == "record" else ":" + unrouted), strategy, level)
    r.func = f
    ctx = {}

    def changed(ip, st, name_, old, new):
        """a loop carried cost level is replaced"""
        ctx.setdefault("levels", {}).setdefault(name_, []).append((old, new))

    def on_break(ip, st, s):
        if strategy == 2 and ip.func is f:
            r.early.append((st, s))

    def on_loopret(ip, st, s):
        if strategy == 2 and ip.func is f:
            r.early.append((st, s))

    def on_store(ip, st, nm, v):
        if ip.func is not f or not ip.loopdepth or nm not in r.levels:
            return st
        old = st.env.get(nm)
        if old == v or not isinstance(v, Lin):
            return st
        r.accepts.append((nm, st, old, v, "acc:" + nm in st.marks))
        return st.mark("acc:" + nm)
    r.levels = level_vars(f)
    ip = Interp(repo, {"break": on_break, "loopret": on_loopret, "store": on_store}, rd_summaries(), budget)
    st, r.inputs, r.premise = start_state(ip, repo, name, f, capd, lim, strategy, level, unrouted)
    r.ip = ip
    ip.levels = [(B if level else const(0)) - S_EPS] if strategy == 2 or name == "do_insert_move" and level else []
    ip.keep = {n for n in r.levels if n in f.params}
    t0 = time.time()
    ip.funcs.append(f)
    try:
        from .absint import live_of
        fl = ip.block(st, f.node.body, live_of(f.node))
    except Undecided as e:
        r.undecided = str(e)
        return r
    finally:
        ip.funcs.pop()
        r.time = time.time() - t0
        r.closed = dict(CLOSED)
    for s, v, n in fl.ret:
        r.rets.append(Ret(s, v, n))
    for s in fl.norm:
        r.rets.append(Ret(s, NONE, f.node))
    return r


def level_vars(f):
    """the variables that hold the level to beat: carried around a loop, compared there with candidates,
    and replaced there (not accumulated)"""
    from .absint import live_of
    live = live_of(f.node)
    out = set()

    def go(stmts, loop):
        for s in stmts:
            inner = s if isinstance(s, (ast.For, ast.While)) else loop
            if inner is not None:
                exprs = [s.test] if isinstance(s, (ast.If, ast.While)) else [s.value] if isinstance(s, ast.Assign) else []
                for e in exprs:
                    for c in ast.walk(e):
                        if isinstance(c, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in c.ops):
                            for n in ast.walk(c):
                                if isinstance(n, ast.Name) and n.id in live.head.get(id(inner), ()):
                                    out.add((n.id, inner))
            for b in ("body", "orelse", "finalbody"):
                if getattr(s, b, None):
                    go(getattr(s, b), inner)
    go(f.node.body, None)
    res = set()
    for v, loop in out:
        plain = acc = False
        for s in ast.walk(loop):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == v:
                acc = True
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store):
                            if any(isinstance(m, ast.Name) and m.id == v for m in ast.walk(s.value)):
                                acc = acc or not isinstance(s.value, ast.Call)
                            plain = True
            if isinstance(s, (ast.For,)) and any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(s.target)):
                acc = True
        if plain and not acc:
            res.add(v)
    if "best_delta" in f.params and any(isinstance(n, ast.Name) and n.id == "best_delta" and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
        res.add("best_delta")
    return res
