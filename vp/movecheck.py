"""Obligations C01-C05 over the symbolic outcomes of the local search operators."""
import ast, itertools, multiprocessing, os, sys
from . import ops
from .ops import C, L, S_EPS, C_EPS, B, OPS, INTRA
from .lin import Lin, atom, const, entails, contradictory, CLOSED, PL, PD, dist, dem, symbols, subst, skey, infeasible, node as mknode
from .absint import TOP, NONE, content, pathcost, length, ends, as_node, Undecided

_repo = None


def tasks():
    out = []
    for n in OPS:
        if OPS[n][0] == INTRA:
            for s in (1, 2):
                for lv in (0, 1, 2):
                    out.append((n, 0, 0, s, lv, "record"))
        else:
            ur = ("record", "node", "two", "list") if n == "do_insert_move" else ("record",)
            for u in ur:
                strategies = (1,) if u == "two" else (1, 2)
                for c, l in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    for s in strategies:
                        out.append((n, c, l, s, 0, u))
                for s in strategies:
                    for lv in (1, 2):
                        out.append((n, 1, 1, s, lv, u))
    return out


def opaque(l):
    """does a linear form mention values the analysis knows nothing about?"""
    for a, _ in l.t:
        if a[0] in ("f",):
            return True
        if a[0] == "r" and a[1] not in ("C", "L", "S_EPS", "C_EPS", "B"):
            return True
    for s in symbols(l):
        if s[0] == "x" and s[1] not in ("u", "v"):
            return True
    for R in lists_of(l):
        if R not in ("route1", "route2", "route3", "pool"):
            return True
    return False


def vague_lists(o):
    """lists that only stand for the effect of a loop appear in the outcome: their shape is not known exactly"""
    R = set()
    for r in o.routes:
        if known(r):
            R |= {i[1] for i in r[2] if i[0] == "seg"}
    for l, s in o.st.facts:
        R |= {x for x in lists_of(l) if isinstance(x, str)}
    return any(x not in ("route1", "route2", "route3", "pool") for x in R)


def vague_limit(st, name):
    """a limit check on this path involves a value that the analysis has lost track of"""
    for l, s in st.facts:
        if any(a[0] == "r" and a[1] == name and k > 0 for a, k in l.t) and opaque(l):
            return True
    return False


def small(st, l):
    """use the exact length of a list where the facts fix it to a small number"""
    for R in sorted({a[1] for a, _ in l.t if a[0] in ("DEM", "COST", "N", "PL", "PD")} | {n[1] for n in nodes_of(l)}):
        if not isinstance(R, str):
            continue
        N = atom(("N", R))
        for k in range(0, 6):
            if entails(st.facts, N - const(k)) and entails(st.facts, const(k) - N):
                tot, cost = const(0), const(0)
                for i in range(k):
                    tot = tot + dem(mknode(R, const(i)))
                    if i:
                        cost = cost + dist(mknode(R, const(i - 1)), mknode(R, const(i)))
                l = subst(l, {("DEM", R): tot, ("COST", R): cost})
                l = subst(l, {("N", R): const(k)})
                if CLOSED.get(R):
                    l = last_depot(l, R, k)
                break
    return l


def nodes_of(x):
    out = set()

    def go(v):
        if isinstance(v, Lin):
            for a, _ in v.t:
                go(a)
        elif isinstance(v, tuple):
            if len(v) == 3 and v[0] == "n":
                out.add(v)
            else:
                for y in v:
                    go(y)
    go(x)
    return out


def last_depot(l, R, k):
    def nd(n):
        return ("depot",) if n[0] == "n" and n[1] == R and n[2] == const(k - 1) else n
    r = const(l.c)
    for a, c in l.t:
        if a[0] == "D":
            r = r + dist(nd(a[1]), nd(a[2])) * c
        elif a[0] == "dem":
            r = r + dem(nd(a[1])) * c
        else:
            r = r + atom(a) * c
    return r


def lists_of(l):
    return {a[1] for a, _ in l.t if a[0] in ("DEM", "COST", "N", "PL", "PD")} | {n[1] for n in nodes_of(l)}


def zero(st, l):
    """True / False (provably the wrong form) / None (unknown)"""
    if l.t:
        l = small(st, l)
    if not l.t:
        return l.c == 0
    if entails(st.facts, l) and entails(st.facts, -l):
        return True
    if contradictory(st.facts, []):
        return True
    return None if opaque(l) else False


def splits(ip, st, val, n=0):
    """make every piece of every list in val either empty (and dropped) or non-empty"""
    s = st.set("$v", val)
    s.frames[-1].pop("_", None)
    work, done = [s], []
    while work:
        s = work.pop()
        todo = None
        for sq in seqs_of(s, s.env["$v"]):
            for it in sq[2]:
                if it[0] == "seg":
                    if entails(s.facts, it[3] - it[2] - const(1)):
                        continue
                    todo = it
                    break
            if todo:
                break
        if todo is None:
            done.append(s)
            continue
        n += 1
        if n > 200:
            raise Undecided("too many piece splits")
        a = ip.add_facts(s, [(todo[3] - todo[2] - const(1), False)])
        if a is not None:
            work.append(a)
        b = ip.assume_eq(s, todo[3] - todo[2])
        if b is not None:
            # an unresolved equality: drop the piece by hand
            b2 = drop_empty(b)
            work.append(b2)
    return [equate(s) for s in done]


def equate(s):
    """substitute positions that the facts force to be a fixed distance apart"""
    for _ in range(4):
        syms = []
        for l, st in s.facts:
            for a, k in l.t:
                if a[0] == "s" and a not in syms:
                    syms.append(a)
        syms.sort(key=skey)
        for a, b in itertools.combinations(syms[:7], 2):
            d = atom(a) - atom(b)
            hit = None
            for c in (0, 1, -1):
                g = d - const(c)
                if entails(s.facts, g) and entails(s.facts, -g):
                    hit = c
                    break
            if hit is not None:
                s = s.subst({a: atom(b) + const(hit)})
                break
        else:
            return s
    return s


def drop_empty(s):
    def cl(v):
        if isinstance(v, tuple) and v and v[0] == "seq":
            return ("seq", v[1], tuple(("el", cl(i[1])) if i[0] == "el" else i for i in v[2]
                                       if not (i[0] == "seg" and entails(s.facts, i[2] - i[3]) )))
        return v
    s2 = s.set("$v", cl(s.env["$v"]))
    for k, o in s2.heap.items():
        if "route" in o:
            o2 = dict(o)
            o2["route"] = cl(o["route"])
            s2.heap[k] = o2
    return s2


def seqs_of(s, v):
    out = []
    if isinstance(v, tuple) and v:
        if v[0] == "ref":
            r = s.heap.get(v[1], {}).get("route")
            if isinstance(r, tuple) and r and r[0] == "seq":
                out.append(r)
        elif v[0] == "seq":
            if v[1] == "list" and any(i[0] == "seg" for i in v[2]):
                out.append(v)
            else:
                for i in v[2]:
                    if i[0] == "el":
                        out += seqs_of(s, i[1])
    return out


class Out:
    """a successful return, split"""

    def __init__(self, st, routes, recs, delta):
        self.st, self.routes, self.recs, self.delta = st, routes, recs, delta
        self.vague = delta == TOP or any(r == TOP for r in routes) or any(
            rec and (rec.get("cost") == TOP or rec.get("demand") == TOP) for rec in recs)


def outcome(run, ret):
    """None: no move; 'top': unknown; else list of Out"""
    v = ret.val
    if v == NONE:
        return None
    if not (isinstance(v, tuple) and v and v[0] == "seq") or any(i[0] != "el" for i in v[2]):
        return "top"
    vals = [i[1] for i in v[2]]
    if all(x == NONE for x in vals):
        return None
    nr = OPS[run.op][1] if OPS[run.op][0] != INTRA else 1
    if len(vals) != nr + 1:
        return "shape"
    res = []
    for s in splits(run.ip, ret.st, v):
        vals = [i[1] for i in s.env["$v"][2]]
        routes, recs = [], []
        for x in vals[:-1]:
            if isinstance(x, tuple) and x and x[0] == "ref":
                o = s.heap.get(x[1], {})
                routes.append(o.get("route", TOP))
                recs.append(o)
            elif isinstance(x, tuple) and x and x[0] == "seq":
                routes.append(x)
                recs.append(None)
            else:
                routes.append(TOP if x != NONE else NONE)
                recs.append(None)
        res.append(Out(s, routes, recs, vals[-1]))
    return res


def shape(routes):
    def sh(r):
        if not (isinstance(r, tuple) and r and r[0] == "seq"):
            return "?"
        return "+".join((i[1] + ("" if i[4] == 1 else "'")) if i[0] == "seg" else "node" for i in r[2])
    return " | ".join(sh(r) for r in routes)


def known(r):
    return isinstance(r, tuple) and bool(r) and r[0] == "seq"


def norm_delta(d):
    return d if isinstance(d, Lin) else const(d[1]) if isinstance(d, tuple) and d[0] == "const" and isinstance(d[1], (int, float)) else None


def in_content(run):
    t = const(0)
    for i in run.inputs:
        t = t + content(i)
    return t


def in_count(run):
    t = const(0)
    for i in run.inputs:
        it = i[2][0]
        if it[0] == "seg":
            t = t + atom(("N", it[1])) - const(2 if CLOSED.get(it[1]) else 0)
        else:
            t = t + const(len(i[2]))
    return t


def in_cost(run):
    t = const(0)
    for k, i in enumerate(run.inputs):
        if run.op == "do_insert_move" and k == 0:
            continue
        t = t + PL(i[2][0][1], atom(("N", i[2][0][1])) - const(1))
    return t


def triangle(goal, facts):
    """instances of the triangle inequality among the nodes of the goal's distances"""
    ns = []
    for a, _ in goal.t:
        if a[0] == "D":
            for x in a[1:]:
                if x not in ns:
                    ns.append(x)
    out = []
    for x, y, z in itertools.permutations(ns[:6], 3):
        if skey(x) < skey(z):
            l = dist(x, y) + dist(y, z) - dist(x, z)
            out.append((l, False))
    return out


# ------------------------------------------------------------------ analysis

def c01(run, o, emit):
    rt = o.routes
    if not all(known(r) for r in rt):
        return emit("skip", "content", shape(rt), "route lists not resolved")
    tot = const(0)
    cnt = const(0)
    for k, r in enumerate(rt):
        c = content(r)
        if c is None:
            return emit("skip", "content", shape(rt), "list element not resolved")
        tot = tot + c
        cnt = cnt + length(r)
        it = r[2]
        bad = None
        if not it:
            bad = "is empty"
        else:
            f, l_ = ends(it[0])[0], ends(it[-1])[1]
            for nm, n in (("start", f), ("end", l_)):
                if n is None or (n[0] == "x" and n[1] != "u" and n[1] != "v" and not str(n[1]).startswith("#")):
                    emit("skip", "depot", shape(rt), "route %s not resolved" % nm)
                elif n != ("depot",):
                    # an index that is forced to be the first or last one
                    okd = n[0] == "n" and CLOSED.get(n[1]) and (entails(o.st.facts, -n[2]) or entails(o.st.facts, n[2] - atom(("N", n[1])) + const(1)))
                    if not okd:
                        bad = "does not %s at the depot (%r)" % (nm, n)
        if bad and vague_lists(o):
            emit("skip", "depot", shape(rt), "route ends not resolved")
        elif bad:
            emit("violate", "depot", "route %d of %s" % (k + 1, shape(rt)), "%s: returned route %d %s: %r under %s" % (run.label, k + 1, bad, r, facts(o.st)))
        else:
            emit("ok", "depot", "%s route %d of %s" % (run.label, k + 1, shape(rt)), "")
    rest = tot - in_content(run)
    z = zero(o.st, rest)
    if z is None or not z and vague_lists(o):
        return emit("skip", "content", shape(rt), "content not decided: %r" % rest)
    if not z:
        return emit("violate", "content", shape(rt), "%s returns routes %s whose visited nodes differ from those given by %r, under %s" % (run.label, show(rt), rest, facts(o.st)))
    if any(len(r[2]) == 2 and all(i[0] == "el" for i in r[2]) for r in rt) and run.op == "do_insert_move":
        pass
    n = cnt - const(2 * len(rt)) - in_count(run)
    z = zero(o.st, n)
    if z is None or not z and vague_lists(o):
        return emit("skip", "content", shape(rt), "length not decided")
    if not z:
        return emit("violate", "content", shape(rt), "%s: number of visits differs by %r (depot visits inside a route) under %s" % (run.label, n, facts(o.st)))
    emit("ok", "content", "%s: %s" % (run.label, shape(rt)), "")


def c02(run, o, emit):
    rt = o.routes
    d = norm_delta(o.delta)
    if d is None or not all(known(r) for r in rt):
        return emit("skip", "delta", shape(rt), "reported change or routes not resolved")
    cs = [pathcost(r) for k, r in enumerate(rt) if not (run.op == "do_insert_move" and k == 0 and len(r[2]) <= 2 and all(i[0] == "el" for i in r[2]))]
    if any(c is None for c in cs):
        return emit("skip", "delta", shape(rt), "route cost not resolved")
    tot = const(0)
    for c in cs:
        tot = tot + c
    rest = d - (tot - in_cost(run))
    z = zero(o.st, rest)
    if z is None:
        return emit("skip", "delta", shape(rt), "not decided: %r" % rest)
    if z:
        emit("ok", "delta", "%s: %s" % (run.label, shape(rt)), "")
    else:
        emit("violate", "delta", shape(rt), "%s reports %r for routes %s; reported minus true change is %r under %s" % (run.label, d, show(rt), rest, facts(o.st)))


def c03(run, o, emit):
    rt = o.routes
    fs = [(small(o.st, l), s) for l, s in o.st.facts]
    if run.capd:
        for k, r in enumerate(rt):
            w = "capacity of route %d of %s" % (k + 1, shape(rt))
            c = content(r) if known(r) else None
            if c is None:
                emit("skip", "limit", w, "load not resolved")
                continue
            if c.is_const() and c.c == 0:
                continue
            g = C + C_EPS - c
            if entails(fs, small(o.st, g)):
                emit("ok", "limit", "%s: %s" % (run.label, w), "")
            elif opaque(g) or vague_limit(o.st, "C"):
                emit("skip", "limit", w, "load not decided: %r" % g)
            else:
                emit("violate", "limit", w, "%s can return %r with load %r above the capacity: no check on the path bounds it; facts %s" % (run.label, r, c, facts(o.st)))
    if run.lim:
        for k, r in enumerate(rt):
            w = "cost of route %d of %s" % (k + 1, shape(rt))
            c = pathcost(r) if known(r) else None
            if c is None:
                emit("skip", "limit", w, "cost not resolved")
                continue
            if c.is_const() and c.c == 0:
                continue
            g = L + S_EPS - c
            if entails(fs, small(o.st, g)) or entails(fs + triangle(g, fs), small(o.st, g)):
                emit("ok", "limit", "%s: %s" % (run.label, w), "")
            elif opaque(g) or vague_limit(o.st, "L"):
                emit("skip", "limit", w, "cost not decided: %r" % g)
            else:
                emit("violate", "limit", w, "%s can return %r with cost %r above the route cost limit: no check on the path bounds it; facts %s" % (run.label, r, c, facts(o.st)))


def c04(run, o, emit):
    for k, (r, rec) in enumerate(zip(o.routes, o.recs)):
        if rec is None:
            continue
        w = "record %d of %s" % (k + 1, shape(o.routes))
        if not known(r):
            emit("skip", "record", w, "route not resolved")
            continue
        for attr, true in (("cost", pathcost(r)), ("demand", content(r))):
            if attr == "demand" and not run.capd:
                continue
            if len(r[2]) <= 2 and all(i[0] == "el" for i in r[2]):
                true = const(0)
            v = norm_delta(rec.get(attr, TOP))
            if v is None or true is None:
                if rec.get(attr) == NONE:
                    emit("violate", "record", attr + " of " + w, "%s: stored %s is None" % (run.label, attr))
                else:
                    emit("skip", "record", attr + " of " + w, "not resolved")
                continue
            z = zero(o.st, v - true)
            if z is None:
                emit("skip", "record", attr + " of " + w, "not decided: %r" % (v - true))
            elif z:
                emit("ok", "record", "%s: %s of %s" % (run.label, attr, w), "")
            else:
                emit("violate", "record", attr + " of " + w, "%s: the stored %s %r of the returned route %r differs from the true one by %r under %s" % (run.label, attr, v, r, v - true, facts(o.st)))


def level0(run):
    return B if run.base else const(0)


def c05(run, outs, emit):
    me = run.op
    nmove = 0
    inductive = True      # every replacement lowers the level by the tolerance, starting from the preset one
    for nm, st, old, new, before in run.accepts:
        if nm != "best_delta":
            continue
        if norm_delta(old) is None or not entails(st.facts, norm_delta(old) - new - S_EPS) or \
                not before and not entails(st.facts, level0(run) - norm_delta(old)):
            inductive = False
        nmove += 1
        o = norm_delta(old)
        if o is None:
            emit("skip", "strict", me, "previous level not resolved")
        elif entails(st.facts, o - new - S_EPS):
            emit("ok", "strict", "%s: %r" % (run.label, new), "")
        elif opaque(o - new):
            emit("skip", "strict", me, "comparison not decided")
        else:
            emit("violate", "strict", "%s accepts without beating the level" % me,
                 "%s: the level is replaced by %r where the path does not establish that it is below the old level %r by more than the tolerance; facts %s" % (run.label, new, o, facts(st)))
        if run.strategy == 1:
            if before:
                emit("violate", "first", "%s goes on after the first accepted move" % me,
                     "%s: with first-accept a second candidate (%r) is accepted after one was found" % (run.label, new))
            else:
                emit("ok", "first", "%s: %r" % (run.label, new), "")
    if run.strategy == 2:
        for st, node in run.early:
            if any(m.startswith("acc:best_delta") for m in st.marks):
                emit("violate", "best", "%s stops early with best-accept" % me,
                     "%s: the search stops at line %d after an improvement was found, so later candidates are not looked at" % (run.label, node.lineno))
        emit("ok", "best", run.label, "")
    for o in outs:
        d = norm_delta(o.delta)
        if d is None:
            emit("skip", "level", shape(o.routes), "reported change not resolved")
            continue
        rest = level0(run) - d - S_EPS
        if run.op == "do_insert_move" and d == const(0):
            continue      # nothing to insert
        if run.op == "do_insert_move" and not run.base:
            emit("ok", "level", "%s has no level" % run.label, "")
            continue
        facts_ = o.st.facts
        if entails(facts_, rest) or run.op != "do_insert_move" and inductive and any(m == "acc:best_delta" for m in o.st.marks):
            emit("ok", "level", "%s: %s" % (run.label, shape(o.routes)), "")
        elif opaque(rest):
            emit("skip", "level", shape(o.routes), "not decided: %r" % rest)
        else:
            emit("violate", "level", "%s returns %s" % (me, shape(o.routes)),
                 "%s: the returned change %r is not shown to beat the level %r by the tolerance; facts %s" % (run.label, d, level0(run), facts(o.st)))
        lv = o.st.env.get("best_delta") if "best_delta" in run.levels else None
        lv = norm_delta(lv) if lv is not None else None
        if lv is not None and run.op != "do_insert_move":
            z = zero(o.st, lv - d)
            if z:
                emit("ok", "level", "%s: level is the change of the move, %s" % (run.label, shape(o.routes)), "")
            elif z is None:
                emit("skip", "level", shape(o.routes), "level not resolved")
            else:
                emit("violate", "level", "%s level differs from the move, %s" % (me, shape(o.routes)),
                     "%s: the remembered level %r is not the change %r of the remembered move" % (run.label, lv, d))


WANT = {"do_2opt_move": 1, "do_3opt_move": 5, "do_2optstar_move": 2}


def c05_neigh(runs, emit):
    """all edges and all reconnections are looked at"""
    by = {}
    for r in runs:
        if r.undecided is None and not r.base:
            by.setdefault((r.op, r.strategy, r.capd, r.lim), []).append(r)
    for (op, s, c, l), rs in by.items():
        r = rs[0]
        if op == "do_insert_move":
            continue
        acc = [(st, new) for nm, st, old, new, before in r.accepts if nm == "best_delta"]
        if not acc:
            emit("skip", "neighbourhood", op, "no acceptance found")
            continue
        ok = True
        for R in sorted({i[2][0][1] for i in r.inputs}):
            for what, pos in (("first", const(0)), ("last", atom(("N", R)) - const(2))):
                hit = unknown = False
                for st, new in acc:
                    if opaque(new):
                        unknown = True
                        continue
                    for a, k in new.t:
                        if a[0] != "D" or k >= 0:
                            continue
                        p = edge_pos(a, R)
                        if p is None:
                            continue
                        g = p - pos
                        if not contradictory(st.facts, [(g, False), (-g, False)]):
                            hit = True
                if not hit and not unknown:
                    ok = False
                    emit("violate", "neighbourhood", "%s never removes the %s edge of %s" % (op, what, R),
                         "%s: no accepted candidate can remove the %s edge of %s, although removing it is part of the neighbourhood" % (r.label, what, R))
                elif not hit:
                    emit("skip", "neighbourhood", op, "%s edge of %s" % (what, R))
        gaps(r, acc, emit)
        want = WANT.get(op)
        if want:
            base = {recon(st, new) for st, new in acc}
            if None in base or len(base) < want and "?" in base:
                emit("skip", "neighbourhood", op, "reconnections not resolved")
            elif len(base) < want:
                ok = False
                emit("violate", "neighbourhood", "%s considers %d of the %d reconnections" % (op, len(base), want),
                     "%s: the candidate cost changes form %d different reconnections of the removed edges, %d exist" % (r.label, len(base), want))
        if ok:
            emit("ok", "neighbourhood", r.label, "")


def recon(st, d):
    """the reconnection a candidate stands for: removed edges ranked by position, added edges between their ends.
    Candidates that remove only two edges of a route are all the same one (reversal of the part between them)."""
    if opaque(d):
        return None
    added = [a for a, k in d.t if a[0] == "D" and k > 0]
    edges = []
    for a, k in d.t:
        if a[0] != "D" or k >= 0:
            continue
        R = a[1][1] if a[1][0] == "n" else a[2][1] if a[2][0] == "n" else None
        p = edge_pos(a, R)
        if p is None:
            return "?"
        edges.append((R, p))
    if len(edges) != len(added):
        return "?"
    if len(edges) == 2 and edges[0][0] == edges[1][0]:
        return "2opt"

    def before(e, f):
        if e[0] != f[0]:
            return e[0] < f[0]
        if entails(st.facts, f[1] - e[1]):
            return True
        return False if entails(st.facts, e[1] - f[1]) else None
    rank = {}
    for e in edges:
        r = 0
        for f in edges:
            if f is not e:
                x = before(f, e)
                if x is None:
                    return "?"
                r += bool(x)
        rank[r] = e
    if len(rank) != len(edges):
        return "?"

    def label(n):
        for r, (R, p) in rank.items():
            for side in (0, 1):
                if mknode(R, p + const(side)) == n:
                    return (r, side)
        return None
    sig = []
    for a in added:
        x, y = label(a[1]), label(a[2])
        if x is None or y is None:
            return "?"
        sig.append(tuple(sorted((x, y))))
    return tuple(sorted(sig))


def edge_pos(a, R):
    """position p such that the edge a joins R[p] and R[p+1]"""
    x, y = a[1], a[2]

    def idx(n):
        if n[0] == "n" and n[1] == R:
            return n[2]
        return None
    i, j = idx(x), idx(y)
    if i is not None and j is not None:
        d = j - i
        if d.is_const() and d.c == 1:
            return i
        if d.is_const() and d.c == -1:
            return j
        return None
    return None


NOEPS = {("r", "S_EPS"): const(0), ("r", "C_EPS"): const(0)}


def limits_strict(run, outs, emit):
    """the limits must not reject a move whose routes are feasible (tolerances ignored)"""
    if run.op == "do_insert_move" and not run.mode.endswith(":node"):
        return
    groups = {}
    prem = {f for f in run.premise}
    for o in outs:
        if not all(known(r) for r in o.routes):
            continue
        base = []
        for l, s in o.st.facts:
            if not any(a[0] == "r" and a[1] in ("C", "L") for a, _ in l.t):
                base.append((l, s))
        for l, s in prem:
            base.append((subst(l, NOEPS), s))
        for r in o.routes:
            c, w = content(r), pathcost(r)
            if c is None or w is None:
                return
            if run.capd:
                base.append((C - c, False))
            if run.lim:
                base.append((L - w, False))
        bad = []
        for l, s in o.st.facts:
            if (l, s) in prem:
                continue
            pos = [a[1] for a, k in l.t if a[0] == "r" and a[1] in ("C", "L") and k > 0]
            if not pos:
                continue
            g = subst(l, NOEPS)
            bs = [(small(o.st, x), y) for x, y in base]
            if opaque(g):
                bad.append(None)
            elif not entails(bs, small(o.st, g)):
                bad.append((pos[0], l))
        groups.setdefault(shape(o.routes), []).append((o, bad))
    for sh, os_ in groups.items():
        if any(not bad for o, bad in os_):
            emit("ok", "exact-limit", "%s: %s" % (run.label, sh), "")
        elif any(None in bad for o, bad in os_):
            emit("skip", "exact-limit", sh, "limit condition not resolved")
        else:
            o, bad = os_[0]
            emit("violate", "exact-limit", "%s limit on %s rejects feasible moves" % (bad[0][0], sh),
                 "%s: the move %s is only returned when %r >= 0 also holds, which does not follow from the returned routes being within the limits, so feasible improving moves are rejected" % (run.label, show(o.routes), bad[0][1]))


def gaps(run, acc, emit):
    """neighbouring and extreme positions are combined"""
    if OPS[run.op][0] != INTRA:
        return
    R = "route1"
    N = atom(("N", R))
    least = 2 if run.op == "do_2opt_move" else 1
    near = far = unknown = False
    for st, new in acc:
        if opaque(new):
            unknown = True
            continue
        ps = [p for p in (edge_pos(a, R) for a, k in new.t if a[0] == "D" and k < 0) if p is not None]
        for p, q in itertools.permutations(ps, 2):
            g = p - q - const(least)
            big = (N - const(9), False)
            if not near and not contradictory(st.facts, [(g, False), (-g, False), big]):
                near = True
            h = p - N + const(2)
            if not far and not contradictory(st.facts, [(q, False), (-q, False), (h, False), (-h, False), big]):
                far = True
        if near and far:
            break
    for what, okd in (("neighbouring", near), ("first and last", far)):
        if okd:
            emit("ok", "neighbourhood", "%s: %s edges" % (run.label, what), "")
        elif unknown:
            emit("skip", "neighbourhood", run.op, "%s edges" % what)
        else:
            emit("violate", "neighbourhood", "%s never combines %s edges" % (run.op, what),
                 "%s: no accepted candidate removes %s edges of a long route together" % (run.label, what))


def facts(st, n=14):
    return "; ".join("%r %s 0" % (l, ">" if s else ">=") for l, s in sorted(st.facts, key=lambda p: repr(p))[:n])


def show(rt):
    def one(r):
        if not known(r):
            return "?"
        return "[" + ", ".join("%s[%r:%r]%s" % (i[1], i[2], i[3], "" if i[4] == 1 else " reversed") if i[0] == "seg" else "%r" % (i[1],) for i in r[2]) + "]"
    return " / ".join(one(r) for r in rt)


def analyse(task):
    prop, (name, capd, lim, strat, level, unr) = task
    sys.setrecursionlimit(20000)
    res = []

    def emit(kind, rule, construct, text):
        res.append((kind, rule, name, construct, text))
    try:
        run = ops.run_op(_repo, name, capd, lim, strat, level, unr)
    except Exception as e:
        if os.environ.get("VP_DEBUG"):
            raise
        emit("skip", "*", "%s %s" % (name, task[1][1:]), "analysis not applicable: %s: %s" % (type(e).__name__, e))
        return res
    run.capd, run.lim = capd, lim
    if run.undecided:
        emit("skip", "*", run.label, run.undecided)
        return res
    try:
        CLOSED.clear()
        CLOSED.update(run.closed)
        outs = []
        moves = 0
        for r in run.rets:
            o = outcome(run, r)
            if o is None:
                continue
            if o == "top":
                emit("skip", "*", run.label, "returned value not resolved at line %d" % getattr(r.node, "lineno", 0))
                continue
            if o == "shape":
                emit("violate", "shape", "%s return" % name, "%s returns a tuple of another length than its contract (line %d)" % (run.label, getattr(r.node, "lineno", 0)))
                continue
            outs += o
        run.outs = outs
        if not outs:
            emit("skip", "*", run.label, "no successful return found")
        vague = [o for o in outs if o.vague]
        outs = [o for o in outs if not o.vague]
        if vague:
            emit("skip", "*", run.label, "%d returns carry values the analysis does not resolve" % len(vague))
        for o in outs:
            if prop == "C01":
                c01(run, o, emit)
            elif prop == "C02":
                c02(run, o, emit)
            elif prop == "C03":
                c03(run, o, emit)
            elif prop == "C04":
                c04(run, o, emit)
        if prop == "C05":
            c05(run, outs, emit)
            if strat == 1:
                limits_strict(run, outs, emit)
            c05_neigh([run], emit)
    except Exception as e:
        if os.environ.get("VP_DEBUG"):
            raise
        emit("skip", "*", run.label, "analysis not applicable: %s: %s" % (type(e).__name__, e))
    return res


def run_all(repo, rep, prop, ts):
    global _repo
    _repo = repo
    jobs = [(prop, t) for t in ts]
    jobs.sort(key=lambda j: 0 if j[1][0] == "do_3opt_move" else 1)
    if os.environ.get("VP_SERIAL"):
        results = [analyse(j) for j in jobs]
    else:
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
            results = p.map(analyse, jobs, 1)
    n = 0
    seen = set()
    for rs in results:
        for kind, rule, op, construct, text in rs:
            n += 1
            if (kind, rule, op, construct, text) in seen:
                continue
            seen.add((kind, rule, op, construct, text))
            if kind == "ok":
                rep.ok(rule, construct)
            elif kind == "violate":
                rep.violate(rule, "%s %s" % (op, construct), text)
            else:
                rep.skip(rule, "%s %s: %s" % (op, construct, text))
    return n


def assumptions(rep):
    rep.assume("D is symmetric with zero diagonal and non-negative entries, D[0,0]=0 and d[0]=0; sums are exact (real arithmetic)")
    rep.assume("routes given to the operators start and end at the depot; their records agree with them (which C04 keeps)")
    rep.assume("for C03 the given routes themselves are within the limits; the triangle inequality is used only where stated in the analysis")
