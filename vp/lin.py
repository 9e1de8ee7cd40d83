"""Linear forms over symbolic atoms, and a small polyhedral domain (sets of
linear inequalities with Fourier-Motzkin elimination) used as the numeric part
of the abstract domain in absint.py.

Atoms are tuples:
 ("s", name)            integer index symbol
 ("N", R)               length of list R (an integer)
 ("D", x, y)            distance between nodes x and y (symmetric: x<=y)
 ("dem", x)             demand of node x
 ("PL", R, lin)         cost of R[0..lin]        ("COST", R) = PL(N-1)
 ("PD", R, lin)         demand of R[0..lin]      ("DEM", R)  = PD(N-1)
 ("r", name)            real symbol (C, L, tolerances, levels)
Nodes: ("n", R, lin) a node of a list, ("depot",), ("x", name)."""
from fractions import Fraction


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        if isinstance(t, dict):
            t = tuple(sorted(((a, k) for a, k in t.items() if k != 0), key=_akey))
        self.t, self.c = t, c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.t, self.c + o)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return Lin(d, self.c + o.c)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, k):
        return Lin(tuple((a, x * k) for a, x in self.t), self.c * k) if k else Lin()

    def is_const(self):
        return not self.t

    def __repr__(self):
        parts = []
        for a, k in self.t:
            parts.append("%s%s" % ("" if k == 1 else "-" if k == -1 else "%s*" % k, ashow(a)))
        if self.c or not parts:
            parts.append(str(self.c))
        return " + ".join(parts).replace("+ -", "- ")


def nshow(n):
    if n[0] == "depot":
        return "0"
    if n[0] == "n":
        return "%s[%r]" % (n[1], n[2])
    return str(n[1])


def ashow(a):
    if a[0] in ("s", "r"):
        return str(a[1])
    if a[0] == "N":
        return "len(%s)" % a[1]
    if a[0] == "D":
        return "D(%s,%s)" % (nshow(a[1]), nshow(a[2]))
    if a[0] == "dem":
        return "d(%s)" % nshow(a[1])
    if a[0] in ("PL", "PD"):
        return "%s(%s,%r)" % (a[0], a[1], a[2])
    return "%s(%s)" % (a[0].lower(), ",".join(map(str, a[1:])))


_kc = {}


def _key(x):
    if isinstance(x, Lin):
        return ("L",) + tuple(_key(y) for y in x.t) + (str(x.c),)
    if isinstance(x, tuple):
        return ("T",) + tuple(_key(y) for y in x)
    return ("A", str(x))


def skey(x):
    k = _kc.get(x)
    if k is None:
        k = _kc[x] = repr(_key(x))
    return k


def _akey(p):
    return skey(p[0])


def const(c):
    return Lin((), c)


def atom(a):
    return Lin(((a, 1),), 0)


def sym(name):
    return atom(("s", name))


def is_int_atom(a):
    return a[0] in ("s", "N")


def is_int(l):
    return all(is_int_atom(a) and Fraction(k).denominator == 1 for a, k in l.t) and Fraction(l.c).denominator == 1


# ---------------------------------------------------------------- lists

CLOSED = {}      # R -> True if R is known to start and end at the depot


def node(R, lin):
    if CLOSED.get(R):
        if lin.is_const() and lin.c == 0:
            return ("depot",)
        if lin == Lin(((("N", R), 1),), -1):
            return ("depot",)
    return ("n", R, lin)


def dist(x, y):
    if x == y:
        return const(0)
    if skey(x) > skey(y):
        x, y = y, x
    return atom(("D", x, y))


def dem(x):
    if x == ("depot",):
        return const(0)
    return atom(("dem", x))


def PL(R, lin):
    """cost of the path R[0..lin], normalised to the symbolic part of lin"""
    return _prefix(R, lin, "PL", "COST", lambda i: dist(node(R, i - const(1)), node(R, i)))


def PD(R, lin):
    return _prefix(R, lin, "PD", "DEM", lambda i: dem(node(R, i)))


def _prefix(R, lin, tag, total, step):
    base = Lin(lin.t, 0)
    c = lin.c
    if not base.t:
        res, at = (const(0) if tag == "PL" else dem(node(R, const(0)))), 0
    elif base == atom(("N", R)):
        res, at = atom((total, R)), -1
    else:
        res, at = atom((tag, R, base)), 0
    c = int(c)
    if abs(c - at) > 40:
        return atom((tag, R, lin))
    while at < c:
        at += 1
        res = res + step(base + const(at))
    while at > c:
        res = res - step(base + const(at))
        at -= 1
    return res


# ---------------------------------------------------------------- substitution

def subst_node(n, m):
    if n[0] == "n":
        return node(n[1], subst(n[2], m))
    if n[0] == "x":
        return m.get(n, n)
    return n


def subst_atom(a, m):
    if a in m:
        return m[a]
    k = a[0]
    if k == "D":
        return dist(subst_node(a[1], m), subst_node(a[2], m))
    if k == "dem":
        return dem(subst_node(a[1], m))
    if k == "PL":
        return PL(a[1], subst(a[2], m))
    if k == "PD":
        return PD(a[1], subst(a[2], m))
    if k == "f":
        return atom(("f", a[1]) + tuple(subst(x, m) if isinstance(x, Lin) else subst_node(x, m) if isinstance(x, tuple) and x and x[0] in ("n", "x") else x for x in a[2:]))
    return None


def subst(l, m):
    d, rest = {}, []
    ch = False
    for a, k in l.t:
        r = subst_atom(a, m)
        if r is None:
            d[a] = d.get(a, 0) + k
        elif len(r.t) == 1 and r.c == 0 and r.t[0] == (a, 1):
            d[a] = d.get(a, 0) + k
        else:
            ch = True
            rest.append((r, k))
    if not ch:
        return l
    res = Lin(d, l.c)
    for r, k in rest:
        res = res + r * k
    return res


def symbols(x, out=None):
    """index symbols (and opaque nodes/reals) occurring in a value"""
    if out is None:
        out = []
    if isinstance(x, Lin):
        for a, k in x.t:
            symbols(a, out)
    elif isinstance(x, tuple):
        if len(x) == 2 and x[0] in ("s", "x") and isinstance(x[1], str):
            if x not in out:
                out.append(x)
        else:
            for y in x:
                symbols(y, out)
    return out


# ---------------------------------------------------------------- entailment

def _norm(coef, c, strict):
    g = None
    for v in coef.values():
        v = abs(Fraction(v))
        g = v if g is None else min(g, v)
    if g and g != 1:
        coef = {a: Fraction(v) / g for a, v in coef.items()}
        c = Fraction(c) / g
    return coef, c, strict


def infeasible(cons, limit=400):
    """cons: list of (Lin, strict) meaning Lin>=0 (or >0). True only if proven
    unsatisfiable (over the rationals, with integer tightening of inputs)."""
    work = []
    for l, s in cons:
        if not l.t:
            if l.c < 0 or (s and l.c == 0):
                return True
            continue
        work.append((dict(l.t), l.c, s))
    while True:
        cnt = {}
        for co, c, s in work:
            for a, k in co.items():
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not cnt:
            return False
        # drop constraints with an atom bounded on one side only
        one = {a for a, p in cnt.items() if p[0] == 0 or p[1] == 0}
        if one:
            work = [w for w in work if not (one & set(w[0]))]
            if not work:
                return False
            continue
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], skey(x)))
        pos = [w for w in work if w[0].get(a, 0) > 0]
        neg = [w for w in work if w[0].get(a, 0) < 0]
        rest = [w for w in work if a not in w[0]]
        seen = {}
        for w in rest:
            _add(seen, w)
        for p in pos:
            for n in neg:
                kp, kn = Fraction(p[0][a]), -Fraction(n[0][a])
                co = {}
                for x, v in p[0].items():
                    co[x] = co.get(x, 0) + v * kn
                for x, v in n[0].items():
                    co[x] = co.get(x, 0) + v * kp
                co = {x: v for x, v in co.items() if v != 0}
                c = p[1] * kn + n[1] * kp
                s = p[2] or n[2]
                if not co:
                    if c < 0 or (s and c == 0):
                        return True
                    continue
                _add(seen, _norm(co, c, s))
        work = [(dict(k), c, s) for k, (c, s) in seen.items()]
        if len(work) > limit:
            return False


def _add(seen, w):
    co, c, s = _norm(*w)
    k = tuple(sorted(co.items(), key=lambda p: skey(p[0])))
    o = seen.get(k)
    if o is None or c < o[0] or (c == o[0] and s and not o[1]):
        seen[k] = (c, s)


def relevant(facts, goal_atoms):
    atoms = set(goal_atoms)
    left = list(facts)
    out = []
    ch = True
    while ch:
        ch = False
        nxt = []
        for f in left:
            fa = {a for a, k in f[0].t}
            if fa & atoms:
                out.append(f)
                atoms |= fa
                ch = True
            else:
                nxt.append(f)
        left = nxt
    return out, atoms


def implicit(atoms):
    """facts that hold for every atom by its kind"""
    out = []
    for a in atoms:
        if a[0] in ("dem", "D", "PL", "PD", "COST", "DEM"):
            out.append((atom(a), False))
        elif a[0] == "N":
            out.append((atom(a) - const(2 if CLOSED.get(a[1]) else 0), False))
        elif a[0] == "r" and a[1] in ("S_EPS", "C_EPS", "C", "L"):
            out.append((atom(a), True))
    return out


def entails(facts, goal, strict=False, extra=()):
    """facts |- goal>=0 (or >0)"""
    if not goal.t:
        return goal.c > 0 if strict else goal.c >= 0
    if (goal, False) in facts and not strict or (goal, True) in facts:
        return True
    if is_int(goal):
        neg = (-goal - const(0 if strict else 1), False)
    else:
        neg = (-goal, not strict)
    rel, atoms = relevant(list(facts) + list(extra), {a for a, k in goal.t})
    return infeasible(rel + implicit(atoms) + [neg])


def contradictory(facts, new):
    """is facts + new infeasible?"""
    atoms0 = set()
    for l, s in new:
        atoms0 |= {a for a, k in l.t}
        if not l.t and (l.c < 0 or s and l.c == 0):
            return True
    rel, atoms = relevant(facts, atoms0)
    return infeasible(rel + implicit(atoms) + list(new))
