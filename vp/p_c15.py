"""C15: the position automaton that puts the numbers of an explicit distance matrix into cells, decided layout by layout.

The reader's paths are explored symbolically; for each layout the start position, the effect of one number and the end test are
read off as linear forms and compared with the layout's definition by an induction over the positions (any size)."""
from .symx import Explorer, TooBig, L, add, mul, terms, const, simp, show

# unordered cells {f, s} in file order: f runs from its start to bound-1, then s grows by one and f restarts.  All in terms of
# s and n (a, b, c) = a + b*s + c*n ; start and end are (f, s); 'gap' = least n - s while numbers are due
SPEC = {
    "LOWER_ROW": dict(start=((0, 0), (1, 0)), bound=(0, 1, 0), again=(0, 0, 0), end=((0, 0), (0, 1)), gap=1),
    "UPPER_ROW": dict(start=((1, 0), (0, 0)), bound=(0, 0, 1), again=(1, 1, 0), end=((0, 1), (-1, 1)), gap=2),
    "FULL_MATRIX": dict(start=((0, 0), (0, 0)), bound=(0, 0, 1), again=(0, 0, 0), end=((0, 0), (0, 1)), gap=1),
    "LOWER_DIAG_ROW": dict(start=((0, 0), (0, 0)), bound=(1, 1, 0), again=(0, 0, 0), end=((0, 0), (0, 1)), gap=1),
    "UPPER_DIAG_ROW": dict(start=((0, 0), (0, 0)), bound=(0, 0, 1), again=(0, 1, 0), end=((0, 1), (0, 1)), gap=1),
}
for a, b in (("UPPER_COL", "LOWER_ROW"), ("LOWER_COL", "UPPER_ROW"), ("UPPER_DIAG_COL", "LOWER_DIAG_ROW"), ("LOWER_DIAG_COL", "UPPER_DIAG_ROW")):
    SPEC[a] = SPEC[b]
P = [("u", i) for i in range(6)]          # unknowns that are at least one


def lin(*pairs, c=0):
    r = ("c", c)
    for t, k in pairs:
        r = add(r, t, k)
    return r


def norm(t):
    """terms without the number of the loop they were met in"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "h":
            return ("h", t[1])
        if t and t[0] == "lin":
            r = ("c", t[1])
            for x, k in t[2]:
                r = add(r, norm(x), k)
            return r
        return tuple(norm(x) for x in t)
    return t


def sign(v):
    """-1, 0, 1, or None; unknowns are at least one"""
    tm, c = terms(v), const(v)
    if any(t not in P for t in tm) or not isinstance(c, (int, float)):
        return None
    if not tm:
        return (c > 0) - (c < 0)
    lo = c + sum(tm.values())
    if all(k > 0 for k in tm.values()) and lo > 0:
        return 1
    if all(k < 0 for k in tm.values()) and lo < 0:
        return -1
    return None


class Reader:
    def __init__(self, ex):
        self.ex = ex
        self.ok = False
        self.find()

    def find(self):
        """the loop over the numbers, the matrix, the two positions"""
        ex = self.ex
        self.steps = []
        cand = {}
        for (how, nid, ev, w), st, node in ex.every.values():
            if how != "iteration":
                continue
            for k, d, _ in ev:
                if k == "store" and d[0][0] == "sub" and d[2][0] == "it" and d[2][2] == nid:
                    c = self.cell(d[0])
                    if c is not None and all(self.position(x) for x in c[1:]):
                        cand.setdefault((nid, c[0]), set()).add(frozenset(c[1:]))
        cand = {k: v for k, v in cand.items() if any(len(x) == 2 for x in v)}
        if len(cand) != 1:
            return
        (self.loop, self.D), pairs = next(iter(cand.items()))
        pairs = {p for p in pairs if len(p) == 2}
        if len(pairs) != 1:
            return
        self.pos = tuple(sorted(next(iter(pairs)), key=repr))
        self.ok = True

    def position(self, t):
        return t[0] == "h" or t[0] == "sub" and t[1][0] == "h" and t[2][0] == "c"

    def cell(self, loc):
        b, i = loc[1], loc[2]
        if i[0] == "t" and len(i[1]) == 2 and b[0] == "h":
            return norm((b,) + i[1])
        if b[0] == "sub" and b[1][0] == "h":
            return norm((b[1], b[2], i))
        return None

    def now(self, p, st):
        """value of a position in a state, as a normalised term"""
        env = {k.split("$")[0]: v for k, v in st.env.items() if "$" not in k}
        if p[0] == "h":
            return norm(env.get(p[1], p))
        b = env.get(p[1][1])
        if b is None:
            return p
        return norm(self.ex.index(b, p[2], st))

    def var(self, st, t):
        return {k: v for k, v in st.env.items() if "$" not in k}.get(t[1])


def layout_of(facts, fmt, name):
    """is the layout consistent with what the path knows?"""
    for k, o in facts:
        if k[0] == "eq":
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if norm(y) == fmt and x[0] == "c" and (x[1] == name) != o:
                    return False
    return True


def knows(facts, value):
    """the term a path has compared with the constant, with the outcome"""
    for k, o in facts:
        if k[0] == "eq" and ("c", value) in k[1:]:
            yield norm(k[1] if k[2] == ("c", value) else k[2]), o


class Place:
    """a position (or class of positions) of the automaton: what f, s, n are in terms of the unknowns"""
    def __init__(self, rd, size, f, s, fv, sv, nv):
        self.rd, self.size = rd, size
        self.m = {f: fv, s: sv}
        self.nv = nv

    def value(self, t):
        t = L(norm(t))
        r = ("c", t[1])
        for x, k in t[2]:
            if x in self.m:
                r = add(r, self.m[x], k)
            elif self.is_n(x):
                r = add(r, self.nv, k)
            elif self.size is not None and x == self.size[0]:
                r = add(r, add(self.nv, ("c", self.size[1]), -1), k)
            else:
                r = add(r, x, k)
        return r

    def is_n(self, x):
        D = self.rd.D
        return x in (("call", ("g", "len"), (D,)), ("sub", ("attr", D, "shape"), ("c", 0)), ("sub", ("attr", D, "shape"), ("c", 1)))

    def about(self, k):
        """does a fact speak of the positions?"""
        if k[0] == "eq":
            return any(x in self.m for y in k[1:] for x in terms(norm(y)))
        return k[0] == "gt" and any(x in self.m for x in terms(norm(k[1])))

    def holds(self, k):
        if k[0] == "eq":
            s = sign(self.value(add(k[1], k[2], -1)))
            return None if s is None else s == 0
        if k[0] == "gt":
            s = sign(self.value(k[1]))
            return None if s is None else s > 0
        return None

    def feasible(self, facts):
        """False: impossible here; True: every test of the positions is settled this way; None: open"""
        r = True
        for k, o in facts:
            if not self.about(k):
                continue
            h = self.holds(k)
            if h is None:
                r = None
            elif h != o:
                return False
        return r


def form(abc, s, n):
    return add(add(("c", abc[0]), s, abc[1]), n, abc[2])


def run(repo, rep):
    rep.rule("reader", "the reader of explicit matrices, its matrix and its two positions were found", 1)
    rep.rule("start", "a section starts at the first cell of the layout in a fresh matrix of full size", 5)
    rep.rule("store", "each number is stored in the cell of the current position and its mirror cell", 5)
    rep.rule("step", "after each number the position moves to the layout's next cell, within a row and at its end, for any size", 5)
    rep.rule("complete", "a section is accepted only after the last cell, and a complete one is not rejected", 5)
    rep.rule("layouts", "a layout that is accepted is one whose cells are enumerated", 1)
    rep.rule("whole section", "positions carry on from line to line, and the matrix read is not computed anew from coordinates", 1)
    f = repo.func("verypy.cvrp_io", "read_TSPLIB_CVRP")
    ex = Explorer(repo, f, remember=True, log_kinds=("take", "release", "store", "grow", "call", "loop"))
    try:
        ex.run()
    except TooBig as e:
        for r in rep.rules:
            rep.skip(r, "too many paths: %s" % e)
            for _ in range(5):
                rep.skip(r, "not explored")
        return {"scope": f.where}
    rd = Reader(ex)
    if not rd.ok:
        for r in rep.rules:
            for i in range(5):
                rep.skip(r, "no loop that stores numbers at two positions was recognised (%d)" % i)
        return {"scope": f.where}
    rep.ok("reader", "%s: numbers go to %s at %s, %s" % (f.where, show(rd.D), show(rd.pos[0]), show(rd.pos[1])))
    segs = list(ex.every.values())
    steps = [(ev, st) for (how, nid, ev, w), st, node in segs if how == "iteration" and nid == rd.loop]
    # the term that holds the layout, the type
    fmts = [x for (how, nid, ev, w), st, node in segs for n in SPEC for x, _ in knows(st.facts.items(), n)]
    if not fmts:
        for r in ("start", "store", "step", "complete"):
            for i in range(5):
                rep.skip(r, "layout test not recognised (%d)" % i)
        rep.skip("layouts", "layout test not recognised")
        rep.skip("whole section", "layout test not recognised")
        return {"scope": f.where}
    fmt = max(set(fmts), key=fmts.count)
    explicit = {x for (how, nid, ev, w), st, node in segs if how in ("end", "raise") for x, _ in knows(st.facts.items(), "EXPLICIT")}

    def is_explicit(st):
        return any(o for x, o in knows(st.facts.items(), "EXPLICIT") if x in explicit)
    ends = [(how, st) for (how, nid, ev, w), st, node in segs if how in ("end", "raise") and is_explicit(st)]
    # fresh matrix and start positions
    size, starts = None, []
    for (how, nid, ev, w), st, node in segs:
        if how != "iteration" or nid == rd.loop:
            continue
        v = rd.var(st, rd.D)
        if v is not None and v != ("h", rd.D[1], nid) and v[0] == "mcall" and v[2] in ("zeros", "empty", "ones", "full") and v[3]:
            starts.append(st)
            shp = v[3][0]
            if shp[0] == "t" and len(shp[1]) == 2:
                a, b = (norm(x) for x in shp[1])
                if a != b:
                    rep.violate("start", "read_TSPLIB_CVRP:size", "the matrix is created with unequal sides %s and %s" % (show(a), show(b)))
                tm = terms(a)
                if len(tm) == 1 and list(tm.values()) == [1]:
                    size = (next(iter(tm)), const(a))
    # the dimension field
    if size is not None:
        for (how, nid, ev, w), st, node in segs:
            for k, d, _ in ev:
                if how == "iteration" and k == "store" and d[0] == ("var", size[0][1] if size[0][0] == "h" else "") and \
                        d[2][0] != "c" and any("DIMENSION" == x[1] for x in consts_in(st.facts)):
                    off = const(L(d[2])) + size[1] if isinstance(const(L(d[2])), (int, float)) else None
                    if off:
                        rep.violate("start", "read_TSPLIB_CVRP:dimension", "for DIMENSION n the matrix has n%+d rows" % off)
                    elif off == 0:
                        rep.ok("start", "DIMENSION n gives a matrix of n rows")
    accepted = []
    for name in SPEC:
        sp = SPEC[name]
        acc = [st for how, st in ends if how == "end" and layout_of(st.facts.items(), fmt, name)]
        if not acc:
            continue
        accepted.append(name)
        both = [judge(rd, name, sp, f_, s_, fmt, size, steps, starts, ends, acc) for f_, s_ in (rd.pos, rd.pos[::-1])]
        # which of the two runs within a row: the assignment that explains more
        best = max(both, key=lambda out: (sum(x[:2] == ("ok", "step") for x in out), sum(x[0] == "ok" for x in out)))
        for kind, rule, text in best:
            what = "%s: %s" % (name, text)
            if kind == "bad":
                rep.violate(rule, "read_TSPLIB_CVRP:%s" % name, what)
            elif kind == "ok":
                rep.ok(rule, what)
            else:
                rep.skip(rule, what)
    # a layout nobody enumerates
    none = [st for how, st in ends if how == "end" and layout_of(st.facts.items(), fmt, None) and
            not any(o for k, o in st.facts.items() if k[0] == "in" and norm(k[1]) == fmt)]
    pl = Place(rd, size, rd.pos[0], rd.pos[1], P[0], P[1], P[2])
    if none:
        st = none[0]
        if any(k[0] == "in" and norm(k[1]) == fmt for k in st.facts):
            rep.skip("layouts", "membership in an unknown collection")
        else:
            rep.violate("layouts", "read_TSPLIB_CVRP:other layouts", "a file whose layout is none of %s is accepted without enumerating its cells" % ", ".join(accepted))
    else:
        rep.ok("layouts", "only %s are accepted" % ", ".join(accepted))
    # lines
    done = False
    for (how, nid, ev, w), st, node in segs:
        if how != "iteration" or nid == rd.loop or not any(k == "loop" and d[0] == rd.loop for k, d, _ in ev):
            continue
        done = True
        for p in rd.pos:
            v = rd.now(p, st)
            if v != p:
                rep.violate("whole section", "read_TSPLIB_CVRP:positions", "reading a line of numbers leaves %s at %s however many numbers were read" % (show(p), show(v)))
        for i, (k, d, _) in enumerate(ev):
            if k == "store" and (norm(d[0]) in rd.pos or d[0][0] == "var" and any(p == ("h", d[0][1]) or p[0] == "sub" and p[1] == ("h", d[0][1]) for p in rd.pos)):
                rep.violate("whole section", "read_TSPLIB_CVRP:positions", "%s is set anew on every line of the section" % show(norm(d[0])))
        d = rd.var(st, rd.D)
        if d is not None and norm(d) != rd.D:
            rep.violate("whole section", "read_TSPLIB_CVRP:matrix", "the matrix is replaced on every line of the section")
    if done:
        rep.ok("whole section", "lines of numbers change positions only through the number loop")
    flags = set()
    for (how, nid, ev, w), st, node in segs:
        v = rd.var(st, rd.D)
        if how == "end" and v is not None and not any(x == rd.D for x in walk(norm(v))):
            flags |= {norm(k[1]) for k, o in st.facts.items() if k[0] == "truth" and k[1][0] == "h" and o}
    for fl in flags:
        for (how, nid, ev, w), st, node in segs:
            if how == "iteration" and any(k in ("store", "take") and stores_true(k, d, fl) for k, d, _ in ev):
                if any(not o for x, o in knows(st.facts.items(), "EXPLICIT")):
                    rep.ok("whole section", "%s is raised only for computed distances" % show(fl))
                else:
                    rep.violate("whole section", "read_TSPLIB_CVRP:%s" % show(fl), "coordinates beside an explicit matrix make the reader replace "
                                "the matrix by computed distances (or reject the file)")
    rep.assume("EDGE_WEIGHT_TYPE, EDGE_WEIGHT_FORMAT and DIMENSION precede the section, as TSPLIB prescribes")
    rep.assume("indexing a numpy matrix at its size raises, so surplus numbers are rejected")
    return {"scope": f.where, "layouts": accepted}


def stores_true(k, d, fl):
    return k == "store" and d[0] == ("var", fl[1]) and d[2] == ("c", True)


def consts_in(facts):
    for k in facts:
        if k[0] == "in":
            for x in k[1:]:
                if isinstance(x, tuple) and x[0] == "c" and isinstance(x[1], str):
                    yield x
        elif k[0] == "eq":
            for x in k[1:]:
                if x[0] == "c":
                    yield x


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk(x)


def judge(rd, name, sp, f, s, fmt, size, steps, starts, ends, acc):
    out = []
    # ---- start
    got = set()
    for st in starts:
        if layout_of(st.facts.items(), fmt, name):
            got.add((rd.now(f, st), rd.now(s, st)))
    want = tuple(("c", x[0]) for x in sp["start"])
    for a, b in sorted(got, key=repr):
        if a[0] == b[0] == "c":
            if (a, b) == want:
                out.append(("ok", "start", "starts at (%s, %s)" % (show(a), show(b))))
            else:
                out.append(("bad", "start", "the first number goes to cell {%s, %s}, the layout's first cell is {%s, %s}" % (show(a), show(b), show(want[0]), show(want[1]))))
        else:
            out.append(("skip", "start", "start position not constant"))
    if not got:
        out.append(("skip", "start", "start of the section not recognised"))
    # ---- one number
    s0 = sp["start"][1][0]
    sv = add(P[2], ("c", s0 - 1))
    nv = add(add(sv, P[1]), ("c", sp["gap"] - 1))
    B = form(sp["bound"], sv, nv)
    cases = (("at the end of a row", add(B, ("c", -1)), form(sp["again"], sv, nv), add(sv, ("c", 1))),
             ("within a row", add(add(B, ("c", -1)), P[0], -1), None, sv))
    # UPPER_*: the next row restarts relative to the old s
    for label, fv, nf, ns in cases:
        if nf is None:
            nf = add(fv, ("c", 1))
        elif sp["again"][1]:
            nf = add(form(sp["again"], sv, nv), ("c", 1))
        pl = Place(rd, size, f, s, fv, sv, nv)
        hit = 0
        for ev, st in steps:
            facts = st.facts.items()
            if not layout_of(facts, fmt, name):
                continue
            fe = pl.feasible(facts)
            if fe is False:
                continue
            hit += 1
            a, b = pl.value(rd.now(f, st)), pl.value(rd.now(s, st))
            da, db = sign(add(a, nf, -1)), sign(add(b, ns, -1))
            if da == db == 0:
                out.append(("ok", "step", "%s: moves on to the next cell" % label))
            elif fe is None or (da is None or db is None) and not (da or db):
                out.append(("skip", "step", "%s: not decided" % label))
            else:
                out.append(("bad", "step", "%s the position after a number is %s = %s, %s = %s, which is not the layout's next cell" % (
                    label, show(f), show(rd.now(f, st)), show(s), show(rd.now(s, st)))))
            cells = set()
            for k, d, _ in ev:
                if k == "store" and d[0][0] == "sub":
                    c = rd.cell(d[0])
                    if c is not None and c[0] == rd.D and d[2][0] == "it" and d[2][2] == rd.loop:
                        cells.add(c[1:])
            need = {(f, s), (s, f)}
            if need <= cells or name == "FULL_MATRIX" and (s, f) in cells:
                out.append(("ok", "store", "%s: both mirror cells get the number" % label))
            else:
                out.append(("bad", "store", "%s the number is stored in %s only" % (label, sorted(show(c[0]) + "," + show(c[1]) for c in cells) or "no cell")))
        if not hit:
            out.append(("skip", "step", "%s: no path" % label))
    # ---- the end test
    nv2 = P[5]
    ef, es = (add(("c", x[0]), nv2, x[1]) for x in sp["end"])
    full = Place(rd, size, f, s, ef, es, nv2)
    sv3 = add(es, P[3], -1)
    part = Place(rd, size, f, s, add(form(sp["bound"], sv3, nv2), P[4], -1), sv3, nv2)
    for st in acc:
        if part.feasible(st.facts.items()) is False:
            out.append(("ok", "complete", "accepted at the end only"))
        else:
            out.append(("bad", "complete", "a section with too few numbers is accepted"))
    for how, st in ends:
        if how != "raise" or not layout_of(st.facts.items(), fmt, name):
            continue
        facts = [(k, o) for k, o in st.facts.items()]
        other = [k for k, o in facts if not full.about(k) and k[0] in ("truth", "gt", "in", "cmp")]
        if not any(full.about(k) for k, o in facts):
            continue
        fe = full.feasible(facts)
        if fe is True and not other:
            out.append(("bad", "complete", "a section with all its numbers is rejected"))
        elif fe is None:
            out.append(("skip", "complete", "rejection not decided"))
    return out
