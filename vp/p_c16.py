"""C16: problem and solution files: what is accepted can be computed, what is written can be read, nodes are reordered alike."""
import ast
from .core import Func
from . import tsplib
from .symx import Explorer, TooBig, add, terms, const, show

MUT = ("append", "extend", "insert", "pop", "popleft", "appendleft", "remove", "clear", "sort", "reverse", "add", "update", "discard")


class Text(Explorer):
    """keeps the conversion of text to numbers; lists that are filled in place change"""
    def ev_Call(self, e, st):
        nm = self.fname(e)
        if isinstance(e.func, ast.Name) and nm in ("int", "float") and len(e.args) == 1:
            v = self.ev(e.args[0], st)
            return v if v[0] in ("c", "lin", "num") else ("num", v)
        return super().ev_Call(e, st)

    def loop_names(self, h):
        if h.id not in self._loopinfo:
            names, attrs, subs = super().loop_names(h)
            lo, hi = h.info
            for n in self.cfg.nodes:
                if lo <= n.id < hi and n.ast is not None and n.kind not in ("loop", "dispatch", "handler", "iter"):
                    for x in ast.walk(n.ast):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and isinstance(x.func.value, ast.Name):
                            names.add(x.func.value.id)
                        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                            while isinstance(x, ast.Subscript):
                                x = x.value
                            if isinstance(x, ast.Name):
                                names.add(x.id)
        return self._loopinfo[h.id]

    def effect_call(self, c, st, node):
        super().effect_call(c, st, node)
        if isinstance(c.func, ast.Attribute) and c.func.attr in MUT and isinstance(c.func.value, ast.Name):
            v = st.env.get(c.func.value.id)
            if v is not None and v[0] in ("list", "cat", "rep"):
                a = tuple(self.ev(x, st) for x in c.args)
                st.env[c.func.value.id] = ("list", v[1] + a) if v[0] == "list" and c.func.attr == "append" else ("mut", v, c.func.attr, a)

    def ev_Slice(self, e, st):
        g = lambda x: self.ev(x, st) if x is not None else ("c", None)
        return ("slc", g(e.lower), g(e.upper), g(e.step))


KINDS = ("take", "release", "store", "grow", "call", "loop")
# distance types: (metric, rounding); None = a function of the module


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk(x)


def explore(repo, name, **kw):
    f = repo.func("verypy.cvrp_io", name)
    ex = Text(repo, f, remember=True, log_kinds=KINDS, **kw)
    ex.run()
    return f, ex, [(how, nid, ev, st) for (how, nid, ev, w), st, node in ex.every.values()]


def eqs(st, value=None, outcome=None):
    for k, o in st.facts.items():
        if k[0] == "eq" and (outcome is None or o == outcome):
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if x[0] == "c" and (value is None or x[1] == value):
                    yield x[1], y, o


def allows(st, term, value):
    """may the term have the constant value on this path?"""
    return all((c == value) == o for c, y, o in eqs(st) if y == term)


def stores(ev):
    for k, d, ln in ev:
        if k == "store":
            yield d
        elif k in ("take", "release") and d[0] == "flag":
            yield (("sub", d[1], d[2]), None, ("c", k == "take"))


# ---- permutation of the nodes -------------------------------------------------
def parts(v):
    """a list as the sequence of its pieces, or None"""
    if v[0] == "cat":
        a, b = parts(v[1]), parts(v[2])
        return None if a is None or b is None else a + b
    if v[0] in ("list", "t"):
        return [("one", x) for x in v[1]]
    if v[0] == "coll" and v[1] in ("list", "tuple") and len(v[2]) == 1:
        return parts(v[2][0])
    if v[0] == "call" and v[1] == ("g", "range"):
        a = v[2]
        return [("range", ("c", 0), a[0])] if len(a) == 1 else [("range", a[0], a[1])] if len(a) == 2 else None
    if v[0] == "slice" and v[4] == ("c", None):
        return [("slice", v[1], ("c", 0) if v[2] == ("c", None) else v[2], v[3])]
    return None


def tiling(p):
    """pieces [(from, to)] -> the pieces as a key if they make up 0..end exactly, else 'odd'; 'end' is None"""
    rest, cur = list(p), ("c", 0)
    while True:
        for x in rest:
            if x[0] == cur:
                rest.remove(x)
                cur = x[1]
                break
        else:
            return "odd"
        if cur is None:
            return tuple(p) if not rest else "odd"


def order(v):
    """the order of positions that a list of positions describes: its pieces, 'odd', or None if unknown"""
    p = parts(v)
    if p is None or not p or any(x[0] == "slice" for x in p):
        return None
    out = [(x[1], add(x[1], ("c", 1))) if x[0] == "one" else x[1:] for x in p]
    ends = {x[1] for x in out if x[1][0] == "call" or x[1][0] == "lin" and x[1][1] == 1 and len(x[1][2]) == 1 and x[1][2][0][0][0] == "h" or x[1][0] == "h"}
    return tiling([(x, None if y in ends else y) for x, y in out])


def permuted(v, ex):
    """(the sequence v is made of, the order of its positions), 'plain' or None if unknown"""
    if v[0] == "h":
        return v, "plain"
    if v[0] == "comp":
        try:
            e = ast.parse(v[1], mode="eval").body
        except SyntaxError:
            return None
        env = dict(v[2])
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.elt, ast.Subscript) and \
                isinstance(e.elt.value, ast.Name) and isinstance(e.elt.slice, ast.Name) and isinstance(e.generators[0].target, ast.Name) and \
                e.elt.slice.id == e.generators[0].target.id and isinstance(e.generators[0].iter, ast.Name):
            b, p = env.get(e.elt.value.id), env.get(e.generators[0].iter.id)
            if b is not None and p is not None and b[0] == "h":
                f = order(p)
                return (b, f) if f else None
        return None
    p = parts(v)
    if not p:
        return None
    bases = {x[1][1] if x[0] == "one" and x[1][0] == "sub" else x[1] if x[0] == "slice" else None for x in p}
    if len(bases) != 1 or None in bases:
        return None
    b = next(iter(bases))
    return b, tiling([(x[1][2], add(x[1][2], ("c", 1))) if x[0] == "one" else
                      (x[2], None if x[3] == ("c", None) or x[3][0] == "call" else x[3]) for x in p])


def depot(repo, rep):
    f, ex, segs = explore(repo, "read_TSPLIB_CVRP", inline=lambda t, c, d: ex_inline(t, c, d))
    name = f.name
    # loops that permute rows or columns of a matrix: loop id -> (axis, matrix, perm, range)
    loops = {}
    for how, nid, ev, st in segs:
        if how != "iteration":
            continue
        for d in stores(ev):
            if d[0][0] == "sub" and d[0][2][0] == "t" and len(d[0][2][1]) == 2:
                ix = d[0][2][1]
                ax = [i for i, x in enumerate(ix) if x[0] == "slc"]
                if len(ax) == 1 and d[2][0] == "sub" and d[2][2][0] == "t" and len(d[2][2][1]) == 2:
                    src = d[2][2][1]
                    a = ax[0]
                    it = ix[1 - a]
                    full = ix[a][1:3] == (("c", None), ("c", None))
                    if it[0] == "it" and it[2] == nid and src[1 - a] == it and d[0][1] == d[2][1]:
                        loops[nid] = (a, d[0][1], src[a], it[1], full)
    seen = 0
    facts_term = how_ = None
    records = []
    for how, nid, ev, st in segs:
        if how != "end":
            continue
        rets = [d for k, d, _ in ev if k == "return"]
        if len(rets) != 1 or rets[0][0] != "obj":
            continue
        flds = dict(rets[0][3])
        ln = [d[0] for k, d, _ in ev if k == "loop"]
        rec = {}
        for fld in ("coordinate_points", "display_coordinate_points", "customer_demands"):
            v = flds.get(fld)
            if v is None or v == ("c", None):
                continue
            if v[0] == "h" and any(c is None and y == v and o for c, y, o in eqs(st)) or st.facts.get(("gt", ("call", ("g", "len"), (v,)))) is False or \
                    st.facts.get(("truth", v)) is False:
                continue                                  # absent or empty
            rec[fld] = permuted(v, ex)
        D = flds.get("distance_matrix")
        mine = [loops[x] for x in ln if x in loops]
        rec["distance_matrix"] = matrix(rep, name, D, mine)
        records.append((st, rec))
        for w in rec.values():
            if w is not None and w[1] not in ("plain", "odd"):
                seen += 1
                how_ = how_ or w[1]
                facts_term = how_[0][0]
    if not seen:
        rep.skip("depot first", "no reordering of the nodes recognised")
        return
    # the entry of the depot section
    T = add(facts_term, ("c", 1))
    offs = set()
    for how, nid, ev, st in segs:
        for k, d, _ in ev:
            if k == "grow" and d[0] == "append" and any(x == d[1] for x in walk(facts_term)) and len(d[2]) == 1:
                offs.add(const(d[2][0]) if isinstance(const(d[2][0]), (int, float)) else None)
    off = next(iter(offs)) if len(offs) == 1 else 0
    base = add(facts_term, ("c", const(facts_term)), -1)
    shift = const(facts_term) + (off or 0)
    if shift != -1:
        rep.violate("depot first", "%s:position" % name, "the node moved to the front is not the one the depot section names: position = its number %+d" % shift)
    gt = lambda st: any(k[0] == "gt" and o and add(k[1], base, -1)[0] == "c" for k, o in st.facts.items())
    ng = lambda st: any(k[0] == "gt" and not o and add(k[1], base, -1)[0] == "c" for k, o in st.facts.items())
    for st, rec in records:
        moved = {k: w for k, w in rec.items() if w is not None and w[1] != "plain"}
        if moved or gt(st):
            for k, w in sorted(rec.items()):
                if w is None:
                    rep.skip("depot first", "%s: order of %s not recognised" % (name, k))
                elif w[1] == "odd":
                    rep.violate("depot first", "%s:%s" % (name, k), "%s is reordered by pieces that do not make up the whole sequence with the depot in front" % k)
                elif w[1] == "plain":
                    rep.violate("depot first", "%s:%s" % (name, k), "when the depot is not the first node, %s keeps the file's order while %s is reordered" % (
                        k, ", ".join(sorted(x for x in moved)) or "nothing"))
                elif w[1] != how_:
                    rep.violate("depot first", "%s:%s" % (name, k), "%s is reordered in another way than the rest" % k)
                else:
                    rep.ok("depot first", "%s reordered with the depot in front" % k)
        elif ng(st):
            for k, o in st.facts.items():
                if k[0] == "gt" and not o and add(k[1], base, -1)[0] == "c":
                    top = -add(k[1], base, -1)[1] - (off or 0)         # the depot's number is at most this
                    if top > 1:
                        rep.violate("depot first", "%s:condition" % name, "a depot with number %d is left where it is" % top)
            rep.ok("depot first", "a depot that comes first leaves the order as it is")


def matrix(rep, name, D, mine):
    if D is None:
        return None
    if D[0] == "sub" and D[2][0] == "mcall" and D[2][2] == "ix_" and len(D[2][3]) == 2:
        a, b = (order(x) for x in D[2][3])
        return None if not a or not b else (D[1], a if a == b else "odd")
    if D[0] == "sub" and D[2][0] == "t" and D[1][0] == "sub":
        a = order(D[1][2])
        b = [order(x) for x in D[2][1] if x[0] != "slc"]
        return None if not a or None in b else (D[1][1], a if b == [a] else "odd")
    if not mine:
        return (D, "plain") if D[0] in ("h", "call") else None
    axes = {a for a, _, _, _, _ in mine}
    pos = [order(p) for _, _, p, _, _ in mine]
    if None in pos:
        return None
    if any(p == "odd" for p in pos) or len(set(pos)) != 1 or axes != {0, 1}:
        return D, "odd"
    for a, m, p, rng, full in mine:
        n = ("call", ("g", "len"), (m,))
        r = parts(rng)
        if r is None or len(r) != 1 or r[0][0] != "range":
            return None
        lo, hi = r[0][1:]
        whole = hi == n or hi == ("sub", ("attr", m, "shape"), ("c", 0)) or hi == ("sub", ("attr", m, "shape"), ("c", 1)) or \
            hi[0] == "lin" and hi[1] == 1 and len(hi[2]) == 1 and hi[2][0][0][0] == "h"
        if not whole and lo == ("c", 0) and full and hi[0] == "call" and hi[1] == ("g", "len"):
            if hi[2][0][0] in ("h", "p") and hi[2][0][1] in ("D", "points", "demands") or hi[2][0][0] in ("call", "mcall") or hi[2][0] == D:
                continue                                    # the number of nodes
            return None
        if lo != ("c", 0) or not full or not whole:
            if terms(hi) and lo[0] == "c":
                rep.violate("depot first", "%s:every %s" % (name, "column" if a == 0 else "row"),
                            "the matrix is reordered in %s %s to %s only" % ("columns" if a == 0 else "rows", show(lo), show(add(hi, ("c", 1), -1))))
            else:
                return None
    return D, pos[0]


def ex_inline(t, call, depth):
    return t.name not in ("calculate_D",) and t.module.dotted.endswith("cvrp_io") and t.cls is None and \
        sum(1 for x in ast.walk(t.node) if isinstance(x, ast.stmt)) <= 40


# ---- sections with one node a line -------------------------------------------
def sections(repo, rep):
    f, ex, segs = explore(repo, "read_TSPLIB_CVRP", inline=lambda t, c, d: len(t.params) > 1 and ex_inline(t, c, d))
    names = {}
    rets = [d for how, nid, ev, st in segs for k, d, _ in ev if k == "return" and d[0] == "obj"]
    for r in rets:
        for fld, v in r[3]:
            if fld in ("coordinate_points", "display_coordinate_points", "customer_demands") and v[0] == "h":
                names.setdefault(v[1], set()).add(fld)
    found, turned = {}, []
    for how, nid, ev, st in segs:
        if how != "iteration":
            continue
        cells = {}
        for loc, old, v in stores(ev):
            if loc[0] != "sub":
                continue
            b, ix = loc[1], loc[2]
            if b[0] == "sub" and b[1][0] == "h" and b[1][1] in names and b[2][0] == "h":
                cells.setdefault((b[1][1], b[2]), {})[ix] = v
            elif b[0] == "h" and b[1] in names and ix[0] == "h":
                if v[0] in ("list", "t"):
                    for i, x in enumerate(v[1]):
                        cells.setdefault((b[1], ix), {})[("c", i)] = x
                else:
                    cells.setdefault((b[1], ix), {})[None] = v
        for (nm, pos), got in cells.items():
            what = "%s: a line of %s" % (f.name, nm)
            fields = {}
            wraps = set()
            for ix, v in got.items():
                w = []
                while v[0] == "call" and len(v[2]) == 1 and v[1][0] == "g" and v[1][1] not in ("len",):
                    w.append(v[1][1])
                    v = v[2][0]
                wraps.add(tuple(w))
                if v[0] == "num" and v[1][0] in ("sub", "item"):
                    k = v[1][2]
                    fields[ix] = k[1] if isinstance(k, tuple) and k[0] == "c" else k
                else:
                    fields[ix] = None
            want = {("c", 0): 1, ("c", 1): 2} if None not in got else {None: 1}
            if any(x is None for x in fields.values()):
                rep.skip("node lines", what + ": value not recognised")
            elif fields != want:
                rep.violate("node lines", "%s:%s" % (f.name, nm), "%s stores fields %s, not %s, of a line" % (what, sorted(fields.values()), sorted(want.values())))
            else:
                rep.ok("node lines", what + " stores its fields in order")
            v = {k.split("$")[0]: x for k, x in st.env.items() if "$" not in k}.get(pos[1])
            if v is not None:
                if v == add(pos, ("c", 1)):
                    rep.ok("node lines", what + " moves on by one node")
                elif v == pos or terms(add(v, pos, -1)) == {}:
                    rep.violate("node lines", "%s:%s position" % (f.name, nm), "%s moves on by %s nodes" % (what, show(add(v, pos, -1))))
            # the section's start
            found.setdefault(nm, pos)
            if None not in got and len(wraps) == 1:
                if names[nm] & {"coordinate_points"} and not any(x is None for x in fields.values()):
                    turned.append((nm, wraps, st))
            elif None not in got and len(wraps) > 1:
                rep.violate("node lines", "%s:%s degrees" % (f.name, nm), "the two coordinates of a node are converted differently")
    tv = type_term(segs)
    sections.turned = (turned, tv)
    if any(w != {()} for nm, w, st in turned) and tv is not None:
        for nm, w, st in turned:
            if w == {()} and allows(st, tv, "GEO"):
                rep.violate("node lines", "%s:%s degrees" % (f.name, nm), "geographical coordinates are not converted to radians")
            elif w != {()} and not any(c == "GEO" and y == tv and o for c, y, o in eqs(st)):
                rep.violate("node lines", "%s:%s degrees" % (f.name, nm), "plain coordinates are converted like geographical ones")
            else:
                rep.ok("node lines", "%s: coordinates are converted exactly where they are geographical" % nm)
    for nm, pos in found.items():
        for how, nid, ev, st in segs:
            if how != "iteration":
                continue
            if any(d[0] == ("var", nm) and d[2][0] in ("list", "rep", "comp", "op") for d in stores(ev)):
                v = {k: x for k, x in st.env.items()}.get(pos[1])
                if v == ("c", 0):
                    rep.ok("node lines", "section of %s starts at node 0" % nm)
                elif v is not None and (v[0] == "c" or v == ("h", pos[1], nid)):
                    rep.violate("node lines", "%s:%s start" % (f.name, nm), "the section of %s starts at node %s" % (nm, show(v)))


# ---- distance types -------------------------------------------------------------
def type_term(segs):
    """how the reader uses the type: the term compared with EXPLICIT at the end"""
    tv = {y for how, nid, ev, st in segs if how in ("end", "raise") for c, y, o in eqs(st, "EXPLICIT") if y[0] == "h"}
    return next(iter(tv)) if len(tv) == 1 else None


def types(repo, rep):
    f, ex, segs = explore(repo, "read_TSPLIB_CVRP", inline=lambda t, c, d: ex_inline(t, c, d))
    tv = type_term(segs)
    if tv is None:
        rep.skip("types", "the variable with the distance type was not recognised")
        return
    accepted, open_ = set(), False
    for how, nid, ev, st in segs:
        if how != "iteration":
            continue
        for loc, old, v in stores(ev):
            if loc == ("var", tv[1]):
                yes = [c for c, y, o in eqs(st) if y == v and o]
                if yes:
                    accepted |= set(yes)
                elif any(k[0] == "in" and k[1] == v for k in st.facts):
                    rep.skip("types", "membership in an unknown collection")
                    return
                else:
                    open_ = True
    if open_:
        rep.violate("types", "%s:unknown type" % f.name, "a file with an unknown EDGE_WEIGHT_TYPE is accepted")
    # the matrix computed from coordinates
    calls = set()
    for how, nid, ev, st in segs:
        for loc, old, v in stores(ev):
            for x in walk(v):
                if isinstance(x, tuple) and len(x) == 3 and x[0] == "call" and x[1] == ("g", "calculate_D"):
                    calls.add(x)
    if not calls:
        rep.skip("types", "no call of calculate_D")
        return
    g = repo.func("verypy.cvrp_io", "calculate_D")
    for c in calls:
        pos = [a for a in c[2] if not isinstance(a[0], str) or len(a) != 2 or a[0] not in g.params]
        kw = {a[0]: a[1] for a in c[2] if len(a) == 2 and a[0] in g.params}
        third = pos[2] if len(pos) > 2 else kw.get(g.params[2])
        if third is None:
            rep.violate("types", "%s:calculate_D" % f.name, "distances are computed without the file's distance type")
        elif third == tv:
            rep.ok("types", "the file's distance type reaches calculate_D")
        elif third[0] == "c":
            rep.violate("types", "%s:calculate_D" % f.name, "distances are computed as %s whatever the file's distance type" % third[1])
        else:
            rep.skip("types", "type given to calculate_D not recognised")
    for T in sorted(accepted - {"EXPLICIT"}):
        for opts in (False, True):
            verdict, text = tsplib.judge(repo, g, T, opts)
            if verdict == "rejected":
                rep.violate("types", "%s:%s" % (f.name, T), "distance type %s is accepted by the reader, and calculate_D rejects it" % T)
                continue
            if not opts:
                rep.ok("types", "%s can be computed" % T)
            if verdict == "unknown":
                rep.skip("metrics", text)
            elif verdict == "ok":
                rep.ok("metrics", text + (" (between two sets)" if opts else ""))
            else:
                rep.violate("metrics", "calculate_D:%s%s" % (T, "" if verdict == "metric" else " " + verdict), text)


# ---- writing problem files ---------------------------------------------------------
SHAPES = {"UPPER_ROW": (1, None), "UPPER_DIAG_ROW": (0, None), "LOWER_ROW": (None, 0), "LOWER_DIAG_ROW": (None, 1), "FULL_MATRIX": (None, None)}


def template(v):
    """text written, with %s for what is not constant, and the values"""
    if v[0] == "c":
        return str(v[1]), ()
    if v[0] == "op" and v[1] == "Mod" and v[2][0] == "c" and isinstance(v[2][1], str):
        return v[2][1], v[3][1] if v[3][0] == "t" else (v[3],)
    if v[0] == "op" and v[1] == "+":
        a, b = template(v[2]), template(v[3])
        return a[0] + b[0], a[1] + b[1]
    if v[0] == "mcall" and v[2] == "format" and v[1][0] == "c":
        import re
        return re.sub(r"\{[^}]*\}", "%s", v[1][1]), v[3]
    return "%s", (v,)


def reader_words(repo, rep):
    """the words that the reader looks for in header fields and section lines, the layouts and types it accepts"""
    f, ex, segs = explore(repo, "read_TSPLIB_CVRP", inline=lambda t, c, d: ex_inline(t, c, d))
    words, types, layouts = set(), set(), set()
    for how, nid, ev, st in segs:
        for k in st.facts:
            if k[0] == "in" and k[1][0] == "c" and isinstance(k[1][1], str):
                words.add(k[1][1])
            elif k[0] == "eq":
                for x in k[1:]:
                    if x[0] == "c" and isinstance(x[1], str):
                        words.add(x[1])
                        if how == "end" and st.facts[k]:
                            layouts.add(x[1])
                        if how == "iteration" and st.facts[k]:
                            types.add(x[1])
    g, ex, segs = explore(repo, "read_TSBLIB_additional_constraints")
    for how, nid, ev, st in segs:
        for k in st.facts:
            if k[0] == "in" and k[1][0] == "c" and isinstance(k[1][1], str):
                words.add(k[1][1])
    return words, types, layouts


def writer(repo, rep):
    f, ex, segs = explore(repo, "write_TSPLIB_file", interesting_calls=("write", "writelines", "print"))
    words, types, layouts = reader_words(repo, rep)
    lines, layout, dims = [], set(), set()
    known = {"NAME", "COMMENT", "TYPE", "EOF"}
    any_ = False
    for how, nid, ev, st in segs:
        if how != "end":
            continue
        text = ""
        for k, d, _ in ev:
            if k == "call" and d[0] == "write" and len(d[1]) == 1:
                t, vals = template(d[1][0])
                text += t
                any_ = True
                if t.startswith("DIMENSION"):
                    dims |= set(vals)
        for l in text.split("\n"):
            if ":" in l:
                key, _, val = l.partition(":")
                key, val = key.strip(), val.strip()
                if key in known or any(w == key for w in words) or any(len(w) > 3 and w in key for w in words):
                    rep.ok("writer", "field %s" % key)
                else:
                    rep.violate("writer", "%s:%s" % (f.name, key), "field %s is written, and the reader does not know it" % key)
                if key == "EDGE_WEIGHT_TYPE":
                    if val in types:
                        rep.ok("writer", "type %s" % val)
                    elif "%" not in val:
                        rep.violate("writer", "%s:type %s" % (f.name, val), "distance type %s is written, and the reader does not accept it" % val)
                elif key == "EDGE_WEIGHT_FORMAT":
                    layout.add(val)
                    if val in layouts:
                        rep.ok("writer", "layout %s" % val)
                    elif "%" not in val:
                        rep.violate("writer", "%s:layout %s" % (f.name, val), "layout %s is written, and the reader does not accept it" % val)
            elif "_SECTION" in l:
                w = l.strip()
                if w in words:
                    rep.ok("writer", "section %s" % w)
                else:
                    rep.violate("writer", "%s:%s" % (f.name, w), "section %s is written, and the reader does not know it" % w)
    if not any_:
        rep.skip("writer", "what is written was not recognised")
        rep.skip("written matrix", "what is written was not recognised")
        return
    # the numbers of the matrix
    done = False
    for how, nid, ev, st in segs:
        if how != "iteration":
            continue
        for k, d, _ in ev:
            if k != "call" or d[0] != "write":
                continue
            for x in walk(d[1]):
                if not isinstance(x, tuple) or not x or x[0] != "D" or len(x) != 3:
                    continue
                inner = [y for y in x[1:] if y[0] == "it" and y[2] == nid]
                outer = [y for y in x[1:] if y[0] == "it" and y[2] != nid]
                if len(inner) != 1 or len(outer) != 1 or len(layout) != 1:
                    continue
                sel, (a, b) = outer[0][1], shape(inner[0][1], outer[0])
                lay = next(iter(layout))
                if a == "?" or lay not in SHAPES:
                    rep.skip("written matrix", "row %s not recognised" % show(inner[0][1]))
                    continue
                done = True
                if SHAPES[lay] != (a, b):
                    rep.violate("written matrix", "%s:%s" % (f.name, lay), "the layout is declared as %s, and a row holds the entries %s" % (lay, show_shape(a, b)))
                else:
                    rep.ok("written matrix", "rows are written as %s prescribes" % lay)
    for v in dims:
        if v[0] == "call" and v[1] == ("g", "len"):
            sels = {y[1] for how, nid, ev, st in segs for k, d, _ in ev if k == "call" for y in walk(d[1]) if isinstance(y, tuple) and len(y) == 3 and y[0] == "it"
                    and not (y[1][0] == "slice") and y[1][0] != "call"}
            if v[2][0] in sels or not sels:
                rep.ok("written matrix", "DIMENSION is the number of nodes written")
            else:
                rep.violate("written matrix", "%s:dimension" % f.name, "DIMENSION is the length of %s, while the rows are written for %s" % (show(v[2][0]), ", ".join(show(x) for x in sels)))
    if not done:
        rep.skip("written matrix", "the loop over the matrix was not recognised")
    # demands
    for how, nid, ev, st in segs:
        if how != "iteration":
            continue
        for k, d, _ in ev:
            if k == "call" and d[0] == "write":
                t, vals = template(d[1][0]) if len(d[1]) == 1 else ("", ())
                dem = [y for v in vals for y in walk(v) if isinstance(y, tuple) and len(y) == 2 and y[0] == "dem"]
                if len(vals) == 2 and len(dem) == 1:
                    off = add(vals[0], dem[0][1], -1)
                    if off == ("c", 1):
                        rep.ok("written matrix", "each demand is written with its node's number")
                    elif off[0] == "c":
                        rep.violate("written matrix", "%s:demands" % f.name, "the demand of node %s is written for node number %s" % (show(dem[0][1]), show(vals[0])))


def shape(row, outer):
    sel = outer[1]
    if row == sel:
        return None, None
    if row[0] == "slice" and row[1] == sel and row[4] == ("c", None):
        ix = ("ix", outer[2])
        out = []
        for v in row[2:4]:
            if v == ("c", None):
                out.append(None)
            else:
                d = add(v, ix, -1)
                out.append(d[1] if d[0] == "c" else "?")
        return ("?", None) if "?" in out else tuple(out)
    if row[0] == "call" and row[1] == ("g", "range") and sel[0] == "call" and sel[1] == ("g", "range") and len(sel[2]) == 1:
        a = row[2]
        n = sel[2][0]
        if len(a) == 1:
            if a[0] == n:
                return None, None
            d = add(a[0], outer, -1)
            return (None, d[1]) if d[0] == "c" else ("?", None)
        if len(a) == 2 and a[1] == n:
            d = add(a[0], outer, -1)
            return (d[1], None) if d[0] == "c" else ("?", None)
    return "?", None


def show_shape(a, b):
    return "from %s to %s" % ("the first" if a is None else "the diagonal%+d" % a, "the last" if b is None else "before the diagonal%+d" % b)


# ---- additional constraints ------------------------------------------------------
def service(repo, rep):
    f, ex, segs = explore(repo, "read_TSBLIB_additional_constraints")
    rets = [d for how, nid, ev, st in segs if how == "end" for k, d, _ in ev if k == "return"]
    rets = [r for r in rets if r[0] == "t" and len(r[1]) == 3]
    if not rets:
        rep.skip("depot service", "result not recognised")
        return
    st_var = {r[1][2] for r in rets if r[1][2][0] == "h"}
    if len(st_var) != 1:
        rep.skip("depot service", "service time not recognised")
        return
    sv = next(iter(st_var))
    n = 0
    for how, nid, ev, st in segs:
        if how not in ("iteration", "raise"):
            continue
        sts = [d for d in stores(ev) if d[0] == ("var", sv[1])]
        pair = [y for d in sts for y in walk(d[2]) if isinstance(y, tuple) and len(y) == 3 and y[0] in ("item", "sub") and y[2] in (1, ("c", 1))
                and y[1][0] == "mcall" and y[1][2] == "split"]
        if how == "iteration" and not pair:
            continue
        if how == "raise":
            pair = [y for k in st.facts for y in walk(k) if isinstance(y, tuple) and len(y) == 3 and y[0] in ("item", "sub") and y[2] in (1, ("c", 1))
                    and y[1][0] == "mcall" and y[1][2] == "split"]
            if not pair:
                continue
        n += 1
        first = (pair[0][0], pair[0][1], 0 if pair[0][0] == "item" else ("c", 0))
        verdict = None
        for c, y, o in eqs(st):
            if y == ("num", first) and c == 1 or y == first and c == "1":
                verdict = o
            elif y == first and c == 1:
                verdict = "text"
        for k, o in st.facts.items():
            if k[0] == "gt" and ("num", first) in terms(k[1]):
                k1 = dict(terms(k[1]))[("num", first)]
                c = const(k[1])
                if len(terms(k[1])) == 1 and (k1 == 1 and o and c <= -1 and c > -2 or k1 == -1 and not o and 1 < c <= 2):
                    verdict = False                       # node > 1
        what = "taken as the service time" if how == "iteration" else "rejected for differing from it"
        if verdict is False:
            rep.ok("depot service", "only a customer's service time is %s" % what)
        elif verdict == "text":
            rep.violate("depot service", "%s:%s" % (f.name, how), "the node number is compared as text with a number, so the depot's service time is %s" % what)
        elif any(first in walk(k) and k[0] in ("cmp", "truth", "in") for k in st.facts):
            rep.skip("depot service", "test of the node number not recognised")
        else:
            rep.violate("depot service", "%s:%s" % (f.name, how), "the service time stated for the depot (node 1) is %s" % what)
        # the line has two fields
        src = pair[0][1]
        if pair[0][0] == "item" or True:
            ln = ("call", ("g", "len"), (src,))
            if any(k[0] == "eq" and o and ln in k[1:] for k, o in st.facts.items()) or any(k[0] == "gt" and ln in terms(k[1]) for k in st.facts) or in_try(f):
                rep.ok("depot service", "lines after the section are told from its lines")
            else:
                rep.violate("depot service", "%s:section end" % f.name, "every line after the section's start is split into two fields: the reader fails on the next keyword")
    if not n:
        rep.skip("depot service", "no service time section recognised")


def in_try(f):
    return any(isinstance(x, ast.Try) for x in ast.walk(f.node))


# ---- solution files ------------------------------------------------------------------
def solutions(repo, rep):
    f, ex, segs = explore(repo, "read_OPT_CVRP")
    ends = [(st, [d for k, d, _ in ev if k == "return"]) for how, nid, ev, st in segs if how == "end"]
    ends = [(st, r[0][1][2]) for st, r in ends if len(r) == 1 and r[0][0] == "t" and len(r[0][1]) == 3]
    cnt = {}
    for how, nid, ev, st in segs:
        if how == "iteration":
            for loc, old, v in stores(ev):
                if loc[0] == "var" and v == add(("h", loc[1], nid), ("c", 1)):
                    cnt[loc[1]] = nid
    route = lambda st: any(k[0] == "in" and k[1][0] == "c" and isinstance(k[1][1], str) and "route" in k[1][1].lower() and o for k, o in st.facts.items())
    tested = any(k[0] == "in" and k[1][0] == "c" and isinstance(k[1][1], str) and "route" in k[1][1].lower() for how, nid, ev, st in segs for k in st.facts)
    splits = [(how, nid, ev, st) for how, nid, ev, st in segs if how == "iteration" and any(
        x == ("c", ":") for d in stores(ev) for x in walk(d[2])) and not (tested and not route(st) and any(k[0] == "in" and "route" in str(k[1]) and not o for k, o in st.facts.items()))]
    rets = {v[1] for st, v in ends if v[0] == "h"}
    good = [c for c in cnt if c in rets]
    if not ends:
        rep.skip("route count", "result not recognised")
    elif any(v[0] not in ("h", "c", "sub", "num", "item") for st, v in ends) and not good:
        rep.skip("route count", "vehicle count is %s" % show([v for st, v in ends if v[0] not in ("h", "c")][0]))
    elif not good:
        rep.violate("route count", "%s:count" % f.name, "no variable that is returned as the vehicle count is advanced for the routes of the file")
    else:
        c = good[0]
        for how, nid, ev, st in splits:
            if nid != cnt[c]:
                continue
            v = st.env.get(c)
            if v == add(("h", c, nid), ("c", 1)):
                rep.ok("route count", "a route line counts one vehicle")
            else:
                rep.violate("route count", "%s:route line" % f.name, "a route line is read without counting a vehicle")
        for st, v in ends:
            h = [("h", c, cnt[c])]
            zero = any(st.facts.get(("truth", x)) is False or any(y == x and k == 0 and o for k, y, o in eqs(st)) or st.facts.get(("gt", x)) is False for x in h)
            if v in h or zero:
                rep.ok("route count", "the number of routes is returned as the vehicle count")
            elif any(k[0] == "eq" and o and h[0] in k[1:] and v in k[1:] for k, o in st.facts.items()):
                rep.ok("route count", "the count returned equals the number of routes")
            elif v[0] in ("num", "c", "sub", "item"):
                rep.violate("route count", "%s:result" % f.name, "the vehicle count returned is %s although the file's routes were counted" % show(v))
            else:
                rep.skip("route count", "vehicle count %s" % show(v))
    # the cost line of the writer
    w = repo.func("verypy.cvrp_io", "as_OPT_solution")
    fmts = [x.value for x in ast.walk(w.node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and "cost" in x.value.lower() and "%" in x.value]
    for fm in fmts:
        toks = fm.strip().split()
        for how, nid, ev, st in segs:
            cost = any(k[0] == "in" and k[1][0] == "c" and isinstance(k[1][1], str) and "cost" in k[1][1].lower() and o for k, o in st.facts.items())
            if how != "iteration" or not cost:
                continue
            for loc, old, v in stores(ev):
                if loc[0] == "var" and v[0] == "num":
                    src = v[1]
                    got = pick(src, fm.strip())
                    if got is None:
                        rep.skip("cost line", "reading of the cost not recognised")
                    elif got == toks[-1]:
                        rep.ok("cost line", "'%s' is read back" % fm.strip())
                    else:
                        rep.violate("cost line", "%s:%s" % (f.name, fm.strip()), "of the cost line '%s' that as_OPT_solution writes the reader takes '%s' as the cost" % (fm.strip(), got))
    # unpacking into a fixed number of names
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and n.value.func.attr == "split" and not n.value.args and any("cost" in getattr(t, "id", "").lower() for t in n.targets[0].elts):
            for fm in fmts:
                if len(fm.split()) != len(n.targets[0].elts):
                    rep.violate("cost line", "%s:%s" % (f.name, fm.strip()), "the cost line '%s' that as_OPT_solution writes has %d words, and the reader unpacks %d" % (
                        fm.strip(), len(fm.split()), len(n.targets[0].elts)))


def pick(v, line):
    """the piece of the line that the term selects"""
    if v[0] == "mcall" and v[2] == "strip" and not v[3]:
        g = pick(v[1], line)
        return g.strip() if isinstance(g, str) else None
    if v[0] in ("sub", "item"):
        i = v[2][1] if isinstance(v[2], tuple) and v[2][0] == "c" else v[2]
        g = pick(v[1], line)
        if isinstance(v[2], tuple) and v[2][0] == "lin" and isinstance(g, list) and terms(v[2]) == {("call", ("g", "len"), (v[1],)): 1}:
            i = len(g) + const(v[2])
        if not isinstance(i, int):
            return None
        try:
            return g[i] if isinstance(g, list) else None
        except (IndexError, TypeError):
            return "nothing"
    if v[0] == "mcall" and v[2] in ("split", "rsplit"):
        g = pick(v[1], line)
        a = [x[1] for x in v[3] if x[0] == "c"]
        if isinstance(g, str) and len(a) == len(v[3]):
            r = getattr(g, v[2])(*a)
            return [x.strip() if a else x for x in r]
        return None
    if v[0] in ("it", "mcall", "h"):
        return line
    return None


def run(repo, rep):
    rep.rule("types", "every distance type that the reader accepts is one calculate_D computes, and reaches it", 8)
    rep.rule("metrics", "every distance type is computed by its own metric and rounding", 8)
    rep.rule("depot first", "with the depot elsewhere, distances, demands and coordinates of all nodes are reordered alike", 1)
    rep.rule("node lines", "the n-th line of a section describes the n-th node, field by field", 4)
    rep.rule("writer", "fields, sections, types and layouts that are written are ones the reader knows", 1)
    rep.rule("written matrix", "the numbers and node numbers written are those the declared layout prescribes", 1)
    rep.rule("depot service", "the depot's service time is ignored, and the section's end is recognised", 1)
    rep.rule("route count", "the vehicle count of a solution file is the number of its routes", 1)
    rep.rule("cost line", "the cost line that is written can be read", 1)
    for fn, rules in ((types, ("types", "metrics")), (depot, ("depot first",)), (sections, ("node lines",)),
                      (writer, ("writer", "written matrix")), (service, ("depot service",)), (solutions, ("route count", "cost line"))):
        try:
            fn(repo, rep)
        except TooBig as e:
            for r in rules:
                rep.skip(r, "too many paths: %s" % e)
    for r in rep.instances:
        rep.instances[r] = list(dict.fromkeys(rep.instances[r]))
    for r, mn in rep.required.items():
        have = len(rep.instances[r]) + sum(1 for u in rep.undecided if u.startswith(r + ":"))
        for i in range(have, mn):
            rep.skip(r, "not recognised (%d)" % i)
    return {"scope": "verypy/cvrp_io.py"}
