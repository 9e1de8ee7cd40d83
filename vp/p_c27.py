"""C27: distances are those TSPLIB defines, decided on polynomial normal forms of the formulas and by cases of the fraction for roundings."""
from . import tsplib
from .p_c16 import sections, allows, eqs
from .symx import TooBig


class Quiet:
    """a report that only keeps what is returned"""
    def __getattr__(self, n):
        return lambda *a, **k: None


def run(repo, rep):
    rep.rule("distances", "every type's distance is TSPLIB's formula and rounding, within one set of points and between two", 16)
    rep.rule("degrees", "geographical coordinates, and no others, are converted from degrees and minutes to radians", 1)
    f = repo.func("verypy.cvrp_io", "calculate_D")
    for T in sorted(tsplib.definitions()):
        for opts in (False, True):
            verdict, text = tsplib.judge(repo, f, T, opts)
            text += " (between two sets)" if opts else ""
            if verdict == "ok":
                rep.ok("distances", text)
            elif verdict == "unknown":
                rep.skip("distances", text)
            else:
                rep.violate("distances", "calculate_D:%s %s" % (T, verdict), text)
    degrees(repo, rep)
    for r, mn in rep.required.items():
        have = len(rep.instances[r]) + sum(1 for u in rep.undecided if u.startswith(r + ":"))
        for i in range(have, mn):
            rep.skip(r, "not recognised (%d)" % i)
    rep.assume("real arithmetic; 3.141592, 6378.388 and the truncation of degrees as in TSPLIB's reference code; rounded values are not negative")
    return {"scope": "calculate_D with the functions it calls, and the reader's coordinate section, in verypy/cvrp_io.py"}


def degrees(repo, rep):
    try:
        sections(repo, Quiet())
        turned, tv = sections.turned
    except TooBig as e:
        return rep.skip("degrees", "too many paths: %s" % e)
    if tv is None or not turned:
        return rep.skip("degrees", "the coordinate section is not recognised")
    name = "read_TSPLIB_CVRP"
    for nm, wraps, st in turned:
        geo = any(c == "GEO" and y == tv and o for c, y, o in eqs(st))
        wraps = {tuple(x for x in w if x not in ("float", "round")) for w in wraps}
        if wraps == {()}:
            if allows(st, tv, "GEO"):
                rep.violate("degrees", "%s:%s" % (name, nm), "geographical coordinates are not converted to radians")
            else:
                rep.ok("degrees", "other types' coordinates are kept")
            continue
        if not geo:
            rep.violate("degrees", "%s:%s" % (name, nm), "plain coordinates are converted like geographical ones")
            continue
        w = next(iter(wraps))
        if len(wraps) != 1 or len(w) != 1:
            rep.skip("degrees", "conversions " + str(sorted(wraps)))
            continue
        try:
            g = repo.func("verypy.cvrp_io", w[0])
        except Exception:
            g = None
        if g is None:
            if w[0] in ("radians", "deg2rad"):
                rep.violate("degrees", "%s:%s" % (name, w[0]), "geographical coordinates are taken as decimal degrees")
            else:
                rep.skip("degrees", "conversion " + w[0])
            continue
        verdict, text = tsplib.degrees(repo, g)
        if verdict == "ok":
            rep.ok("degrees", text)
        elif verdict == "unknown":
            rep.skip("degrees", text)
        else:
            rep.violate("degrees", g.name, text)
