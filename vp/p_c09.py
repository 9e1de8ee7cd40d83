"""C09: callers' data is never modified (interprocedural may-mutate analysis)."""
from .effects import Effects
import os
from .api import api_functions, is_aux
from .core import AnalysisBroken

WH = "routes and bookkeeping of the running Wren-Holliday heuristic, updated in place as documented"

# in-place update is the documented purpose of these parameters
BY_DESIGN = {
    ("get_seed_node", "node_nearest_neighbors"): "work queues owned by the running heuristic",
    ("supression_savings_function", "savings_cache"): "cache owned by the caller's loop",
    ("supression_savings_function", "suppressed"): "work set owned by the caller's loop",
    ("route_end_interchange", "served"): "work set owned by the running heuristic",
    ("route_end_interchange", "node_nearest_neighbors"): "work queues owned by the running heuristic",
    ("do_one_sweep", "callback_data"): "opaque data owned by the callback",
    ("inspect_heuristic", "routes"): WH, ("single_heuristic", "routes"): WH, ("pair_heuristic", "routes"): WH,
    ("complain_heuristic", "routes"): WH, ("complain_heuristic", "unrouted_nodes"): WH,
    ("delete_heuristic", "routes"): WH, ("combine_heuristic", "routes"): WH,
    ("disentangle_heuristic", "routes"): WH, ("disentangle_heuristic", "node_phis"): WH,
    ("RouteData.__init__", "self"): "constructor",
    ("RouteData.normalize", "self"): "documented in-place normalisation of the record itself",
}


def run(repo, rep):
    rep.rule("caller-data-unchanged",
             "for every function reachable from outside its module, no statement on any path (through "
             "aliases, views, helpers and callbacks) changes an argument in place", 60)
    rep.rule("temporary-change-undone",
             "an in-place change of an argument is acceptable only when each cell is stored back on every "
             "way out, exceptional ones included", 1)
    eff = Effects(repo)
    api = {}
    for f, why in api_functions(repo, eff.pt).items():
        if why.startswith("solver of"):
            api[f] = why
    gone = []
    with open(os.path.join(os.path.dirname(__file__), "surface.txt")) as fh:
        for line in fh:
            if line.startswith("#") or not line.strip():
                continue
            mod, q = line.strip().split(":")
            m = repo.modules.get(mod)
            f = m.functions.get(q) if m else None
            if f is None:
                gone.append(line.strip())
            else:
                api.setdefault(f, "public function")
    if len(gone) > 20:
        raise AnalysisBroken("many public functions are gone: %s" % gone[:20])
    for g in gone:
        rep.notes.append("public function %s is gone" % g)
    for f in sorted(api, key=lambda f: f.where):
        if is_aux(f.module):
            continue
        if f.name == "<lambda>":
            continue
        n = 0
        for p in f.params:
            sites = eff.mut.get(f, {}).get(p)
            if p in eff.restored.get(f, ()):
                rep.ok("temporary-change-undone", "%s(%s)" % (f.where, p))
            if not sites:
                n += 1
                continue
            if (f.qualname, p) in BY_DESIGN:
                rep.notes.append("%s(%s): by design, %s" % (f.where, p, BY_DESIGN[(f.qualname, p)]))
                continue
            for (dk, line, what), node in sorted(sites.items(), key=lambda x: x[0][:2]):
                rep.violate("caller-data-unchanged", "%s(%s)" % (f.where, p),
                            "%s:%d %s changes the caller's '%s' in place: %s" %
                            (f.module.rel, line, f.qualname, p, what))
        rep.ok("caller-data-unchanged", "%s: %d parameters unchanged (%s)" % (f.where, n, api[f]))
    # internal helpers: temporary changes of the shared problem data
    for f in eff.funcs:
        if f in api or is_aux(f.module):
            continue
        for p in f.params:
            if p in eff.restored.get(f, ()):
                rep.ok("temporary-change-undone", "%s(%s)" % (f.where, p))
    rep.assume("library calls outside the package do not change their arguments unless listed "
               "(numpy.fill_diagonal, heapq.*, random.shuffle, ...)")
    return {"scope": "%d surface functions, %d functions summarised, %d fixpoint rounds" %
            (len(api), len(eff.funcs), eff.rounds)}
