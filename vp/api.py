"""Which functions are the package's surface: callable from outside their own
module (imported by another module, handed over as a solver by the algorithm
factories, or exported as an operator)."""
import ast
from .core import Func, own_walk, AnalysisBroken

AUX = ("verypy.visualizers.", "verypy.VeRyPyGui", "verypy.visualizers")


def is_aux(m):
    return m.dotted.startswith(AUX)


def registry_factories(repo):
    """Functions named in the algorithm registry (verypy/__init__.py)."""
    m = repo.mod("verypy")
    out = []
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Name, ast.Attribute)):
            r = repo.resolve_expr(m, n)
            if isinstance(r, Func) and r.module is not m and r not in out:
                out.append(r)
    return out


def solvers(repo, pt):
    """(factory, solver Func) for every algorithm of the registry."""
    out = []
    for f in registry_factories(repo):
        for n in own_walk(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                for v in pt.values(f, n.value):
                    if (f, v) not in out:
                        out.append((f, v))
    if not out:
        raise AnalysisBroken("no solver found in the algorithm registry")
    return out


def api_functions(repo, pt):
    api = {}
    for m in repo.modules.values():
        if is_aux(m):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                g = n
                while g is not None and not hasattr(g, "_func"):
                    g = getattr(g, "_parent", None)
                scope = g._func if g is not None else m
                r = repo.resolve_expr(scope, n)
                if isinstance(r, Func) and r.module is not m and r.parent is None and r.cls is None:
                    api[r] = "used by " + m.rel
    for fac, s in solvers(repo, pt):
        api[s] = "solver of " + fac.qualname
    return api
