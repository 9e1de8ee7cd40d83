"""C03: limits respected, for the local search operators (abstract interpretation, see movecheck.py)."""
from . import movecheck


def run(repo, rep):
    rep.rule('limit', 'on every path that returns a move, the checks passed on that path imply that the load and the cost of every returned route are within the limits (plus tolerance)', 5)
    rep.rule("shape", "every operator returns one entry per route and the change", 0)
    ts = movecheck.tasks()
    n = movecheck.run_all(repo, rep, 'C03', ts)
    movecheck.assumptions(rep)
    return {"scope": "%d symbolic runs of the operators (all constraint, strategy and level combinations), %d obligations" % (len(ts), n)}
