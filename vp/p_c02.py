"""C02: reported change is the true change, for the local search operators (abstract interpretation, see movecheck.py)."""
from . import movecheck


def run(repo, rep):
    rep.rule('delta', 'for every way an operator can return a move, the reported change equals the cost of the returned routes minus the cost of the given ones, as a polynomial identity over all distances', 5)
    rep.rule("shape", "every operator returns one entry per route and the change", 0)
    ts = movecheck.tasks()
    n = movecheck.run_all(repo, rep, 'C02', ts)
    movecheck.assumptions(rep)
    return {"scope": "%d symbolic runs of the operators (all constraint, strategy and level combinations), %d obligations" % (len(ts), n)}
