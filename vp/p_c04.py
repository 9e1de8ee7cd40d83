"""C04: records match routes, for the local search operators (abstract interpretation, see movecheck.py)."""
from . import movecheck


def run(repo, rep):
    rep.rule('record', 'the cost and demand stored in every returned route record equal those of its route', 5)
    rep.rule("shape", "every operator returns one entry per route and the change", 0)
    ts = movecheck.tasks()
    n = movecheck.run_all(repo, rep, 'C04', ts)
    movecheck.assumptions(rep)
    return {"scope": "%d symbolic runs of the operators (all constraint, strategy and level combinations), %d obligations" % (len(ts), n)}
