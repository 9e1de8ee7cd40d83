"""C01: customers conserved, for the local search operators (abstract interpretation, see movecheck.py)."""
from . import movecheck


def run(repo, rep):
    rep.rule('content', 'for every way an operator can return a move, the returned routes visit exactly the nodes of the given routes, each once', 5)
    rep.rule('depot', 'every returned route starts and ends at the depot', 5)
    rep.rule("shape", "every operator returns one entry per route and the change", 0)
    ts = movecheck.tasks()
    n = movecheck.run_all(repo, rep, 'C01', ts)
    movecheck.assumptions(rep)
    return {"scope": "%d symbolic runs of the operators (all constraint, strategy and level combinations), %d obligations" % (len(ts), n)}
