"""C05: acceptance, for the local search operators (abstract interpretation, see movecheck.py)."""
from . import movecheck


def run(repo, rep):
    rep.rule('strict', 'a candidate replaces the level to beat only where the path establishes that it is lower by more than the tolerance', 5)
    rep.rule('first', 'first-accept takes no second candidate', 5)
    rep.rule('best', 'best-accept never stops early after an improvement', 5)
    rep.rule('level', 'the returned change beats the level given by the caller, and is the remembered one', 5)
    rep.rule('neighbourhood', 'first and last edges, neighbouring and extreme pairs and all reconnections are candidates', 5)
    rep.rule('exact-limit', 'limit checks reject only moves whose routes break the limits', 5)
    rep.rule("shape", "every operator returns one entry per route and the change", 0)
    ts = movecheck.tasks()
    n = movecheck.run_all(repo, rep, 'C05', ts)
    movecheck.assumptions(rep)
    return {"scope": "%d symbolic runs of the operators (all constraint, strategy and level combinations), %d obligations" % (len(ts), n)}
