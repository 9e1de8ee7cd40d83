"""Evidence, known findings and exit protocol shared by all checks."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(EVID, "replay")
KNOWN = os.path.join(HERE, "known_findings.txt")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []     # (key, text)
        self.undecided = []      # text
        self.instances = {}      # rule -> list of instance descriptions
        self.rules = {}          # rule -> description
        self.assumptions = []
        self.notes = []
        self.required = {}       # rule -> minimum instance count

    def rule(self, name, desc, minimum=1):
        self.rules[name] = desc
        self.instances.setdefault(name, [])
        self.required[name] = minimum

    def ok(self, rule, what):
        self.instances.setdefault(rule, []).append(what)

    def violate(self, rule, construct, text):
        """construct: stable key (function + construct), no line numbers."""
        key = "%s|%s" % (rule, construct)
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, text))
        self.instances.setdefault(rule, []).append(construct + " [VIOLATION]")

    def skip(self, rule, what):
        self.undecided.append("%s: %s" % (rule, what))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.rstrip("\n")
            if not line.startswith("KNOWN property="):
                continue
            head, _, text = line.partition(" :: ")
            parts = head.split(" ", 2)
            if parts[1] == "property=" + prop:
                out[parts[2].strip()] = text
    return out


def finish(rep, level="other", extra=None):
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    broken = []
    for r, mn in rep.required.items():
        n = len(rep.instances.get(r, [])) + sum(1 for u in rep.undecided if u.startswith(r + ":"))
        if n < mn:
            broken.append("rule %s matched %d instances, expected at least %d" % (r, n, mn))
    known = load_known(rep.prop)
    new, old = [], []
    for key, text in rep.violations:
        if key in known:
            old.append((key, text))
        else:
            new.append((key, text))
    n_inst = sum(len(v) for v in rep.instances.values())
    cov = {
        "explanation": "Static analysis of /repo's current source (%s). Every instance of each rule "
                       "below was enumerated from the syntax tree / control flow graph and decided; "
                       "undecided instances are listed and carry no claim." % (extra or {}).get("scope", "verypy package"),
        "rules": rep.rules,
        "instances_total": n_inst,
        "instances": {k: {"count": len(v), "items": v[:400]} for k, v in rep.instances.items()},
        "undecided": rep.undecided[:200],
        "undecided_total": len(rep.undecided),
        "known_findings_seen": [k for k, _ in old],
        "notes": rep.notes,
    }
    cov.update(extra or {})
    ev = {
        "property": rep.prop, "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed, "level": level, "coverage": cov,
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(new),
        "assumptions": rep.assumptions or ["the analysed source is the one that runs (CPython 3, no monkey patching)"],
    }
    with open(os.path.join(EVID, rep.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for key, text in old:
        print("KNOWN-FINDING: property=%s %s -- %s" % (rep.prop, key, known[key] or text))
    for key, text in new:
        print("FINDING %s: %s" % (key, text))
    if new:
        path = os.path.join(REPLAY, rep.prop + ".txt")
        with open(path, "w") as fh:
            for key, text in new:
                fh.write("%s\n    %s\n" % (key, text))
            fh.write("\nreplay: python3 /verif/check.py %s\n" % rep.prop)
        print("VIOLATION property=%s replay=%s" % (rep.prop, path))
        return 1
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN: " + b, file=sys.stderr)
        return 3
    print("OK property=%s rules=%d instances=%d undecided=%d known=%d" %
          (rep.prop, len(rep.rules), n_inst, len(rep.undecided), len(old)))
    return 0
