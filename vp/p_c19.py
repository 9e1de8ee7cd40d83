"""C19: what the command line programs do with each option, by constant propagation from the command line into every call they make."""
from .ccp import CCP, C, X, TOP, NONE, GiveUp, alts, isc, mentions, OR

MODS = ("verypy.VeRyPy", "verypy.shared_cli")
ALGOS = ("ps", "gc")
CONTRACT = ("points", "D", "d", "C", "L", "st", "wtt", "single", "minimize_K")
DOCUMENTED = {"-l": None, "-v": None, "-a": None, "-b": ("c", "cost", "K", "vehicles"), "-m": None, "-t": None, "-c": None, "-D": ("ROUND", "EXACT", "TRUNCATE"), "-1": None,
              "--iinfo": None, "--routes": None, "--vrph": None, "--forbid": None, "--recursive": None, "--simulate": None, "--post-optimize": ("2opt", "3opt")}
SAME = {"-b": (("c", "cost", None), ("K", "vehicles"))}
BASE = (("-a", ALGOS[0]), ("-a", ALGOS[1]), ("problem_file", "a.vrp"))
OPAQUE = ("read_TSPLIB_CVRP", "read_TSBLIB_additional_constraints", "do_local_search", "generate_missing_coordinates", "D2D_c", "normalize_solution", "recalculate_objective",
          "validate_solution_feasibility", "as_VRPH_solution", "objf", "sol2routes", "is_better_sol", "generate_CVRP", "calculate_D", "without_empty_routes", "totald")


def inst(n):
    return ("l", "tuple", tuple(X("file", k) for k in n))


def models(extra=()):
    m = {"read_TSPLIB_CVRP": lambda s, a, k: inst(("N", "points", "dd", "d", "D", "C", "ewt")),
         "read_TSBLIB_additional_constraints": lambda s, a, k: inst(("K", "L", "st")),
         "load": lambda s, a, k: inst(("N", "points", "dd", "d", "D", "C", "ewt", "K", "L", "st")),
         "generate_missing_coordinates": lambda s, a, k: inst(("points", "ewt")),
         "generate_CVRP": lambda s, a, k: inst(("N", "points", "dd", "d", "D", "C", "ewt")),
         "get_algorithms": lambda s, a, k: ("l", "list", tuple(("l", "tuple", (C(x), C("name of " + x), C("about " + x), X("param", "algorithm " + x))) for x in ALGOS)),
         "algo_name_aliases": ("d", tuple((C(x), C(x)) for x in ALGOS)),
         "D2D_c": lambda s, a, k: X("charged", a[0] if a else k.get("D", TOP)),
         "normalize_solution": lambda s, a, k: X("sol"), "time": lambda s, a, k: X("clock"), "perf_counter": lambda s, a, k: X("clock"), "default_timer": lambda s, a, k: X("clock")}
    m.update(extra)
    return m


def effects(c, inlined):
    out = set()
    for name, args, kw, t, where in c.calls:
        if t is not None and t.name in inlined or name in ("str", "len", "type", "count", "replace", "basename", "time", "sorted", "zip", "format", "join", "sum", "parse_args",
                                                             "int", "float", "enumerate", "keys", "items", "values", "lower", "range"):
            continue
        out.add((repr(name), args, kw))
    return out


class Unclear(Exception):
    pass


def argument(call, p, pos):
    name, args, kw, t, where = call
    kw = dict(kw)
    if p in kw:
        return kw[p]
    if pos is not None and pos < len(args):
        return args[pos]
    if t is not None and p in t.params and t.params.index(p) < len(args):
        return args[t.params.index(p)]
    return None


def boolean(v):
    if v is None:
        return None
    if isc(v):
        return bool(v[2])
    return None


# ---- VeRyPy.main ----------------------------------------------------------------
class Main:
    def __init__(self, repo):
        self.repo = repo
        self.f = repo.func("verypy.VeRyPy", "main")
        self.inlined = {g.name for g in repo.all_functions() if g.module.dotted in MODS and g.name not in OPAQUE + ("get_a_problem_file_list", "get_algorithms")}
        self.memo = {}

    def run(self, given):
        given = tuple(given)
        if given not in self.memo:
            flags = [x for fl, v in given if not fl[0].isalpha() for x in ((fl, str(v)) if v is not True else (fl,))]
            c = CCP(self.repo, argv=("l", "list", tuple(C(x) for x in ["VeRyPy"] + flags + ["a.vrp"])), config={"#given": BASE + given}, opaque=OPAQUE + ("get_a_problem_file_list",),
                    models=models({"get_a_problem_file_list": lambda s, a, k: X("files")}), inline=lambda t: t.module.dotted in MODS)
            try:
                c.run(self.f, {p: NONE for p in self.f.params})
            except GiveUp as e:
                c.failed = str(e)
            c.by = {}
            for call in dict.fromkeys(c.calls):
                k = "solver" if isinstance(call[0], tuple) else call[0]
                c.by.setdefault(k, []).append(call)
            self.memo[given] = c
        return self.memo[given]


def values_of(d, flag):
    if flag == "-v":
        return ("0", "3")
    if flag == "-a":
        return ()
    if flag == "--forbid":
        return (ALGOS[1],)
    if d["action"] in ("store_true", "store_false", "store_const", "count"):
        return (True,)
    if "choices" in d:
        return tuple(d["choices"])
    return ("7",) if d.get("type") == "int" else ("some",)


def judge(m, given):
    """violations of the table of meanings for one command line: (option, text)"""
    c = m.run(given)
    g = {}
    for fl, v in given:
        g.setdefault(fl, []).append(v)
    bad, good = [], []

    def want(opt, ok, text):
        if ok is None:
            return
        (good if ok else bad).append((opt, text))
    if "-l" in g:
        want("-l", "exit" in c.by and not c.by.get("solver"), "algorithms are listed and nothing is solved")
        want("-l", any("about" in repr(x[1]) or "algorithm_help" in repr(x[1]) or "get_algorithms" in c.by for x in c.by.get("print", ())), "the list of algorithms is printed")
        return bad, good
    # which algorithms run
    ran = {x[0][1][2].split()[-1] for x in c.by.get("solver", ()) if x[0][1][:2] == ("x", "param")}
    odd = [x for x in c.by.get("solver", ()) if x[0][1][:2] != ("x", "param")]
    if "--simulate" in g:
        want("--simulate", not ran and not odd, "no algorithm is invoked")
    elif not odd:
        forb = {v.lower() for v in g.get("--forbid", ())}
        exp = set(ALGOS) - forb
        want("--forbid" if forb else "-a", ran == exp, "the algorithms invoked are those chosen%s" % (" and not forbidden" if forb else ""))
    K = g.get("-b", ["cost"])[-1] in ("K", "vehicles")
    single = "-1" in g
    form = g.get("-D", [None])[-1]
    for call in c.by.get("solver", ()):
        if len(call[1]) + len(call[2]) < 9:
            continue
        v = boolean(argument(call, "minimize_K", 8))
        want("-b", None if v is None else v == K, "the algorithm minimises %s first with %s" % ("vehicles" if K else "cost", "-b " + g["-b"][-1] if "-b" in g else "the default objective"))
        v = boolean(argument(call, "single", 7))
        want("-1", None if v is None else v == single, "the algorithm is %sasked for a single iteration" % ("" if single else "not "))
        wtt, D = argument(call, "wtt", 6), argument(call, "D", 1)
        if form in ("TRUNCATE", "ROUND") and wtt is not None:
            exp = {"TRUNCATE": "FLOOR_2D", "ROUND": "EUC_2D"}[form]
            if all(isc(a) for a in alts(wtt)):
                want("-D " + form, wtt == C(exp), "distances are declared %s to the algorithm" % exp)
        elif wtt is not None and form == "EXACT":
            want("-D EXACT", None if wtt == TOP else C("EXACT_2D") in alts(wtt) and not any(isc(a) and a != C("EXACT_2D") for a in alts(wtt)), "distances are declared EXACT_2D to the algorithm")
        elif wtt is not None and form is None:
            want("-D", None if wtt == TOP else not any(isc(a) for a in alts(wtt)), "the file's distance type is kept")
        if D is not None and D != TOP and not any(a == TOP for a in alts(D)):
            fl, rd = touched(D, ("floor", "trunc", "fix", "int")), touched(D, ("rint", "round", "around", "round_"))
            if form == "TRUNCATE":
                want("-D " + form, fl and not rd, "distances are truncated")
            elif form == "ROUND":
                want("-D " + form, rd and not fl or touched(D, ("floor",)) and mentions(D, C(0.5)), "distances are rounded")
            elif form == "EXACT":
                want("-D EXACT", not rd and not fl, "distances are not rounded")
            elif form is None:
                want("-D", not rd and not fl, "distances are left as they are")
    # objective shown
    cost = "-c" in g
    for call in c.by.get("recalculate_objective", ()):
        D = argument(call, "D", 1)
        if D is not None and D != TOP:
            ch = any(a[:2] == ("x", "charged") for a in alts(D))
            want("-c", ch == cost, "the %s of the solution is reported" % ("cost" if cost else "length"))
    # local search
    ops = [v for v in g.get("--post-optimize", ())]
    calls = c.by.get("do_local_search", [])
    if not ops:
        want("--post-optimize", not calls, "no post-optimisation unless asked for")
    elif "--simulate" not in g:
        want("--post-optimize", bool(calls), "post-optimisation with %s" % "+".join(ops))
        for call in calls:
            l = argument(call, "ls_ops", 0)
            if l is not None and l[0] == "l" and all(x[0] == "fn" for x in l[2]):
                want("--post-optimize", [x[2] for x in l[2]] == ["do_%s_move" % o for o in ops], "operators %s are used" % "+".join(ops))
    # logging
    v = int(g.get("-v", [-1])[-1])
    calls = c.by.get("set_logger_level", [])
    if v < 0:
        want("-v", not calls, "no debug output unless asked for")
    else:
        want("-v", bool(calls), "the verbosity reaches the logger")
        for call in calls:
            l = argument(call, "level", 0)
            want("-v", None if l is None or not isc(l) else l == C(v), "the logger's level is the verbosity asked for")
    # what is printed
    mini = "-m" in g
    if not ran and "--simulate" not in g:
        return bad, good
    for fn in ("print_problem_information", "print_solution_statistics"):
        want("-m", mini != bool(c.by.get(fn)), "%s only without -m" % fn)
    want("--vrph", ("--vrph" in g and not mini) == bool(c.by.get("as_VRPH_solution")), "the VRPH format is printed exactly when asked for")
    want("-m", mini == bool(c.by.get("validate_solution_feasibility") and any(x[4][1] not in ("print_solution_statistics",) for x in c.by["validate_solution_feasibility"])) or None
         if mini else None, "the report's line tells whether the solution is feasible")
    if not mini:
        timed = any(mentions(x[1], ("x", "clock")) for x in c.by.get("print", ()))
        want("-t", timed == ("-t" in g), "the elapsed time is printed exactly when asked for")
        vb = [argument(x, "verbosity", 7) for x in c.by.get("print_solution_statistics", ())]
        for x in vb:
            if x is not None and isc(x) and isinstance(x[2], int):
                want("--routes", (x[2] > 1) == ("--routes" in g), "statistics of each route are printed exactly when asked for")
        if ran and c.by.get("print_solution_statistics"):
            want("--routes", ("--routes" in g) == any("sol2routes" in repr(x[1]) for x in c.by.get("print", ())), "the routes are printed exactly when asked for")
    rec = "--recursive" in g
    for call in c.by.get("get_a_problem_file_list", ()):
        r = argument(call, "recursive", 1)
        b = boolean(r) if r is not None else False
        want("--recursive", None if b is None else b == rec, "files are searched %s" % ("recursively" if rec else "in the given folders only"))
    return bad, good


def touched(v, names):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and len(x) > 2 and x[:2] == ("x", "call") and x[2] in names:
                return True
            todo.extend(x)
    return False


def main_program(repo, rep):
    m = Main(repo)
    base = m.run(())
    if getattr(base, "failed", None) or not base.options or not base.by.get("solver"):
        for i in range(10):
            rep.skip("meaning", "main is not understood (%s) %d" % (getattr(base, "failed", "no solver call found"), i))
        for i in range(10):
            rep.skip("effect", "main is not understood %d" % i)
        return
    names = {}
    for fl, d in base.options.items():
        if fl.startswith("-"):
            names[fl] = d
    for fl, ch in DOCUMENTED.items():
        if fl not in names:
            rep.violate("effect", "main:%s" % fl, "the documented option %s is not accepted" % fl)
            continue
        for v in ch or ():
            if "choices" in names[fl] and v not in names[fl]["choices"]:
                rep.violate("effect", "main:%s %s" % (fl, v), "the documented value %s of option %s is not accepted" % (v, fl))
        if ch is None and fl not in ("-v", "-a", "--forbid") and names[fl]["action"] == "store":
            rep.violate("effect", "main:%s" % fl, "the switch %s asks for a value" % fl)
    seen = set()
    single = []
    for fl, d in names.items():
        if id(d) in seen:
            continue
        seen.add(id(d))
        for v in values_of(d, fl):
            single.append((fl, v))
    # every value has an effect of its own
    be = effects(base, m.inlined)
    eff = {}
    for fl, v in single:
        c = m.run(((fl, v),))
        if getattr(c, "failed", None):
            rep.skip("effect", "main %s %s: %s" % (fl, v, c.failed))
            continue
        eff[fl, v] = effects(c, m.inlined)
    for (fl, v), e in eff.items():
        what = fl if v is True else "%s %s" % (fl, v)
        d = names[fl]
        cls = next((x for x in SAME.get(fl, ()) if v in x), (v,))
        others = [(w, e2) for (f2, w), e2 in eff.items() if f2 == fl and w != v]
        ok = True
        if e == be and None not in cls and not (d.get("default") is not None and d["default"] == C(v)):
            rep.violate("effect", "main:%s" % what, "with %s the program does exactly what it does without" % what)
            ok = False
        if None in cls and e != be:
            rep.violate("effect", "main:%s" % what, "%s names the default and changes what the program does" % what)
            ok = False
        for w, e2 in others:
            if w in cls and e2 != e:
                rep.violate("effect", "main:%s alias" % what, "%s and %s %s mean the same and are handled differently" % (what, fl, w))
                ok = False
            elif w not in cls and e2 == e and e != be:
                rep.violate("effect", "main:%s=%s" % tuple(sorted((what, "%s %s" % (fl, w)))), "%s and %s %s are handled alike" % (what, fl, w))
                ok = False
        if ok:
            rep.ok("effect", "main %s: %d call(s) differ" % (what, len(e ^ be)))
    # ... and every option means what it says, also beside another one
    table(rep, m, single)


def table(rep, m, single):
    configs = [()] + [(x,) for x in single] + [(a, b) for i, a in enumerate(single) for b in single[i + 1:] if a[0] != b[0] or a[0] == "--post-optimize"]
    configs += [(("--forbid", ALGOS[1].upper()),), (("--forbid", ALGOS[0]), ("--forbid", ALGOS[1])), (("-v", "12"),)]
    bads, goods = {}, {}
    for given in configs:
        if not all(fl in m.run(()).options for fl, v in given):
            continue
        c = m.run(given)
        if getattr(c, "failed", None):
            rep.skip("meaning", "%s: %s" % (line(given), c.failed))
            continue
        bad, good = judge(m, given)
        for opt, text in good:
            goods.setdefault((opt, text), []).append(given)
        for opt, text in bad:
            bads.setdefault((opt, text), []).append(given)
    for (opt, text), gs in sorted(bads.items()):
        g = min(gs, key=len)
        rep.violate("meaning", "main:%s: %s" % (opt, text), "not so with the command line options '%s' (%d of the combinations tried)" % (line(g), len(gs)))
    for (opt, text), gs in sorted(goods.items()):
        if (opt, text) not in bads:
            rep.ok("meaning", "%s: %s, in %d combinations of options" % (opt, text, len(gs)))


def line(given):
    return " ".join(fl if v is True else "%s %s" % (fl, v) for fl, v in given) or "none"


# ---- the programs of the single algorithms ------------------------------------------
CLI = {"-v": ("3", "0"), "-n": ("2", "4"), "-1": (None,), "-t": (None,), "-l": ("log.txt",), "-b": ("cost", "c", "vehicles", "K", "k", "C")}


def cli_program(repo, rep):
    f = repo.func("verypy.shared_cli", "cli")
    if len(f.params) < 3:
        return rep.skip("meaning", "parameters of cli")
    inl = {g.name for g in repo.all_functions() if g.module.dotted == "verypy.shared_cli" and g.name not in OPAQUE + ("get_a_problem_file_list",)}

    def run(args, last):
        c = CCP(repo, argv=("l", "list", tuple(C(x) for x in ["prog"] + args + [last])), opaque=OPAQUE + ("get_a_problem_file_list",),
                models=models({"get_a_problem_file_list": lambda s, a, k: ("l", "list", () if mentions(tuple(a), C("7")) else (X("file", "path"),))}), inline=lambda t: t.module.dotted in MODS)
        c.run(f, {f.params[0]: C("name"), f.params[1]: C("about"), f.params[2]: X("param", "algorithm")})
        c.by = {}
        for call in c.calls:
            c.by.setdefault("solver" if isinstance(call[0], tuple) else call[0], []).append(call)
        return c
    singles = [[k] + ([v] if v is not None else []) for k, vs in CLI.items() for v in vs]
    lines = [[]] + singles + [a + b for a in singles for b in singles if a[0] != b[0]]
    bads, goods = {}, {}
    for args in lines:
        for last in ("p.vrp", "7"):
            what = " ".join(args) or "none"
            try:
                c = run(args, last)
            except GiveUp as e:
                rep.skip("meaning", "cli %s %s: %s" % (what, last, e))
                continue

            def want(opt, ok, text):
                if ok is not None:
                    (goods if ok else bads).setdefault((opt, text), []).append(what + " " + last)
            g = {args[i]: (args[i + 1] if CLI[args[i]][0] is not None else True) for i in range(len(args)) if args[i] in CLI and (i == 0 or args[i - 1] not in CLI or CLI[args[i - 1]][0] is None)}
            if not c.by.get("solver"):
                want("problem", False, "the problem given is solved")
                continue
            K = g.get("-b", "c").lower() in ("k", "vehicles")
            n = int(g.get("-n", 1))
            where = "a file" if last == "p.vrp" else "a random problem"
            want("-n", len(c.by["solver"]) == n if all(x[4] == c.by["solver"][0][4] for x in c.by["solver"]) else None, "the algorithm is run as often as asked for on %s" % where)
            for call in c.by["solver"]:
                v = boolean(argument(call, "minimize_K", 8))
                want("-b", None if v is None else v == K, "the objective asked for reaches the algorithm on %s" % where)
                v = boolean(argument(call, "single", 7))
                want("-1", None if v is None else v == ("-1" in g), "a single iteration is asked for exactly with -1 on %s" % where)
            prints = c.by.get("print", ())
            timed = any(mentions(x[1], ("x", "clock")) for x in prints)
            v = int(g["-v"]) if "-v" in g else None
            if "-t" in g:
                want("-t", timed, "the elapsed time is printed on %s" % where)
            elif v is not None and v < 1:
                want("-t", not timed, "the elapsed time is not printed unless asked for on %s" % where)
            lv = c.by.get("basicConfig", [])
            if v is not None:
                want("-v", any(mentions(x[2], C(v)) or x[2] and any(mentions(k, C(v)) for k in x[2]) for x in lv) if v else bool(lv), "the verbosity reaches the logger on %s" % where)
                if "-l" in g:
                    want("-l", any(mentions(x[1], C("log.txt")) or mentions(x[2], C("log.txt")) for x in c.by.get("logging.FileHandler", c.by.get("FileHandler", []))),
                         "the debug output goes to the file asked for on %s" % where)
            if "-l" not in g:
                want("-l", not c.by.get("logging.FileHandler", c.by.get("FileHandler")), "no log file unless asked for")
            usage = any(any(isc(a) and isinstance(a[2], str) and "to generate a random problem" in a[2] or mentions(a, C("to generate a random problem")) for a in x[1]) or
                        "to generate a random problem" in repr(x[1]) for x in prints)
            want("problem", not usage, "no usage message when %s is solved" % where)
    for (opt, text), gs in sorted(bads.items()):
        rep.violate("meaning", "cli:%s: %s" % (opt, text), "not so with '%s' (%d of the command lines tried)" % (min(gs, key=len), len(gs)))
    for (opt, text), gs in sorted(goods.items()):
        if (opt, text) not in bads:
            rep.ok("meaning", "cli %s: %s, in %d command lines" % (opt, text, len(gs)))


# ---- the file list -----------------------------------------------------------------
def files(repo, rep):
    f = repo.func("verypy.shared_cli", "get_a_problem_file_list")
    if len(f.params) < 2:
        return rep.skip("effect", "parameters of get_a_problem_file_list")
    res = {}
    for r in (False, True):
        c = CCP(repo, opaque=OPAQUE, models={"walk": lambda s, a, k: X("walked", *a)}, inline=lambda t: False)
        try:
            v = c.run(f, {f.params[0]: ("l", "list", (X("param", "given"),)), f.params[1]: C(r)})
        except GiveUp as e:
            return rep.skip("effect", "get_a_problem_file_list: %s" % e)
        looked = [x[1][0] for x in c.calls if x[0] in ("isdir", "isfile", "glob", "path.isdir", "path.isfile", "listdir", "scandir") and x[1]]
        res[r] = (any(sub(x, "walked") for x in looked), any(outside(x) for x in looked), any(x[0] in ("rglob", "iglob") for x in c.calls))
    if res[True][0]:
        rep.ok("effect", "get_a_problem_file_list: folders below the given ones are searched with recursive")
    elif res[True][2]:
        rep.skip("effect", "get_a_problem_file_list: how folders are searched")
    else:
        rep.violate("effect", "get_a_problem_file_list:recursive", "folders below the given ones are not searched")
    if res[False][0]:
        rep.violate("effect", "get_a_problem_file_list:plain", "folders below the given ones are searched without being asked for")
    for r in (False, True):
        if res[r][1]:
            rep.ok("effect", "get_a_problem_file_list: the given paths themselves are looked at (recursive=%s)" % r)
        elif res[r][2]:
            rep.skip("effect", "get_a_problem_file_list: given paths (recursive=%s)" % r)
        else:
            rep.violate("effect", "get_a_problem_file_list:given (recursive=%s)" % r, "the given paths themselves are not looked at")


def outside(v):
    """the given path occurs in v other than as what was walked"""
    if isinstance(v, (tuple, frozenset)):
        if isinstance(v, tuple) and v[:2] == ("x", "walked"):
            return False
        if v == ("x", "param", "given"):
            return True
        return any(outside(x) for x in v)
    return False


def sub(v, head):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and x[:2] == ("x", head):
                return True
            todo.extend(x)
    return False


def run(repo, rep):
    rep.rule("effect", "each option and each of its values makes the program do something of its own; aliases the same", 15)
    rep.rule("meaning", "each option reaches the calls its meaning is due at, alone and beside every other option", 15)
    for fn in (main_program, cli_program, files):
        fn(repo, rep)
    for r, mn in rep.required.items():
        have = len(rep.instances[r]) + sum(1 for u in rep.undecided if u.startswith(r + ":"))
        for i in range(have, mn):
            rep.skip(r, "not recognised (%d)" % i)
    rep.assume("argparse assigns options as declared; combinations of at most two options (and repeated --forbid, --post-optimize)")
    return {"scope": "VeRyPy.main, shared_cli.cli and the functions of shared_cli they use, under every option value and every pair of them"}
