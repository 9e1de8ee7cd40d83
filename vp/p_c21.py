"""C21: every name, import, attribute and call signature exists on every path."""
import ast, json, os, re, subprocess, builtins
from .core import Func, ClassInfo, Module, AnalysisBroken, BUILTINS, bind_args, own_walk, local_names, src_of, calls_in
from .cfg import CFG, node_defs, node_uses, _free_loads, _tnames
from .pointsto import PointsTo

# optional third-party packages whose absence the package itself handles
OPTIONAL = {"gurobipy", "sklearn", "orderedset", "scipy", "matplotlib", "PIL", "pylab", "Tkinter", "tkinter",
            "cPickle", "Queue", "llist", "pygame", "PyQt5", "gooey", "networkx", "natsort"}
VENV = "/opt/venv/bin/python"


def query_ext(names, sigs):
    """Existence / signatures of third-party and standard library names, asked of the
    installed libraries themselves (nothing of the repository is imported)."""
    prog = r'''
import importlib, inspect, json, sys, warnings
warnings.simplefilter("ignore")
q = json.load(sys.stdin); out = {"names": {}, "sigs": {}}
def find(d):
    parts = d.split(".")
    for k in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:k]))
        except ImportError:
            continue
        except Exception:
            return "skip", None
        for p in parts[k:]:
            try:
                o = getattr(o, p)
            except AttributeError:
                return "missing", None
            except Exception:
                return "skip", None
        return "ok", o
    return "nomodule", None
for n in q["names"]:
    out["names"][n] = find(n)[0]
for n in q["sigs"]:
    st, o = find(n)
    r = None
    if st == "ok":
        try:
            s = inspect.signature(o)
            r = [[p.name, p.kind.name, p.default is not p.empty] for p in s.parameters.values()]
        except Exception:
            r = None
    out["sigs"][n] = r
json.dump(out, sys.stdout)
'''
    py = VENV if os.path.exists(VENV) else "python3"
    p = subprocess.run([py, "-c", prog], input=json.dumps({"names": sorted(names), "sigs": sorted(sigs)}),
                       capture_output=True, text=True, cwd="/", timeout=300)
    if p.returncode:
        raise AnalysisBroken("library query failed: " + p.stderr[-400:])
    return json.loads(p.stdout)


def enclosing(n):
    while n is not None and not hasattr(n, "_func"):
        n = getattr(n, "_parent", None)
    return n._func if n is not None else None


def guarded_import(n):
    """Import inside a try whose handlers catch ImportError."""
    c, p = n, getattr(n, "_parent", None)
    while p is not None:
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                t = src_of(h.type) if h.type is not None else ""
                if h.type is None or "ImportError" in t or "ModuleNotFoundError" in t or t in ("Exception", "BaseException"):
                    return True
        c, p = p, getattr(p, "_parent", None)
    return False


NOKW = {"next", "len", "abs", "iter", "ord", "chr", "hash", "id", "isinstance", "issubclass", "callable", "getattr",
        "hasattr", "setattr", "repr", "any", "all", "bin", "hex", "divmod", "range", "reversed", "format"}


def run(repo, rep):
    rep.rule("name-bound", "every name that is read resolves to a local, enclosing, module or builtin binding", 2000)
    rep.rule("import-exists", "every imported module and symbol exists (optional packages only under an import guard)", 100)
    rep.rule("library-attribute", "every attribute taken from an imported module exists in the installed module", 150)
    rep.rule("call-arity", "every call of a package function or library function binds to its signature", 400)
    rep.rule("object-attribute", "every attribute read from an object is an attribute some class in reach defines", 300)
    rep.rule("format-arity", "a literal format string gets as many values as it asks for", 100)
    rep.rule("bound-on-every-path", "a local that is read was assigned on every feasible path to the read "
             "(branch conditions correlated; loops assumed to run)", 1500)
    pt = PointsTo(repo)
    ext_names, ext_uses, sig_names, sig_uses = set(), [], set(), []
    # ------------------------------------------------------------ names/imports
    for m in repo.modules.values():
        modnames = set(m.imports) | set(m.top) | set(m.assigns) | BUILTINS
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and enclosing(n) is None:
                modnames.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name and enclosing(n) is None:
                modnames.add(n.name)
            if isinstance(n, ast.Global):
                modnames |= set(n.names)
        local_imp = {}
        for f in m.functions.values():
            pass
        star = bool([s for s in m.star_imports if s not in repo.modules])
        for s in m.star_imports:
            sm = repo.modules.get(s)
            if sm:
                modnames |= set(sm.top) | set(sm.assigns) | set(sm.imports)
        toplevel_imports = set()
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and enclosing(n) is None:
                for a in n.names:
                    toplevel_imports.add((a.asname or a.name).split(".")[0])
        fn_imports = set(m.imports) - toplevel_imports
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                _check_import(repo, rep, m, n, ext_names, ext_uses)
                continue
            if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)):
                continue
            ok = False
            # comprehension / lambda scopes
            p, c = getattr(n, "_parent", None), n
            while p is not None and not ok:
                if isinstance(p, ast.Lambda):
                    a = p.args
                    ok = n.id in {x.arg for x in a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    ok = any(n.id in {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)} for g in p.generators)
                elif isinstance(p, ast.ClassDef):
                    ok = any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n.id for x in ast.walk(p)) and enclosing(n) is None
                c, p = p, getattr(p, "_parent", None)
            f = enclosing(n)
            g = f
            while g is not None and not ok:
                ok = n.id in local_names(g)
                g = g.parent
            if not ok:
                ok = n.id in modnames and (n.id not in fn_imports or n.id in m.top or n.id in m.assigns or n.id in BUILTINS)
            w = "%s:%s:%s" % (m.rel, f.qualname if f else "<module>", n.id)
            if ok or star:
                rep.ok("name-bound", w)
            elif guarded_name(n):
                rep.ok("name-bound", w + " (NameError handled)")
            else:
                rep.violate("name-bound", w, "%s:%d name '%s' is not bound anywhere it can be seen" % (m.rel, n.lineno, n.id))
        # attributes of modules
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                scope = enclosing(n) or m
                b = repo.resolve_expr(scope, n.value)
                if isinstance(b, tuple) and b[0] == "module":
                    if b[1] in repo.modules:
                        if repo.resolve_sym(b[1], n.attr) is None:
                            rep.violate("library-attribute", "%s:%s" % (m.rel, src_of(n)), "%s:%d module %s has no '%s'" % (m.rel, n.lineno, b[1], n.attr))
                        else:
                            rep.ok("library-attribute", "%s:%s" % (m.rel, src_of(n)))
                    else:
                        ext_names.add(b[1] + "." + n.attr)
                        ext_uses.append(("library-attribute", m, n, b[1] + "." + n.attr))
    # ------------------------------------------------------------ call arity
    for f0, call, scope in _all_calls(repo):
        r = repo.resolve_expr(scope, call.func)
        tgts, skip_self = [], False
        if isinstance(r, Func):
            tgts = [r]
            skip_self = r.cls is not None and not _static(r)
        elif isinstance(r, ClassInfo):
            i = r.methods.get("__init__")
            if i:
                tgts, skip_self = [i], True
        elif isinstance(r, tuple) and r[0] == "ext":
            nm = r[1]
            if nm.startswith("builtins.") and nm[9:] in NOKW:
                kw = [k.arg for k in call.keywords if k.arg]
                key = "%s:%s:%s" % (scope_mod(scope).rel, qn(scope), src_of(call.func))
                if kw:
                    rep.violate("call-arity", key + "(%s=)" % ",".join(kw), "%s:%d builtin %s() takes no keyword arguments (%s)" % (scope_mod(scope).rel, call.lineno, nm[9:], kw))
                else:
                    rep.ok("call-arity", key)
            else:
                sig_names.add(nm)
                sig_uses.append((scope, call, nm))
            continue
        elif isinstance(call.func, ast.Attribute) and r is None and isinstance(scope, Func):
            # method of a package class, by name
            cands = [mm for md in repo.modules.values() for c in md.classes.values() for q, mm in c.methods.items() if q == call.func.attr]
            libm = hasattr(list, call.func.attr) or hasattr(dict, call.func.attr) or hasattr(set, call.func.attr) or hasattr(str, call.func.attr)
            import collections
            libm = libm or hasattr(collections.deque, call.func.attr)
            if cands and not libm:
                bad = [arity_error(t, call, True) for t in cands]
                key = "%s:%s:%s" % (scope_mod(scope).rel, qn(scope), src_of(call.func))
                if all(bad):
                    rep.violate("call-arity", key, "%s:%d %s: %s" % (scope_mod(scope).rel, call.lineno, src_of(call)[:80], bad[0]))
                else:
                    rep.ok("call-arity", key)
            continue
        elif isinstance(scope, Func):
            ts = pt.callees(scope, call)
            if ts:
                bad = {t: arity_error(t, call, False) for t in ts}
                key = "%s:%s:%s" % (scope_mod(scope).rel, qn(scope), src_of(call.func))
                if all(bad.values()):
                    rep.violate("call-arity", key, "%s:%d %s: %s" % (scope_mod(scope).rel, call.lineno, src_of(call)[:80], list(bad.values())[0]))
                else:
                    rep.ok("call-arity", key)
            continue
        for t in tgts:
            e = arity_error(t, call, skip_self)
            key = "%s:%s:%s" % (scope_mod(scope).rel, qn(scope), src_of(call.func))
            if e:
                rep.violate("call-arity", key, "%s:%d %s: %s" % (scope_mod(scope).rel, call.lineno, src_of(call)[:80], e))
            else:
                rep.ok("call-arity", key)
    # ------------------------------------------------------------ ask the libraries
    top = {x.split(".")[0] for x in ext_names | sig_names}
    res = query_ext(ext_names | top, sig_names)
    nomod = {t for t in top if res["names"].get(t) in ("nomodule", "skip")}
    for rule, m, n, d in ext_uses:
        st = res["names"].get(d)
        key = "%s:%s" % (m.rel, d)
        if d.split(".")[0] in nomod:
            if rule == "import-exists":
                if guarded_import(n) or d.split(".")[0] in OPTIONAL:
                    rep.ok(rule, key + " (optional)")
                else:
                    rep.violate(rule, key, "%s:%d package '%s' does not exist" % (m.rel, n.lineno, d.split(".")[0]))
            continue
        if st == "skip":
            rep.skip(rule, key)
        elif st in ("missing", "nomodule"):
            if guarded_import(n) or guarded_attr(n) or version_guarded(n):
                rep.ok(rule, key + " (guarded)")
            else:
                rep.violate(rule, key, "%s:%d '%s' does not exist in the installed library" % (m.rel, n.lineno, d))
        else:
            rep.ok(rule, key)
    for scope, call, nm in sig_uses:
        s = res["sigs"].get(nm)
        key = "%s:%s:%s" % (scope_mod(scope).rel, qn(scope), nm)
        if s is None:
            continue
        e = sig_error(s, call)
        if e:
            rep.violate("call-arity", key, "%s:%d %s: %s" % (scope_mod(scope).rel, call.lineno, src_of(call)[:80], e))
        else:
            rep.ok("call-arity", key)
    object_attributes(repo, rep)
    formats(repo, rep)
    bound(repo, rep)
    rep.assume("dynamically created attributes (setattr, exec) are not used; optional packages that are not "
               "installed here (%s) are taken at their word" % ", ".join(sorted(nomod)))
    return {"scope": "%d modules, %d library names asked" % (len(repo.modules), len(ext_names | sig_names))}


def guarded_attr(n):
    c, p = n, getattr(n, "_parent", None)
    while p is not None:
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                t = src_of(h.type) if h.type is not None else ""
                if h.type is None or "AttributeError" in t or t in ("Exception", "BaseException"):
                    return True
        c, p = p, getattr(p, "_parent", None)
    return False


def version_guarded(n):
    """In a branch chosen by the interpreter version."""
    p = getattr(n, "_parent", None)
    while p is not None:
        if isinstance(p, ast.If) and "version_info" in src_of(p.test):
            return True
        p = getattr(p, "_parent", None)
    return False


def guarded_name(n):
    c, p = n, getattr(n, "_parent", None)
    while p is not None:
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                t = src_of(h.type) if h.type is not None else ""
                if "NameError" in t:
                    return True
        c, p = p, getattr(p, "_parent", None)
    return False


def scope_mod(s):
    return s.module if isinstance(s, Func) else s


def qn(s):
    return s.qualname if isinstance(s, Func) else "<module>"


def _static(f):
    return any(getattr(d, "id", "") == "staticmethod" for d in f.node.decorator_list)


def _all_calls(repo):
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                f = enclosing(n)
                yield m, n, (f or m)


def arity_error(t, call, skip_self):
    if t.node.decorator_list and not _static(t):
        return None
    names = list(t.posargs)
    if skip_self and names:
        names = names[1:]
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if len(call.args) > len(names) and not t.vararg:
        return "%d positional arguments for %s(%s)" % (len(call.args), t.qualname, ", ".join(names))
    got = set(names[:len(call.args)])
    for k in call.keywords:
        if k.arg in got:
            return "argument '%s' of %s given twice" % (k.arg, t.qualname)
        if k.arg not in names and k.arg not in t.kwonly and not t.kwarg:
            return "%s has no parameter '%s'" % (t.qualname, k.arg)
        got.add(k.arg)
    miss = [p for p in names + t.kwonly if p not in got and p not in t.defaults]
    if miss:
        return "argument '%s' of %s is missing" % (miss[0], t.qualname)
    return None


def sig_error(sig, call):
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [p for p in sig if p[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD")]
    var = any(p[1] == "VAR_POSITIONAL" for p in sig)
    kwv = any(p[1] == "VAR_KEYWORD" for p in sig)
    if len(call.args) > len(pos) and not var:
        return "takes at most %d positional arguments" % len(pos)
    got = {p[0] for p in pos[:len(call.args)]}
    names = {p[0]: p[1] for p in sig}
    for k in call.keywords:
        if k.arg in got or (names.get(k.arg) in (None, "POSITIONAL_ONLY") and not kwv):
            return "unexpected argument '%s'" % k.arg
        got.add(k.arg)
    miss = [p[0] for p in sig if p[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "KEYWORD_ONLY") and not p[2] and p[0] not in got]
    if miss:
        return "argument '%s' is missing" % miss[0]
    return None


def _check_import(repo, rep, m, n, ext_names, ext_uses):
    if isinstance(n, ast.Import):
        items = [(a.name, None) for a in n.names]
    else:
        base = n.module or ""
        if n.level:
            pk = m.dotted.split(".")
            if not m.is_pkg:
                pk = pk[:-1]
            pk = pk[:len(pk) - (n.level - 1)]
            base = ".".join(pk + ([n.module] if n.module else []))
        items = [(base, a.name) for a in n.names]
    for base, sym in items:
        key = "%s:%s%s" % (m.rel, base, "." + sym if sym else "")
        if base.split(".")[0] == "verypy" or base in repo.modules:
            if sym == "*" or (sym is None and base in repo.modules):
                good = base in repo.modules
            else:
                good = repo.resolve_sym(base, sym) is not None if base in repo.modules else False
                if not good and base + "." + (sym or "") in repo.modules:
                    good = True
            if good:
                rep.ok("import-exists", key)
            elif guarded_import(n):
                rep.ok("import-exists", key + " (guarded)")
            else:
                rep.violate("import-exists", key, "%s:%d '%s' does not exist in %s" % (m.rel, n.lineno, sym or base, base))
        else:
            d = base if sym in (None, "*") else base + "." + sym
            if base == "__future__":
                continue
            ext_names.add(d)
            ext_uses.append(("import-exists", m, n, d))


def object_attributes(repo, rep):
    universe = set()
    import collections, io, argparse, logging
    for t in (list, dict, set, frozenset, str, bytes, tuple, int, float, complex, collections.deque, collections.OrderedDict,
              collections.Counter, collections.defaultdict, io.TextIOWrapper, io.StringIO, Exception, KeyboardInterrupt, BaseException, OSError, argparse.Namespace,
              argparse.ArgumentParser, logging.Logger, logging.Handler, type(lambda: 0), type(repo), slice, type((lambda: 0).__code__)):
        universe |= set(dir(t))
    universe |= {"lineno", "f_code", "f_lineno", "f_back", "f_globals", "args", "errno", "filename", "message", "stdout", "stdin", "stderr",
                 "returncode",
                 # solver model attributes (dynamic in the vendor's library)
                 "Runtime", "X", "x", "objVal", "ObjVal", "params", "Params", "status", "Status", "SolCount", "MIPGap",
                 "ObjBound", "objBound", "NumVars", "NumConstrs", "VarName", "varName", "RHS", "Pi", "RC", "Slack", "communicate", "wait", "pid", "terminate", "kill", "poll"}
    defined = set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for x in n.body:
                    if isinstance(x, ast.FunctionDef):
                        defined.add(x.name)
                    elif isinstance(x, ast.Assign):
                        for t in x.targets:
                            defined |= _tnames(t)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                defined.add(n.attr)
            if isinstance(n, ast.Call):
                nm = src_of(n.func).split(".")[-1]
                if nm == "add_argument":
                    for a in n.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            defined.add(a.value.lstrip("-").replace("-", "_"))
                    for k in n.keywords:
                        if k.arg == "dest" and isinstance(k.value, ast.Constant):
                            defined.add(k.value.value)
                if nm == "namedtuple" and len(n.args) == 2:
                    v = n.args[1]
                    if isinstance(v, ast.Constant) and isinstance(v.value, str):
                        defined |= set(v.value.replace(",", " ").split())
                    elif isinstance(v, (ast.List, ast.Tuple)):
                        defined |= {x.value for x in v.elts if isinstance(x, ast.Constant)}
    # attributes of library objects: whatever the classes of the imported libraries offer
    mods = set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                mods |= {a.name for a in n.names}
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                mods.add(n.module)
    mods = {x for x in mods if x.split(".")[0] != "verypy"}
    r = subprocess.run([VENV if os.path.exists(VENV) else "python3", "-c", """
import json, sys, importlib, warnings
warnings.simplefilter("ignore")
s=set(); missing=[]
import re
s|=set(dir(re.compile("")))|set(dir(re.match("","")))
for mn in json.load(sys.stdin):
    try:
        mo=importlib.import_module(mn)
    except Exception:
        missing.append(mn.split(".")[0]); continue
    for k in dir(mo):
        try: o=getattr(mo,k)
        except Exception: continue
        if isinstance(o,type): s|=set(dir(o))
    if mn=="llist":
        d=mo.dllist([1]); s|=set(dir(d))|set(dir(d.first))
json.dump([sorted(s),missing],sys.stdout)"""], input=json.dumps(sorted(mods)), capture_output=True, text=True, cwd="/")
    if r.returncode:
        raise AnalysisBroken("library query failed: " + r.stderr[-300:])
    lib, missing = json.loads(r.stdout)
    lib, missing = set(lib), set(missing)
    for m in repo.modules.values():
        guiish = "visualizers" in m.rel or m.rel.endswith("Gui.py") or any(
            isinstance(n, (ast.Import, ast.ImportFrom)) and
            ({a.name.split(".")[0] for a in n.names} | {(getattr(n, "module", "") or "").split(".")[0]}) & missing
            for n in ast.walk(m.tree))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                scope = enclosing(n) or m
                b = repo.resolve_expr(scope, n.value)
                if b is not None and not isinstance(b, ClassInfo) and not (isinstance(b, tuple) and b[0] == "const"):
                    continue
                key = "%s:%s:.%s" % (m.rel, qn(scope), n.attr)
                if isinstance(b, ClassInfo):
                    cd = {x.name for x in b.node.body if isinstance(x, ast.FunctionDef)}
                    for x in b.node.body:
                        if isinstance(x, ast.Assign):
                            for t in x.targets:
                                cd |= _tnames(t)
                    if n.attr in cd or b.node.bases or n.attr.startswith("__"):
                        rep.ok("object-attribute", key)
                    else:
                        rep.violate("object-attribute", key, "%s:%d class %s has no attribute '%s'" % (m.rel, n.lineno, b.name, n.attr))
                    continue
                if n.attr in defined or n.attr in universe or n.attr in lib or (n.attr.endswith('_') and not n.attr.startswith('_')):
                    rep.ok("object-attribute", key)
                elif guiish:
                    rep.skip("object-attribute", key + " (GUI/solver object)")
                elif guarded_attr(n):
                    rep.ok("object-attribute", key)
                else:
                    rep.violate("object-attribute", key, "%s:%d no object in reach has an attribute '%s' (%s)" % (m.rel, n.lineno, n.attr, src_of(n)))


def formats(repo, rep):
    spec = re.compile(r"%(\([^)]*\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])")
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                s = _const_str(n.left)
                if s is None:
                    continue
                if any(g[0] for g in (x.groups() for x in spec.finditer(s))):
                    continue
                cnt = sum((0 if x.group(4) == "%" else 1) + (x.group(2) == "*") + (x.group(3) == "*") for x in spec.finditer(s))
                scope = enclosing(n) or m
                key = "%s:%s:%s" % (m.rel, qn(scope), s[:40].replace("\n", " "))
                if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
                    got = len(n.right.elts)
                elif isinstance(n.right, (ast.Name, ast.Attribute, ast.Subscript, ast.Call, ast.BinOp)):
                    if cnt >= 1:
                        rep.ok("format-arity", key)
                        continue
                    got = 1
                else:
                    got = 1
                if got == cnt:
                    rep.ok("format-arity", key)
                else:
                    rep.violate("format-arity", key, "%s:%d format string asks for %d values, gets %d" % (m.rel, n.lineno, cnt, got))


def _const_str(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = _const_str(e.left), _const_str(e.right)
        if a is not None and b is not None:
            return a + b
    return None


# ------------------------------------------------------------------ definite assignment
def bound(repo, rep):
    for f in repo.all_functions():
        if "visualizers" in f.module.rel or f.module.rel.endswith("Gui.py"):
            continue
        cfg = CFG(f, repo)
        names = local_names(f) - set(f.params) - {f.vararg, f.kwarg}
        if not names:
            continue
        bad = set()
        for n, v in unbound_reads(cfg, f, names, repo):
            bad.add(v)
            rep.violate("bound-on-every-path", "%s:%s" % (f.where, v), "%s local '%s' may be read before it is assigned" % (f.loc(n.ast), v))
        for v in names - bad:
            rep.ok("bound-on-every-path", "%s:%s" % (f.where, v))


def guarded_uses(n, v):
    """Occurrences of v read by node n: list of required facts (test text, outcome)."""
    out = []
    a = n.ast
    if a is None or n.kind in ("loop", "dispatch", "iter"):
        return out
    if n.kind == "handler":
        a = a.type
    elif n.kind == "iterinit":
        a = a.iter
    if a is None:
        return out

    def go(e, req):
        if isinstance(e, ast.Name):
            if e.id == v and isinstance(e.ctx, ast.Load):
                out.append(req)
            return
        if isinstance(e, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(e, ast.BoolOp):
            r = req
            for x in e.values:
                go(x, r)
                r = r + facts(x, isinstance(e.op, ast.And))
            return
        if isinstance(e, ast.IfExp):
            go(e.test, req)
            go(e.body, req + facts(e.test, True))
            go(e.orelse, req + facts(e.test, False))
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if any(isinstance(t, ast.Name) and t.id == v for g in e.generators for t in ast.walk(g.target)):
                go(e.generators[0].iter, req)
                return
        for c in ast.iter_child_nodes(e):
            go(c, req)

    def facts(t, truth):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return facts(t.operand, not truth)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == truth:
                return [f for x in t.values for f in facts(x, truth)]
            return []
        return [(src_of(t), truth)]
    if isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name) and a.target.id == v:
        out.append([])
    go(a, [])
    return out


def _noreturn(n, f, repo):
    a = n.ast
    if n.kind == "stmt" and isinstance(a, ast.Expr) and isinstance(a.value, ast.Call):
        r = repo.callee(f, a.value)
        if isinstance(r, tuple) and r[0] == "ext" and r[1] in ("sys.exit", "os._exit", "builtins.exit", "builtins.quit", "os.abort"):
            return True
    return False


def _exhaustive_tails(f, v):
    """Tests that end an if/elif chain (two or more tests, no else) whose branches all assign v."""
    out = set()

    def assigns(body):
        return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == v for s in body for x in ast.walk(s)) or \
            any(isinstance(x, (ast.Continue, ast.Return, ast.Raise, ast.Break)) for s in body[-1:] for x in [s])
    for n in own_walk(f.node):
        if isinstance(n, ast.If):
            k, c, good = 1, n, assigns(n.body)
            while len(c.orelse) == 1 and isinstance(c.orelse[0], ast.If):
                c = c.orelse[0]
                k += 1
                good = good and assigns(c.body)
            if k >= 2 and good and not c.orelse:
                for x in ast.walk(c.test):
                    out.add(id(x))
    return out


def unbound_reads(cfg, f, names, repo):
    """Reads of locals reachable from the entry with the local unassigned. Paths that
    leave a loop without running it, run off the end of an exhaustive-looking chain of
    tests, or take contradictory outcomes of the same test are not considered."""
    out = []
    defs = {n.id: node_defs(n) for n in cfg.nodes}
    tests = {}
    for n in cfg.nodes:
        if n.kind == "cond":
            t, pos = n.ast, True
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, pos = t.operand, not pos
            eq = None
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
                eq = src_of(t.left)
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Is):
                eq = None
            tests[n.id] = (src_of(t), pos, frozenset(_free_loads(t)), any(isinstance(x, ast.Call) for x in ast.walk(t)), eq)
    whiles = {}
    bodies = {}
    for w in own_walk(f.node):
        if isinstance(w, ast.While):
            for x in ast.walk(w.test):
                whiles[id(x)] = w
            bodies[id(w)] = {id(x) for s in w.body for x in ast.walk(s)}
    for v in sorted(names):
        uses = {}
        for n in cfg.nodes:
            g = guarded_uses(n, v)
            if g:
                uses[n.id] = g
        if not uses:
            continue
        rel, st = set(uses), [n for n in cfg.nodes if n.id in uses]
        while st:
            n = st.pop()
            for p, lab in n.pred:
                if p.id in rel:
                    continue
                if v in defs[p.id] and lab != "exc" and not (p.kind == "iter" and lab is not True):
                    continue
                rel.add(p.id)
                st.append(p)
        if cfg.entry.id not in rel:
            continue
        tails = _exhaustive_tails(f, v)
        seen = {(cfg.entry.id, frozenset(), frozenset())}
        st = [(cfg.entry, frozenset(), frozenset())]
        steps, hit = 0, None
        while st and steps < 40000:
            n, facts, entered = st.pop()
            steps += 1
            if n.id in uses:
                fd = {(x[0], x[1]) for x in facts}
                if any(all((t, not o) not in fd for t, o in req) for req in uses[n.id]):
                    hit = n
                    break
            isdef = v in defs[n.id] and n.kind != "iter"
            nf = facts
            dd = defs[n.id]
            if dd:
                nf = frozenset(x for x in facts if not (x[2] & dd))
            if n.kind == "stmt" and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Constant) and len(n.ast.targets) == 1 and isinstance(n.ast.targets[0], ast.Name):
                nm = n.ast.targets[0].id
                nf = nf | {(nm, bool(n.ast.value.value), frozenset([nm]))}
            if _noreturn(n, f, repo):
                continue
            for s, lab in n.succ:
                if s.id not in rel or (isdef and lab != "exc"):
                    continue
                ff, ent = nf, entered
                if n.kind == "cond" and lab in (True, False):
                    t, pos, tv, hc, eq = tests[n.id]
                    o = lab if pos else not lab
                    if id(n.ast) in tails and lab is False:
                        continue
                    if not hc:
                        if any(x[0] == t and x[1] != o for x in nf):
                            continue
                        if eq is not None and o is False:
                            others = {x[0] for x in nf if x[1] is False and x[0].startswith(eq + " == ") and x[0] != t}
                            if others and not (s.kind == "cond" and tests[s.id][4] == eq):
                                continue
                        ff = nf | {(t, o, tv)}
                    w = whiles.get(id(n.ast))
                    if w is not None and id(w) not in entered:
                        inb = s.ast is not None and (id(s.ast) in bodies[id(w)])
                        intest = s.kind == "cond" and whiles.get(id(s.ast)) is w
                        if inb:
                            ent = entered | {id(w)}
                        elif not intest:
                            continue
                if n.kind == "iter":
                    if lab is True:
                        if v in defs[n.id]:
                            continue
                        ent = entered | {n.id}
                    elif lab is False and n.id not in entered:
                        continue
                k = (s.id, ff, ent)
                if k not in seen:
                    seen.add(k)
                    st.append((s, ff, ent))
        if hit is not None:
            out.append((hit, v))
    return out
