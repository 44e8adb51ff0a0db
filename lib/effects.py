"""Where values that differ from run to run can come from, and where they go: a whole-package provenance and taint analysis over the syntax tree."""
from __future__ import annotations

import ast

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time",
         "time.process_time_ns", "time.thread_time", "time.ctime", "time.strftime", "time.localtime", "time.gmtime", "time.asctime",
         "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "pandas.Timestamp.now",
         "pandas.Timestamp.today", "os.getpid", "os.getppid", "os.urandom", "os.getenv", "os.getlogin", "os.environ.get", "uuid.uuid1", "uuid.uuid4",
         "socket.gethostname", "platform.node", "getpass.getuser", "threading.get_ident", "threading.get_native_id", "secrets.token_bytes",
         "secrets.token_hex", "secrets.randbelow", "secrets.choice", "secrets.randbits", "builtins.id", "os.times", "os.getloadavg"}
CLOCK_ATTR = {"os.environ"}
GENERATORS = {"numpy.random.default_rng": "seed", "numpy.random.RandomState": "seed", "random.Random": "x", "numpy.random.PCG64": "seed",
              "numpy.random.MT19937": "seed", "numpy.random.Philox": "seed", "numpy.random.SFC64": "seed", "numpy.random.PCG64DXSM": "seed",
              "numpy.random.SeedSequence": "entropy"}
# seed keyword(s), position of it (None: keyword only), condition under which it matters
SHUFFLE = ("shuffle", False)
NEEDS = {
    "sklearn.cluster.KMeans": (("random_state",), None, None), "sklearn.cluster.MiniBatchKMeans": (("random_state",), None, None),
    "sklearn.cluster.BisectingKMeans": (("random_state",), None, None),
    "sklearn.cluster.k_means": (("random_state",), None, None), "sklearn.cluster.kmeans_plusplus": (("random_state",), None, None),
    "sklearn.cluster.SpectralClustering": (("random_state",), None, None),
    "sklearn.model_selection.KFold": (("random_state",), None, SHUFFLE), "sklearn.model_selection.StratifiedKFold": (("random_state",), None, SHUFFLE),
    "sklearn.model_selection.StratifiedGroupKFold": (("random_state",), None, SHUFFLE),
    "sklearn.model_selection.RepeatedKFold": (("random_state",), None, None), "sklearn.model_selection.RepeatedStratifiedKFold": (("random_state",), None, None),
    "sklearn.model_selection.ShuffleSplit": (("random_state",), None, None), "sklearn.model_selection.StratifiedShuffleSplit": (("random_state",), None, None),
    "sklearn.model_selection.GroupShuffleSplit": (("random_state",), None, None),
    "sklearn.model_selection.train_test_split": (("random_state",), None, ("shuffle", True)),
    "sklearn.model_selection.RandomizedSearchCV": (("random_state",), None, None),
    "sklearn.model_selection.HalvingRandomSearchCV": (("random_state",), None, None),
    "sklearn.model_selection.ParameterSampler": (("random_state",), None, None),
    "sklearn.svm.SVC": (("random_state",), None, ("probability", False)), "sklearn.svm.LinearSVC": (("random_state",), None, None),
    "sklearn.svm.NuSVC": (("random_state",), None, ("probability", False)),
    "sklearn.ensemble.RandomForestClassifier": (("random_state",), None, None), "sklearn.ensemble.RandomForestRegressor": (("random_state",), None, None),
    "sklearn.utils.shuffle": (("random_state",), None, None), "sklearn.utils.resample": (("random_state",), None, None),
    "sklearn.inspection.permutation_importance": (("random_state",), None, None),
    "sklearn.feature_selection.mutual_info_classif": (("random_state",), None, None),
    "sklearn.feature_selection.mutual_info_regression": (("random_state",), None, None),
    "skopt.BayesSearchCV": (("random_state",), None, None), "skopt.gp_minimize": (("random_state",), None, None),
    "skopt.searchcv.BayesSearchCV": (("random_state",), None, None),
    "pygad.GA": (("random_seed",), None, None), "pygad.pygad.GA": (("random_seed",), None, None),
    "scipy.stats.qmc.LatinHypercube": (("seed", "rng"), None, None), "scipy.stats.qmc.Sobol": (("seed", "rng"), None, None),
    "scipy.stats.qmc.Halton": (("seed", "rng"), None, None),
    "scipy.optimize.differential_evolution": (("seed", "rng"), None, None), "scipy.optimize.dual_annealing": (("seed", "rng"), None, None),
    "scipy.optimize.basinhopping": (("seed", "rng"), None, None),
    "scipy.cluster.vq.kmeans2": (("seed", "rng"), None, None), "scipy.cluster.vq.kmeans": (("seed", "rng"), None, None),
}
GLOBAL_NP = {"rand", "randn", "randint", "random", "random_sample", "ranf", "sample", "choice", "shuffle", "permutation", "uniform", "normal", "standard_normal",
             "binomial", "poisson", "exponential", "beta", "gamma", "bytes", "random_integers", "multivariate_normal", "laplace", "lognormal"}
GLOBAL_PY = {"random", "randint", "randrange", "choice", "choices", "shuffle", "sample", "uniform", "gauss", "normalvariate", "betavariate", "getrandbits"}
MUTATE = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "remove", "discard", "clear", "sort", "reverse", "appendleft", "fill"}
LOGS = {"info", "debug", "warning", "warn", "error", "exception", "critical", "log"}


class Fn:
    def __init__(self, node, mod, cls, outer):
        self.node, self.mod, self.cls, self.outer = node, mod, cls, outer
        self.name = node.name if isinstance(node, FN) else "<lambda>"
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults))
        self.defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.assigns = {}       # local name -> [value expression]; None where not followed
        self.globals_ = set()
        self.returns = []
        self.calls = []
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(node, "decorator_list", []))

    @property
    def method(self):
        return self.cls is not None and not self.static

    def qual(self):
        return f"{self.mod.name}:" + (f"{self.cls.name}." if self.cls else "") + self.name


def own_nodes(node):
    """nodes of a function without those of functions nested in it"""
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, FN + (ast.Lambda, ast.ClassDef)):
                todo.append(c)
            elif isinstance(c, FN):
                todo.extend(c.decorator_list)


class Effects:
    def __init__(self, prog, package="instancespace"):
        self.mods = [m for n, m in sorted(prog.modules.items()) if n == package or n.startswith(package + ".")]
        self.names = {m.name for m in self.mods}
        self.fns, self.bynode, self.classes = [], {}, {}
        self.imports = {}
        for m in self.mods:
            self.imports[m.name] = self.collect_imports(m)
            self.walk(m.tree, m, None, None)
        for f in self.fns:
            self.summarise(f)
        self.callers = {}
        for f in self.fns:
            for c in f.calls:
                for g in self.targets(c, f):
                    self.callers.setdefault(id(g), []).append((c, f))

    # ---------------------------------------------------------- structure

    def collect_imports(self, m):
        out = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = m.name.split(".")
                    pk = pk if m.is_pkg else pk[:-1]
                    pk = pk[:len(pk) - (n.level - 1)] if n.level > 1 else pk
                    base = ".".join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    out[a.asname or a.name] = f"{base}.{a.name}"
        return out

    def walk(self, node, m, cls, outer):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, FN + (ast.Lambda,)):
                f = Fn(c, m, cls if isinstance(node, ast.ClassDef) else None, outer)
                self.fns.append(f)
                self.bynode[id(c)] = f
                self.walk(c, m, cls, f)
            elif isinstance(c, ast.ClassDef):
                self.classes[(m.name, c.name)] = (c, m)
                self.walk(c, m, c, outer)
            else:
                self.walk(c, m, cls, outer)
                continue

    def summarise(self, f):
        def bind(t, v):
            if isinstance(t, ast.Name):
                f.assigns.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(v.elts) + list(t.elts)) else [v] * len(t.elts)
                for x, y in zip(t.elts, vs):
                    bind(x, y)
            elif isinstance(t, ast.Starred):
                bind(t.value, v)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                bind(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                bind(n.target, n.iter)
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, n.value)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                bind(n.optional_vars, n.context_expr)
            elif isinstance(n, ast.Global):
                f.globals_ |= set(n.names)
            elif isinstance(n, ast.Return) and n.value is not None:
                f.returns.append(n.value)
            elif isinstance(n, ast.Call):
                f.calls.append(n)
        if isinstance(f.node, ast.Lambda):
            f.returns.append(f.node.body)

    def local(self, name, f):
        return name in f.params or name in f.assigns and name not in f.globals_ or name in (f.node.args.vararg and [f.node.args.vararg.arg] or []) \
            or name in (f.node.args.kwarg and [f.node.args.kwarg.arg] or [])

    def holder(self, name, f):
        """the function in whose scope the name lives"""
        while f is not None:
            if self.local(name, f):
                return f
            if name in f.globals_:
                return None
            f = f.outer
        return None

    def dotted(self, e, f, m=None):
        """qualified name of a name or attribute chain that starts at an import, else None"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        if f is not None and self.holder(e.id, f) is not None:
            h = self.holder(e.id, f)
            vs = h.assigns.get(e.id, [])
            if len(vs) == 1 and e.id not in h.params and isinstance(vs[0], (ast.Name, ast.Attribute)) and not (isinstance(vs[0], ast.Name) and vs[0].id == e.id):
                d = self.dotted(vs[0], h)
                return None if d is None else ".".join([d] + parts[::-1])
            return None
        mod = f.mod if f is not None else m
        base = self.imports[mod.name].get(e.id)
        if base is None:
            if e.id in mod.defs:
                d = mod.defs[e.id]
                if isinstance(d, ast.Assign) and isinstance(d.value, (ast.Name, ast.Attribute)) and not parts and not (isinstance(d.value, ast.Name) and d.value.id == e.id):
                    return self.dotted(d.value, None, mod)
                return ".".join([mod.name, e.id] + parts[::-1])
            base = "builtins." + e.id
        return ".".join([base] + parts[::-1])

    def find_class(self, q):
        if q is None:
            return None
        for (m, n), c in self.classes.items():
            if q == f"{m}.{n}":
                return c
        return None

    def method_of(self, cls, m, name, seen=()):
        for n in cls.body:
            if isinstance(n, FN) and n.name == name:
                return self.bynode.get(id(n))
        for b in cls.bases:
            b = b.value if isinstance(b, ast.Subscript) else b
            r = self.find_class(self.dotted(b, None, m))
            if r is not None and r[0] not in seen:
                g = self.method_of(r[0], r[1], name, (*seen, cls))
                if g is not None:
                    return g
        return None

    def encl_class(self, f):
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.outer
        return None

    def callee(self, fun, f):
        """functions of the package an expression may denote"""
        if isinstance(fun, ast.Lambda):
            return [self.bynode[id(fun)]]
        if isinstance(fun, ast.Name):
            g = f
            while g is not None:
                for n in own_body_defs(g.node):
                    if n.name == fun.id:
                        return [self.bynode[id(n)]]
                g = g.outer
            h = self.holder(fun.id, f)
            if h is not None:
                out = []
                for v in h.assigns.get(fun.id, []):
                    if isinstance(v, (ast.Lambda, ast.Attribute)) or isinstance(v, ast.Name) and v.id != fun.id:
                        out += self.callee(v, h)
                return out
        if isinstance(fun, ast.Call) and isinstance(fun.func, (ast.Name, ast.Attribute)) and self.dotted(fun.func, f) in ("functools.partial", "joblib.delayed"):
            return self.callee(fun.args[0], f) if fun.args else []
        if isinstance(fun, ast.Attribute) and isinstance(fun.value, ast.Name) and fun.value.id in ("self", "cls"):
            c = self.encl_class(f)
            g = self.method_of(c, f.mod, fun.attr) if c is not None else None
            return [g] if g is not None else []
        q = self.dotted(fun, f) if isinstance(fun, (ast.Name, ast.Attribute)) else None
        if q is not None:
            for m in self.mods:
                if q.startswith(m.name + "."):
                    rest = q[len(m.name) + 1:].split(".")
                    d = m.defs.get(rest[0])
                    if isinstance(d, FN) and len(rest) == 1:
                        return [self.bynode[id(d)]]
                    if isinstance(d, ast.ClassDef):
                        g = self.method_of(d, m, rest[1] if len(rest) > 1 else "__init__") if len(rest) <= 2 else None
                        if g is not None:
                            return [g]
                    if isinstance(d, tuple) and d[0] == "import" and d[2]:
                        r = self.find_class(f"{d[1]}.{d[2]}")
        # a method of an object of a class of the package, by name alone
        if isinstance(fun, ast.Attribute) and (q is None or q.startswith(tuple(self.names))):
            gs = [g for g in self.fns if g.cls is not None and g.name == fun.attr]
            if len(gs) == 1 and fun.attr not in MUTATE and not fun.attr.startswith("__"):
                return gs
        return []

    def targets(self, call, f):
        return self.callee(call.func, f)

    def argument(self, call, g, p):
        """expression the call passes for parameter p of g; ... where it cannot be told; None where it is left out"""
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return ...
        for k in call.keywords:
            if k.arg == p:
                return k.value
        if p in g.pos:
            i = g.pos.index(p)
            if g.method and g.pos and g.pos[0] in ("self", "cls"):
                unbound = isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and g.cls is not None and call.func.value.id == g.cls.name \
                    and g.pos[0] == "self"
                i -= 0 if unbound else 1
            if 0 <= i < len(call.args):
                return call.args[i]
        return None

    def loc(self, f, n):
        return f"{(f.mod if hasattr(f, 'mod') else f).path}:{n.lineno}" + (f" ({f.qual()})" if isinstance(f, Fn) else "")

    # ---------------------------------------------------------- provenance of seeds

    def is_generator(self, e, f, m=None):
        return isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and (self.dotted(e.func, f, m) in GENERATORS
               or self.dotted(e.func, f, m) == "numpy.random.Generator")

    def seeded(self, e, f, seen=()):
        """(True|False|None, why): is the value the same in every run over the same inputs"""
        key = (id(e), id(f))
        if key in seen:
            return True, ""
        seen = (*seen, key)
        if isinstance(e, ast.Constant):
            return (False, "None seeds from the operating system") if e.value is None else (True, "")
        if isinstance(e, ast.Name):
            h = self.holder(e.id, f) if f is not None else None
            if h is None:
                m = f.mod
                q = self.imports[m.name].get(e.id)
                d, dm = m.defs.get(e.id), m
                if q is not None:
                    for m2 in self.mods:
                        if q.startswith(m2.name + ".") and q[len(m2.name) + 1:] in m2.defs:
                            d, dm = m2.defs[q[len(m2.name) + 1:]], m2
                if isinstance(d, (ast.Assign, ast.AnnAssign)) and d.value is not None:
                    if any(self.is_generator(x, None, dm) for x in ast.walk(d.value)):
                        return False, f"one generator made at import ({dm.name}.{e.id}) is shared by all runs"
                    return (True, "") if isinstance(d.value, ast.Constant) and d.value.value is not None else (False, "None seeds from the operating system") \
                        if isinstance(d.value, ast.Constant) else (True, "")
                if isinstance(d, ast.AST) or q is not None:
                    return True, ""
                return None, f"{e.id} not followed"
            rs = [self.seeded(v, h, seen) for v in h.assigns.get(e.id, []) if v is not None and e.id not in h.globals_]
            if e.id in h.params:
                rs.append(self.parameter(e.id, h, seen))
            return merge(rs)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls"):
                c = self.encl_class(f)
                vs = []
                for g in self.fns:
                    if self.encl_class(g) is c:
                        for n in own_nodes(g.node):
                            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                                    if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id in ("self", "cls"):
                                        vs.append((n.value, g))
                if vs:
                    return merge([self.seeded(v, g, seen) for v, g in vs])
                return self.class_level(c, e.attr, f.mod)
            q = self.dotted(e, f)
            if q in CLOCK_ATTR:
                return False, q
            if q is not None:
                r = self.find_class(q.rsplit(".", 1)[0])
                if r is not None:
                    return self.class_level(r[0], e.attr, r[1])
            return self.seeded(e.value, f, seen) if isinstance(e.value, (ast.Call, ast.Subscript)) else (True, "")
        if isinstance(e, ast.Call):
            q = self.dotted(e.func, f) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if q in CLOCK:
                return False, q + "() differs from run to run"
            if q == "builtins.hash":
                return False, "hash() of text differs from run to run"
            if self.global_draw(q):
                return self.global_seed(f)
            if q in GENERATORS:
                a = self.seed_argument(e, (GENERATORS[q],), 0)
                if a is ...:
                    return None, "seed not followed"
                return (False, f"{q}() without a seed") if a is None else self.seeded(a, f, seen)
            gs = self.targets(e, f)
            rs = []
            if gs and not (q is not None and self.find_class(q)):
                for g in gs:
                    rs += [self.seeded(v, g, seen) for v in g.returns]
                return merge(rs)
            for a in [x.value if isinstance(x, ast.Starred) else x for x in e.args] + [k.value for k in e.keywords]:
                if not (isinstance(a, ast.Constant)):
                    rs.append(self.seeded(a, f, seen))
            if isinstance(e.func, ast.Attribute) and q is None:
                rs.append(self.seeded(e.func.value, f, seen))
            return merge(rs)
        if isinstance(e, ast.Lambda):
            return True, ""
        if isinstance(e, ast.IfExp):
            return merge([self.seeded(e.body, f, seen), self.seeded(e.orelse, f, seen)])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return merge([self.seeded(x, f, seen) for x in ([e.elt] if not isinstance(e, ast.DictComp) else [e.key, e.value])])
        rs = [self.seeded(x, f, seen) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr) and not (isinstance(x, ast.Constant) and x.value is None)]
        return merge(rs)

    def class_level(self, c, attr, m):
        for n in c.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name) and t.id == attr:
                        if any(self.is_generator(x, None, m) for x in ast.walk(n.value)):
                            return False, f"one generator made at import ({c.name}.{attr}) is shared by all runs"
                        if isinstance(n.value, ast.Constant) and n.value.value is None:
                            return None, f"{c.name}.{attr} not followed"
        return True, ""

    def parameter(self, p, g, seen):
        rs = []
        d = g.defaults.get(p)
        sites = self.callers.get(id(g), [])
        omitted = not sites
        for call, f in sites:
            a = self.argument(call, g, p)
            if a is ...:
                rs.append((None, "arguments not followed"))
            elif a is None:
                omitted = True
            else:
                rs.append(self.seeded(a, f, seen))
        if omitted and d is not None:
            if any(self.is_generator(x, None, g.mod) for x in ast.walk(d)):
                rs.append((False, f"the default of {p} in {g.name} is one generator shared by all runs"))
            elif isinstance(d, ast.Constant) and d.value is None:
                rs.append((False, f"{p} of {g.name} is None unless given") if sites else (None, f"{p} of {g.name} is None unless given"))
        return merge(rs)

    def seed_argument(self, call, kws, pos):
        for k in call.keywords:
            if k.arg in kws:
                return k.value
        if any(k.arg is None for k in call.keywords) or any(isinstance(a, ast.Starred) for a in call.args):
            return ...
        if pos is not None and pos < len(call.args):
            return call.args[pos]
        return None

    def global_draw(self, q):
        if q is None:
            return False
        for p, s in (("numpy.random.", GLOBAL_NP), ("random.", GLOBAL_PY)):
            if q.startswith(p) and q[len(p):] in s:
                return True
        return False

    def global_seed(self, f):
        for c in f.calls:
            q = self.dotted(c.func, f) if isinstance(c.func, (ast.Name, ast.Attribute)) else None
            if q in ("numpy.random.seed", "random.seed") and c.args:
                return None, "draws from the global generator, seeded in the same function"
        return False, "draws from the global generator, whose state depends on what ran before"

    def random_sites(self):
        """(function, call, what, verdict, why) for every construction of something random and every draw from a global generator"""
        for f in self.fns:
            for c in sorted(f.calls, key=lambda n: (n.lineno, n.col_offset)):
                q = self.dotted(c.func, f) if isinstance(c.func, (ast.Name, ast.Attribute)) else None
                if q is None:
                    continue
                if self.global_draw(q):
                    yield (f, c, q, *self.global_seed(f))
                elif q in GENERATORS:
                    a = self.seed_argument(c, (GENERATORS[q],), 0)
                    yield (f, c, q, *((None, "seed not followed") if a is ... else (False, "no seed given") if a is None else self.seeded(a, f)))
                elif q in NEEDS:
                    kws, pos, cond = NEEDS[q]
                    if cond is not None:
                        v = self.seed_argument(c, (cond[0],), None)
                        if v is None and not cond[1]:
                            continue
                        if isinstance(v, ast.Constant) and not v.value:
                            continue
                    a = self.seed_argument(c, kws, pos)
                    if a is ...:
                        yield f, c, q, None, "arguments not followed"
                    elif a is None:
                        later = any(isinstance(k, ast.Attribute) and k.attr in ("set_params", "seed", *kws) for n in own_nodes(f.node) for k in [n])
                        yield f, c, q, None if later or cond is not None and v is not None and isinstance(v, (ast.Name, ast.Attribute)) or v is ... or len(c.args) > 4 else False, "no seed given"
                    else:
                        yield (f, c, q, *self.seeded(a, f))

    # ---------------------------------------------------------- clock, environment and state kept between runs

    def printing(self, call, f, seen=()):
        fun = call.func
        q = self.dotted(fun, f) if isinstance(fun, (ast.Name, ast.Attribute)) else None
        if q in ("builtins.print", "warnings.warn", "sys.stdout.write", "sys.stderr.write", "sys.stdout.flush") or q is not None and q.startswith("logging."):
            return True
        if isinstance(fun, ast.Attribute) and fun.attr in LOGS and isinstance(fun.value, (ast.Name, ast.Attribute)) and "log" in ast.unparse(fun.value).lower():
            return True
        gs = self.targets(call, f)
        return bool(gs) and all(id(g) not in seen and self.only_prints(g, (*seen, id(g))) for g in gs)

    def only_prints(self, g, seen=()):
        if isinstance(g.node, ast.Lambda):
            return False

        def ok(s):
            if isinstance(s, ast.Expr):
                return isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and self.printing(s.value, g, seen)
            if isinstance(s, ast.If):
                return all(map(ok, s.body + s.orelse))
            if isinstance(s, (ast.For, ast.With)):
                return all(map(ok, s.body))
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                return all(isinstance(t, ast.Name) and t.id not in g.globals_ for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))
            return isinstance(s, ast.Pass) or isinstance(s, ast.Return) and s.value is None
        return all(map(ok, g.node.body))

    def kept_state(self):
        """module-level names, class attributes, function attributes and default values that functions change: {(kind, owner, name): (where, closed)}"""
        st = {}

        def note(key, f, n, value=None):
            closed = value is not None and not any(isinstance(x, ast.Name) and self.holder(x.id, f) is not None for x in ast.walk(value))
            w, c = st.get(key, (self.loc(f, n), True))
            st[key] = (w, c and closed)

        def base(t):
            while isinstance(t, (ast.Subscript,)):
                t = t.value
            return t

        def target(e, f, n, value, mutation):
            """e is assigned (mutation False) or changed in place"""
            if isinstance(e, ast.Name):
                if e.id in f.globals_:
                    note(("module", f.mod.name, e.id), f, n, value)
                elif mutation and self.holder(e.id, f) is None and isinstance(f.mod.defs.get(e.id), (ast.Assign, ast.AnnAssign)):
                    note(("module", f.mod.name, e.id), f, n, value)
                elif mutation and e.id in f.defaults and mutable(f.defaults[e.id]) and not rebinds(f, e.id):
                    note(("default", f.qual(), e.id), f, n, value)
            elif isinstance(e, ast.Attribute):
                o = e.value
                c = self.encl_class(f)
                if isinstance(o, ast.Name) and o.id == "self" and mutation and c is not None:
                    d = [x for x in c.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.attr for t in x.targets)
                         or isinstance(x, ast.AnnAssign) and x.value is not None and isinstance(x.target, ast.Name) and x.target.id == e.attr and not is_record(c)]
                    own = any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == e.attr and isinstance(y.value, ast.Name) and y.value.id == "self"
                              for y in ast.walk(c))
                    if d and not own and mutable(d[0].value):
                        note(("class", c.name, e.attr), f, n, value)
                    return
                if isinstance(o, ast.Name) and o.id == "cls" and f.params[:1] == ["cls"] and c is not None or c is not None and ast.unparse(o) in ("self.__class__", "type(self)"):
                    note(("class", c.name, e.attr), f, n, value)
                    return
                if isinstance(o, ast.Name) and self.holder(o.id, f) is None:
                    q = self.dotted(o, f)
                    r = self.find_class(q)
                    if r is not None:
                        note(("class", r[0].name, e.attr), f, n, value)
                    elif isinstance(f.mod.defs.get(o.id), FN):
                        note(("function", f.mod.name + "." + o.id, e.attr), f, n, value)

        for f in self.fns:
            for n in own_nodes(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for t2 in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            target(base(t2), f, n, n.value, isinstance(t2, ast.Subscript) or isinstance(n, ast.AugAssign) and isinstance(t2, ast.Name) and t2.id not in f.globals_
                                   and not isinstance(t2, ast.Name))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE:
                    v = n.args[-1] if n.args else None
                    target(base(n.func.value), f, n, v, True)
        return st

    def taint(self):
        """flows of the clock, the environment and kept state: list of (verdict, where, what, label)"""
        state = self.kept_state()
        out = {}
        names, rets, attrs = {}, {}, {}
        changed = [True]

        def add(tab, key, labels):
            if labels and not labels <= tab.get(key, frozenset()):
                tab[key] = tab.get(key, frozenset()) | labels
                changed[0] = True

        def keyed(n, f, seen=()):
            """is a read of a container keyed by what the value depends on"""
            leaves = [x for x in ast.walk(n) if isinstance(x, ast.Name)]
            inner = set()
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and x.attr in ("shape", "size", "ndim", "dtype", "name", "__name__", "columns") or isinstance(x, ast.Call) \
                        and isinstance(x.func, ast.Name) and x.func.id in ("len", "id", "type", "sum", "min", "max") \
                        or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("sum", "mean", "min", "max", "std", "count_nonzero", "any", "all"):
                    inner |= {id(y) for y in ast.walk(x) if isinstance(y, ast.Name)}
            for x in leaves:
                if id(x) in inner:
                    continue
                h = self.holder(x.id, f)
                if h is None:
                    continue
                vs = h.assigns.get(x.id, []) if x.id not in h.params else []
                if len(vs) != 1 or vs[0] is None or x.id in seen or keyed(vs[0], h, (*seen, x.id)):
                    return True
            return False

        def source(e, f, up):
            key = None
            if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
                if self.holder(e.id, f) is None:
                    key = ("module", f.mod.name, e.id)
                    if key not in state and e.id in self.imports[f.mod.name]:
                        q = self.imports[f.mod.name][e.id]
                        key = ("module", *q.rsplit(".", 1)) if "." in q else None
                elif e.id in f.params:
                    key = ("default", f.qual(), e.id)
            elif isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
                o = e.value
                c = self.encl_class(f)
                if isinstance(o, ast.Name) and o.id in ("self", "cls") and c is not None or c is not None and ast.unparse(o) in ("self.__class__", "type(self)"):
                    key = ("class", c.name, e.attr)
                elif isinstance(o, ast.Name) and self.holder(o.id, f) is None:
                    r = self.find_class(self.dotted(o, f))
                    key = ("class", r[0].name, e.attr) if r is not None else ("function", f.mod.name + "." + o.id, e.attr)
            if key is None or key not in state:
                return frozenset()
            where, closed = state[key]
            good = closed
            if isinstance(up, ast.Subscript) and up.value is e:
                good = good or keyed(up.slice, f)
            elif isinstance(up, ast.Attribute) and up.value is e and isinstance(getattr(up, "_up", None), ast.Call) and up.attr in ("get", "setdefault", "pop") and up._up.args:
                good = good or keyed(up._up.args[0], f)
            elif isinstance(up, ast.Compare):
                good = True     # a membership test or a test for None
            return frozenset({("?" if good else "!", f"{key[1]}.{key[2]}, which is kept between runs (changed at {where})")})

        def val(e, f, up=None):
            if e is None or isinstance(e, ast.Constant):
                return frozenset()
            r = source(e, f, up)
            if isinstance(e, ast.Name):
                h = self.holder(e.id, f)
                return r | names.get((id(h), e.id), frozenset()) if h is not None else r
            if isinstance(e, ast.Attribute):
                e._up = up
                if self.dotted(e, f) in CLOCK_ATTR:
                    return frozenset({("!", self.dotted(e, f))})
                c = self.encl_class(f)
                if isinstance(e.value, ast.Name) and e.value.id == "self" and c is not None:
                    r = r | attrs.get((id(c), e.attr), frozenset())
                    return r
                return r | val(e.value, f, e)
            if isinstance(e, ast.Call):
                q = self.dotted(e.func, f) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
                if q in CLOCK:
                    return frozenset({("!", q + "()")})
                args = [x.value if isinstance(x, ast.Starred) else x for x in e.args] + [k.value for k in e.keywords]
                ta = [val(a, f, e) for a in args]
                if self.printing(e, f):
                    return frozenset()
                gs = self.targets(e, f)
                record = self.find_class(q)
                if record is not None and is_record(record[0]):
                    for a, t in zip(args, ta):
                        for lab in t:
                            out[(lab, self.loc(f, a))] = f"{record[0].name} is built from it"
                if gs:
                    for g in gs:
                        for p in g.params:
                            a = self.argument(e, g, p)
                            if a is not None and a is not ...:
                                add(names, (id(g), p), val(a, f, e))
                        if g.name != "__init__":
                            r = r | rets.get(id(g), frozenset())
                    return r
                both = frozenset().union(*ta) if ta else frozenset()
                for a in args:
                    if isinstance(a, (ast.Attribute, ast.Name, ast.Lambda)):
                        for g in self.callee(a, f):
                            both = both | rets.get(id(g), frozenset())     # work handed on
                if isinstance(e.func, ast.Attribute):
                    rc = e.func.value
                    if both and isinstance(rc, ast.Name) and e.func.attr in MUTATE:
                        h = self.holder(rc.id, f)
                        if h is not None:
                            add(names, (id(h), rc.id), both)
                    e.func._up = e
                    both = both | (val(e.func, f, e) if q is None else frozenset())
                return r | both
            if isinstance(e, ast.Lambda):
                return frozenset()
            if isinstance(e, ast.IfExp):
                t = val(e.test, f, e)
                return r | t | val(e.body, f, e) | val(e.orelse, f, e)
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.comprehension):
                    bind(x.target, val(x.iter, f, x), f)
                    for y in x.ifs:
                        r = r | val(y, f, x)
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    r = r | val(x, f, e)
            return r

        def bind(t, labels, f):
            if isinstance(t, ast.Name):
                h = self.holder(t.id, f)
                if h is not None:
                    add(names, (id(h), t.id), labels)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    bind(x, labels, f)
            elif isinstance(t, (ast.Subscript, ast.Starred)):
                bind(t.value, labels, f)
            elif isinstance(t, ast.Attribute):
                if isinstance(t.value, ast.Name) and t.value.id == "self" and self.encl_class(f) is not None:
                    add(attrs, (id(self.encl_class(f)), t.attr), labels)
                elif isinstance(t.value, ast.Name):
                    bind(t.value, labels, f)

        def run(body, f, ctl):
            for s in body:
                if isinstance(s, FN + (ast.ClassDef,)):
                    continue
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    if s.value is None:
                        continue
                    v = val(s.value, f) | ctl
                    if isinstance(s.value, (ast.Tuple,)) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) \
                            and len(s.targets[0].elts) == len(s.value.elts):
                        for t, x in zip(s.targets[0].elts, s.value.elts):
                            bind(t, val(x, f) | ctl, f)
                        continue
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        bind(t, v, f)
                elif isinstance(s, ast.Return):
                    v = val(s.value, f) | ctl
                    add(rets, id(f), v)
                    if s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                        for lab in ctl:
                            out[(lab, self.loc(f, s))] = "it decides whether the computation goes on"
                elif isinstance(s, (ast.If, ast.While)):
                    t = val(s.test, f, s) | ctl
                    run(s.body, f, t)
                    run(s.orelse, f, t)
                elif isinstance(s, (ast.For, ast.AsyncFor)):
                    t = val(s.iter, f)
                    bind(s.target, t, f)
                    run(s.body, f, ctl | t)
                    run(s.orelse, f, ctl | t)
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    for w in s.items:
                        t = val(w.context_expr, f)
                        if w.optional_vars is not None:
                            bind(w.optional_vars, t, f)
                    run(s.body, f, ctl)
                elif isinstance(s, ast.Try):
                    for b in (s.body, s.orelse, s.finalbody, *[h.body for h in s.handlers]):
                        run(b, f, ctl)
                elif isinstance(s, (ast.Break, ast.Continue, ast.Raise)):
                    for lab in ctl:
                        out[(lab, self.loc(f, s))] = "it decides whether the computation goes on"
                elif isinstance(s, ast.Expr):
                    val(s.value, f)
                    if ctl and isinstance(s.value, ast.Call) and not self.printing(s.value, f):
                        fun = s.value.func
                        if isinstance(fun, ast.Attribute) and isinstance(fun.value, ast.Name) and fun.attr in MUTATE:
                            bind(fun.value, ctl, f)
                elif isinstance(s, ast.Match):
                    t = val(s.subject, f) | ctl
                    for c in s.cases:
                        run(c.body, f, t)

        for _ in range(12):
            changed[0] = False
            for f in self.fns:
                if isinstance(f.node, ast.Lambda):
                    add(rets, id(f), val(f.node.body, f))
                else:
                    run(f.node.body, f, frozenset())
            if not changed[0]:
                break
        for f in self.fns:
            if f.name == "_run" and f.cls is not None:
                for lab in rets.get(id(f), frozenset()):
                    out[(lab, self.loc(f, f.node))] = "it reaches what the stage returns"
        return state, [(False if lab[0] == "!" else None, where, why, lab[1]) for (lab, where), why in sorted(out.items(), key=str)]

    # ---------------------------------------------------------- order of completion, draws in concurrent work

    def concurrent(self):
        """(verdict, where, why, what) for work handed to threads or processes"""
        for f in self.fns:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    q = self.dotted(n.func, f) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                    work = None
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ("submit", "map", "imap", "imap_unordered", "starmap", "apply_async", "map_async") and n.args \
                            and self.pool(n.func.value, f):
                        work = n.args[0]
                    elif q in ("threading.Thread", "multiprocessing.Process"):
                        work = next((k.value for k in n.keywords if k.arg == "target"), None)
                    elif q == "joblib.delayed" and n.args:
                        work = n.args[0]
                    if work is not None:
                        bad = self.draws(work, f)
                        yield (False if bad else True, self.loc(f, n), bad or "", "work done concurrently draws from no generator shared with other work")
                it = n.iter if isinstance(n, (ast.For, ast.comprehension)) else None
                if isinstance(it, ast.Call) and (self.dotted(it.func, f) in ("concurrent.futures.as_completed", "concurrent.futures._base.as_completed")
                                                 or isinstance(it.func, ast.Attribute) and it.func.attr == "imap_unordered"):
                    if isinstance(n, ast.For):
                        bad = None
                        for s in ast.walk(n):
                            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("append", "extend", "insert") and isinstance(s.func.value, ast.Name):
                                nm = s.func.value.id
                                inside = any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == nm for x in ast.walk(n))
                                if not inside and not self.sorted_later(f, nm):
                                    bad = f"{nm} is filled in the order in which the work completes"
                        yield (False if bad else True, self.loc(f, n), bad or "", "results are placed by what they belong to, not by when they complete")
                    else:
                        yield None, self.loc(f, it), "collected in order of completion", "results are placed by what they belong to, not by when they complete"

    # ------------------------------------------------- order of sets of strings

    def text(self, e, f, seen=()):
        """are the elements of this iterable text for certain (as written and annotated)"""
        key = (id(e), id(f))
        if e is None or key in seen or len(seen) > 12:
            return False
        seen = (*seen, key)
        if isinstance(e, ast.Name):
            h = self.holder(e.id, f)
            if h is None:
                return False
            if e.id in h.params:
                a = [x for x in h.node.args.posonlyargs + h.node.args.args + h.node.args.kwonlyargs if x.arg == e.id][0]
                return textual(a.annotation) and e.id not in h.assigns
            vs = h.assigns.get(e.id, [])
            return bool(vs) and all(self.text(v, h, seen) for v in vs)
        if isinstance(e, ast.Attribute):
            if e.attr == "columns":
                return True
            anns = self.fields.get(e.attr)
            return bool(anns) and all(map(textual, anns)) if not (e.attr in ("values", "str")) else self.text(e.value, f, seen)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return bool(e.elts) and all(isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.elts)
        if isinstance(e, ast.Subscript):
            return isinstance(e.slice, ast.Slice) and self.text(e.value, f, seen)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            x = e.elt
            if isinstance(x, ast.JoinedStr) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "str":
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("lower", "upper", "strip", "replace", "removeprefix", "removesuffix", "title"):
                return True
            if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice):
                return self.text(x.value, f, seen)
            g = e.generators[0]
            return len(e.generators) == 1 and isinstance(x, ast.Name) and isinstance(g.target, ast.Name) and g.target.id == x.id and self.text(g.iter, f, seen)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            return self.text(e.left, f, seen)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset", "list", "tuple", "sorted") and len(e.args) == 1:
                return self.text(e.args[0], f, seen)
            q = self.dotted(e.func, f) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if q in ("numpy.array", "numpy.asarray", "numpy.unique", "pandas.Series", "pandas.unique") and e.args:
                return self.text(e.args[0], f, seen)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("tolist", "to_list", "copy", "unique", "to_numpy", "union", "difference", "intersection", "dropna"):
                return self.text(e.func.value, f, seen)
        return False

    def is_set(self, e, f, seen=()):
        if isinstance(e, ast.Name):
            h = self.holder(e.id, f)
            vs = h.assigns.get(e.id, []) if h and e.id not in h.params else []
            return e.id not in seen and len(vs) == 1 and vs[0] is not None and e.id not in h.iterated and self.is_set(vs[0], h, (*seen, e.id))
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            return self.is_set(e.left, f, seen)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                return e.func.id in ("set", "frozenset")
            return isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "difference", "intersection", "copy") and self.is_set(e.func.value, f, seen)
        return False

    def set_order(self):
        """(ok, where, why): places that put the elements of a set of strings in the order in which the set is walked"""
        self.fields = {}
        for c, m in self.classes.values():
            for n in c.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    self.fields.setdefault(n.target.id, []).append(n.annotation)
        for f in self.fns:
            f.iterated = {x.id for n in own_nodes(f.node) if isinstance(n, (ast.For, ast.comprehension)) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        for f in self.fns:
            up = {}
            for n in own_nodes(f.node):
                for c in ast.iter_child_nodes(n):
                    up[id(c)] = n
            for n in own_nodes(f.node):
                got = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate") and len(n.args) == 1 and self.holder(n.func.id, f) is None:
                    got = n.args[0]
                elif isinstance(n, ast.ListComp):
                    got = n.generators[0].iter
                elif isinstance(n, ast.For) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend", "appendleft")
                                                    or isinstance(c, (ast.Yield, ast.YieldFrom)) for b in n.body for c in ast.walk(b)):
                    got = n.iter
                if got is None or not self.is_set(got, f) or not self.text(got, f):
                    continue
                if isinstance(n, ast.For):
                    names = {c.func.value.id for b in n.body for c in ast.walk(b) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                             and c.func.attr in ("append", "extend", "appendleft") and isinstance(c.func.value, ast.Name)}
                    kept = [x for x in names if self.placed(f, x, up)]
                    bad = bool(kept)
                else:
                    bad = self.ordered_use(n, f, up)
                yield (False if bad else True), self.loc(f, n), f"{ast.unparse(got)[:80]} is walked in an order that differs from process to process", f.qual()

    def placed(self, f, name, up):
        h = self.holder(name, f)
        if h is None or self.sorts(h, name):
            return False
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and self.ordered_use(n, f, up, (name,)) for n in own_nodes(f.node))

    def ordered_use(self, n, f, up, seen=()):
        """is the ordered value n put where its order matters: given back, stored, handed on to something that may keep it"""
        p, at = up.get(id(n)), n
        while isinstance(p, (ast.Starred, ast.IfExp, ast.NamedExpr, ast.Tuple, ast.List, ast.Dict)):
            p, at = up.get(id(p)), p
        if isinstance(p, ast.keyword):
            q = up.get(id(p))
            return p.arg not in ("labels", "columns", "key", "msg") or isinstance(q, ast.Call) and not (isinstance(q.func, ast.Attribute) and q.func.attr == "drop")
        if isinstance(p, ast.Return):
            return True
        if isinstance(p, ast.Attribute):
            return p.attr in ("copy", "tolist") and isinstance(up.get(id(p)), ast.Call) and self.ordered_use(up[id(p)], f, up, seen)
        if isinstance(p, ast.Call):
            if at is p.func:
                return False
            if isinstance(p.func, ast.Name) and p.func.id in ("sorted", "len", "set", "frozenset", "max", "min", "any", "all", "sum", "print", "str", "repr", "isinstance", "bool", "dict"):
                return False
            q = self.dotted(p.func, f) if isinstance(p.func, (ast.Name, ast.Attribute)) else None
            if q in ("numpy.sort", "numpy.unique", "numpy.isin", "numpy.in1d", "numpy.max", "numpy.min") or self.printing(p, f):
                return False
            if q in ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "pandas.Series"):
                return self.ordered_use(p, f, up, seen)
            if isinstance(p.func, ast.Attribute) and p.func.attr in ("isin", "drop", "union", "intersection", "difference", "issubset", "issuperset", "update", "join",
                                                                     "difference_update", "isdisjoint", "startswith", "endswith", "sort", "warn") or q and q.endswith(("Error", "Exception")):
                return False
            if isinstance(p.func, ast.Attribute) and p.func.attr in MUTATE:
                return False
            return True
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            for t in ts:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    return True
                if isinstance(t, ast.Name) and t.id not in seen and not self.sorts(f, t.id):
                    return any(isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load) and self.ordered_use(x, f, up, (*seen, t.id)) for x in own_nodes(f.node))
            return False
        if isinstance(p, ast.Subscript) and at is p.slice:
            return not isinstance(up.get(id(p)), ast.Compare) and isinstance(p.ctx, ast.Load)
        return False

    def sorts(self, f, nm):
        """the name is sorted in place, or rebound to something sorted"""
        if any(isinstance(v, ast.Call) and ast.unparse(v.func).rsplit(".", 1)[-1] in ("sorted", "sort", "unique") for v in f.assigns.get(nm, [])):
            return True
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and isinstance(n.func.value, ast.Name) and n.func.value.id == nm
                   for n in own_nodes(f.node))

    def sorted_later(self, f, nm):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and isinstance(n.func.value, ast.Name) and n.func.value.id == nm:
                    return True
                if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "dict", "set", "sum", "len", "max", "min", "print") and any(isinstance(a, ast.Name) and a.id == nm for a in n.args):
                    return True
        return False

    def pool(self, e, f):
        if isinstance(e, ast.Name):
            h = self.holder(e.id, f)
            vs = h.assigns.get(e.id, []) if h else []
            return any(isinstance(v, ast.Call) and "Pool" in ast.unparse(v.func) for v in vs)
        return isinstance(e, ast.Call) and "Pool" in ast.unparse(e.func)

    def draws(self, work, f, seen=()):
        """does the function draw from a generator made outside it"""
        for g in self.callee(work, f):
            if id(g) in seen:
                continue
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GLOBAL_NP | {"integers"}:
                    rc = n.func.value
                    if isinstance(rc, ast.Name):
                        h = self.holder(rc.id, g)
                        if h is g and rc.id not in g.params:
                            continue
                        if h is not None and (h is not g) and any(self.is_generator(v, h) for v in h.assigns.get(rc.id, [])):
                            return f"{g.qual()} draws from {rc.id}, shared with other work done at the same time ({self.loc(g, n)})"
                    elif isinstance(rc, ast.Attribute) and isinstance(rc.value, ast.Name) and rc.value.id == "self":
                        c = self.encl_class(g)
                        for h in self.fns:
                            if self.encl_class(h) is c:
                                for s in own_nodes(h.node):
                                    if isinstance(s, ast.Assign) and self.is_generator(s.value, h) and any(isinstance(t, ast.Attribute) and t.attr == rc.attr for t in s.targets):
                                        return f"{g.qual()} draws from self.{rc.attr}, shared with other work done at the same time ({self.loc(g, n)})"
            for c in g.calls:
                r = self.draws(c.func, g, (*seen, id(g)))
                if r:
                    return r
        return None


def merge(rs):
    for v in (False, None):
        for r, w in rs:
            if r is v:
                return r, w
    return True, ""


def own_body_defs(node):
    todo = list(node.body) if isinstance(node.body, list) else []
    while todo:
        n = todo.pop()
        if isinstance(n, FN):
            yield n
            continue
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.stmt):
                todo.append(c)


def mutable(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(e, ast.Call) and not (
        isinstance(e.func, ast.Name) and e.func.id in ("field", "TypeVar", "frozenset", "tuple", "int", "float", "str"))


def rebinds(f, name):
    return bool(f.assigns.get(name))


def is_record(c):
    return any((b.id if isinstance(b, ast.Name) else getattr(b, "attr", "")) == "NamedTuple" for b in c.bases) or any("dataclass" in ast.unparse(d) for d in c.decorator_list)


WRITES = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "os.truncate", "os.chmod", "os.symlink",
          "shutil.rmtree", "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.move", "shutil.copytree", "shutil.make_archive",
          "numpy.save", "numpy.savez", "numpy.savez_compressed", "numpy.savetxt", "scipy.io.savemat", "matplotlib.pyplot.savefig", "joblib.dump",
          "pickle.dump", "json.dump", "os.system", "subprocess.run", "subprocess.call", "subprocess.Popen", "subprocess.check_call", "subprocess.check_output"}
SETTINGS = {"os.chdir", "os.putenv", "os.umask", "numpy.seterr", "numpy.setbufsize", "numpy.set_printoptions", "numpy.random.seed", "random.seed", "pandas.set_option",
            "matplotlib.use", "matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.pyplot.switch_backend", "locale.setlocale", "sys.setrecursionlimit",
            "logging.basicConfig", "logging.disable", "signal.signal", "gc.disable", "decimal.setcontext", "multiprocessing.set_start_method", "socket.setdefaulttimeout"}
WRITE_METHODS = {"to_csv", "to_excel", "to_pickle", "to_parquet", "to_json", "to_hdf", "savefig", "write_text", "write_bytes", "mkdir", "unlink", "rmdir", "touch", "tofile"}


def _reach(self, roots):
    seen, todo, out = set(), list(roots), []
    while todo:
        f = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        out.append(f)
        for g in self.fns:
            if g.outer is f:
                todo.append(g)
        for c in f.calls:
            todo.extend(self.targets(c, f))
            for a in list(c.args) + [k.value for k in c.keywords]:
                if isinstance(a, (ast.Name, ast.Attribute)):
                    todo.extend(self.callee(a, f))
    return sorted(out, key=lambda f: (f.mod.name, f.node.lineno, f.node.col_offset))


def _ambient(self, f):
    """calls and stores that write files or change settings of the process"""
    out = []
    calm = [w for w in own_nodes(f.node) if isinstance(w, ast.With) and any(
        isinstance(i.context_expr, ast.Call) and self.dotted(i.context_expr.func, f) in ("warnings.catch_warnings", "numpy.errstate", "numpy.printoptions",
        "matplotlib.pyplot.rc_context", "matplotlib.rc_context", "pandas.option_context") for i in w.items if not isinstance(i.context_expr, ast.Call) or isinstance(i.context_expr.func, (ast.Name, ast.Attribute)))]
    inside = {id(x) for w in calm for x in ast.walk(w)}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            q = self.dotted(n.func, f)
            if q in WRITES:
                out.append((n, f"{q} writes outside the program"))
            elif q in SETTINGS and id(n) not in inside:
                out.append((n, f"{q} changes a setting of the whole process"))
            elif q in ("warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings") and id(n) not in inside:
                out.append((n, f"{q} changes which warnings the whole process shows"))
            elif q == "builtins.open" or isinstance(n.func, ast.Attribute) and n.func.attr == "open" and q is None:
                i = 1 if q else 0
                mode = next((k.value for k in n.keywords if k.arg == "mode"), n.args[i] if len(n.args) > i else None)
                if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) & set("wax+"):
                    out.append((n, "a file is opened for writing"))
            elif isinstance(n.func, ast.Attribute) and n.func.attr in WRITE_METHODS and q is None:
                if n.func.attr in ("to_csv", "to_json") and not n.args and not n.keywords:
                    continue
                out.append((n, f".{n.func.attr} writes a file"))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in (n.targets if not isinstance(n, ast.AugAssign) else [n.target]):
                while isinstance(t, ast.Subscript):
                    t = t.value
                    q = self.dotted(t, f) if isinstance(t, (ast.Name, ast.Attribute)) else None
                    if q in ("os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "sys.modules", "sys.path") and id(n) not in inside:
                        out.append((n, f"{q} is a setting of the whole process"))
                if isinstance(t, ast.Attribute) and isinstance(t.value, (ast.Name, ast.Attribute)):
                    q = self.dotted(t.value, f)
                    if q in ("numpy", "pandas", "numpy.random", "sys", "os", "warnings", "scipy", "sklearn", "matplotlib", "matplotlib.pyplot", "pandas.options"):
                        out.append((n, f"{q}.{t.attr} is changed for the whole process"))
    return out


Effects.reach, Effects.ambient = _reach, _ambient


def textual(a):
    """an annotation of a sequence of text"""
    if a is None:
        return False
    t = (a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else ast.unparse(a)).replace(" ", "")
    t = t.removesuffix("|None")
    return t in ("list[str]", "set[str]", "frozenset[str]", "Sequence[str]", "Iterable[str]", "NDArray[np.str_]", "pd.Series[str]", "pd.Index[str]", "tuple[str,...]")
