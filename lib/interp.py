"""Abstract interpreter: turns functions of the analysed program into value-graph terms.

The domain is symbolic values (terms.py); joins build conditionals, loops are
summarised (loops.py), calls to functions of the program are inlined along the
call graph, calls to libraries become canonical applications (nplib.py).  No code
of the analysed program is executed and no path is handed to a solver.
"""
from __future__ import annotations

import ast

import nplib
from loops import LoopMixin
from terms import *  # noqa: F403
from terms import _to_poly  # noqa: F401
from values import *  # noqa: F403

MAXDEPTH = 60

EXC_PARENTS = {
    "FileNotFoundError": "OSError", "PermissionError": "OSError", "IsADirectoryError": "OSError",
    "NotADirectoryError": "OSError", "IOError": "OSError", "OSError": "Exception",
    "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "AttributeError": "Exception", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "UnicodeDecodeError": "UnicodeError", "UnicodeError": "ValueError",
    "JSONDecodeError": "ValueError", "EmptyDataError": "ValueError", "ParserError": "ValueError",
    "AssertionError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "StopIteration": "Exception", "LinAlgError": "ValueError", "QhullError": "RuntimeError",
    "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "GEOSException": "Exception",
}


class State:
    __slots__ = ("frames", "heap", "pc", "events")

    def __init__(self, frames=None, heap=None, pc=(), events=()):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.events = events

    def fork(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap), self.pc, self.events)


class Ctx:
    def __init__(self, func, fid, npc):
        self.func, self.fid, self.npc = func, fid, npc
        self.returns = []
        self.loops = []      # stack of (breaks, continues)
        self.closures = False


def _just_attr(t, op):
    return t.op == op or t.op == "phi" and _just_attr(t.args[1], op) and _just_attr(t.args[2], op)


def mk_setattr(t, name, val):
    """attributes set on a library object; the order of setting different ones does not matter"""
    if t.op.startswith("setattr:"):
        if t.op[8:] == name:
            return mk_setattr(t.args[0], name, val)
        if t.op[8:] > name:
            return raw(t.op, (mk_setattr(t.args[0], name, val), t.args[1]))
    return raw("setattr:" + name, (t, val))


class Interp(LoopMixin):
    def __init__(self, program, dimsof=None, models=None):
        self.p = program
        self.st = State()
        self.raises = [[]]
        self.ctxs = []
        self.extcalls = []
        self._loc = 0
        self._fid = 0
        self.dimsof = dimsof or (lambda base, name: None)
        self.models = models or {}
        self.visited = set()       # functions analysed
        self.callsites = 0
        self.unks = []
        self.cur_exc = []
        self.where = ("?", 0)
        self.extpaths = []         # (path, where)
        self.steps = 0
        self.maxsteps = 400000

    # ------------------------------------------------------------- heap utils

    def alloc(self, cell):
        self._loc += 1
        self.st.heap[self._loc] = cell
        return Ref(self._loc)

    def cell(self, ref):
        return self.st.heap.get(ref.loc)

    def setcell(self, ref, cell):
        self.st.heap[ref.loc] = cell

    def box(self, t, origin=None):
        """T -> Value; containers become cells so that aliasing is tracked"""
        if isinstance(t, Value):
            return t
        if origin is None:
            if t.op in ("const", "bv", "nan", "eps", "dim", "count", "isnone", "undef"):
                return t
            if t.op == "list":
                return self.alloc(Lst([self.box(a) for a in t.args]))
            if t.op == "tuple":
                return TupV([self.box(a) for a in t.args])
            if t.op == "dict":
                return self.alloc(Dct([(t.args[i], self.box(t.args[i + 1])) for i in range(0, len(t.args), 2)]))
            if t.op.startswith("rec:"):
                cv = self.find_class(t.op[4:])
                if cv is not None:
                    return self.alloc(Inst(cv, {a.op[3:]: self.box(a.args[0]) for a in t.args}))
                return t
            if t.op.startswith("cls:"):
                cv = self.find_class(t.op[4:])
                return cv if cv is not None else t
            if rank(t) == 0 or kind(t) == "str":
                return t
        return self.alloc(Arr(t, origin))

    def find_class(self, name):
        for m in self.p.modules.values():
            n = m.defs.get(name)
            if isinstance(n, ast.ClassDef):
                return self.global_value(m, name)
        return None

    def term(self, v, seen=()):
        """reify a value"""
        if isinstance(v, T):
            return v
        if v is None:
            return NONE
        if isinstance(v, Ref):
            if v.loc in seen:
                return raw("cycle", ())
            c = self.cell(v)
            if c is None:
                return unk("dangling")
            if isinstance(c, Arr):
                return c.term
            s2 = seen + (v.loc,)
            if isinstance(c, Lst):
                return mk_list([self.term(x, s2) for x in c.items])
            if isinstance(c, Dct):
                out = []
                for k, x in c.items:
                    out += [k, self.term(x, s2)]
                return raw("dict", out)
            if isinstance(c, Inst):
                if c.base is not None and all(not k for k in ()):
                    # symbolic instance: untouched fields are implied by the base
                    mod = [(k, self.term(x, s2)) for k, x in c.fields.items()]
                    mod = [(k, t) for k, t in mod if not (t.op == "sym" and t.args[0] == f"{c.base}.{k}") and not self._is_sym_inst(t, f"{c.base}.{k}")]
                    s = sym(c.base)
                    if not mod:
                        return s
                    mod.sort()
                    return raw("upd:" + c.cls.name, [s] + [raw("kw:" + k, (t,)) for k, t in mod])
                names = self.field_order(c.cls)
                keys = [k for k in names if k in c.fields] + sorted(k for k in c.fields if k not in names)
                return raw("rec:" + c.cls.name, [raw("kw:" + k, (self.term(c.fields[k], s2),)) for k in keys])
            return unk("cell")
        if isinstance(v, TupV):
            return raw("tuple", [self.term(x, seen) for x in v.items])
        if isinstance(v, PhiV):
            return mk_phi(v.c, self.term(v.a, seen), self.term(v.b, seen))
        if isinstance(v, ViewV):
            return mk_ix(self.term(v.ref, seen), v.keys)
        if isinstance(v, FuncV):
            return self.reify_func(v)
        if isinstance(v, BoundV):
            if isinstance(v.func, FuncV):
                return self.reify_func(v)
            return raw("bound", (self.term(v.self_, seen),))
        if isinstance(v, ClassV):
            return raw("cls:" + v.name, ())
        if isinstance(v, ExtV):
            return raw("ext:" + nplib.canon_path(v.path), ())
        if isinstance(v, ExtBoundV):
            return raw("attr:" + v.name, (self.term(v.recv, seen),))
        if isinstance(v, PartialV):
            return self.reify_func(v)
        if isinstance(v, GenAliasV):
            return raw("generic", (self.term(v.base, seen),) + tuple(self.term(a, seen) for a in v.args))
        if isinstance(v, ModV):
            return raw("mod:" + v.mod.name, ())
        return unk("value " + type(v).__name__)

    def _is_sym_inst(self, t, name):
        return t.op == "sym" and t.args[0] == name

    def reify_func(self, f):
        fn = f
        nself = 0
        if isinstance(f, PartialV):
            npos = None
        base = f
        pre = []
        kw = {}
        while isinstance(base, (PartialV, BoundV)):
            if isinstance(base, PartialV):
                pre = list(base.args) + pre
                kw = {**base.kwargs, **kw}
                base = base.func
            else:
                pre = [base.self_] + pre
                base = base.func
        if not isinstance(base, FuncV):
            return raw("partial", [self.term(base)] + [self.term(a) for a in pre])
        a = base.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        free = [p for p in params[len(pre):] if p not in kw]
        ndef = len(a.defaults)
        required = params[: len(params) - ndef] if ndef else params
        free = [p for p in free if p in required]
        if sum(1 for c in self.ctxs if isinstance(c.func, FuncV) and c.func.node is base.node) > 0 or len(self.ctxs) > MAXDEPTH:
            return raw("fn:" + base.name, ())
        saved = self.st
        self.st = saved.fork()
        vs = [fresh("#a", kind=None) for _ in free]
        self.raises.append([])
        try:
            r = self.call(base, pre + [self.box(v) for v in vs], dict(kw), None)
            t = self.term(r)
        except Dead:
            t = raw("never", ())
        finally:
            self.raises.pop()
            self.st = saved
        for v in reversed(vs):
            t = close(v, t, "flam")
        if not vs:
            t = raw("flam", (t,))
        return t

    # ------------------------------------------------------------ classes

    def bases(self, cv):
        if cv._bases is None:
            out = []
            for b in cv.node.bases:
                try:
                    v = self.eval_in_module(cv.mod, b)
                except (Dead, Unsupported):
                    v = ExtV("?")
                if isinstance(v, GenAliasV):
                    v = v.base
                out.append(v)
            cv._bases = out
        return cv._bases

    def mro(self, cv):
        out = [cv]
        for b in self.bases(cv):
            if isinstance(b, ClassV):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def ext_bases(self, cv):
        s = set()
        for c in self.mro(cv):
            for b in self.bases(c):
                if isinstance(b, ExtV):
                    s.add(b.path.split(".")[-1])
        return s

    def class_kind(self, cv):
        if cv.kindc is None:
            k = "plain"
            eb = self.ext_bases(cv)
            if "NamedTuple" in eb:
                k = "namedtuple"
            elif "Enum" in eb or "IntEnum" in eb or "StrEnum" in eb:
                k = "enum"
            elif "TypedDict" in eb:
                k = "typeddict"
            elif any(b.endswith(("Exception", "Error")) for b in eb):
                k = "exception"
            for c in self.mro(cv):
                for d in c.node.decorator_list:
                    dn = d.func if isinstance(d, ast.Call) else d
                    nm = dn.attr if isinstance(dn, ast.Attribute) else getattr(dn, "id", "")
                    if nm == "dataclass":
                        k = "dataclass"
            cv.kindc = k
        return cv.kindc

    def annotated_fields(self, cv):
        """[(name, annotation node, default node or None, class)]"""
        out = {}
        for c in reversed(self.mro(cv)):
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    ann = n.annotation
                    if isinstance(ann, ast.Subscript) and getattr(ann.value, "id", getattr(ann.value, "attr", "")) == "ClassVar":
                        continue
                    out[n.target.id] = (n.target.id, ann, n.value, c)
        return list(out.values())

    def field_order(self, cv):
        return [f[0] for f in self.annotated_fields(cv)]

    def class_attr(self, cv, name):
        for c in self.mro(cv):
            for n in c.node.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                    decos = []
                    for d in n.decorator_list:
                        dn = d.func if isinstance(d, ast.Call) else d
                        decos.append(dn.attr if isinstance(dn, ast.Attribute) else getattr(dn, "id", ""))
                    km = "method"
                    if "staticmethod" in decos:
                        km = "static"
                    elif "classmethod" in decos:
                        km = "class"
                    elif "property" in decos or "cached_property" in decos:
                        km = "property"
                    if n.name == "__new__":
                        km = "static"
                    return FuncV(n, c.mod, None, c, n.name, km)
                if isinstance(n, ast.ClassDef) and n.name == name:
                    return ClassV(n, c.mod)
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            if self.class_kind(cv) == "enum":
                                e = raw(f"enum:{c.name}.{name}", ())
                                if isinstance(n.value, ast.Constant):
                                    ENUMS[e.op] = const(n.value.value)
                                return e
                            return self.class_frame_eval(c, n.value)
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                    return self.class_frame_eval(c, n.value)
        return None

    def class_frame_eval(self, c, node):
        return self.eval_in_module(c.mod, node)

    def eval_in_module(self, mod, node):
        self._fid += 1
        fid = self._fid
        self.st.frames[fid] = {}
        self.ctxs.append(Ctx(("module", mod), fid, len(self.st.pc)))
        try:
            return self.eval(node)
        finally:
            self.ctxs.pop()
            self.st.frames.pop(fid, None)

    def lookup_method(self, cv, name):
        v = self.class_attr(cv, name)
        return v if isinstance(v, FuncV) else None

    # ------------------------------------------------------- symbolic values

    def symbolic(self, name, ann, mod, depth=0):
        """A fresh external value called `name` described by annotation node `ann`."""
        cs = getattr(self, "consts", None)
        if cs and name in cs:
            v = cs[name]
            return v(self, ann, mod) if callable(v) else const(v)
        info = self.ann_info(ann, mod)
        kd, opt, cv = info
        d = self.dimsof(name)
        ks = getattr(self, "kinds", None)
        if ks and name in ks:
            kd, opt = ks[name], False
        if cv is not None:
            base = name
            s = sym(name, kind=None, optional=opt)
            r = self.alloc(Inst(cv, {}, base=name, origin=name))
            if opt:
                return PhiV(mk_isnone(s), NONE, r)
            return r
        if d is None and kd in ("bool1", "int1", "num1", "str", "path"):
            d = ()
        k2 = {"bool1": "bool", "int1": "int", "num1": "num"}.get(kd, kd)
        vk = None
        if isinstance(ann, ast.Subscript):
            if kd == "dict" and isinstance(ann.slice, ast.Tuple):
                vk = self.ann_info(ann.slice.elts[1], mod)[0]
            elif kd == "list":
                vk = self.ann_info(ann.slice, mod)[0]
                vk = vk if vk in ("dict", "set") else None
            vk = {"bool1": "bool", "int1": "int", "num1": "num"}.get(vk, vk)
            vk = vk if vk in ("bool", "int", "num", "str", "dict", "set", "list") else None
        s = sym(name, kind=k2, optional=opt, dims=d, vkind=vk)
        if kd in ("bool1", "int1", "num1", "str", "path"):
            return s
        return self.alloc(Arr(s, origin=name))

    def ann_info(self, ann, mod):
        """(kind, optional, ClassV or None)"""
        if ann is None:
            return (None, True, None)
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return ("none", True, None)
            if isinstance(ann.value, str):
                try:
                    return self.ann_info(ast.parse(ann.value, mode="eval").body, mod)
                except SyntaxError:
                    return (None, True, None)
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            l = self.ann_info(ann.left, mod)
            r = self.ann_info(ann.right, mod)
            if l[0] == "none":
                return (r[0], True, r[2])
            if r[0] == "none":
                return (l[0], True, l[2])
            opt = l[1] or r[1]
            if l[2] is None and r[2] is None and l[0] == r[0]:
                return (l[0], opt, None)
            return (None, opt, None)
        if isinstance(ann, ast.Subscript):
            nm = getattr(ann.value, "id", getattr(ann.value, "attr", ""))
            if nm == "Optional":
                l = self.ann_info(ann.slice, mod)
                return (l[0], True, l[2])
            if nm == "NDArray":
                s = ast.unparse(ann.slice)
                k = "bool" if "bool" in s else "int" if "int" in s else "num" if ("double" in s or "float" in s) else None
                return (k, False, None)
            if nm in ("list", "List", "Sequence", "Iterable"):
                return ("list", False, None)
            if nm in ("set", "Set", "frozenset"):
                return ("set", False, None)
            if nm in ("dict", "Dict", "defaultdict"):
                return ("dict", False, None)
            return (None, False, None) if nm not in ("Union",) else (None, True, None)
        if isinstance(ann, ast.Attribute):
            return ("pd" if ann.attr in ("DataFrame", "Series") else None, False, None)
        if isinstance(ann, ast.Name):
            m = {"bool": "bool1", "int": "int1", "float": "num1", "str": "str"}
            if ann.id in m:
                return (m[ann.id], False, None)
            if ann.id in ("Path", "PurePath", "PosixPath"):
                return ("path", False, None)
            try:
                v = self.global_value(mod, ann.id)
            except (Dead, Unsupported):
                v = None
            if isinstance(v, GenAliasV):
                v = v.base
            if isinstance(v, ClassV):
                if self.class_kind(v) in ("enum",):
                    return (None, False, None)
                return (None, False, v)
            return (None, False, None)
        return (None, True, None)

    # -------------------------------------------------------------- names

    def global_value(self, mod, name):
        if name in mod.cache:
            return mod.cache[name]
        d = mod.defs.get(name)
        if d is None:
            return None
        v = None
        if isinstance(d, tuple):
            _, base, attr = d
            v = self.resolve_import(base, attr)
            mod.cache[name] = v
        elif isinstance(d, ast.ClassDef):
            v = ClassV(d, mod)
            mod.cache[name] = v
        elif isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
            v = FuncV(d, mod, None, None, d.name)
            mod.cache[name] = v
        elif isinstance(d, (ast.Assign, ast.AnnAssign)):
            if d.value is None:
                return unk("undefined global " + name)
            v = self.eval_in_module(mod, d.value)
            if isinstance(d, ast.Assign) and isinstance(d.targets[0], ast.Tuple):
                idx = [e.id for e in d.targets[0].elts].index(name)
                v = self.item(v, const(idx))
            if isinstance(v, (T, ClassV, FuncV, ExtV, GenAliasV, TupV)):
                mod.cache[name] = v
        return v

    def resolve_import(self, base, attr):
        if attr is None:
            if base in self.p.modules:
                return ModV(self.p.modules[base])
            return ExtV(base)
        full = f"{base}.{attr}"
        if full in self.p.modules:
            return ModV(self.p.modules[full])
        m = self.p.modules.get(base)
        if m is not None:
            v = self.global_value(m, attr)
            if v is None:
                return unk("import " + full)
            return v
        return ExtV(full)

    def lookup(self, name):
        ctx = self.ctxs[-1]
        fr = self.st.frames.get(ctx.fid, {})
        if name in fr:
            return fr[name]
        f = ctx.func
        fid = fr.get("$parent")
        while fid is not None:
            pf = self.st.frames.get(fid)
            if pf is None:
                break
            if name in pf:
                return pf[name]
            fid = pf.get("$parent")
        mod = f[1] if isinstance(f, tuple) else f.mod
        v = self.global_value(mod, name)
        if v is not None:
            return v
        if name in nplib.BUILTINS:
            return ExtV("builtins." + name)
        if name in EXC_PARENTS or name in ("Warning", "UserWarning", "BaseException"):
            return ExtV("builtins." + name)
        return UNDEF

    def setvar(self, name, v):
        fr = self.st.frames[self.ctxs[-1].fid]
        if name in fr.get("$nonlocal", ()):
            fid = fr.get("$parent")
            while fid is not None:
                pf = self.st.frames.get(fid)
                if pf is None:
                    break
                if name in pf:
                    pf[name] = v
                    return
                fid = pf.get("$parent")
        fr[name] = v

    # ---------------------------------------------------------------- merging

    def merge_values(self, c, a, b, depth=0):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return mk_phi(c, a, b)
        if a is UNDEF or a is None:
            return b
        if b is UNDEF or b is None:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return a
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return TupV([self.merge_values(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, ViewV) and isinstance(b, ViewV) and a.ref.loc == b.ref.loc and a.keys == b.keys:
            return a
        if isinstance(a, (FuncV,)) and isinstance(b, FuncV) and a.node is b.node and a.frame == b.frame:
            return a
        if isinstance(a, ClassV) and isinstance(b, ClassV) and a.node is b.node:
            return a
        if isinstance(a, PhiV) and isinstance(b, PhiV) and a.c is b.c:
            x, y = self.merge_values(c, a.a, b.a), self.merge_values(c, a.b, b.b)
            return PhiV(a.c, x, y)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return PhiV(c, a, b)

    def merge_cells(self, c, a, b):
        if a is b or b is None:
            return a
        if a is None:
            return b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return Arr(mk_phi(c, a.term, b.term), a.origin or b.origin)
        if isinstance(a, Lst) and isinstance(b, Lst) and len(a.items) == len(b.items):
            return Lst([self.merge_values(c, x, y) for x, y in zip(a.items, b.items)], a.origin or b.origin)
        if isinstance(a, Dct) and isinstance(b, Dct):
            if [k for k, _ in a.items] == [k for k, _ in b.items]:
                return Dct([(k, self.merge_values(c, x, y)) for (k, x), (_, y) in zip(a.items, b.items)], a.origin)
        if isinstance(a, Inst) and isinstance(b, Inst):
            f = {}
            for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
                x, y = a.fields.get(k), b.fields.get(k)
                if (x is None or y is None) and a.base is not None:
                    # lazily created symbolic field: untouched on one side
                    z = x if x is not None else y
                    s = f"{a.base}.{k}"
                    if x is None:
                        x = self.lazy_field(a, k) if not self._lazy_same(z, s) else z
                    else:
                        y = self.lazy_field(b, k) if not self._lazy_same(z, s) else z
                f[k] = self.merge_values(c, x if x is not None else UNDEF, y if y is not None else UNDEF)
            return Inst(a.cls, f, a.base, a.origin)
        return None  # needs reification

    def _lazy_same(self, z, s):
        if isinstance(z, T):
            return z.op == "sym" and z.args[0] == s
        if isinstance(z, Ref):
            cc = self.st.heap.get(z.loc)
            if isinstance(cc, Inst) and cc.base == s:
                return all(self._lazy_same(x, f"{s}.{k}") for k, x in cc.fields.items())
            if isinstance(cc, Arr) and cc.term.op != "sym":
                return False
            return cc is not None and getattr(cc, "origin", None) == s
        return False

    def term_in(self, st, v):
        saved = self.st
        self.st = st
        try:
            return self.term(v)
        finally:
            self.st = saved

    def cellterm_in(self, st, loc):
        return self.term_in(st, Ref(loc))

    def merge_states(self, c, s1, s2, basepc):
        """state that is s1 when c holds, s2 otherwise (both extend basepc)"""
        if s1 is s2:
            return s1
        saved = self.st
        out = State()
        n = len(basepc)
        p1 = mk_and(list(s1.pc[n:]))
        p2 = mk_and(list(s2.pc[n:]))
        o = simp_or([p1, p2])
        out.pc = tuple(basepc) + (() if o is TRUE else (o,))
        # events
        k = 0
        e1, e2 = s1.events, s2.events
        m = min(len(e1), len(e2))
        while k < m and e1[k] is e2[k]:
            k += 1
        out.events = e1 + e2[k:] if k < len(e2) else e1
        # heap
        heap = dict(s2.heap)
        self.st = out
        out.heap = heap
        for loc, ce in list(s1.heap.items()):
            ce2 = s2.heap.get(loc)
            if ce is ce2:
                continue
            if ce2 is None:
                heap[loc] = ce
                continue
            self.st = s1
            mcell = self.merge_cells(c, ce, ce2)
            if mcell is None:
                t1 = self.cellterm_in(s1, loc)
                t2 = self.cellterm_in(s2, loc)
                mcell = Arr(mk_phi(c, t1, t2), getattr(ce, "origin", None) or getattr(ce2, "origin", None))
            heap[loc] = mcell
        # cells allocated lazily by merge_cells live in s1's heap
        for loc, ce in list(s1.heap.items()):
            if loc not in heap:
                heap[loc] = ce
        # frames
        self.st = out
        frames = {}
        for fid in list(s1.frames) + [f for f in s2.frames if f not in s1.frames]:
            f1, f2 = s1.frames.get(fid), s2.frames.get(fid)
            if f1 is None or f2 is None:
                frames[fid] = dict(f1 if f1 is not None else f2)
                continue
            fr = {}
            for nm in list(f1) + [x for x in f2 if x not in f1]:
                if nm.startswith("$"):
                    fr[nm] = f1.get(nm, f2.get(nm))
                    continue
                a, b = f1.get(nm, UNDEF), f2.get(nm, UNDEF)
                fr[nm] = a if a is b else self.merge_values(c, a, b)
            frames[fid] = fr
        out.frames = frames
        self.st = saved
        return out

    def merge_many(self, items, basepc):
        """items: [(State, Value)] with exclusive path conditions -> (State, Value)"""
        st, v = items[-1]
        n = len(basepc)
        for s, w in reversed(items[:-1]):
            c = mk_and(list(s.pc[n:]))
            new = self.merge_states(c, s, st, basepc)
            self.st = new
            v = self.merge_values(c, w, v)
            st = new
        return st, v

    # -------------------------------------------------------------- events

    def pcterm(self):
        return mk_and(list(self.st.pc))

    def event(self, kind_, term, node=None):
        w = self.where
        fn = self.curfn()
        self.st.events = self.st.events + (Event(kind_, term, self.pcterm(), w, fn),)

    def curfn(self):
        for c in reversed(self.ctxs):
            if isinstance(c.func, FuncV):
                return (c.func.cls.name + "." if c.func.cls else "") + c.func.name
        return "<module>"

    def mutated(self, ref, what):
        c = self.cell(ref)
        o = getattr(c, "origin", None)
        if o:
            self.event("mutate", raw("mut:" + o, (const(what),)))

    # ---------------------------------------------------------------- calls

    def call(self, f, args, kwargs, node):
        self.callsites += 1
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, PartialV):
            return self.call(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs}, node)
        if isinstance(f, ClassV):
            return self.construct(f, args, kwargs)
        if isinstance(f, GenAliasV):
            return self.call(f.base, args, kwargs, node)
        if isinstance(f, ExtV):
            p = nplib.canon_path(f.path)
            if p in self.models:
                return self.models[p](self, args, kwargs)
            self.extpaths.append((p, self.where, self.curfn()))
            return nplib.call_ext(self, p, args, kwargs)
        if isinstance(f, ExtBoundV):
            return nplib.call_method(self, f.recv, f.name, args, kwargs)
        if isinstance(f, PhiV):
            return self.forked(f.c, lambda: self.call(f.a, args, kwargs, node), lambda: self.call(f.b, args, kwargs, node))
        if isinstance(f, Ref):
            c = self.cell(f)
            if isinstance(c, Inst):
                m = self.lookup_method(c.cls, "__call__")
                if m is not None:
                    return self.call_func(m, [f] + list(args), kwargs)
        t = self.term(f)
        if t.op == "flam" and not kwargs:
            r = t
            for a in args:
                if r.op == "flam":
                    r = open_lam(r, self.term(a))
                else:
                    r = raw("apply", (r, self.term(a)))
            return self.box(r)
        r = raw("apply", [t] + [self.term(a) for a in args] + [raw("kw:" + k, (self.term(v),)) for k, v in sorted(kwargs.items())])
        self.extcalls.append(r)
        return self.box(r)

    def forked(self, c, fa, fb):
        """evaluate fa when c, fb otherwise; merge"""
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        base = self.st
        basepc = base.pc
        out = []
        for cc, f in ((c, fa), (mk_not(c), fb)):
            self.st = base.fork()
            self.st.pc = basepc + (cc,)
            try:
                v = f()
                out.append((self.st, v))
            except Dead:
                pass
        if not out:
            raise Dead
        if len(out) == 1:
            self.st = out[0][0]
            return out[0][1]
        new = self.merge_states(c, out[0][0], out[1][0], basepc)
        self.st = new
        return self.merge_values(c, out[0][1], out[1][1])

    def bind(self, f, args, kwargs):
        a = f.node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        for i, p in enumerate(pos):
            if args:
                loc[p] = args.pop(0)
            elif p in kwargs:
                loc[p] = kwargs.pop(p)
        if a.vararg:
            loc[a.vararg.arg] = TupV(args)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
        nd = len(a.defaults)
        for p, d in zip(pos[len(pos) - nd:], a.defaults):
            if p not in loc:
                loc[p] = self.eval_default(f, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc and d is not None:
                loc[x.arg] = self.eval_default(f, d)
        if a.kwarg:
            loc[a.kwarg.arg] = self.alloc(Dct([(const(k), v) for k, v in kwargs.items()]))
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in loc:
                if star is not None:
                    loc[p] = self.item(star, const(p))
                else:
                    loc[p] = unk("missing argument " + p)
        return loc

    def eval_default(self, f, d):
        if isinstance(d, ast.Constant):
            return self.eval_const(d)
        return self.eval_in_module(f.mod, d)

    def call_func(self, f, args, kwargs):
        after = self.models.get(f.mod.name + ":" + (f.cls.name + "." if f.cls else "") + f.name + "$after") if self.models else None
        v = self._call_func(f, args, kwargs)
        return v if after is None else after(self, self.bind(f, args, kwargs), v)

    def _call_func(self, f, args, kwargs):
        if len(self.ctxs) > MAXDEPTH or sum(1 for c in self.ctxs if isinstance(c.func, FuncV) and c.func.node is f.node) >= 2:
            r = raw("rcall:" + f.name, [self.term(a) for a in args])
            return self.box(r)
        self.visited.add((f.mod.name, (f.cls.name + "." if f.cls else "") + f.name))
        loc = self.bind(f, args, kwargs)
        mdl = self.models.get(f.mod.name + ":" + (f.cls.name + "." if f.cls else "") + f.name) if self.models else None
        if mdl is not None:
            a_ = f.node.args
            names = [x.arg for x in a_.posonlyargs + a_.args + a_.kwonlyargs]
            names += [x.arg for x in (a_.vararg, a_.kwarg) if x is not None and (x is a_.vararg and loc[x.arg].items or x is a_.kwarg and self.cell(loc[x.arg]).items)]
            return mdl(self, {n: loc[n] for n in names if n in loc})
        self._fid += 1
        fid = self._fid
        if f.frame is not None:
            loc["$parent"] = f.frame
        self.st.frames[fid] = loc
        basepc = self.st.pc
        ctx = Ctx(f, fid, len(basepc))
        self.ctxs.append(ctx)
        swhere = self.where
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                ctx.returns.append((self.st, v))
            else:
                gen = is_generator(f.node)
                if gen:
                    loc["$yield"] = self.alloc(Lst([]))
                try:
                    self.exec_block(f.node.body)
                    ctx.returns.append((self.st, NONE))
                except Dead:
                    pass
                if gen:
                    rets = []
                    for s, _ in ctx.returns:
                        rets.append((s, loc["$yield"]))
                    ctx.returns = rets
        finally:
            self.ctxs.pop()
            self.where = swhere
        if not ctx.returns:
            raise Dead
        st, v = self.merge_many(ctx.returns, basepc)
        self.st = st
        if not ctx.closures:
            st.frames.pop(fid, None)
        return v

    def construct(self, cv, args, kwargs):
        k = self.class_kind(cv)
        if k == "enum":
            ts = [self.term(a) for a in args]
            if len(ts) == 1 and is_const(ts[0]):
                for st in cv.node.body:
                    if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and isinstance(st.targets[0], ast.Name) \
                            and st.value.value == ts[0].args[0]:
                        return self.class_attr(cv, st.targets[0].id)
            return raw("enumof:" + cv.name, ts)
        if k == "exception" and self.lookup_method(cv, "__init__") is None:
            return raw("exc:" + cv.name, ())
        init = self.lookup_method(cv, "__init__")
        if k in ("dataclass", "namedtuple") and init is None:
            fields = self.annotated_fields(cv)
            vals = {}
            args = list(args)
            kwargs = dict(kwargs)
            star = kwargs.pop("**", None)
            starargs = None
            for nm, ann, dflt, c in fields:
                if args:
                    vals[nm] = args.pop(0)
                elif nm in kwargs:
                    vals[nm] = kwargs.pop(nm)
                elif star is not None:
                    vals[nm] = self.item(star, const(nm))
                elif dflt is not None:
                    vals[nm] = self.field_default(c, dflt)
                else:
                    vals[nm] = unk("missing field " + nm)
            r = self.alloc(Inst(cv, vals))
            pi = self.lookup_method(cv, "__post_init__")
            if pi is not None:
                self.call_func(pi, [r], {})
            return r
        r = self.alloc(Inst(cv, {}))
        if init is not None:
            self.call_func(init, [r] + list(args), kwargs)
        elif args or kwargs:
            c = self.cell(r)
            self.setcell(r, Inst(cv, {**c.fields, "$args": TupV(args)}))
        return r

    def field_default(self, c, node):
        if isinstance(node, ast.Call):
            nm = getattr(node.func, "id", getattr(node.func, "attr", ""))
            if nm == "field":
                for kw in node.keywords:
                    if kw.arg == "default":
                        return self.eval_in_module(c.mod, kw.value)
                    if kw.arg == "default_factory":
                        f = self.eval_in_module(c.mod, kw.value)
                        return self.call(f, [], {}, None)
                return UNDEF
        return self.eval_in_module(c.mod, node)

    # ------------------------------------------------------------ attributes

    def lazy_field(self, c, name):
        """value of an untouched field of a symbolic instance"""
        for nm, ann, dflt, cc in self.annotated_fields(c.cls):
            if nm == name:
                return self.symbolic(f"{c.base}.{name}", ann, cc.mod)
        # attribute assigned in __init__ with an annotation
        init = self.lookup_method(c.cls, "__init__")
        if init is not None:
            anns = {x.arg: x.annotation for x in init.node.args.args}
            for n in ast.walk(init.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                    return self.symbolic(f"{c.base}.{name}", n.annotation, init.mod)
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(n.value, ast.Name) and n.value.id in anns:
                            return self.symbolic(f"{c.base}.{name}", anns[n.value.id], init.mod)
            ann, mod = self.constructed_types(c.cls).get(name, (None, None))
            if ann is not None:
                return self.symbolic(f"{c.base}.{name}", ann, mod)
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name for t in n.targets):
                    return self.symbolic(f"{c.base}.{name}", None, init.mod)
        for c2 in self.mro(c.cls):
            for fn in c2.node.body:
                if isinstance(fn, ast.FunctionDef):
                    for n in ast.walk(fn):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name:
                            return self.symbolic(f"{c.base}.{name}", None, c2.mod)
        return None

    def constructed_types(self, cv):
        """field -> (annotation, module) for the fields that construction sets to one of the constructor's arguments"""
        memo = self.p.__dict__.setdefault("_ctypes", {})
        key = (cv.mod.name, cv.name)
        if key in memo:
            return memo[key]
        memo[key] = {}
        init = self.lookup_method(cv, "__init__")
        anns = {x.arg: x.annotation for x in init.node.args.args[1:] + init.node.args.kwonlyargs}
        if not anns or any(a is None for a in anns.values()):
            return memo[key]
        I = type(self)(self.p)
        I.dimsof, I.consts, I.kinds = (lambda name: None), {}, {}
        inner = I._call_func
        # what other modules compute is no argument of this constructor handed on
        I._call_func = lambda f, a, kw: inner(f, a, kw) if f.mod.name == init.mod.name else I.box(raw("call:other." + f.name, []))
        vals = {k: I.symbolic("$new." + k, a, init.mod) for k, a in anns.items()}
        try:
            r = I.construct(cv, [], vals)
        except Exception:
            return memo[key]
        cell = I.cell(r) if isinstance(r, Ref) else None
        if isinstance(cell, Inst):
            for f, x in cell.fields.items():
                for k, a in anns.items():
                    if x is vals[k] or I.term(x) is I.term(vals[k]):
                        memo[key][f] = (a, init.mod)
                        break
        return memo[key]

    def getattr(self, v, name):
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Inst):
                if name in c.fields:
                    return c.fields[name]
                if c.base is not None:
                    f = self.lazy_field(c, name)
                    if f is not None and not (isinstance(self.class_attr(c.cls, name), FuncV)):
                        cc = self.cell(v)
                        self.setcell(v, Inst(cc.cls, {**cc.fields, name: f}, cc.base, cc.origin))
                        return f
                a = self.class_attr(c.cls, name)
                if isinstance(a, FuncV):
                    if a.kindm == "static":
                        return a
                    if a.kindm == "class":
                        return BoundV(a, c.cls)
                    if a.kindm == "property":
                        return self.call_func(a, [v], {})
                    return BoundV(a, v)
                if a is not None:
                    return a
                if name == "__class__":
                    return c.cls
                if name == "__dict__":
                    if c.base is not None:
                        for nm, *_ in self.annotated_fields(c.cls):
                            self.getattr(v, nm)
                        c = self.cell(v)
                    return self.alloc(Dct([(const(k), x) for k, x in c.fields.items()]))
                if name in ("_asdict", "_replace", "_fields", "__name__"):
                    return ExtBoundV(v, name)
                if c.base is not None:
                    return self.box(raw("attr:" + name, (self.term(v),)))
                return ExtBoundV(v, name)
            return nplib.get_attr(self, v, name)
        if isinstance(v, PhiV):
            return self.forked(v.c, lambda: self.getattr(v.a, name), lambda: self.getattr(v.b, name))
        if isinstance(v, ModV):
            m = v.mod
            sub = f"{m.name}.{name}"
            r = self.global_value(m, name)
            if r is None and sub in self.p.modules:
                return ModV(self.p.modules[sub])
            return r if r is not None else unk(sub)
        if isinstance(v, ExtV):
            p = v.path + "." + name
            if p in self.p.modules:
                return ModV(self.p.modules[p])
            return nplib.ext_attr(self, p)
        if isinstance(v, ClassV):
            a = self.class_attr(v, name)
            if isinstance(a, FuncV):
                if a.kindm == "class":
                    return BoundV(a, v)
                return a
            if a is not None:
                return a
            if name == "__name__":
                return const(v.name)
            if name == "__annotations__":
                return self.alloc(Dct([(const(n), raw("ann", (const(ast.unparse(an)),))) for n, an, _, _ in self.annotated_fields(v)]))
            if name == "_fields":
                return TupV([const(n) for n in self.field_order(v)])
            return ExtBoundV(v, name)
        if isinstance(v, GenAliasV):
            if name == "__origin__":
                return v.base
            if name == "__args__":
                return TupV(v.args)
            return self.getattr(v.base, name)
        if isinstance(v, SuperV):
            mro = self.mro(v.cls)[1:]
            for c in mro:
                for n in c.node.body:
                    if isinstance(n, ast.FunctionDef) and n.name == name:
                        fv = self.class_attr(c, name)
                        if fv.kindm == "static":
                            return fv
                        return BoundV(fv, v.self_)
            return ExtBoundV(TupV([]), "super." + name)
        if isinstance(v, FuncV):
            if name in ("__name__", "__qualname__"):
                return const(v.name)
            return ExtBoundV(v, name)
        if isinstance(v, TupV):
            return ExtBoundV(v, name)
        if isinstance(v, (ViewV, T)):
            if isinstance(v, T) and v.op == "phi" and any(x.op.startswith(("rec:", "upd:")) or x is NONE for x in v.args[1:]):
                return self.forked(v.args[0], lambda: self.getattr(v.args[1], name), lambda: self.getattr(v.args[2], name))
            if isinstance(v, T) and v.op.startswith("rec:"):
                return self.getattr(self.box(v), name)
            if isinstance(v, T) and name in ("value", "name"):
                if v.op.startswith("enum:") and (name == "name" or v.op in ENUMS):
                    return ENUMS[v.op] if name == "value" else const(v.op.rsplit(".", 1)[1])
                if v.op.startswith("enumof:") and name == "value" and len(v.args) == 1:
                    return v.args[0]
            return nplib.get_attr(self, v, name)
        return ExtBoundV(v, name)

    def setattr(self, v, name, val):
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Inst):
                if c.origin:
                    self.event("setattr", raw("mut:" + c.origin, (const(name), self.term(val))))
                self.setcell(v, Inst(c.cls, {**c.fields, name: val}, c.base, c.origin))
                return
            t = self.term(v)
            self.mutated(v, "attribute " + name)
            self.setcell(v, Arr(mk_setattr(t, name, self.term(val)), getattr(c, "origin", None)))
            return
        if isinstance(v, PhiV):
            self.forked(v.c, lambda: self.setattr(v.a, name, val) or NONE, lambda: self.setattr(v.b, name, val) or NONE)
            return
        if isinstance(v, ClassV) or isinstance(v, ModV) or isinstance(v, ExtV):
            self.event("setglobal", raw("setg", (self.term(v), const(name), self.term(val))))
            return
        self.event("setattr?", raw("setattr?", (self.term(v), const(name), self.term(val))))

    # ------------------------------------------------------------ subscripts

    def item(self, v, k):
        """v[k] for a constant index or key term"""
        if isinstance(v, TupV) and is_int(k) and -len(v.items) <= k.args[0] < len(v.items):
            return v.items[k.args[0]]
        return self.subscript(v, [k])

    def subscript(self, v, keys):
        """v[keys]; keys are key terms (already normalised slices etc.)"""
        if isinstance(v, PhiV):
            return self.forked(v.c, lambda: self.subscript(v.a, keys), lambda: self.subscript(v.b, keys))
        if isinstance(v, TupV):
            k = keys[0]
            if len(keys) == 1 and is_int(k) and -len(v.items) <= k.args[0] < len(v.items):
                return v.items[k.args[0]]
            if len(keys) == 1 and k.op == "slice" and all(x is NONE or is_int(x) for x in k.args):
                lo, hi, st = [None if x is NONE else x.args[0] for x in k.args]
                return TupV(v.items[lo:hi:st])
            if len(keys) == 1 and k is FULL:
                return v
            return self.box(mk_ix(self.term(v), keys))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                k = keys[0]
                if len(keys) == 1 and is_int(k) and -len(c.items) <= k.args[0] < len(c.items):
                    return c.items[k.args[0]]
                if len(keys) == 1 and k.op == "slice" and all(x is NONE or is_int(x) for x in k.args):
                    lo, hi, st = [None if x is NONE else x.args[0] for x in k.args]
                    return self.alloc(Lst(c.items[lo:hi:st]))
                if len(keys) == 1 and k is FULL:
                    return self.alloc(Lst(c.items))
                if len(keys) == 1 and kind(k) == "bool" and rank(k) == 0 and len(c.items) == 2:
                    return self.merge_values(k, c.items[1], c.items[0])
            if isinstance(c, Dct):
                k = keys[0] if len(keys) == 1 else raw("tuple", keys)
                for kk, x in c.items:
                    if kk is k:
                        return x
                if is_const(k) and all(is_const(kk) for kk, _ in c.items):
                    self.raises[-1].append((self.st.fork(), raw("exc:KeyError", (k,))))
                    raise Dead
                t = self.term(v)
                if len(c.items) and all(not is_const(kk) or True for kk, _ in c.items) and len(c.items) <= 8:
                    # dispatch table
                    r = raw("ix", (t, keytuple([k])))
                    vals = [x for _, x in c.items]
                    if any(isinstance(x, (FuncV, BoundV, ClassV)) or not isinstance(x, T) for x in vals):
                        acc = None
                        for kk, x in reversed(c.items):
                            acc = x if acc is None else self.merge_values(mk_eq(k, kk), x, acc)
                        return acc
                    acc = vals[-1]
                    for kk, x in reversed(c.items[:-1]):
                        acc = mk_phi(mk_eq(k, kk), x, acc)
                    return acc
                return self.box(mk_ix(t, [k]))
            if isinstance(c, Inst):
                if self.class_kind(c.cls) == "namedtuple" and len(keys) == 1 and is_int(keys[0]):
                    names = self.field_order(c.cls)
                    return self.getattr(v, names[keys[0].args[0]])
                m = self.lookup_method(c.cls, "__getitem__")
                if m is not None:
                    return self.call_func(m, [v] + [self.box(k) for k in keys], {})
            if isinstance(c, Arr):
                t = c.term
                if len(keys) == 1 and (kind(t) == "str" or is_str(t)):
                    return raw("ix", (t, keytuple(keys)))
                if t.op == "phi" and len(keys) == 1 and any(x.op in ("tuple", "list", "dict") or x.op.startswith("rec:") for x in t.args[1:]):
                    return self.box(mk_phi(t.args[0], mk_ix(t.args[1], keys), mk_ix(t.args[2], keys)))
                basic = all(k in (FULL, NEWAX) or k.op == "slice" or is_scalar(k) for k in keys)
                if basic and any(k is FULL or k.op == "slice" for k in keys) and NEWAX not in keys and kind(t) not in ("list", "str", "pd"):
                    return ViewV(v, keys)
                if basic and rank(t) is not None and rank(t) > len(keys) and NEWAX not in keys:
                    return ViewV(v, keys)
                return self.box(nplib.index_term(self, t, keys))
        if isinstance(v, ViewV):
            inner = [k for k in keys]
            return self.box(mk_ix(self.term(v), inner))
        if isinstance(v, (ExtV, ClassV, GenAliasV)):
            return GenAliasV(v, [k for k in keys])
        t = self.term(v)
        return self.box(nplib.index_term(self, t, keys))

    def store_sub(self, target, keys, val):
        if isinstance(target, PhiV):
            self.forked(target.c, lambda: self.store_sub(target.a, keys, val) or NONE,
                        lambda: self.store_sub(target.b, keys, val) or NONE)
            return
        if isinstance(target, ViewV):
            base = self.term(target.ref)
            old = mk_ix(base, target.keys)
            new = mk_store(old, keys, self.term(val))
            # write the updated slice back as a whole
            self.mutated(target.ref, "item")
            comb = combine_view(target.keys, keys, rank(base))
            c = self.cell(target.ref)
            if comb is not None:
                nt = mk_store(base, comb, self.term(val))
            else:
                nt = mk_store(base, list(target.keys), new)
            self.setcell(target.ref, Arr(nt, getattr(c, "origin", None)))
            return
        if isinstance(target, Ref):
            c = self.cell(target)
            if isinstance(c, Lst):
                k = keys[0]
                if len(keys) == 1 and is_int(k) and -len(c.items) <= k.args[0] < len(c.items):
                    items = list(c.items)
                    items[k.args[0]] = val
                    self.mutated(target, "item")
                    self.setcell(target, Lst(items, c.origin))
                    return
            if isinstance(c, Dct):
                k = keys[0] if len(keys) == 1 else raw("tuple", keys)
                self.mutated(target, "item")
                if is_const(k) and all(is_const(kk) for kk, _ in c.items) or any(kk is k for kk, _ in c.items) or not c.items:
                    items = []
                    done = False
                    for kk, x in c.items:
                        if kk is k:
                            items.append((kk, val))
                            done = True
                        else:
                            items.append((kk, x))
                    if not done:
                        items.append((k, val))
                    self.setcell(target, Dct(items, c.origin))
                    return
                self.setcell(target, Arr(mk_dstore(self.term(target), k, self.term(val)), c.origin))
                return
            if isinstance(c, Inst):
                m = self.lookup_method(c.cls, "__setitem__")
                if m is not None:
                    self.call_func(m, [target] + [self.box(k) for k in keys] + [val], {})
                    return
            self.mutated(target, "item")
            t = self.term(target)
            vt = self.term(val)
            if is_dictlike(t):
                nt = mk_dstore(t, keys[0] if len(keys) == 1 else raw("tuple", keys), vt)
            elif len(keys) == 1 and is_str(keys[0]):
                nt = raw("setcol", (t, keys[0], vt))
            else:
                nt = mk_store(t, keys, vt)
            self.setcell(target, Arr(nt, getattr(c, "origin", None)))
            return
        if isinstance(target, ExtBoundV) and target.name in ("loc", "iloc", "at", "iat"):
            r = target.recv
            t = self.term(r)
            if isinstance(r, Ref):
                self.mutated(r, "item")
                c = self.cell(r)
                if target.name in ("iloc", "iat"):
                    nt = mk_store(t, keys, self.term(val))
                else:
                    nt = raw("store:loc", (t, keytuple(keys), self.term(val)))
                self.setcell(r, Arr(nt, getattr(c, "origin", None)))
                return
        self.event("store?", raw("store?", (self.term(target), keytuple(keys), self.term(val))))

    def key_of(self, node):
        """AST index -> list of key terms"""
        if isinstance(node, ast.Tuple):
            return [self.key1(e) for e in node.elts]
        v = None
        k = self.key1(node)
        if k.op == "tuple" and isinstance(node, ast.Name):
            return list(k.args)
        if k.op == "ixgrid":
            return [k]
        return [k]

    def key1(self, e):
        if isinstance(e, ast.Slice):
            lo = self.term(self.eval(e.lower)) if e.lower else NONE
            hi = self.term(self.eval(e.upper)) if e.upper else NONE
            st = self.term(self.eval(e.step)) if e.step else NONE
            return norm_slice(lo, hi, st)
        if isinstance(e, ast.Constant) and e.value is None:
            return NEWAX
        if isinstance(e, ast.Constant) and e.value is Ellipsis:
            return raw("ellipsis", ())
        v = self.eval(e)
        t = self.term(v)
        if t.op == "ext:np.newaxis":
            return NEWAX
        if t is NONE:
            return NEWAX if isinstance(e, ast.Attribute) else NONE
        if t.op == "list" and t.args and all(kind(a) == "bool" for a in t.args):
            return t
        return t

    # ------------------------------------------------------------ expressions

    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.mkunk("expr " + type(e).__name__)
        return m(e)

    def mkunk(self, why):
        self.unks.append((why, self.where))
        return unk(why + f"@{self.where[1]}")

    def eval_const(self, e):
        return const(e.value)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        v = self.lookup(e.id)
        if v is UNDEF:
            return self.mkunk("undefined " + e.id)
        return v

    def e_Attribute(self, e):
        v = self.eval(e.value)
        return self.getattr(v, e.attr)

    def e_Subscript(self, e):
        v = self.eval(e.value)
        if isinstance(v, (ClassV,)) and self.class_kind(v) == "enum":
            return raw("enumix:" + v.name, (self.term(self.eval(e.slice)),))
        if isinstance(v, (ExtV, ClassV, GenAliasV)):
            if isinstance(e.slice, ast.Tuple):
                args = [self.eval(x) for x in e.slice.elts]
            else:
                args = [self.eval(e.slice)]
            if isinstance(v, ExtV) and nplib.canon_path(v.path) in ("np.r_", "np.c_"):
                return self.box(raw("call:" + nplib.canon_path(v.path), [self.term(a) for a in args]))
            if isinstance(v, ExtV) and nplib.canon_path(v.path).split(".")[0] in ("os",):
                return self.box(raw("ix", (self.term(v), keytuple([self.term(a) for a in args]))))
            return GenAliasV(v, args)
        if isinstance(v, ExtBoundV) and v.name in ("loc", "iloc", "at", "iat"):
            keys = self.key_of(e.slice)
            t = self.term(v.recv)
            if v.name in ("iloc", "iat"):
                return self.box(mk_ix(t, keys))
            return self.box(nplib.loc_term(self, t, keys))
        keys = self.key_of(e.slice)
        return self.subscript(v, keys)

    def e_Tuple(self, e):
        return TupV(self.eval_elts(e.elts))

    def eval_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                its = self.concrete_items(v)
                if its is None:
                    out.append(self.box(raw("star", (self.term(v),))))
                else:
                    out.extend(its)
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        its = self.eval_elts(e.elts)
        if any(isinstance(x, T) and x.op == "star" or isinstance(x, Ref) and isinstance(self.cell(x), Arr) and self.cell(x).term.op == "star" for x in its):
            segs = []
            for x in its:
                t = self.term(x)
                segs.append(t.args[0] if t.op == "star" else mk_list([t]))
            return self.box(mk_lcat(segs))
        return self.alloc(Lst(its))

    def e_Set(self, e):
        its = [self.term(x) for x in self.eval_elts(e.elts)]
        return self.alloc(Arr(mk_set(its)))

    def e_Dict(self, e):
        items = []
        symb = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v)
                c = self.cell(d) if isinstance(d, Ref) else None
                if isinstance(c, Dct) and symb is None:
                    for kk, x in c.items:
                        items = [(a, b) for a, b in items if a is not kk] + [(kk, x)]
                else:
                    base = raw("dict", sum([[a, self.term(b)] for a, b in items], [])) if symb is None else symb
                    symb = mk_dmerge(base, nplib.renewed(self, self.term(d), "copy"))
                continue
            kt = self.term(self.eval(k))
            vv = self.eval(v)
            if symb is not None:
                symb = mk_dstore(symb, kt, self.term(vv))
            else:
                items = [(a, b) for a, b in items if a is not kt] + [(kt, vv)]
        if symb is not None:
            return self.alloc(Arr(symb))
        return self.alloc(Dct(items))

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if op == "BitOr" and (isinstance(a, (ExtV, ClassV, GenAliasV)) or isinstance(b, (ExtV, ClassV, GenAliasV))):
            return GenAliasV(ExtV("builtins.Union"), [a, b])
        if op == "Add":
            if isinstance(a, TupV) and isinstance(b, TupV):
                return TupV(a.items + b.items)
            ca = self.cell(a) if isinstance(a, Ref) else None
            cb = self.cell(b) if isinstance(b, Ref) else None
            if isinstance(ca, Lst) and isinstance(cb, Lst):
                return self.alloc(Lst(ca.items + cb.items))
        for x, y, swap in ((a, b, False), (b, a, True)):
            c = self.cell(x) if isinstance(x, Ref) else None
            if isinstance(c, Inst):
                nm = {"Add": "add", "Sub": "sub", "Mult": "mul"}.get(op)
                if nm:
                    m = self.lookup_method(c.cls, f"__{'r' if swap else ''}{nm}__")
                    if m is not None:
                        return self.call_func(m, [x, y], {})
        ta, tb = self.term(a), self.term(b)
        if any(self.is_literal_array(x) for x in (a, b)):
            t = self.elementwise(op, ta, tb)
            if t is not None:
                return self.alloc(Arr(t))
        return self.box(self.binop_t(op, ta, tb))

    def is_literal_array(self, v):
        """an array written out element by element: np.array([a, b])"""
        c = self.cell(v) if isinstance(v, Ref) else None
        return isinstance(c, Arr) and c.origin is None and c.term.op == "list"

    def elementwise(self, op, a, b):
        """arithmetic on arrays written out element by element (their terms are those of lists, which add by concatenation)"""
        lit = a if a.op == "list" else b
        other = b if lit is a else a
        n, ra, ro = len(lit.args), rank(lit), rank(other)
        if op in ("MatMult", "BitAnd", "BitOr", "BitXor") or ra is None or ro is None or n == 0:
            return None
        if ro < ra:
            if ro > 0 and ra - ro != 1:
                return None
            its = [(x, other) for x in lit.args]
        elif ro == ra:
            if other.op == "list" and len(other.args) != n:
                return None
            its = [(x, mk_ix(other, [const(i)])) for i, x in enumerate(lit.args)]
        else:
            return None
        out = []
        for x, y in its:
            if lit is b:
                x, y = y, x
            out.append((self.elementwise(op, x, y) if "list" in (x.op, y.op) else None) or self.binop_t(op, x, y))
        return mk_list(out)

    def binop_t(self, op, a, b):
        if op == "Add":
            return mk_add(a, b)
        if op == "Sub":
            if is_setlike(a) or is_setlike(b):
                return mk_setdiff(a, b)
            return mk_sub(a, b)
        if op == "Mult":
            if a.op == "list" or kind(a) == "list" or kind(b) == "list":
                if kind(b) == "list":
                    a, b = b, a
                if a.op == "list" and is_int(b) and b.args[0] <= 64:
                    return mk_list(list(a.args) * b.args[0])
                if a.op == "list" and len(a.args) == 1:
                    v = fresh("#i")
                    return mk_map(b, close(v, a.args[0]))
                return raw("lrep", (a, b))
            if kind(a) == "str" or kind(b) == "str":
                return raw("srep", (a, b))
            if kind(a) == "bool" and kind(b) == "bool":
                return mk_and([a, b])
            return mk_mul(a, b)
        if op == "Div":
            if nplib.is_path(a):
                return nplib.path_join(a, b)
            return mk_div(a, b)
        if op == "Pow":
            return mk_pow(a, b)
        if op == "Mod":
            if kind(a) == "str":
                return (nplib.percent(a.args[0], b) if is_str(a) else None) or raw("strmod", (a, b))
            return mk_mod(a, b)
        if op == "FloorDiv":
            return mk_floordiv(a, b)
        if op == "MatMult":
            return mk_matmul(a, b)
        if op == "BitAnd":
            if is_setlike(a) or is_setlike(b):
                return mk_setand([a, b])
            for x, y in ((a, b), (b, a)):
                if x is ONE:
                    r = mk_low_bit(y)
                    return r if r is not None else mk_mod(y, const(2))
            if kind(a) == "int" and kind(b) == "int":
                return raw("bin:BitAnd", sorted((a, b), key=lambda t: t.dig))
            return mk_and([a, b])
        if op == "BitOr":
            if is_setlike(a) or is_setlike(b):
                return mk_union([a, b])
            if is_dictlike(a) or is_dictlike(b):
                return mk_dmerge(a, b)
            return mk_or([a, b])
        if op == "BitXor":
            if is_setlike(a) or is_setlike(b):
                return raw("setxor", sorted((a, b)))
            return raw("xor", sorted((a, b)))
        return raw("bin:" + op, (a, b))

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return mk_not(self.cond(e.operand))
        v = self.term(self.eval(e.operand))
        if isinstance(e.op, ast.USub):
            return self.box(mk_neg(v)) if v.op != "list" else self.alloc(Arr(mk_list([mk_neg(x) for x in v.args])))
        if isinstance(e.op, ast.UAdd):
            return v
        # ~x
        if kind(v) in ("int", "num") and kind(v) != "bool":
            return self.box(raw("invert", (v,)))
        return self.box(mk_not(v))

    def cond(self, e):
        """condition of an expression node, as a boolean term"""
        if isinstance(e, ast.BoolOp):
            cs = []
            saved = self.st.pc
            for x in e.values:
                c = self.cond(x)
                cs.append(c)
                if isinstance(e.op, ast.And):
                    if c is FALSE:
                        break
                    self.st.pc = self.st.pc + ((c,) if c is not TRUE else ())
                else:
                    if c is TRUE:
                        break
                    self.st.pc = self.st.pc + ((mk_not(c),) if c is not FALSE else ())
            # calls inside may have replaced the state; restore the path condition
            self.st.pc = saved + tuple(x for x in self.st.pc[len(saved):] if False)
            return mk_and(cs) if isinstance(e.op, ast.And) else mk_or(cs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return mk_not(self.cond(e.operand))
        return self.truth(self.eval(e))

    def truth(self, v):
        if isinstance(v, T):
            return self.known(as_bool(v))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, (Lst, Dct)):
                return TRUE if c.items else FALSE
            if isinstance(c, Inst):
                m = self.lookup_method(c.cls, "__bool__") or self.lookup_method(c.cls, "__len__")
                if m is not None:
                    return self.truth(self.call_func(m, [v], {}))
                return TRUE
            t = c.term
            if kind(t) == "list" or t.op in ("lcat", "filtermap"):
                return mk_pos(nplib.mk_len(t))
            return self.known(as_bool(t))
        if isinstance(v, TupV):
            return TRUE if v.items else FALSE
        if isinstance(v, PhiV):
            return phi_to_bool(mk_phi(v.c, self.truth(v.a), self.truth(v.b)))
        if isinstance(v, ViewV):
            return as_bool(self.term(v))
        return TRUE

    def known(self, c):
        """fold a condition decided by the current path"""
        if c.op == "const":
            return c
        n = mk_not(c)
        for x in self.st.pc:
            if x is c:
                return TRUE
            if x is n:
                return FALSE
            if x.op == "and":
                for y in x.args:
                    if y is c:
                        return TRUE
                    if y is n:
                        return FALSE
        return c

    def e_BoolOp(self, e):
        vals = []
        saved = self.st.pc
        allb = True
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.eval(x)
            vals.append(v)
            t = self.truth(v)
            if t is (FALSE if isand else TRUE):
                break
            cc = t if isand else mk_not(t)
            if cc is not TRUE:
                self.st.pc = self.st.pc + (cc,)
        self.st.pc = saved
        if all(isinstance(v, T) and (kind(v) == "bool") for v in vals):
            ts = [self.truth(v) for v in vals]
            return mk_and(ts) if isand else mk_or(ts)
        acc = vals[-1]
        for v in reversed(vals[:-1]):
            c = self.truth(v)
            acc = self.merge_values(c, acc, v) if isand else self.merge_values(c, v, acc)
        return acc

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            out.append(self.compare(type(op).__name__, left, right))
            left = right
        return self.box(mk_and(out)) if len(out) > 1 else self.box(out[0])

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return r if op == "Is" else mk_not(r)
        if op in ("In", "NotIn"):
            r = self.contains(a, b)
            return r if op == "In" else mk_not(r)
        for x, y in ((a, b),):
            c = self.cell(x) if isinstance(x, Ref) else None
            if isinstance(c, Inst) and op in ("Eq", "NotEq"):
                m = self.lookup_method(c.cls, "__eq__")
                if m is not None:
                    r = self.truth(self.call_func(m, [x, y], {}))
                    return r if op == "Eq" else mk_not(r)
        ta, tb = self.term(a), self.term(b)
        if op == "Eq":
            return mk_eq(ta, tb)
        if op == "NotEq":
            return mk_not(mk_eq(ta, tb))
        if is_setlike(ta) or is_setlike(tb):
            nm = {"Lt": "ssub", "LtE": "issubset", "Gt": "ssub", "GtE": "issubset"}[op]
            if op in ("Gt", "GtE"):
                ta, tb = tb, ta
            return mk_subset(ta, tb) if nm == "issubset" else raw("ssub", (ta, tb))
        if op == "Lt":
            return mk_lt(ta, tb)
        if op == "Gt":
            return mk_lt(tb, ta)
        if op == "LtE":
            return mk_le(ta, tb)
        return mk_le(tb, ta)

    def is_same(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return TRUE
        ta, tb = self.term(a), self.term(b)
        if ta is NONE or tb is NONE:
            x = b if ta is NONE else a
            if isinstance(x, Ref):
                c = self.cell(x)
                if not isinstance(c, Arr):
                    return FALSE
            if isinstance(x, (TupV, FuncV, ClassV, BoundV, ViewV)):
                return FALSE
            return self.known(mk_isnone(self.term(x)))
        return mk_eq(ta, tb)

    def contains(self, a, b):
        ta = self.term(a)
        its = self.concrete_items(b)
        if its is not None and len(its) <= 40:
            return mk_or([mk_eq(ta, self.term(x)) for x in its])
        return self.known(mk_in(ta, nplib.keys_view(self.term(b))))

    def e_IfExp(self, e):
        c = self.cond(e.test)
        return self.forked(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.setvar(e.target.id, v)
        return v

    def e_Lambda(self, e):
        ctx = self.ctxs[-1]
        ctx.closures = True
        return FuncV(e, self.curmod(), ctx.fid)

    def curmod(self):
        f = self.ctxs[-1].func
        return f[1] if isinstance(f, tuple) else f.mod

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                t = self.term(self.eval(x.value))
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    sp = self.term(self.eval(x.format_spec)) if x.format_spec is not None else const("")
                    parts.append(raw("fmt", (t, sp, const(x.conversion))))
                else:
                    parts.append(mk_caststr(t))
        return mk_scat(parts)

    def e_FormattedValue(self, e):
        return mk_caststr(self.term(self.eval(e.value)))

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value else NONE
        r = self.lookup("$yield")
        self.event("yield", self.term(v))
        nplib.list_append(self, r, v)
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        r = self.lookup("$yield")
        self.event("yield", raw("yieldfrom", (self.term(v),)))
        nplib.list_extend(self, r, v)
        return NONE

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Call(self, e):
        self.where = (self.curmod().path, e.lineno)
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step budget")
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            for c in reversed(self.ctxs):
                if isinstance(c.func, FuncV) and c.func.cls is not None:
                    fr = self.st.frames[c.fid]
                    first = c.func.node.args.args[0].arg
                    return SuperV(c.func.cls, fr[first])
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "eval", "exec"):
            return self.mkunk(e.func.id)
        f = self.eval_callee(e.func)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                its = self.concrete_items(v)
                if its is None:
                    args.append(raw("star", (self.term(v),)))
                else:
                    args.extend(its)
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                c = self.cell(d) if isinstance(d, Ref) else None
                if isinstance(c, Dct) and all(is_str(kk) for kk, _ in c.items):
                    for kk, x in c.items:
                        kwargs[kk.args[0]] = x
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.eval(k.value)
        self.where = (self.curmod().path, e.lineno)
        return self.call(f, args, kwargs, e)

    CONTAINER_UPDATES = {"append", "extend", "add", "update", "insert", "remove", "discard", "clear", "sort", "reverse"}

    def eval_callee(self, fn):
        if isinstance(fn, ast.Attribute):
            if fn.attr == "index":
                v = self.eval(fn.value)
                c = self.cell(v) if isinstance(v, Ref) else None
                if isinstance(c, (Lst,)) or isinstance(v, TupV) or (not isinstance(v, (ModV, ExtV, ClassV)) and not isinstance(c, Inst)):
                    return ExtBoundV(v, "index")
                return self.getattr(v, fn.attr)
            if fn.attr in self.CONTAINER_UPDATES and isinstance(fn.value, ast.Subscript) and isinstance(fn.value.value, (ast.Name, ast.Attribute)):
                b = self.eval(fn.value.value)
                if isinstance(b, Ref) and isinstance(self.cell(b), Arr) and b is not None:
                    keys = self.key_of(fn.value.slice)
                    r = self.subscript(b, keys)
                    if not isinstance(r, (Ref, ViewV)) or (isinstance(r, Ref) and isinstance(self.cell(r), Arr)):
                        return ExtBoundV(ViewV(b, keys), fn.attr)
                    return self.getattr(r, fn.attr)
            if isinstance(fn.value, ast.Name) and fn.value.id == "super":
                return self.eval(fn)
            v = self.eval(fn.value)
            f = self.getattr(v, fn.attr)
            if isinstance(v, T) or isinstance(v, Ref) and isinstance(self.cell(v), Arr):
                t = f if isinstance(f, T) else self.term(f) if isinstance(f, Ref) else None
                if t is not None and _just_attr(t, "attr:" + fn.attr):
                    return ExtBoundV(v, fn.attr)
            return f
        return self.eval(fn)

    def e_ListComp(self, e):
        return self.comprehension(e, "list")

    def e_GeneratorExp(self, e):
        return self.comprehension(e, "list")

    def e_SetComp(self, e):
        return self.comprehension(e, "set")

    def e_DictComp(self, e):
        return self.comprehension(e, "dict")

    def comprehension(self, e, what):
        self._fid += 1
        tmp = f"$c{self._fid}"
        ln = dict(lineno=e.lineno, col_offset=0, end_lineno=e.lineno, end_col_offset=0)
        nm = ast.Name(tmp, ast.Load(), **ln)
        if what == "dict":
            body = ast.Assign([ast.Subscript(nm, e.key, ast.Store(), **ln)], e.value, **ln)
            init = self.alloc(Dct([]))
        else:
            body = ast.Expr(ast.Call(ast.Attribute(nm, "append" if what == "list" else "add", ast.Load(), **ln), [e.elt], [], **ln), **ln)
            init = self.alloc(Lst([])) if what == "list" else self.alloc(Arr(mk_set([])))
        names = set()
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [], **ln)
            body = ast.For(g.target, g.iter, [body], [], **ln)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fr = self.st.frames[self.ctxs[-1].fid]
        saved = {n: fr.get(n) for n in names}
        fr[tmp] = init
        self.exec_stmt(body)
        fr = self.st.frames[self.ctxs[-1].fid]
        r = fr.pop(tmp)
        for n, v in saved.items():
            if v is None:
                fr.pop(n, None)
            else:
                fr[n] = v
        return r

    # ------------------------------------------------------------- iteration

    def concrete_items(self, v):
        """list of element values when the number of elements is known statically"""
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                return list(c.items)
            if isinstance(c, Dct):
                return [k for k, _ in c.items]
            if isinstance(c, Inst) and self.class_kind(c.cls) == "namedtuple":
                return [self.getattr(v, n) for n in self.field_order(c.cls)]
            if isinstance(c, Arr) and c.term.op in ("list", "tuple", "set"):
                return [self.box(x) for x in c.term.args]
            return None
        if isinstance(v, T):
            if v.op in ("list", "tuple", "set"):
                return [self.box(x) for x in v.args]
            if v.op == "arange" and is_int(v.args[0]) and v.args[0].args[0] <= 40:
                return [const(i) for i in range(v.args[0].args[0])]
            if is_str(v) and len(v.args[0]) < 40:
                return [const(ch) for ch in v.args[0]]
        return None

    # ------------------------------------------------------------- statements

    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.where = (self.curmod().path, s.lineno)
        WHERE[0] = self.where
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.mkunk("stmt " + type(s).__name__)
            return
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Call):
            self.stmt_call = True
            self._stmt_node = s.value
            v = self.eval(s.value)
            self._stmt_node = None
            t = None
            if isinstance(v, T) and v.op.startswith(("call:", "apply")):
                t = v
            elif isinstance(v, Ref):
                c = self.cell(v)
                if isinstance(c, Arr) and c.term.op.startswith(("call:", "apply")) and c.origin is None:
                    t = c.term
            if t is not None and not nplib.is_pure(t):
                self.where = (self.curmod().path, s.lineno)
                self.event("call", t)
                nplib.stmt_effect(self, s.value, t)
            return
        self.eval(s.value)

    def s_Assign(self, s):
        v = self.eval(s.value)
        self.where = (self.curmod().path, s.lineno)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            keys = self.key_of(t.slice)
            self.store_sub(o, keys, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, elts, v):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        its = self.concrete_items(v)
        if its is None and isinstance(v, PhiV):
            if not star:
                parts = [self.forked(v.c, lambda i=i: self.elem_of(v.a, i), lambda i=i: self.elem_of(v.b, i)) for i in range(n)]
                for e, x in zip(elts, parts):
                    self.assign(e, x)
                return
        if its is None and not star:
            its = [self.elem_of(v, i) for i in range(n)]
        if its is None:
            t = self.term(v)
            i = star[0]
            for k in range(i):
                self.assign(elts[k], self.box(mk_ix(t, [const(k)])))
            self.assign(elts[i].value, self.box(mk_ix(t, [norm_slice(const(i), const(-(n - i - 1)) if n - i - 1 else NONE, NONE)])))
            for k in range(i + 1, n):
                self.assign(elts[k], self.box(mk_ix(t, [const(k - n)])))
            return
        if star:
            i = star[0]
            after = n - i - 1
            for k in range(i):
                self.assign(elts[k], its[k])
            self.assign(elts[i].value, self.alloc(Lst(its[i:len(its) - after])))
            for k in range(after):
                self.assign(elts[i + 1 + k], its[len(its) - after + k])
            return
        if len(its) != n:
            for e in elts:
                self.assign(e, self.mkunk("unpack"))
            return
        for e, x in zip(elts, its):
            self.assign(e, x)

    def elem_of(self, v, i):
        if isinstance(v, TupV):
            return v.items[i] if i < len(v.items) else unk("unpack")
        if isinstance(v, PhiV):
            return self.forked(v.c, lambda: self.elem_of(v.a, i), lambda: self.elem_of(v.b, i))
        t = self.term(v)
        if t.op == "shape?":
            return dim(t.args[0], i)
        if t.op == "phi":
            return self.box(phi_map(t, lambda x: mk_ix(x, [const(i)])))
        return self.box(mk_ix(t, [const(i)]))

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id)
            val = self.eval(s.value)
            if isinstance(cur, Ref):
                c = self.cell(cur)
                if isinstance(c, Lst) and op == "Add":
                    nplib.list_extend(self, cur, val)
                    return
                if isinstance(c, Arr):
                    t = c.term
                    if kind(t) == "list" and op == "Add" and not self.is_literal_array(cur):
                        nplib.list_extend(self, cur, val)
                        return
                    nt = self.elementwise(op, t, self.term(val)) if self.is_literal_array(cur) else None
                    nt = nt if nt is not None else self.binop_t(op, t, self.term(val))
                    if rank(t) == 0 or kind(t) == "str":
                        self.setvar(s.target.id, self.box(nt))
                    else:
                        self.mutated(cur, "in-place operator")
                        self.setcell(cur, Arr(nt, c.origin))
                    return
            if isinstance(cur, ViewV):
                nt = self.binop_t(op, self.term(cur), self.term(val))
                self.store_sub(cur, [FULL], nt) if False else self.store_view(cur, nt)
                return
            self.setvar(s.target.id, self.binop(op, cur, val))
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value)
            cur = self.getattr(o, s.target.attr)
            val = self.eval(s.value)
            if isinstance(cur, Ref):
                c = self.cell(cur)
                if isinstance(c, Lst) and op == "Add":
                    nplib.list_extend(self, cur, val)
                    return
                if isinstance(c, Arr) and rank(c.term) != 0 and kind(c.term) != "str":
                    self.mutated(cur, "in-place operator")
                    self.setcell(cur, Arr(self.binop_t(op, c.term, self.term(val)), c.origin))
                    return
            self.setattr(o, s.target.attr, self.binop(op, cur, val))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value)
            keys = self.key_of(s.target.slice)
            if isinstance(o, ExtBoundV):
                cur = self.box(mk_ix(self.term(o.recv), keys) if o.name in ("iloc", "iat") else nplib.loc_term(self, self.term(o.recv), keys))
            else:
                cur = self.subscript(o, keys)
            val = self.eval(s.value)
            if isinstance(cur, Ref) and isinstance(self.cell(cur), Lst) and op == "Add":
                nplib.list_extend(self, cur, val)
                return
            self.store_sub(o, keys, self.binop(op, self.box(self.term(cur)), val))

    def store_view(self, view, t):
        base = self.term(view.ref)
        self.mutated(view.ref, "in-place operator")
        c = self.cell(view.ref)
        self.setcell(view.ref, Arr(mk_store(base, list(view.keys), t), getattr(c, "origin", None)))

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.ctxs[-1].returns.append((self.st, v))
        raise Dead

    def s_Raise(self, s):
        if s.exc is None:
            e = self.cur_exc[-1] if self.cur_exc else raw("exc:?", ())
        else:
            v = self.eval(s.exc)
            e = self.exc_term(v)
        self.raises[-1].append((self.st, e))
        self.event("raise", e)
        raise Dead

    def exc_term(self, v):
        if isinstance(v, ExtV):
            return raw("exc:" + v.path.split(".")[-1], ())
        if isinstance(v, ClassV):
            return raw("exc:" + v.name, ())
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Inst):
                return raw("exc:" + c.cls.name, ())
        t = self.term(v)
        if t.op.startswith("exc:"):
            return t
        if t.op.startswith("call:") :
            return raw("exc:" + t.op[5:].split(".")[-1], ())
        return raw("exc:?", (t,))

    def s_If(self, s):
        c = self.cond(s.test)
        if c is TRUE:
            self.exec_block(s.body)
            return
        if c is FALSE:
            self.exec_block(s.orelse)
            return
        base = self.st
        basepc = base.pc
        out = []
        for cc, blk in ((c, s.body), (mk_not(c), s.orelse)):
            self.st = base.fork()
            self.st.pc = basepc + (cc,)
            try:
                self.exec_block(blk)
                out.append((cc, self.st))
            except Dead:
                pass
        if not out:
            raise Dead
        if len(out) == 1:
            self.st = out[0][1]
            return
        self.st = self.merge_states(c, out[0][1], out[1][1], basepc)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.setvar(a.asname, self.resolve_import(a.name, None))
            else:
                self.setvar(a.name.split(".")[0], self.resolve_import(a.name.split(".")[0], None))

    def s_ImportFrom(self, s):
        for a in s.names:
            self.setvar(a.asname or a.name, self.resolve_import(s.module or "", a.name))

    def s_Global(self, s):
        self.event("global", raw("global", [const(n) for n in s.names]))

    def s_Nonlocal(self, s):
        fr = self.st.frames[self.ctxs[-1].fid]
        fr["$nonlocal"] = tuple(fr.get("$nonlocal", ())) + tuple(s.names)

    def s_FunctionDef(self, s):
        ctx = self.ctxs[-1]
        ctx.closures = True
        self.setvar(s.name, FuncV(s, self.curmod(), ctx.fid, None, s.name))

    def s_ClassDef(self, s):
        self.setvar(s.name, ClassV(s, self.curmod()))

    def s_Assert(self, s):
        pass

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[self.ctxs[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                keys = self.key_of(t.slice)
                if isinstance(o, Ref):
                    c = self.cell(o)
                    self.mutated(o, "del")
                    if isinstance(c, Dct) and any(kk is keys[0] for kk, _ in c.items):
                        self.setcell(o, Dct([(a, b) for a, b in c.items if a is not keys[0]], c.origin))
                        continue
                    if isinstance(c, Lst) and is_int(keys[0]) and len(keys) == 1:
                        its = list(c.items)
                        try:
                            del its[keys[0].args[0]]
                            self.setcell(o, Lst(its, c.origin))
                            continue
                        except IndexError:
                            pass
                    if isinstance(c, Lst) and keys[0].op == "slice" and all(x is NONE or is_int(x) for x in keys[0].args):
                        its = list(c.items)
                        lo, hi, st = [None if x is NONE else x.args[0] for x in keys[0].args]
                        del its[lo:hi:st]
                        self.setcell(o, Lst(its, c.origin))
                        continue
                    t0 = self.term(o)
                    self.setcell(o, Arr(nplib.mk_del(t0, keys), getattr(c, "origin", None)))

    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if isinstance(v, Ref) and isinstance(self.cell(v), Inst):
                m = self.lookup_method(self.cell(v).cls, "__enter__")
                if m is not None:
                    v = self.call_func(m, [v], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)

    def exc_matches(self, e, names):
        """static match of raised exception term against handler names: True/False/None"""
        n = e.op[4:]
        if n == "?":
            return None
        seen = []
        cur = n
        cv = self.find_class(n)
        if cv is not None:
            anc = {c.name for c in self.mro(cv)} | self.ext_bases(cv)
            for b in list(anc):
                while b in EXC_PARENTS:
                    b = EXC_PARENTS[b]
                    anc.add(b)
        else:
            anc = {n}
            while cur in EXC_PARENTS:
                cur = EXC_PARENTS[cur]
                anc.add(cur)
        return any(x in anc for x in names)

    def s_Try(self, s):
        base = self.st.fork()
        basepc = self.st.pc
        self.raises.append([])
        ncalls = len(self.extcalls)
        ctx = self.ctxs[-1]
        nret = len(ctx.returns)
        nloop = (len(ctx.loops[-1][0]), len(ctx.loops[-1][1])) if ctx.loops else None
        try:
            self.exec_block(s.body)
            ok = True
        except Dead:
            ok = False
        caught = self.raises.pop()
        nret2 = len(ctx.returns)
        nloop2 = (len(ctx.loops[-1][0]), len(ctx.loops[-1][1])) if ctx.loops else None
        body_state = self.st if ok else None
        ext = {}
        for t in self.extcalls[ncalls:]:
            ext[id(t)] = t
        ext = {k: t for k, t in ext.items() if t.op[5:] not in PARENT}
        foreign = {k: t for k, t in ext.items() if not t.op.startswith("call:np.")}
        key = raw("key", sorted((foreign or ext).values())) if ext else None
        handlers = []
        for h in s.handlers:
            if h.type is None:
                names = ["BaseException"]
            else:
                tv = self.eval(h.type)
                vs = tv.items if isinstance(tv, TupV) else [tv]
                names = []
                for x in vs:
                    if isinstance(x, ExtV):
                        names.append(x.path.split(".")[-1])
                    elif isinstance(x, ClassV):
                        names.append(x.name)
                    else:
                        names.append("?")
            handlers.append((names, h))
        results = []
        # exceptions raised by the program itself
        pend = []
        for st, e in caught:
            for names, h in handlers:
                m = self.exc_matches(e, names)
                if m or m is None:
                    pend.append((st, e, h))
                    break
            else:
                self.raises[-1].append((st, e))
        for st, e, h in pend:
            self.run_handler(st, e, h, results)
        # exceptions raised by libraries called in the body
        notx = []
        if key is not None and handlers:
            for names, h in handlers:
                atom = mk_or([raw("exc", (raw("names", [const(x)]), key)) for x in sorted(set(names))])
                st = base.fork()
                st.pc = basepc + tuple(notx) + (atom,)
                self.run_handler(st, raw("exc:" + "|".join(sorted(names)), (key,)), h, results)
                notx.append(mk_not(atom))
        if body_state is not None:
            # the normal outcome
            rel = body_state.pc[len(basepc):]
            body_state.pc = basepc + tuple(notx) + tuple(rel)
            self.st = body_state
            try:
                self.exec_block(s.orelse)
                results.append((self.st, NONE))
            except Dead:
                pass
        if notx:
            # leaving the body early means that nothing was raised
            for st, _ in ctx.returns[nret:nret2]:
                st.pc = st.pc + tuple(notx)
            if nloop is not None:
                for lst, k0, k1 in ((ctx.loops[-1][0], nloop[0], nloop2[0]), (ctx.loops[-1][1], nloop[1], nloop2[1])):
                    for st in lst[k0:k1]:
                        st.pc = st.pc + tuple(notx)
        if not results:
            raise Dead
        # normal result last so that handler conditions lead
        st, _ = self.merge_many(results, basepc)
        self.st = st
        if s.finalbody:
            self.exec_block(s.finalbody)

    s_TryStar = s_Try

    def run_handler(self, st, e, h, results):
        self.st = st
        if h.name:
            self.setvar(h.name, self.box(e))
        self.cur_exc.append(e)
        try:
            self.exec_block(h.body)
            results.append((self.st, NONE))
        except Dead:
            pass
        finally:
            self.cur_exc.pop()

    def s_Match(self, s):
        v = self.eval(s.subject)
        self.match_cases(v, s.cases)

    def match_cases(self, v, cases):
        if not cases:
            return
        c = cases[0]
        cnd, binds = self.pattern(v, c.pattern)
        def body():
            for n, x in binds:
                self.setvar(n, x)
            self.exec_block(c.body)
            return NONE
        if c.guard is not None:
            for n, x in binds:
                self.setvar(n, x)
            cnd = mk_and([cnd, self.cond(c.guard)])
        self.forked(cnd, body, lambda: self.match_cases(v, cases[1:]) or NONE)

    def pattern(self, v, p):
        if isinstance(p, ast.MatchValue):
            return mk_eq(self.term(v), self.term(self.eval(p.value))), []
        if isinstance(p, ast.MatchSingleton):
            return self.is_same(v, const(p.value)), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, v)] if p.name else [])
            c, b = self.pattern(v, p.pattern)
            return c, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            return mk_or([self.pattern(v, q)[0] for q in p.patterns]), []
        return self.mkunk("pattern"), []

    # loops: see loops.py


def phi_map(t, f):
    if t.op == "phi":
        return mk_phi(t.args[0], phi_map(t.args[1], f), phi_map(t.args[2], f))
    return f(t)


def simp_or(ps):
    r = FALSE
    for p in ps:
        if p is TRUE:
            return TRUE
        r = to_bdd_or(r, p)
    return phi_to_bool_deep(r)


def to_bdd_or(a, b):
    from terms import _ite
    return _ite(to_bdd(a) if a.op != "phi" else a, TRUE, to_bdd(b))


def phi_to_bool_deep(t):
    if t is TRUE or t is FALSE or t.op != "phi":
        return t
    c, a, b = t.args
    a, b = phi_to_bool_deep(a), phi_to_bool_deep(b)
    return mk_or([mk_and([c, a]), mk_and([mk_not(c), b])])


def is_generator(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def is_setlike(t):
    return t.op in ("set", "union", "setdiff", "setand", "setxor", "setadd", "call:set", "setmap", "setflat") or kind(t) == "set"


def is_dictlike(t):
    return t.op in ("dict", "dstore", "dmerge", "dictmap", "ddel") or kind(t) == "dict"


def combine_view(vk, keys, r):
    """keys of a store through a basic view, expressed on the base array"""
    out = []
    ks = list(keys)
    for k in vk:
        if is_scalar(k):
            out.append(k)
        elif k is FULL:
            out.append(ks.pop(0) if ks else FULL)
        else:
            # slice
            if ks:
                k2 = ks.pop(0)
                if k2 is FULL:
                    out.append(k)
                elif k.op == "slice" and k.args[2] is NONE and is_scalar(k2) and nonneg(k2) and (k.args[0] is NONE or nonneg(k.args[0])):
                    out.append(mk_add(ZERO if k.args[0] is NONE else k.args[0], k2))
                else:
                    return None
            else:
                out.append(k)
    out.extend(ks)
    return out
