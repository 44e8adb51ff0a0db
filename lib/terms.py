"""Hash-consed value-graph terms with a normal form.

A term denotes a value of the analysed program as a function of the program's
inputs.  Terms are built only through the ``mk_*`` constructors, which normalise:
polynomials, comparisons, booleans, selections, loops and conditionals have one
spelling whatever the source looked like.  Nothing here executes the program.
"""
from __future__ import annotations

import hashlib
import os
import math

_TABLE: dict = {}
FLAGS = {"max_expand": 16}
WHERE = [None]  # source position being analysed, for reports


class T:
    __slots__ = ("op", "args", "dig", "h", "size", "syms", "unk", "hasphi",
                 "_dims", "_kind", "prov", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.dig < other.dig


def _enc(a):
    if isinstance(a, T):
        return a.dig
    return (type(a).__name__ + ":" + repr(a)).encode()


_EMPTY = frozenset()


def raw(op, args=()):
    """Build (or find) the term op(args) without normalising."""
    args = tuple(args)
    key = (op, tuple(id(a) if isinstance(a, T) else (type(a).__name__, repr(a)) for a in args))
    t = _TABLE.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    hh = hashlib.blake2b(op.encode(), digest_size=10)
    size = 1
    h = 0
    unk = op == "unk"
    hasphi = op == "phi"
    syms = None
    for a in args:
        e = _enc(a)
        hh.update(b"%d|" % len(e))
        hh.update(e)
        if isinstance(a, T):
            size += a.size
            if a.h > h:
                h = a.h
            unk = unk or a.unk
            hasphi = hasphi or a.hasphi
            if syms is None:
                syms = a.syms
            elif a.syms and a.syms is not syms and not a.syms <= syms:
                syms = syms | a.syms
    if op == "sym":
        syms = frozenset((args[0],))
    if op in ("lam", "flam"):
        h += 1
    t.dig = hh.digest()
    t.h = h
    t.size = min(size, 10 ** 9)
    t.syms = syms if syms is not None else _EMPTY
    t.unk = unk
    t.hasphi = hasphi
    t._dims = False
    t._kind = False
    t.prov = WHERE[0]
    _TABLE[key] = t
    return t


# ---------------------------------------------------------------- constants

def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return raw("const", (v,))
    if isinstance(v, int):
        return raw("const", (v,))
    if isinstance(v, float):
        if v == v and not math.isinf(v) and v == int(v) and abs(v) < 1e15:
            return raw("const", (int(v),))
        if v != v:
            return raw("nan", ())
        return raw("const", (v,))
    if v is Ellipsis:
        return raw("ellipsis", ())
    return raw("const", (repr(v),))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
FULL = raw("full")
NEWAX = raw("newaxis")
UNDEF = raw("undef")


def is_const(t):
    return t.op == "const"


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def is_int(t):
    return t.op == "const" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool)


def cval(t):
    return t.args[0]


def is_str(t):
    return t.op == "const" and isinstance(t.args[0], str)


def unk(reason):
    return raw("unk", (str(reason),))


# ------------------------------------------------------------------ symbols

SYMINFO: dict = {}  # name -> dict(kind=, dims=, optional=)
_fresh = [int(os.environ.get("VERIF_FRESH", "0"))]


def sym(name, **info):
    if info:
        SYMINFO[name] = info
    return raw("sym", (name,))


def fresh(prefix="#i", **info):
    _fresh[0] += 1
    n = f"{prefix}{_fresh[0]}"
    if prefix == "#i" and "kind" not in info:
        info = dict(info, kind="int", dims=())
    return sym(n, **info)


def binder(t):
    """a fresh variable for the one that t binds"""
    return fresh("#i") if t.op == "lam" else fresh("#a", kind=t.args[1] if len(t.args) > 1 else None)


# values of the enumeration members met so far
ENUMS: dict = {}

_ADIG: dict = {}


def adig(t):
    """a digest that depends neither on the names of introduced variables nor on any order or scale chosen by digest"""
    r = _ADIG.get(id(t))
    if r is not None:
        return r[1]
    if t.op == "sym":
        key = ("sym", t.args[0][:2] if t.args[0].startswith("#") else t.args[0])
    elif t.op in ("pos", "nneg"):
        key = ("sign", adig(t.args[0]))
    elif t.op in ("phi", "and", "or", "not", "where"):
        atoms, leaves, st, seen = set(), set(), [t], set()
        while st:
            x = st.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op in ("phi", "and", "or", "not", "where"):
                st += x.args
            else:
                leaves.add(x)
        key = None
        if all(kind(x) == "bool" for x in leaves):
            key = _profile(t, [x for x in leaves if x.op != "const"])
        if key is None:
            key = ("cases",) + tuple(sorted({adig(x) for x in leaves}))
    elif t.op == "poly":
        fs = set()
        for m in t.args:
            if m.op == "mono":
                for p in m.args[1:]:
                    fs.add(adig(p.args[0]))
        if len(t.args) == 1 and len(fs) == 1 and len(t.args[0].args) == 2 and t.args[0].args[1].args[1] is ONE:
            d = next(iter(fs))
            _ADIG[id(t)] = (t, d)
            return d
        key = ("poly",) + tuple(sorted(fs))
    elif t.op in ("max2", "min2", "union", "eq", "kw", "setand", "meets", "set"):
        key = (t.op,) + tuple(sorted(adig(a) for a in t.args))
    else:
        key = (t.op,) + tuple(adig(a) if isinstance(a, T) else repr(a) for a in t.args)
    d = hashlib.blake2b(repr(key).encode(), digest_size=10).hexdigest()
    _ADIG[id(t)] = (t, d)
    return d


def _profile(t, atoms):
    """what a truth function of few atoms is, whatever the order of its tests: how often it holds, in all and by each atom"""
    if len(atoms) > 7:
        return None

    def ev(x, env, memo):
        r = memo.get(id(x))
        if r is None:
            o = x.op
            if o == "const":
                r = bool(x.args[0])
            elif id(x) in env:
                r = env[id(x)]
            elif o == "not":
                r = not ev(x.args[0], env, memo)
            elif o == "and":
                r = all(ev(a, env, memo) for a in x.args)
            elif o == "or":
                r = any(ev(a, env, memo) for a in x.args)
            else:
                r = ev(x.args[1] if ev(x.args[0], env, memo) else x.args[2], env, memo)
            memo[id(x)] = r
        return r
    n, by = 0, [[0, 0] for _ in atoms]
    for m in range(1 << len(atoms)):
        env = {id(x): bool(m >> k & 1) for k, x in enumerate(atoms)}
        if ev(t, env, {}):
            n += 1
            for k in range(len(atoms)):
                by[k][m >> k & 1] += 1
    d = 1 << len(atoms)
    return ("truths", n / d) + tuple(sorted((adig(x), min(p) / d, max(p) / d) for x, p in zip(atoms, by) if p[0] != p[1]))


# --------------------------------------------------------------------- kinds

BOOL_OPS = {"and", "or", "not", "pos", "nneg", "zero", "eq", "isnone", "truth", "in", "isinstance",
            "el:isnan", "el:isfinite", "el:isinf", "red:any", "red:all", "cast:bool", "call:path.is_file",
            "exc", "call:m.is_dir", "call:m.is_file", "call:m.exists", "call:m.is_empty", "call:m.startswith",
            "call:m.endswith", "call:m.isin", "call:np.isin", "hasattr", "is", "lt?", "covered",
            "call:m.any", "call:m.all", "call:m.contains", "call:m.isnull", "call:m.duplicated", "issubset",
            "call:np.isclose", "call:np.allclose", "call:m.str.startswith", "meets"}
LIST_OPS = {"list", "lcat", "filtermap", "call:m.tolist", "call:sorted", "call:m.split"}
# kinds of the results of functions that are not looked into
OPKIND: dict = {}
SET_OPS = {"set", "union", "setdiff", "setand", "setxor", "setmap", "setflat", "call:set"}
STR_OPS = {"scat", "fmt", "cast:str"}


def subterms(t):
    """every term inside t, each once"""
    seen, st = {}, [t]
    while st:
        x = st.pop()
        if isinstance(x, T) and id(x) not in seen:
            seen[id(x)] = x
            st.extend(x.args)
    return list(seen.values())


def mk_dmerge(a, b):
    """{**a, **b}"""
    if a.op == "dict" and not a.args:
        return b
    if b.op == "dict":
        if not b.args:
            return a
        if all(isinstance(k, T) and is_const(k) for k in b.args[::2]):
            for k in range(0, len(b.args), 2):
                a = raw("dstore", (a, b.args[k], b.args[k + 1]))
            return a
    return raw("dmerge", (a, b))


def kind(t):
    k = t._kind
    if k is False:
        k = _kindof(t)
        t._kind = k
    return k


def _filled(t):
    """the allocation that a loop only writes into; its shape and element type do not change"""
    k = t.args[1].args[0]
    init = t.args[0].args[1].args[k]
    while init.op == "store":
        init = init.args[0]
    if init.op not in ("zeros", "full_like"):
        return None

    def updates(loop):
        u = loop.args[2]
        while u.op in ("lam", "flam"):
            u = u.args[0]
        return u.args if u.op == "updates" else None

    def kept(x, n=0):
        return n < 60 and (x.op == "bva" or x.op == "store" and kept(x.args[0], n + 1) or
                           x.op in ("phi", "where") and all(kept(y, n + 1) or y.op == "const" and x.op == "where" for y in x.args[1:]) or
                           x.op == "loopval" and x.args[0].op == "loop" and inner(x.args[0], x.args[1].args[0], n + 1))

    def inner(loop, k, n):
        v = updates(loop)
        return v is not None and kept(loop.args[1].args[k], n) and kept(v[k], n)
    u = updates(t.args[0])
    return init if u is not None and kept(u[k]) else None


OPVKIND: dict = {}      # what the dictionaries an opaque function returns hold


def vkind(t):
    """kind of the values of a dictionary"""
    while t.op in ("dstore", "dictmap") or t.op == "ix" and t.args[1].args[0].op == "slice":
        t = t.args[0]
    if t.op == "phi":
        a, b = vkind(t.args[1]), vkind(t.args[2])
        return a if a == b else None
    if t.op == "loopval" and t.args[0].op == "loop" and kind(t) == "dict":
        return vkind(t.args[0].args[1].args[t.args[1].args[0]])
    return SYMINFO.get(t.args[0], {}).get("vkind") if t.op == "sym" else OPVKIND.get(t.op)


def _kindof(t):
    op = t.op
    if op == "const":
        v = t.args[0]
        if isinstance(v, bool):
            return "bool"
        if v is None:
            return "none"
        if isinstance(v, str):
            return "str"
        if isinstance(v, int):
            return "int"
        return "num"
    if op == "sym":
        return SYMINFO.get(t.args[0], {}).get("kind")
    if op == "bva":
        return t.args[1] if len(t.args) > 1 else None
    if op == "bv":
        return "int"
    if op in BOOL_OPS:
        return "bool"
    if op in LIST_OPS:
        return "list"
    if op in OPKIND:
        return OPKIND[op]
    if op in STR_OPS:
        return "str"
    if op in ("fresh:copy", "fresh:deep"):
        return kind(t.args[0])
    if op in SET_OPS:
        return "set"
    if op in ("dict", "dstore", "dmerge", "dictmap", "ddel"):
        return "dict"
    if op == "loopval" and t.args[0].op == "loop":
        init = _filled(t)
        if init is not None:
            return kind(init)
        k = t.args[1].args[0]
        u = t.args[0].args[2]
        while u.op in ("lam", "flam"):
            u = u.args[0]
        if kind(t.args[0].args[1].args[k]) == "set" and u.op == "updates" and kind(u.args[k]) == "set":
            return "set"
        if kind(t.args[0].args[1].args[k]) == "dict" and u.op == "updates" and \
                (u.args[k].op in ("dict", "dstore", "dmerge", "dictmap", "ddel") or kind(u.args[k]) == "dict"):
            return "dict"
        return None
    if op in ("el:bit", "bin:RShift", "bin:LShift", "bin:BitAnd", "floordiv", "mod") and (op == "el:bit" or all(kind(a) in ("int", "bool") for a in t.args)):
        return "int"
    if op in ("dim", "count", "red:argmin", "red:argmax", "len", "cast:int", "call:np.argsort", "nz", "arange",
              "call:np.searchsorted"):
        return "int"
    if op == "poly":
        ks = set()
        for m in t.args:
            c = m.args[0]
            if not is_int(c):
                return "num"
            for p in m.args[1:]:
                e = p.args[1]
                if not (is_int(e) and e.args[0] > 0):
                    return "num"
                ks.add(kind(p.args[0]))
        return "int" if ks <= {"int", "bool"} else "num"
    if op in ("red:sum", "max2", "min2", "red:max", "red:min"):
        kk = {kind(a) for a in (t.args if op in ("max2", "min2") else t.args[:1])}
        return "int" if kk <= {"int", "bool"} else "num"
    if op.startswith("red:") or op.startswith("el:"):
        return "num"
    if op == "phi":
        a, b = kind(t.args[1]), kind(t.args[2])
        return a if a == b else None
    if op in ("where",):
        a, b = kind(t.args[1]), kind(t.args[2])
        return a if a == b else None
    if op in ("ix", "oix", "fix"):
        k = kind(t.args[0])
        if k == "list" and len(t.args[1].args) == 1 and not is_scalar(t.args[1].args[0]):
            return "list"
        if k in ("bool", "int", "num"):
            return k
        if k in ("dict", "list") and op == "ix" and len(t.args[1].args) == 1 and t.args[1].args[0].op != "slice":
            return vkind(t.args[0])
        return None
    if op == "store":
        a, b = kind(t.args[0]), kind(t.args[2])
        return a if a == b or a == "bool" else None
    if op in ("map", "mapax"):
        lam = t.args[-1]
        return kind(lam.args[0]) if lam.op == "lam" else None
    if op == "zeros":
        return t.args[0].args[0] if t.args and t.args[0].op == "const" else "num"
    if op == "T":
        return kind(t.args[0])
    if op in ("matmul", "eps"):
        return "num"
    if op == "full_like":
        return kind(t.args[1])
    return None


# ---------------------------------------------------------------------- dims

def dims(t):
    """Tuple of dimension terms when the shape's rank is known, else None."""
    d = t._dims
    if d is False:
        t._dims = None
        d = _dimsof(t)
        t._dims = d
    return d


def rank(t):
    d = dims(t)
    return None if d is None else len(d)


def bdims(ts):
    ds = [dims(a) for a in ts]
    if any(d is None for d in ds):
        return None
    n = max((len(d) for d in ds), default=0)
    out = []
    for k in range(n):
        pick = None
        for d in ds:
            j = k - (n - len(d))
            if j < 0:
                continue
            x = d[j]
            if x is ONE:
                if pick is None:
                    pick = x
                continue
            if pick is None or pick is ONE:
                pick = x
        out.append(pick)
    return tuple(out)


def is_elementwise(op):
    return op in ("poly", "mono", "pow", "powx", "and", "or", "not", "pos", "nneg", "zero", "eq", "where",
                  "max2", "min2", "mod", "floordiv", "clip") or op.startswith("el:") or op in ("cast:int", "cast:bool", "cast:float", "cast:str")


def _dimsof(t):
    op = t.op
    if op in ("const", "nan", "eps", "dim", "count", "bv", "isnone", "inf", "len", "exc", "in", "isinstance"):
        return ()
    if op == "sym":
        return SYMINFO.get(t.args[0], {}).get("dims")
    if op == "call:m.predict" and len(t.args) == 2 and not t.args[1].op.startswith("kw:"):
        d = dims(t.args[1])
        return None if d is None else d[:1]
    if op == "call:m.predict_proba" and len(t.args) == 2 and not t.args[1].op.startswith("kw:"):
        d = dims(t.args[1])
        return None if d is None else (d[0], raw("dim", (t, ONE)))
    if op == "call:cross_val_predict":
        kw = {a.op[3:]: a.args[0] for a in t.args if a.op.startswith("kw:")}
        x = t.args[1] if len(t.args) > 1 and not t.args[1].op.startswith("kw:") else kw.get("X")
        d = dims(x) if x is not None else None
        m = kw.get("method")
        if d is None or m is not None and not is_str(m):
            return None
        if m is None or m.args[0] == "predict":
            return d[:1]
        return (d[0], raw("dim", (t, ONE))) if m.args[0] == "predict_proba" else None
    if op == "call:stats.zscore":
        x = next((a.args[0] if a.op == "kw:a" else a for a in t.args if a.op == "kw:a" or not a.op.startswith("kw:")), None)
        return dims(x) if x is not None else None
    if op == "loopval" and t.args[0].op == "loop":
        init = _filled(t)
        return dims(init) if init is not None else None
    if op in ("call:accuracy_score", "call:precision_score", "call:recall_score", "call:f1_score", "call:silhouette_score"):
        return ()
    if op == "call:np.binary_repr":
        ws = [a.args[0] for a in t.args if a.op == "kw:width"] or list(t.args[1:2])
        return (ws[0],) if ws else None
    if op == "where":
        return bdims(t.args)
    if op in ("clip", "poly", "mono", "and", "or", "not", "max2", "min2", "mod", "floordiv", "powx", "eq", "pos", "nneg", "zero") or op.startswith("el:") or op in ("cast:int", "cast:bool", "cast:float"):
        return bdims(t.args)
    if op == "pow":
        return dims(t.args[0])
    if op.startswith("red:"):
        x, ax = t.args[0], t.args[1]
        if ax is NONE:
            return ()
        d = dims(x)
        if d is None:
            return None
        if is_int(ax):
            a = ax.args[0]
            if a < 0:
                a += len(d)
            if 0 <= a < len(d):
                return d[:a] + d[a + 1:]
        return None
    if op == "ix" and t.args[0].op in ("call:stats.pearsonr", "call:stats.spearmanr") and len(t.args[1].args) == 1 and is_int(t.args[1].args[0]):
        xs = [a.args[0] if a.op.startswith("kw:") else a for a in t.args[0].args]
        if len(xs) == 2:
            return ()
    if op in ("fresh:copy", "fresh:deep"):
        return dims(t.args[0])
    if op in ("ix", "oix"):
        d = dims(t.args[0])
        if d is None:
            if op == "ix" and kind(t.args[0]) == "dict" and vkind(t.args[0]) in ("bool", "int", "num", "str"):
                return ()
            return None
        out = []
        j = 0
        for k in t.args[1].args:
            if k is NEWAX:
                out.append(ONE)
                continue
            if j >= len(d):
                return None
            if k is FULL:
                out.append(d[j])
            elif k.op == "slice":
                out.append(slice_len(k, d[j]))
            else:
                dk = dims(k)
                if dk is None:
                    return None
                out.extend(dk)
            j += 1
        out.extend(d[j:])
        return tuple(out)
    if op == "fix":
        return None
    if op == "nz":
        return (mk_red("sum", t.args[0]),) if rank(t.args[0]) == 1 else (raw("count", (t.args[0],)),)
    if op in ("store", "full_like"):
        return dims(t.args[0])
    if op == "fill":
        return dims(t.args[0])
    if op == "map":
        b = dims(t.args[1].args[0])
        return None if b is None else (t.args[0],) + b
    if op == "mapax":
        b = dims(t.args[2].args[0])
        if b is None:
            return None
        a = t.args[0].args[0]
        if a > len(b):
            return None
        return b[:a] + (t.args[1],) + b[a:]
    if op == "tab":
        return dims(t.args[0])
    if op == "zeros":
        return tuple(t.args[2].args)
    if op == "arange":
        return (t.args[0],)
    if op == "T" and t.args[0].op == "list" and t.args[0].args and rank(t.args[0].args[0]) == 1:
        return (dims(t.args[0].args[0])[0], const(len(t.args[0].args)))
    if op == "T":
        d = dims(t.args[0])
        return None if d is None else tuple(reversed(d))
    if op in ("ravel", "m.ravel", "m.flatten") and len(t.args) == 1:
        d = dims(t.args[0])
        if d is None or len(d) != 2 or d[0] is None or d[1] is None:
            return None
        return (mk_mul(d[0], d[1]),)
    if op == "matmul":
        a, b = dims(t.args[0]), dims(t.args[1])
        if a is None or b is None or not a or not b:
            return None
        if len(a) == 2 and len(b) == 2:
            return (a[0], b[1])
        if len(a) == 2 and len(b) == 1:
            return (a[0],)
        if len(a) == 1 and len(b) == 2:
            return (b[1],)
        if len(a) == 1 and len(b) == 1:
            return ()
        return None
    if op == "phi":
        a, b = dims(t.args[1]), dims(t.args[2])
        if a is not None and b is not None and len(a) == len(b):
            return tuple(x if x is y else mk_phi(t.args[0], x, y) for x, y in zip(a, b))
        return None
    if op == "list":
        return (const(len(t.args)),) + (() if t.args and all(dims(a) == () for a in t.args) else (None,))[:0] \
            if (not t.args or all(dims(a) == () for a in t.args)) else None
    if op == "call:np.eye":
        return (t.args[0], t.args[0])
    if op.startswith("call:"):
        kws = {a.op[3:]: a.args[0] for a in t.args if a.op.startswith("kw:")}
        if op == "call:stats.iqr" and "x" in kws:
            d = dims(kws["x"])
            ax = kws.get("axis", NONE)
            if ax is NONE:
                return ()
            if d is not None and is_int(ax) and -len(d) <= ax.args[0] < len(d):
                a = ax.args[0] % len(d)
                return d[:a] + d[a + 1:]
            return None
        if op == "call:stats.zscore" and "a" in kws:
            return dims(kws["a"])
        if op == "call:stats.boxcox" and "lmbda" in kws and "x" in kws:
            return dims(kws["x"])
        if op == "call:np.cumsum" and "a" in kws and "axis" in kws:
            return dims(kws["a"])
        if op in ("call:np.unique",) and not any(k.startswith("return") for k in kws):
            return (raw("dim", (t, ZERO)),) if "axis" not in kws else None
        if op in ("call:np.argsort", "call:np.sort") and "a" in kws:
            return dims(kws["a"])
        if op == "call:np.take_along_axis" and "indices" in kws:
            return dims(kws["indices"])
        if op == "call:np.corrcoef" and "x" in kws and "y" not in kws:
            d = dims(kws["x"])
            if d is not None and len(d) == 2 and d[0] is not None:
                k = 0 if "rowvar" not in kws else 1
                return (d[k], d[k])
            return None
        if op == "call:spatial.cdist" and "XA" in kws and "XB" in kws:
            a, b = dims(kws["XA"]), dims(kws["XB"])
            if a and b and len(a) == 2 and len(b) == 2:
                return (a[0], b[0])
            return None
    if op == "call:np.argsort" or op == "call:np.sort":
        return dims(t.args[0])
    if op == "hcat":
        ds = [dims(a) for a in t.args]
        if any(d is None or len(d) == 0 for d in ds):
            return None
        ds2 = [d if len(d) == 2 else (d[0], ONE) for d in ds]
        tot = ZERO
        for d in ds2:
            tot = mk_add(tot, d[1])
        return (ds2[0][0], tot)
    return None


def dim(t, axis):
    d = dims(t)
    if d is not None:
        a = axis + len(d) if axis < 0 else axis
        if 0 <= a < len(d) and d[a] is not None:
            return d[a]
    if t.op == "list":
        if axis == 0:
            return const(len(t.args))
    if t.op == "tuple" and axis == 0:
        return const(len(t.args))
    if axis == 0 and t.op == "lcat":
        s = ZERO
        for a in t.args:
            s = mk_add(s, dim(a, 0))
        return s
    if axis == 0 and t.op == "map":
        return t.args[0]
    if axis == 0 and t.op in ("ix", "oix") and t.args[1].args and t.args[1].args[0] is FULL:
        return dim(t.args[0], 0)
    if axis == 0 and t.op == "phi":
        a, b = dim(t.args[1], 0), dim(t.args[2], 0)
        return mk_phi(t.args[0], a, b)
    if t.op in ("store", "tab"):
        return dim(t.args[0], axis)
    if t.op == "attr:columns" and axis == 0 and t.args[0].op == "call:pd.DataFrame":
        kws = {a.op: a.args[0] for a in t.args[0].args}
        if "kw:columns" in kws:
            return dim(kws["kw:columns"], 0)
        if "kw:data" in kws and kws["kw:data"].op in ("matmul", "sym"):
            return dim(kws["kw:data"], 1)
    if t.op == "matmul" and axis == 1 and (rank(t.args[1]) == 2 or t.args[1].op in ("matmul", "call:np.linalg.inv")):
        return dim(t.args[1], 1)
    if t.op == "call:np.linalg.inv" and len(t.args) == 1:
        return dim(t.args[0].args[0] if t.args[0].op.startswith("kw:") else t.args[0], axis)
    return raw("dim", (t, const(axis)))


def slice_len(k, n):
    lo, hi, st = k.args
    if lo is NONE and hi is NONE and is_int(st) and st.args[0] == -1:
        return n
    if st is not NONE and st is not ONE:
        return raw("slen", (k, n))
    if hi is NONE:
        hi = n
    elif is_int(hi) and hi.args[0] < 0:
        hi = mk_add(n, hi)
    if lo is NONE:
        lo = ZERO
    elif is_int(lo) and lo.args[0] < 0:
        lo = mk_add(n, lo)
    return mk_sub(hi, lo)


# --------------------------------------------------------------- polynomials
# internal dict form: {tuple(sorted((base, exp)) by digest): coef}

def _to_poly(t):
    if is_num(t):
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        out = {}
        for m in t.args:
            out[tuple((p.args[0], p.args[1].args[0]) for p in m.args[1:])] = m.args[0].args[0]
        return out
    return {((t, 1),): 1}


def _norm_mono(facs):
    d = {}
    order = {}
    for b, e in facs:
        k = id(b)
        order[k] = b
        d[k] = d.get(k, 0) + e
    items = [(order[k], e) for k, e in d.items() if e != 0]
    items.sort(key=lambda be: (be[0].dig, be[1]))
    return tuple(items)


def _num(v):
    if isinstance(v, float) and v == v and not math.isinf(v) and v == int(v) and abs(v) < 1e15:
        return int(v)
    return v


def _from_poly(d):
    items = [(m, _num(c)) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    monos = []
    for m, c in items:
        monos.append(raw("mono", (const(c),) + tuple(raw("pow", (b, const(_num(e)))) for b, e in m)))
    monos.sort(key=lambda x: (tuple(p.dig for p in x.args[1:]), x.dig))
    return raw("poly", tuple(monos))


def _numeric_ok(t):
    return not (t.op in ("list", "tuple", "dict") or is_str(t))


def mk_add(a, b):
    if a.op in ("list", "lcat", "filtermap") or b.op in ("list", "lcat", "filtermap") or (kind(a) == "list" and kind(b) == "list"):
        return mk_lcat([a, b])
    if kind(a) == "str" or kind(b) == "str":
        return mk_scat([a, b])
    if a.op == "tuple" and b.op == "tuple":
        return raw("tuple", a.args + b.args)
    pa, pb = _to_poly(a), _to_poly(b)
    d = dict(pa)
    for m, c in pb.items():
        d[m] = d.get(m, 0) + c
    return _from_poly(d)


def mk_neg(a):
    return mk_mul(const(-1), a)


def mk_sub(a, b):
    return mk_add(a, mk_neg(b))


def _content(d):
    """Factor d (multi-term) as coef * mono * primitive; returns (coef, mono, prim dict)."""
    it = iter(d)
    common = dict((id(b), (b, e)) for b, e in next(it))
    for m in it:
        mm = {id(b): e for b, e in m}
        for k in list(common):
            if k not in mm:
                del common[k]
            else:
                b, e = common[k]
                common[k] = (b, min(e, mm[k]))
    # only integer exponents are extracted
    mono = _norm_mono([(b, e) for b, e in common.values()])
    inv = [(b, -e) for b, e in mono]
    prim = {}
    for m, c in d.items():
        prim[_norm_mono(list(m) + inv)] = c
    lead = min(prim, key=lambda m: tuple((b.dig, e) for b, e in m))
    c0 = prim[lead]
    if c0 != 1:
        prim = {m: (c / c0 if (isinstance(c, float) or isinstance(c0, float) or c % c0) else c // c0) for m, c in prim.items()}
    return c0, mono, prim


def _as_mono(t):
    """t as (coef, factors) with multi-term polys opaque."""
    p = _to_poly(t)
    if not p:
        return 0, ()
    if len(p) == 1:
        (m, c), = p.items()
        return c, m
    c0, mono, prim = _content(p)
    base = _from_poly(prim)
    return c0, _norm_mono(list(mono) + [(base, 1)])


def mk_mul(a, b):
    if not _numeric_ok(a) or not _numeric_ok(b):
        return raw("mul?", (a, b))
    a, b = (ONE if t is TRUE else ZERO if t is FALSE else t for t in (a, b))
    pa, pb = _to_poly(a), _to_poly(b)
    if not pa or not pb:
        return ZERO
    if len(pa) > 1 and len(pb) > 1:
        ca, ma = _as_mono(a)
        cb, mb = _as_mono(b)
        return _from_poly({_norm_mono(list(ma) + list(mb)): ca * cb})
    out = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _norm_mono(list(m1) + list(m2))
            out[m] = out.get(m, 0) + c1 * c2
    return _from_poly(_expand_unit(out))


def _expand_unit(d):
    """A mono holding an opaque multi-term poly with exponent exactly 1 and no other poly factor is expanded."""
    out = {}
    for m, c in d.items():
        pf = [(b, e) for b, e in m if b.op == "poly"]
        if len(pf) == 1 and pf[0][1] == 1 and len(pf[0][0].args) > 1:
            rest = [x for x in m if x[0] is not pf[0][0]]
            for m2, c2 in _to_poly(pf[0][0]).items():
                k = _norm_mono(rest + list(m2))
                out[k] = out.get(k, 0) + c * c2
        else:
            out[m] = out.get(m, 0) + c
    return out


def mk_div(a, b):
    if not _numeric_ok(a) or not _numeric_ok(b):
        return raw("div?", (a, b))
    if is_num(b):
        v = b.args[0]
        if v == 0:
            return raw("div?", (a, b))
        if v != v or math.isinf(v):
            return raw("div?", (a, b))
        return mk_mul(a, const(1 / v)) if not is_num(a) else const(a.args[0] / v)
    return mk_mul(a, mk_pow(b, const(-1)))


def mk_pow(a, e):
    if is_num(e):
        v = e.args[0]
        if v == 1:
            return a
        if v == 0:
            return ONE
        if is_num(a):
            try:
                r = a.args[0] ** v
                if isinstance(r, (int, float)):
                    return const(r)
            except Exception:
                pass
            return raw("powx", (a, e))
        c, m = _as_mono(a)
        if isinstance(v, int) or len(m) == 1 and c == 1 and m[0][1] == 1 or False:
            if c == 0:
                return raw("powx", (a, e))
            if isinstance(v, int) or c == 1:
                return _from_poly(_expand_unit({_norm_mono([(b, x * v) for b, x in m]): c ** v}))
        # opaque base
        return _from_poly({((a, v),): 1})
    return raw("powx", (a, e))


def euclid(v, axis=NONE):
    """length of v (along an axis)"""
    return mk_pow(mk_red("sum", mk_pow(v, const(2)), axis), const(0.5))


def mk_abs(a):
    if is_num(a):
        return const(abs(a.args[0]))
    if a.op == "el:abs":
        return a
    n = mk_neg(a)
    return raw("el:abs", (min(a, n, key=lambda x: (x.size, x.dig)),))


def mk_bit(d, j):
    """binary digit j of a non-negative integer"""
    if is_int(d) and is_int(j) and 0 <= cval(j) < 4096:
        return const((cval(d) >> cval(j)) & 1)
    return raw("el:bit", (d, j))


def _pow2(t):
    """e when t is 2 to the power e"""
    if is_int(t) and t.args[0] > 0 and t.args[0] & (t.args[0] - 1) == 0:
        return const(t.args[0].bit_length() - 1)
    if t.op in ("powx", "pow") and is_int(t.args[0]) and t.args[0].args[0] == 2:
        return t.args[1]
    if t.op == "bin:LShift" and t.args[0] is ONE:
        return t.args[1]
    return None


def mk_low_bit(t):
    """t % 2 / t & 1, when t is a shifted integer"""
    if t.op == "bin:RShift":
        return mk_bit(t.args[0], t.args[1])
    if t.op == "floordiv":
        e = _pow2(t.args[1])
        if e is not None:
            return mk_bit(t.args[0], e)
    return None


def mk_mod(a, b):
    if is_int(a) and is_int(b) and cval(b):
        return const(cval(a) % cval(b))
    if is_int(b) and cval(b) == 2:
        r = mk_low_bit(a)
        if r is not None:
            return r
    return raw("mod", (a, b))


def mk_floordiv(a, b):
    if is_int(a) and is_int(b) and cval(b):
        return const(cval(a) // cval(b))
    return raw("floordiv", (a, b))


def _nary(op, ts, idem=True):
    flat = []
    for t in ts:
        if t.op == op:
            flat.extend(t.args)
        else:
            flat.append(t)
    if idem:
        seen = {}
        for t in flat:
            seen[id(t)] = t
        flat = list(seen.values())
    flat.sort(key=lambda t: t.dig)
    return flat


def mk_max2(ts):
    ts = _nary("max2", ts)
    cs = [t for t in ts if is_num(t)]
    if len(cs) > 1:
        m = const(max(c.args[0] for c in cs))
        ts = _nary("max2", [t for t in ts if not is_num(t)] + [m])
    if any(t.op == "inf" for t in ts):
        return raw("inf", ())
    return ts[0] if len(ts) == 1 else raw("max2", ts)


def mk_min2(ts):
    ts = _nary("min2", ts)
    cs = [t for t in ts if is_num(t)]
    if len(cs) > 1:
        m = const(min(c.args[0] for c in cs))
        ts = _nary("min2", [t for t in ts if not is_num(t)] + [m])
    ninf = mk_neg(raw("inf", ()))
    if any(t is ninf for t in ts):
        return ninf
    return ts[0] if len(ts) == 1 else raw("min2", ts)


# ------------------------------------------------------------------ booleans

def as_bool(t):
    """t as a condition."""
    if t.op == "const":
        v = t.args[0]
        return TRUE if v else FALSE
    k = kind(t)
    if k == "bool":
        return t
    if t.op == "phi":
        return mk_phi(t.args[0], as_bool(t.args[1]), as_bool(t.args[2]))
    if t.op in ("list", "tuple", "dict", "set"):
        return TRUE if t.args else FALSE
    if t.op in ("map", "lcat", "filtermap"):
        return mk_pos(dim(t, 0))
    if t.op == "nz" and rank(t.args[0]) == 1 or t.op == "ix" and k == "list":
        return mk_pos(dim(t, 0))
    if t.op in ("lam", "flam") or t.op.startswith("rec:") or t.op.startswith("fn:"):
        return TRUE
    if k == "set":
        return mk_nonempty(t)
    if k == "int" and (rank(t) == 0):
        if nonneg(t):
            return mk_pos(t)
        return mk_not(mk_eq(t, ZERO))
    if k in ("list", "dict") and t.op == "loopval":
        return mk_pos(dim(t, 0))
    return raw("truth", (t,))


def nonneg(t):
    if is_num(t):
        return t.args[0] >= 0
    if t.op in ("dim", "count", "len", "slen", "bv"):
        return True
    if t.op == "sym":
        return SYMINFO.get(t.args[0], {}).get("nonneg", False) or t.args[0].startswith("#i")
    if t.op == "poly":
        return all(m.args[0].args[0] > 0 and all(nonneg(p.args[0]) for p in m.args[1:]) for m in t.args)
    if t.op in ("el:abs",):
        return True
    if t.op in ("red:sum",):
        return kind(t.args[0]) == "bool" or nonneg(t.args[0])
    if t.op == "phi":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    return False


_NOT: dict = {}


def mk_not(t):
    r = _NOT.get(id(t))
    if r is None:
        r = _NOT[id(t)] = (t, _not(t))
    return r[1]


def _not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "const":
        return FALSE if t.args[0] else TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return mk_or([mk_not(a) for a in t.args])
    if t.op == "or":
        return mk_and([mk_not(a) for a in t.args])
    if t.op == "phi":
        return mk_phi(t.args[0], mk_not(t.args[1]), mk_not(t.args[2]))
    if t.op == "where":
        return raw("where", (t.args[0], mk_not(t.args[1]), mk_not(t.args[2])))
    if t.op == "pos" and kind(t.args[0]) == "int":
        # not(d > 0)  ==  -d >= 0  ==  1-d > 0
        return mk_pos(mk_sub(ONE, t.args[0]))
    if t.op == "red:any":
        # not any(p) == all(not p)
        return mk_red("all", mk_not(as_bool_el(t.args[0])), *t.args[1:])
    if t.op == "red:all":
        return mk_red("any", mk_not(as_bool_el(t.args[0])), *t.args[1:])
    if t.op == "map":
        lam = t.args[1]
        return mk_map(t.args[0], lam_map(lam, lambda b: mk_not(as_bool_el(b))))
    return raw("not", (t,))


def as_bool_el(t):
    """boolean reading of an element (kept as is when it is boolean already)."""
    return t if kind(t) == "bool" else (as_bool(t) if dims(t) == () else t)


def mk_and(ts):
    ts = _nary("and", ts)
    out = []
    ids = {id(t) for t in ts}
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if id(mk_not(t)) in ids and t.op not in ("phi",):
            return FALSE
        out.append(t)
    if len(out) > 1 and any(t.op == "exc" for t in out):
        if any(t.op == "not" and exc_implies(x, t.args[0]) for t in out for x in out):
            return FALSE
        out = [t for t in out if not any(exc_implies(x, t) for x in out)]
    for e in [eq_const(t) for t in out if t.op == "eq"]:
        if e is not None:
            if any(excludes(e, t) for t in out):
                return FALSE
            out = [t for t in out if not (t.op == "not" and excludes(e, t.args[0]))]
    if not out:
        return TRUE
    # absorption a & (a|b)
    if len(out) > 1:
        ids = {id(t) for t in out}
        out = [t for t in out if not (t.op == "or" and any(id(x) in ids for x in t.args))]
    if len(out) > 1:
        # a & (not a | b) -> a & b
        ch = False
        new = []
        negs = {id(mk_not(t)) for t in out if t.op != "or"}
        for t in out:
            if t.op == "or":
                keep = [x for x in t.args if id(x) not in negs]
                if len(keep) != len(t.args):
                    ch = True
                    new.append(mk_or(keep))
                    continue
            new.append(t)
        if ch:
            return mk_and(new)
    if len(out) > 1:
        r = _resolved(out, "or", mk_or)
        if r is not None:
            return mk_and(r)
    return out[0] if len(out) == 1 else raw("and", out)


def _resolved(ts, inner, make):
    """(y or a) and (not y or a) is a; the same with and/or exchanged"""
    cs = [t for t in ts if t.op == inner and len(t.args) <= 4]
    for k, x in enumerate(cs[:8]):
        ix = {id(q) for q in x.args}
        for y in cs[k + 1:8]:
            if len(x.args) == len(y.args):
                dx = [q for q in x.args if not any(q is z for z in y.args)]
                dy = [q for q in y.args if id(q) not in ix]
                if len(dx) == 1 and len(dy) == 1 and mk_not(dx[0]) is dy[0]:
                    return [t for t in ts if t is not x and t is not y] + [make([q for q in x.args if q is not dx[0]])]
    return None


def mk_or(ts):
    ts = _nary("or", ts)
    out = []
    ids = {id(t) for t in ts}
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if id(mk_not(t)) in ids and t.op not in ("phi",):
            return TRUE
        out.append(t)
    if not out:
        return FALSE
    if len(out) > 1 and any(t.op == "exc" for t in out):
        out = [t for t in out if not any(exc_implies(t, x) for x in out)]
    if len(out) > 1:
        ids = {id(t) for t in out}
        out = [t for t in out if not (t.op == "and" and any(id(x) in ids for x in t.args))]
    if len(out) > 1:
        ch = False
        new = []
        negs = {id(mk_not(t)) for t in out if t.op != "and"}
        for t in out:
            if t.op == "and":
                keep = [x for x in t.args if id(x) not in negs]
                if len(keep) != len(t.args):
                    ch = True
                    new.append(mk_and(keep))
                    continue
            new.append(t)
        if ch:
            return mk_or(new)
    if len(out) > 1:
        r = _resolved(out, "and", mk_and)
        if r is not None:
            return mk_or(r)
    return out[0] if len(out) == 1 else raw("or", out)


def _scale(d):
    """Divide a polynomial by the absolute value of its leading coefficient."""
    p = _to_poly(d)
    if not p:
        return d
    lead = min((m for m in p if m), key=lambda m: tuple((b.dig, e) for b, e in m), default=())
    c = abs(p[lead])
    if c in (0, 1) or c != c or math.isinf(c):
        return d
    return _from_poly({m: (v / c if (isinstance(v, float) or isinstance(c, float) or v % c) else v // c) for m, v in p.items()})


def mk_pos(d):
    """d > 0"""
    if is_num(d):
        return TRUE if d.args[0] > 0 else FALSE
    if d.op == "poly" and kind(d) == "int":
        p = _to_poly(d)
        c0 = p.get((), 0)
        rest = _from_poly({m: c for m, c in p.items() if m})
        if c0 > 0 and nonneg(rest):
            return TRUE
        if c0 <= 0 and nonneg(mk_neg(rest)):
            return FALSE
    elif d.op == "poly" and kind(d) != "int":
        p = _to_poly(d)
        if () not in p and all(v > 0 for v in p.values()) is False and nonneg(mk_neg(d)):
            return FALSE
        d = _scale(d)
    if d.op == "red:sum" and len(d.args) == 2 and d.args[1] is NONE and kind(d.args[0]) == "bool":
        return mk_red("any", d.args[0])
    s = sized(d)
    if s is not None:
        return mk_nonempty(s)
    if d.op == "phi" and all(sized(x) is not None or x.op == "phi" or is_num(x) for x in d.args[1:]):
        return mk_or([mk_and([d.args[0], mk_pos(d.args[1])]), mk_and([mk_not(d.args[0]), mk_pos(d.args[2])])])
    if d.op == "poly" and len(d.args) == 2:
        x = mk_sub(ONE, d)
        if sized(x) is not None or x.op == "phi" and all(sized(y) is not None for y in x.args[1:]):
            r = mk_pos(x)
            return raw("pos", (mk_sub(ONE, r.args[0]),)) if r.op == "pos" else mk_not(r)
    return raw("pos", (d,))


def sized(d):
    """the set whose size d is"""
    if d.op in ("len", "dim") and (d.op == "len" or d.args[1] is ZERO) and setlike(d.args[0]):
        return d.args[0]
    return None


def mk_nneg(d):
    """d >= 0"""
    if is_num(d):
        return TRUE if d.args[0] >= 0 else FALSE
    if nonneg(d):
        return TRUE
    if kind(d) == "int":
        return mk_pos(mk_add(d, ONE))
    if d.op == "poly":
        d = _scale(d)
    return raw("nneg", (d,))


def mk_lt(a, b):
    if not (_numeric_ok(a) and _numeric_ok(b)):
        return raw("lt?", (a, b))
    if is_num(a) and is_num(b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    return mk_pos(mk_sub(b, a))


def mk_le(a, b):
    if not (_numeric_ok(a) and _numeric_ok(b)):
        return mk_not(raw("lt?", (b, a)))
    if is_num(a) and is_num(b):
        return TRUE if a.args[0] <= b.args[0] else FALSE
    return mk_nneg(mk_sub(b, a))


def mk_eq(a, b):
    if a.op.startswith("enum:") and b.op.startswith("enum:"):
        return TRUE if a is b else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op.startswith("enumof:") and y.op in ENUMS and y.op.startswith("enum:" + x.op[7:] + "."):
            return mk_eq(x.args[0], ENUMS[y.op])
    if a is b and not a.unk:
        return TRUE
    if a.op == "const" and b.op == "const":
        return TRUE if a.args[0] == b.args[0] and type(a.args[0]) is type(b.args[0]) else FALSE
    if a.op == "phi" and is_const(b):
        r1, r2 = mk_eq(a.args[1], b), mk_eq(a.args[2], b)
        if is_const(r1) or is_const(r2):
            return mk_phi(a.args[0], r1, r2)
    if b.op == "phi" and is_const(a):
        return mk_eq(b, a)
    if a is TRUE or b is TRUE:
        o = b if a is TRUE else a
        if kind(o) == "bool":
            return o
    if a is FALSE or b is FALSE:
        o = b if a is FALSE else a
        if kind(o) == "bool":
            return mk_not(o)
    if a is NONE or b is NONE:
        return mk_isnone(b if a is NONE else a)
    ka, kb = kind(a), kind(b)
    if ka in ("int", "num") and kb in ("int", "num") or is_num(a) or is_num(b) or a.op == "poly" or b.op == "poly":
        if not (_numeric_ok(a) and _numeric_ok(b)):
            return raw("eq", sorted((a, b), key=lambda t: t.dig))
        d = mk_sub(a, b)
        if is_num(d):
            return TRUE if d.args[0] == 0 else FALSE
        p = _to_poly(d)
        if kind(d) == "int" and () in p and p[()] > 0 and nonneg(_from_poly({m: c for m, c in p.items() if m})):
            return FALSE
        # x == 0 for a non-negative integer is not(x > 0)
        if nonneg(d) and kind(d) == "int":
            return mk_not(mk_pos(d))
        n = mk_neg(d)
        if nonneg(n) and kind(n) == "int":
            return mk_not(mk_pos(n))
        d = _scale(d)
        n = mk_neg(d)
        return raw("zero", (min(d, n, key=lambda x: x.dig),))
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return mk_and([mk_eq(x, y) for x, y in zip(a.args, b.args)])
    if (a.op.startswith("rec:") or a.op.startswith("fn:") or a.op.startswith("cls:")) and is_const(b):
        return FALSE
    if a.op.startswith("cls:") and b.op.startswith("cls:"):
        return FALSE
    return raw("eq", sorted((a, b), key=lambda t: t.dig))


NOTNONE = {"poly", "list", "lcat", "map", "mapax", "tab", "ix?", "zeros", "store", "where", "dim", "pos", "nneg", "zero",
           "and", "or", "not", "arange", "tuple", "dict", "nz", "scat", "lam", "flam", "filtermap", "matmul", "T", "count",
           "isnone", "truth", "fill", "bv", "set", "hcat"}


def mk_isnone(a):
    if a is NONE:
        return TRUE
    if a.op == "const":
        return FALSE
    if a.op == "phi":
        return mk_phi(a.args[0], mk_isnone(a.args[1]), mk_isnone(a.args[2]))
    if a.op in NOTNONE or a.op.startswith(("rec:", "red:", "el:", "fn:", "cls:", "new:", "cast:", "call:np.")):
        return FALSE
    if a.op == "sym" and not SYMINFO.get(a.args[0], {}).get("optional", True):
        return FALSE
    return raw("isnone", (a,))


# --------------------------------------------------------- conditionals (MTBDD)

def is_atom_cond(c):
    return c.op not in ("and", "or", "not", "phi", "const")


def _top(t):
    return t.args[0] if t.op == "phi" else None


def _leafbdd(atom):
    if atom.op == "red:all":
        other = mk_not(atom)
        if other.op == "red:any":
            return raw("phi", (other, FALSE, TRUE))
    if atom.op == "pos" and kind(atom.args[0]) == "int":
        other = mk_not(atom)        # a > 0 and 1 - a > 0 are one atom
        if other.op == "pos" and other.dig < atom.dig:
            return raw("phi", (other, FALSE, TRUE))
    return raw("phi", (atom, TRUE, FALSE))


_bdd_memo: dict = {}


def to_bdd(c):
    """condition -> MTBDD with TRUE/FALSE leaves over atoms"""
    if c is TRUE or c is FALSE:
        return c
    r = _bdd_memo.get(id(c))
    if r is not None:
        return r[1]
    if c.op == "not":
        r = _ite(to_bdd(c.args[0]), FALSE, TRUE)
    elif c.op == "and":
        r = TRUE
        for a in c.args:
            r = _ite(to_bdd(a), r, FALSE)
    elif c.op == "or":
        r = FALSE
        for a in c.args:
            r = _ite(to_bdd(a), TRUE, r)
    elif c.op == "phi":
        r = _ite(to_bdd(c.args[0]), to_bdd(as_bool(c.args[1])), to_bdd(as_bool(c.args[2])))
    elif c.op == "const":
        return TRUE if c.args[0] else FALSE
    else:
        r = _leafbdd(c)
    _bdd_memo[id(c)] = (c, r)
    return r


_ite_memo: dict = {}


def _cof(t, atom, v):
    if t.op == "phi" and t.args[0] is atom:
        return t.args[1] if v else t.args[2]
    return t


def eq_const(t):
    """(other side, constant) of an equality with a constant"""
    if t.op != "eq":
        return None
    x, y = t.args
    if x.op == "const" and y.op != "const":
        return y, x
    if y.op == "const" and x.op != "const":
        return x, y
    return None


def excludes(e, t):
    """is t an equality with another constant than that of e?"""
    o = eq_const(t)
    return o is not None and o[0] is e[0] and o[1] is not e[1] and o[1].args[0] != e[1].args[0]


PARENT = {"FileNotFoundError": "OSError", "PermissionError": "OSError", "IsADirectoryError": "OSError", "NotADirectoryError": "OSError",
          "FileExistsError": "OSError", "IOError": "OSError", "JSONDecodeError": "ValueError", "UnicodeDecodeError": "UnicodeError",
          "UnicodeError": "ValueError", "EmptyDataError": "ValueError", "ParserError": "ValueError", "KeyError": "LookupError", "IndexError": "LookupError",
          "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
          "LookupError": "Exception", "ArithmeticError": "Exception", "OSError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
          "AttributeError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
          "ImportError": "Exception", "StopIteration": "Exception", "AssertionError": "Exception", "NameError": "Exception",
          "Exception": "BaseException"}


def subclass(a, b):
    """is the exception class named a the one named b or below it?"""
    while a is not None:
        if a == b:
            return True
        a = PARENT.get(a)
    return False


def exc_implies(a, b):
    """the exception of atom a is caught by the class of atom b"""
    return a is not b and a.op == "exc" and b.op == "exc" and a.args[1] is b.args[1] and subclass(a.args[0].args[0].args[0], b.args[0].args[0].args[0])


def _follows(atom, v, t):
    """the truth of atom t that follows from atom being v"""
    if atom.op == "eq":
        if v and t.op == "eq":
            e = eq_const(atom)
            if e is not None and excludes(e, t):
                return False
    elif t.op == "exc":
        if v and exc_implies(atom, t):
            return True
        if not v and exc_implies(t, atom):
            return False
    return None


def _given(t, atom, v):
    """the decision tree t where atom is v"""
    if t.op != "phi":
        return t
    k = _follows(atom, v, t.args[0])
    if k is not None:
        return _given(t.args[1] if k else t.args[2], atom, v)
    a, b = _given(t.args[1], atom, v), _given(t.args[2], atom, v)
    return t if a is t.args[1] and b is t.args[2] else _phi_raw(t.args[0], a, b)


def _phi_raw(atom, a, b):
    if a is b:
        return a
    if atom.op == "eq" and eq_const(atom) is not None or atom.op == "exc":
        a = _given(a, atom, True)
        b = _given(b, atom, False)
        if a is b or a is _given(b, atom, True):
            return b
        if b is _given(a, atom, False):
            return a
    if atom.op == "red:any" and atom.args[1] is NONE and a.op == "ix" and a.args[0] is b:
        # if any(m): x = x[~m]
        ks = [k for k in a.args[1].args if k is not FULL]
        if len(ks) == 1 and ks[0].op == "nz" and mk_not(atom.args[0]) is ks[0].args[0]:
            return a
    if atom.op == "red:all" and atom.args[1] is NONE and b.op == "ix" and b.args[0] is a:
        ks = [k for k in b.args[1].args if k is not FULL]
        if len(ks) == 1 and ks[0].op == "nz" and atom.args[0] is ks[0].args[0]:
            return b
    return raw("phi", (atom, a, b))


def _ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    key = (id(f), id(g), id(h))
    r = _ite_memo.get(key)
    if r is not None:
        return r[3]
    top = f.args[0]
    for x in (g, h):
        if x.op == "phi" and x.args[0].dig < top.dig:
            top = x.args[0]
    a = _ite(_cof(f, top, True), _cof(g, top, True), _cof(h, top, True))
    b = _ite(_cof(f, top, False), _cof(g, top, False), _cof(h, top, False))
    r = _phi_raw(top, a, b)
    _ite_memo[key] = (f, g, h, r)
    return r


def mk_phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "const":
        return a if c.args[0] else b
    f = to_bdd(c)
    r = _ite(f, a, b)
    return phi_to_bool(r)


def phi_to_bool(t):
    """conditionals that only choose booleans become and/or/not"""
    if t.op != "phi":
        return t
    c, a, b = t.args
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    if kind(a) == "bool" and kind(b) == "bool" and dims(c) == () and (a is TRUE or a is FALSE or b is TRUE or b is FALSE):
        a2, b2 = phi_to_bool(a), phi_to_bool(b)
        if a2 is TRUE:
            return mk_or([c, b2])
        if a2 is FALSE:
            return mk_and([mk_not(c), b2])
        if b2 is TRUE:
            return mk_or([mk_not(c), a2])
        if b2 is FALSE:
            return mk_and([c, a2])
    return t


def phi_atoms(t, limit=200, memo=None):
    """atoms that appear as phi conditions inside t, outermost first."""
    out = {}
    seen = set()
    stack = [t]
    while stack and len(out) < limit:
        x = stack.pop(0)
        if id(x) in seen or not x.hasphi:
            continue
        seen.add(id(x))
        if x.op == "phi":
            a = x.args[0]
            if id(a) not in out:
                out[id(a)] = a
        for a in x.args:
            if isinstance(a, T) and a.hasphi:
                stack.append(a)
    return list(out.values())


def assume(t, atom, val, memo=None):
    """t specialised to atom == val (everywhere, including inside loop bodies)."""
    if memo is None:
        memo = {}
    cval_ = TRUE if val else FALSE
    neg = mk_not(atom)
    return _rewrite(t, {id(atom): cval_, id(neg): mk_not(cval_)}, memo)


def _rewrite(t, table, memo):
    r = memo.get(id(t))
    if r is not None:
        return r[1]
    hit = table.get(id(t))
    if hit is not None:
        memo[id(t)] = (t, hit)
        return hit
    if not t.args or t.op in ("const", "sym", "unk", "bv"):
        memo[id(t)] = (t, t)
        return t
    if t.op in ("lam", "flam"):
        v = binder(t)
        body = open_lam(t, v)
        nb = _rewrite(body, table, memo)
        r = t if nb is body else close(v, nb, t.op)
        memo[id(t)] = (t, r)
        return r
    changed = False
    new = []
    for a in t.args:
        if isinstance(a, T):
            b = _rewrite(a, table, memo)
            changed = changed or (b is not a)
            new.append(b)
        else:
            new.append(a)
    if changed:
        r = rebuild(t.op, new)
    else:
        r = t
    memo[id(t)] = (t, r)
    return r


def settle(t):
    """t with every read at a known place taken from the writes at known places it depends on"""
    memo = {}
    rmemo = {}

    def at(k):
        return is_int(k) and k.args[0] >= 0

    def read(b, ks):
        if not ks:
            return b
        key = (id(b),) + tuple(map(id, ks))
        r = rmemo.get(key)
        if r is not None:
            return r[2]
        if b.op == "phi":
            r = mk_phi(b.args[0], read(b.args[1], ks), read(b.args[2], ks))
        elif b.op == "store" and len(b.args[1].args) <= len(ks) and all(k is FULL or at(k) for k in b.args[1].args):
            bk, v = b.args[1].args, b.args[2]
            if any(k is not FULL and k is not q for k, q in zip(bk, ks)):
                r = read(b.args[0], ks)
            else:
                rest = [q for k, q in zip(bk, ks) if k is FULL] + list(ks[len(bk):])
                r = v if rank(v) == 0 and v.op not in ("list", "tuple") else read(v, rest) if rank(v) == len(rest) or len(ks) == 1 else mk_ix(b, list(ks))
        elif b.op == "ix" and len(b.args[1].args) == 1 and b.args[1].args[0].op == "list" and ks[0].args[0] < len(b.args[1].args[0].args) \
                and all(at(q) for q in b.args[1].args[0].args):
            r = read(b.args[0], [b.args[1].args[0].args[ks[0].args[0]]] + list(ks[1:]))
        else:
            r = mk_ix(b, list(ks))
        rmemo[key] = (b, ks, r)
        return r

    def go(t):
        r = memo.get(id(t))
        if r is not None:
            return r[1]
        if not t.args or t.op in ("const", "sym", "unk", "bv"):
            r = t
        elif t.op in ("lam", "flam"):
            v = binder(t)
            body = open_lam(t, v)
            nb = go(body)
            r = t if nb is body else close(v, nb, t.op)
        else:
            new = [go(a) if isinstance(a, T) else a for a in t.args]
            if t.op == "ix" and new[1].args and all(at(k) for k in new[1].args):
                r = read(new[0], list(new[1].args))
            else:
                r = t if all(a is b for a, b in zip(new, t.args)) else rebuild(t.op, new)
        memo[id(t)] = (t, r)
        return r
    return go(t)


def settled(t):
    """settle(t), or unknown where a read at known places of something written at known places could not be resolved"""
    r = settle(t)
    for x in subterms(r):
        if x.op.startswith("loop"):
            return unk("a loop could not be written out")
        if x.op in ("ix", "fix", "oix") and x.args[0].op in ("store", "phi") and x.args[1].args and is_int(x.args[1].args[0]):
            return unk("a read of what was written could not be resolved")
    return r


# --------------------------------------------------------------- substitution

def subst(t, mapping, memo=None):
    """mapping: {sym name: T}; capture-free because binders use levels and are re-closed."""
    if memo is None:
        memo = {}
    names = frozenset(mapping)
    return _subst(t, mapping, names, memo)


def _subst(t, mp, names, memo):
    if not t.syms or t.syms.isdisjoint(names):
        return t
    r = memo.get(id(t))
    if r is not None:
        return r[1]
    if t.op == "sym":
        return mp.get(t.args[0], t)
    if t.op in ("lam", "flam"):
        v = binder(t)
        body = open_lam(t, v)
        nb = _subst(body, mp, names, {})
        r = close(v, nb, t.op)
    else:
        r = rebuild(t.op, [_subst(a, mp, names, memo) if isinstance(a, T) else a for a in t.args])
    memo[id(t)] = (t, r)
    return r


def open_lam(lam, v):
    """body of lam with its bound variable replaced by the term v"""
    body = lam.args[0]
    lvl = lam.h
    return _inst(body, lvl, v, {})


def _inst(t, lvl, v, memo):
    if t.op in ("bv", "bva"):
        return v if t.args[0] == lvl else t
    if not t.args or t.op in ("const", "sym", "unk"):
        return t
    r = memo.get(id(t))
    if r is not None:
        return r[1]
    if not _has_bv(t, lvl):
        memo[id(t)] = (t, t)
        return t
    if t.op in ("lam", "flam"):
        # inner binder: open it, substitute, close again (levels may change)
        r = None
        if t.h not in _bvs(v):
            r = raw(t.op, (_inst(t.args[0], lvl, v, memo),) + t.args[1:])
        if r is None or r.h != t.h:
            w = binder(t)
            b = open_lam(t, w)
            nb = _inst(b, lvl, v, {})
            r = close(w, nb, t.op)
    else:
        r = rebuild(t.op, [_inst(a, lvl, v, memo) if isinstance(a, T) else a for a in t.args])
    memo[id(t)] = (t, r)
    return r


_bvmemo: dict = {}


def _bvs(t):
    r = _bvmemo.get(id(t))
    if r is not None:
        return r[1]
    if t.op in ("bv", "bva"):
        s = frozenset((t.args[0],))
    else:
        s = _EMPTY
        for a in t.args:
            if isinstance(a, T):
                x = _bvs(a)
                if x and not x <= s:
                    s = s | x
        if t.op in ("lam", "flam"):
            s = s - {t.h}
    _bvmemo[id(t)] = (t, s)
    return s


def _has_bv(t, lvl):
    return lvl in _bvs(t)


def close(v, body, op="lam"):
    """lam v. body"""
    lvl = body.h + 1
    name = v.args[0]
    bvop = "bv" if op == "lam" else "bva"
    k = ("bool",) if op == "flam" and kind(v) == "bool" else ()
    nb = _close(body, name, lvl, {}, bvop, k)
    # rebuilding may change the height; iterate until stable
    for _ in range(4):
        if nb.h + 1 == lvl:
            break
        lvl = nb.h + 1
        nb = _close(body, name, lvl, {}, bvop, k)
    return raw(op, (nb,) + k)


def _close(t, name, lvl, memo, bvop="bv", k=()):
    if name not in t.syms:
        return t
    if t.op == "sym":
        return raw(bvop, (lvl,) + k)
    r = memo.get(id(t))
    if r is not None:
        return r[1]
    if t.op in ("lam", "flam"):
        # inner lambda keeps its own (smaller) level; its level is recomputed from its body
        b = _close(t.args[0], name, lvl, memo, bvop, k)
        r = raw(t.op, (b,) + t.args[1:])
        if r.h != t.h:
            # heights changed under us: reopen safely
            w = binder(t)
            b = _close(open_lam(t, w), name, lvl, {}, bvop, k)
            r = close(w, b, t.op)
    else:
        r = rebuild(t.op, [_close(a, name, lvl, memo, bvop, k) if isinstance(a, T) else a for a in t.args])
    memo[id(t)] = (t, r)
    return r


def lam_map(lam, f):
    v = fresh("#i")
    return close(v, f(open_lam(lam, v)))


def apply_lam(lam, arg):
    if arg.op == "sym" or not _bvs(lam):
        return open_lam(lam, arg)
    return open_lam(lam, arg)


# ------------------------------------------------------------------ lists/str

def mk_list(items):
    return raw("list", tuple(items))


def mk_lcat(ts):
    flat = []
    for t in ts:
        if t.op == "lcat":
            flat.extend(t.args)
        else:
            flat.append(t)
    out = []
    for t in flat:
        if t.op == "list" and not t.args:
            continue
        if out and t.op == "list" and out[-1].op == "list":
            out[-1] = mk_list(out[-1].args + t.args)
        else:
            out.append(t)
    if not out:
        return mk_list([])
    return out[0] if len(out) == 1 else raw("lcat", out)


def mk_scat(ts):
    flat = []
    for t in ts:
        if t.op == "scat":
            flat.extend(t.args)
        else:
            flat.append(t)
    out = []
    for t in flat:
        if t.op == "cast:str" and kind(t.args[0]) == "str":
            t = t.args[0]
        if is_str(t) and t.args[0] == "":
            continue
        if out and is_str(t) and is_str(out[-1]):
            out[-1] = const(out[-1].args[0] + t.args[0])
        else:
            out.append(t)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0] if kind(out[0]) == "str" else raw("cast:str", (out[0],))
    return raw("scat", out)


def mk_caststr(t):
    if is_str(t) or kind(t) == "str":
        return t
    if is_int(t):
        return const(str(t.args[0]))
    return raw("cast:str", (t,))


# ----------------------------------------------------------------------- maps

def mk_map(n, lam):
    """[lam(i) for i in range(n)] (list or first axis of an array)"""
    if n is ZERO:
        return mk_list([])
    if is_int(n) and 0 < n.args[0] <= 12:
        return mk_list([apply_lam(lam, const(k)) for k in range(n.args[0])])
    v = fresh("#i")
    body = open_lam(lam, v)
    if body is v:
        return raw("arange", (n,))
    r = vectorise(body, v, n)
    if r is not None:
        return r
    return raw("map", (n, close(v, body)))


def vectorise(body, v, n):
    """A term X with X[v] == body for all v in range(n), without a map; None if there is none."""
    name = v.args[0]
    if name not in body.syms:
        if rank(body) == 0:
            return raw("full_like", (mk_zeros([n]), body)) if not is_const(body) else mk_full(n, body)
        return None
    if body.op in ("ix",) and name not in body.args[0].syms:
        ks = body.args[1].args
        if ks and ks[0] is v and all(name not in k.syms for k in ks[1:]):
            d = dim(body.args[0], 0)
            if d is n:
                rest = [FULL] + list(ks[1:])
                return mk_ix(body.args[0], rest)
        if ks and ks[0].op in ("ix",) and ks[0].args[1].args == (v,) and name not in ks[0].args[0].syms and all(name not in k.syms for k in ks[1:]):
            # X[idx[v]] over the whole of idx  ->  X[idx]
            idx = ks[0].args[0]
            if dim(idx, 0) is n and kind(idx) == "int" and rank(idx) == 1:
                return mk_ix(body.args[0], [idx] + list(ks[1:]))
        return None
    if body is v:
        return raw("arange", (n,))
    if is_elementwise(body.op) and rank(body) == 0:
        parts = []
        for a in body.args:
            if name not in a.syms:
                if rank(a) != 0:
                    return None
                parts.append(a)
                continue
            p = vectorise(a, v, n) if body.op not in ("poly",) else _vec_mono(a, v, n)
            if p is None:
                return None
            parts.append(p)
        if body.op == "poly":
            s = ZERO
            for p, a in zip(parts, body.args):
                s = mk_add(s, p if name in a.syms else _from_mono(a))
            return s
        return rebuild(body.op, parts)
    if body.op.startswith("red:") and len(body.args) == 2 and body.args[1] is NONE and rank(body.args[0]) == 1:
        for ax in (1, 0):
            Z = lift(body.args[0], v, n, ax)
            if Z is not None and rank(Z) == 2 and dim(Z, ax) is n:
                return raw(body.op, (Z, const(1 - ax)))
    return None


def lift(body, v, n, ax):
    """for a vector-valued body, the matrix Z whose slice v along axis ax is body"""
    name = v.args[0]
    if body.op == "ix" and name not in body.args[0].syms:
        ks = list(body.args[1].args)
        ps = [j for j, k in enumerate(ks) if name in k.syms]
        if len(ps) != 1 or ks[ps[0]] is not v or NEWAX in ks:
            return None
        p = ps[0]
        if sum(1 for k in ks[:p] if not is_scalar(k)) != ax or dim(body.args[0], p) is not n:
            return None
        return mk_ix(body.args[0], ks[:p] + [FULL] + ks[p + 1:])
    if body.op == "poly" and len(body.args) == 1:
        m = body.args[0]
        if len(m.args) != 2 or m.args[1].args[1] is not ONE:
            return None
        p = lift(m.args[1].args[0], v, n, ax)
        return None if p is None else mk_mul(m.args[0], p)
    if is_elementwise(body.op) and body.op not in ("mono",) and rank(body) == 1:
        parts = []
        for a in (body.args if body.op != "poly" else [_from_mono(m) for m in body.args]):
            if name not in a.syms:
                if rank(a) not in (0, 1):
                    return None
                parts.append(mk_ix(a, [FULL, NEWAX]) if rank(a) == 1 and ax == 1 else a)
                continue
            if rank(a) == 0:
                p = vectorise(a, v, n)
                if p is not None and ax == 0:
                    p = mk_ix(p, [FULL, NEWAX])
            else:
                p = lift(a, v, n, ax)
            if p is None:
                return None
            parts.append(p)
        if body.op == "poly":
            s = ZERO
            for p in parts:
                s = mk_add(s, p)
            return s
        return rebuild(body.op, parts)
    return None


def _from_mono(m):
    r = m.args[0]
    for p in m.args[1:]:
        r = mk_mul(r, mk_pow(p.args[0], p.args[1]))
    return r


def _vec_mono(m, v, n):
    name = v.args[0]
    r = m.args[0]
    for p in m.args[1:]:
        b = p.args[0]
        if name in b.syms:
            b = vectorise(b, v, n)
            if b is None:
                return None
        elif rank(b) != 0:
            return None
        r = mk_mul(r, mk_pow(b, p.args[1]))
    return r


def mk_full(n, c):
    if c is ZERO:
        return mk_zeros([n])
    return raw("full_like", (mk_zeros([n]), c))


def mk_zeros(ds, kd="num"):
    return raw("zeros", (const(kd), const("0"), raw("shape", tuple(ds))))


def mk_mapax(axis, n, lam):
    if axis == 0:
        return mk_map(n, lam)
    v = fresh("#i")
    body = open_lam(lam, v)
    name = v.args[0]
    if body.op in ("ix",) and name not in body.args[0].syms:
        ks = body.args[1].args
        if len(ks) == axis + 1 and ks[axis] is v and all(k is FULL for k in ks[:axis]) and dim(body.args[0], axis) is n:
            return body.args[0]
    return raw("mapax", (const(axis), n, close(v, body)))


def mk_filtermap(n, lamc, lame):
    v = fresh("#i")
    c = open_lam(lamc, v)
    e = open_lam(lame, v)
    if c is TRUE:
        return mk_map(n, close(v, e))
    if c is FALSE:
        return mk_list([])
    if v.args[0] in e.syms:
        C = mk_map(n, close(v, c))
        if rank(C) == 1 and kind(c) == "bool":
            if e is v:
                return mk_nz(C)
            E = vectorise(e, v, n)
            if E is not None and v.args[0] not in E.syms:
                return mk_ix(E, [mk_nz(C)])
    return raw("filtermap", (n, close(v, c), close(v, e)))


# ---------------------------------------------------------------------- index

def mask_key(k):
    """boolean selection keys become the positions they select"""
    if k.op in ("full", "newaxis", "slice", "const", "nz"):
        return k
    if kind(k) == "bool" and rank(k) in (1, 2, None):
        return mk_nz(k)
    return k


def mk_nz(m):
    """positions where a boolean vector holds"""
    if m.op == "map" or True:
        return raw("nz", (m,))


def is_scalar(k):
    if k.op in ("full", "newaxis", "slice", "nz"):
        return False
    return rank(k) == 0 and kind(k) != "bool"


def is_array_key(k):
    if k.op == "nz":
        return True
    r = rank(k)
    if r is not None and r >= 1:
        return True
    return k.op in ("list", "arange", "map", "filtermap", "lcat")


def norm_slice(lo, hi, st):
    if st is ONE:
        st = NONE
    if lo is ZERO and (st is NONE or (is_int(st) and st.args[0] > 0)):
        lo = NONE
    if lo is NONE and hi is NONE and st is NONE:
        return FULL
    return raw("slice", (lo, hi, st))


def keytuple(keys):
    return raw("key", tuple(keys))


_PLACED = {}


def _placed(a, b):
    """two states of one array, one written further than the other at known places"""
    for x in (a, b):
        y = x
        while y.op in ("store", "phi"):
            if y.op == "phi":
                y = y.args[1] if y.args[1].op in ("store", "phi") else y.args[2]
            elif all(is_int(k) for k in y.args[1].args):
                return True
            else:
                break
    return False


def _axis_key(k):
    """does the key choose along exactly one axis?"""
    if k.op == "slice" or is_scalar(k):
        return True
    if k.op == "nz":
        return rank(k.args[0]) == 1
    return k is not NEWAX and rank(k) == 1


def mk_ix(base, keys, op="ix"):
    keys = [mask_key(k) for k in keys]
    # slice reaching the full extent
    ks2 = []
    j = 0
    d = dims(base)
    for k in keys:
        if k.op == "slice" and d is not None and j < len(d):
            lo, hi, st = k.args
            if st is NONE and lo is NONE and hi is d[j]:
                k = FULL
            elif st is NONE and hi is not NONE and hi is d[j]:
                k = norm_slice(lo, NONE, st)
        if k is not NEWAX:
            j += 1
        if is_int(k) and k.args[0] < 0 and d is not None and j - 1 < len(d) and is_int(d[j - 1]):
            k = const(d[j - 1].args[0] + k.args[0])
        ks2.append(k)
    keys = ks2
    while keys and keys[-1] is FULL:
        keys.pop()
    if not keys:
        return base
    if op == "ix" and sum(1 for k in keys if is_array_key(k)) >= 2:
        op = "fix"
        ak = [k for k in keys if is_array_key(k)]
        ns = {len(k.args) if k.op == "list" else k.args[0].args[0] if k.op == "arange" and is_int(k.args[0]) else None for k in ak}
        if len(ns) == 1 and None not in ns and NEWAX not in keys and all(rank(k) == 1 for k in ak) \
                and all(is_array_key(k) or is_scalar(k) for k in keys):
            # positions written out: item j takes the j-th of every key
            return mk_list([mk_ix(base, [mk_ix(k, [const(j)]) if is_array_key(k) else k for k in keys]) for j in range(min(ns))])
        if any(k.op == "arange" for k in ak) and all(rank(k) == 1 for k in ak) and NEWAX not in keys \
                and all(is_array_key(k) or is_scalar(k) for k in keys):
            # element-wise pairing: row i takes keys[i]
            v = fresh("#i", kind="int", dims=(), nonneg=True)
            n = next(k for k in ak if k.op == "arange").args[0]
            return mk_map(n, close(v, mk_ix(base, [mk_ix(k, [v]) if is_array_key(k) else k for k in keys])))
        return raw("fix", (base, keytuple(keys)))
    bop = base.op
    if bop == "call:spatial.cdist" and op == "ix" and len(keys) == 2 and all(is_scalar(k) for k in keys):
        kws = {a.op[3:]: a.args[0] for a in base.args if a.op.startswith("kw:")}
        if set(kws) == {"XA", "XB"} and len(base.args) == 2:
            return euclid(mk_sub(mk_ix(kws["XA"], [keys[0]]), mk_ix(kws["XB"], [keys[1]])))
    if bop in ("list", "tuple"):
        k = keys[0]
        if is_int(k):
            v = k.args[0]
            if -len(base.args) <= v < len(base.args):
                return mk_ix(base.args[v], keys[1:])
        if k.op == "el:bit" and len(base.args) == 2 and rank(k) == 0 and len(keys) >= 1:
            return mk_where(mk_eq(k, ONE), mk_ix(base.args[1], keys[1:]), mk_ix(base.args[0], keys[1:]))
        if k.op == "slice" and len(keys) == 1 and all(x is NONE or is_int(x) for x in k.args):
            lo, hi, st = [None if x is NONE else x.args[0] for x in k.args]
            return raw(bop, base.args[lo:hi:st])
    if bop == "dict" and len(keys) == 1:
        for i in range(0, len(base.args), 2):
            if base.args[i] is keys[0]:
                return base.args[i + 1]
    if bop == "dstore":
        if base.args[1] is keys[0]:
            return mk_ix(base.args[2], keys[1:])
        if is_const(base.args[1]) and is_const(keys[0]):
            return mk_ix(base.args[0], keys)
    if bop == "nz" and len(keys) == 1 and keys[0] is ZERO and rank(base.args[0]) == 1:
        # the first position at which the mask holds
        return mk_red("argmax", base.args[0])
    if len(keys) == 2 and is_scalar(keys[0]) and keys[1].op in ("red:argmax", "red:argmin") and keys[1].args[1] is NONE and len(keys[1].args) == 2 \
            and keys[1].args[0] is mk_ix(base, keys[:1]):
        return mk_ix(keys[1].args[0], keys[1:])
    if len(keys) == 1 and keys[0].op in ("red:argmax", "red:argmin", "red:nanargmax", "red:nanargmin") and keys[0].args[0] is base \
            and keys[0].args[1] is NONE and rank(base) == 1 and len(keys[0].args) == 2:
        return mk_red(keys[0].op[4:].replace("arg", ""), base)
    if bop in ("m.ravel", "m.flatten", "ravel") and len(keys) == 1 and len(base.args) == 1 and rank(keys[0]) == 0:
        r = _unravel(base.args[0], keys[0])
        if r is not None:
            return r
    if bop in ("m.ravel", "m.flatten", "ravel") and len(keys) == 1 and len(base.args) == 1 and rank(keys[0]) == 1 and keys[0].op == "poly":
        r = _unravel(base.args[0], keys[0])
        if r is not None:
            return r
    if bop == "arange" and len(keys) == 1:
        if is_scalar(keys[0]) and not (is_int(keys[0]) and keys[0].args[0] < 0):
            return keys[0]
        if is_array_key(keys[0]):
            return keys[0]
        if keys[0].op == "slice" and keys[0].args[0] is NONE and keys[0].args[1] is NONE and is_int(keys[0].args[2]) \
                and keys[0].args[2].args[0] == -1:
            return mk_sub(mk_sub(base.args[0], ONE), base)
    if bop == "full_like" and is_scalar(keys[0]) and rank(base) == len(keys):
        return base.args[1]
    if bop == "zeros" and len(base.args) == 3 and base.args[1] is const("0") and all(is_scalar(k) or k is FULL for k in keys) \
            and base.args[2].op == "shape" and len(keys) <= len(base.args[2].args):
        ds = list(base.args[2].args)
        left = [d for j, d in enumerate(ds) if j >= len(keys) or keys[j] is FULL]
        if not left:
            return FALSE if base.args[0] is const("bool") else ZERO
        return raw("zeros", (base.args[0], base.args[1], raw("shape", left)))
    if bop == "ix" and op == "ix" and len(base.args[1].args) == 1 and base.args[1].args[0].op == "slice" and is_scalar(keys[0]) \
            and base.args[1].args[0].args[0] is NONE and base.args[1].args[0].args[1] is NONE \
            and base.args[1].args[0].args[2] is const(-1):
        # an element of the reversed sequence
        if is_int(keys[0]):
            return mk_ix(base.args[0], [const(-1 - keys[0].args[0])] + keys[1:])
        if dims(base.args[0]):
            return mk_ix(base.args[0], [mk_sub(mk_sub(dims(base.args[0])[0], ONE), keys[0])] + keys[1:])
    if bop == "matmul" and op == "ix" and len(keys) <= 2 and rank(base.args[0]) == 2 and rank(base.args[1]) in (1, 2) \
            and len(keys) <= rank(base.args[1]) and all(_axis_key(k) for k in keys):
        # rows of a product are products of rows, columns products of columns
        b = base.args[1]
        if len(keys) == 2 and keys[1] is not FULL:
            b = mk_ix(b, [FULL, keys[1]])
        return mk_matmul(mk_ix(base.args[0], keys[:1]), b)
    if bop == "map":
        k = keys[0]
        if is_scalar(k):
            if is_int(k) and k.args[0] < 0:
                k = mk_add(base.args[0], k)
            return mk_ix(apply_lam(base.args[1], k), keys[1:])
        if k is FULL and len(keys) > 1:
            return mk_map(base.args[0], lam_map(base.args[1], lambda b: mk_ix(b, keys[1:])))
        if k.op == "slice" and k.args[0] is NONE and k.args[1] is NONE and is_int(k.args[2]) and k.args[2].args[0] == -1:
            v = fresh("#i", kind="int", dims=(), nonneg=True)
            at = mk_sub(mk_sub(base.args[0], ONE), v)
            return mk_map(base.args[0], close(v, mk_ix(apply_lam(base.args[1], at), keys[1:])))
    if bop == "mapax":
        ax = base.args[0].args[0]
        if len(keys) > ax and is_scalar(keys[ax]) and NEWAX not in keys:
            return mk_ix(apply_lam(base.args[2], keys[ax]), keys[:ax] + keys[ax + 1:])
        if len(keys) <= ax and NEWAX not in keys:
            drop = sum(1 for k in keys if is_scalar(k))
            if all(is_scalar(k) or k is FULL for k in keys):
                return mk_mapax(ax - drop, base.args[1], lam_map(base.args[2], lambda b: mk_ix(b, keys)))
    if bop == "where":
        r = _push_el(base, keys)
        if r is not None:
            return r
    if is_elementwise(bop) and bop not in ("pow", "mono", "where"):
        r = _push_el(base, keys)
        if r is not None:
            return r
    if bop.startswith("red:") and base.args[1] is not NONE and is_int(base.args[1]) and NEWAX not in keys \
            and not any(is_array_key(k) and k.op != "nz" and rank(k) != 1 for k in keys):
        r = _push_red(base, keys)
        if r is not None:
            return r
    if bop == "T" and (rank(base) == 2 or rank(base) is None and len(keys) == 1 and is_scalar(keys[0])) and NEWAX not in keys and len(keys) <= 2:
        k0 = keys[0]
        k1 = keys[1] if len(keys) > 1 else FULL
        r = mk_ix(base.args[0], [k1, k0])
        keep = sum(1 for k in (k0, k1) if not is_scalar(k))
        return mk_T(r) if keep == 2 else r
    if bop == "store":
        bk = base.args[1].args
        if len(bk) == len(keys) and all(a is b for a, b in zip(bk, keys)) and all(is_scalar(k) or k is FULL for k in keys):
            return base.args[2]
        for a, b in zip(bk, keys):
            if is_int(a) and is_int(b) and a is not b and (a.args[0] >= 0) == (b.args[0] >= 0):
                return mk_ix(base.args[0], keys)
        if len(bk) < len(keys) and all(is_scalar(k) for k in bk) and all(a is b for a, b in zip(bk, keys)) and rank(base) is not None \
                and rank(base.args[2]) == rank(base) - len(bk) and NEWAX not in keys:
            return mk_ix(base.args[2], keys[len(bk):])
        if len(bk) >= len(keys) and all(is_scalar(k) or k is FULL for k in keys) and all(a is b for a, b in zip(bk, keys)):
            drop = [k for k, b in zip(keys, bk)]
            rest = []
            for a in bk[len(keys):]:
                rest.append(a)
            head = [FULL for k in keys if k is FULL]
            return mk_store(mk_ix(base.args[0], keys), head + rest, base.args[2])
    if bop == "tab":
        ax = base.args[1].args[0]
        # partially filled along axis ax: element v in range(n) known only when v is a loop index
    if bop == "phi" and op == "ix" and all(is_int(k) and k.args[0] >= 0 for k in keys) and _placed(base.args[1], base.args[2]):
        memo = (base, tuple(keys))
        r = _PLACED.get(memo)
        if r is None:
            r = _PLACED[memo] = mk_phi(base.args[0], mk_ix(base.args[1], keys), mk_ix(base.args[2], keys))
        return r
    if bop in ("ix", "oix"):
        r = _compose(base, keys)
        if r is not None:
            return r
    if bop == "lcat" and len(keys) == 1 and is_int(keys[0]):
        v = keys[0].args[0]
        if v >= 0:
            for seg in base.args:
                if seg.op == "list":
                    if v < len(seg.args):
                        return seg.args[v]
                    v -= len(seg.args)
                else:
                    break
    if bop.startswith("rec:") and is_int(keys[0]):
        # positional access to a named tuple
        i = keys[0].args[0]
        if -len(base.args) <= i < len(base.args) and base.args[i].op.startswith("kw:"):
            return mk_ix(base.args[i].args[0], keys[1:])
    return raw(op, (base, keytuple(keys)))


def _unravel(x, k):
    """element a + m*b of a row-major flattened (n, m) array is x[b, a]"""
    d = dims(x)
    if d is None or len(d) != 2 or not is_int(d[1]) or d[1].args[0] != 2:
        return None
    if is_int(k) and k.args[0] >= 0:
        return mk_ix(x, [const(k.args[0] // 2), const(k.args[0] % 2)])
    low, high = ZERO, ZERO
    for m in (k.args if k.op == "poly" else (k,)):
        if m.op == "mono":
            c = m.args[0].args[0]
            part = ONE
            for f in m.args[1:]:
                part = mk_mul(part, mk_pow(f.args[0], f.args[1]))
        elif is_int(m):
            c, part = m.args[0], ONE
        else:
            c, part = 1, m
        if isinstance(c, int) and c % 2 == 0:
            high = mk_add(high, mk_mul(const(c // 2), part))
        elif c == 1 and low is ZERO and part.op == "el:bit":
            low = part
        else:
            return None
    if high is raw("arange", (d[0],)):
        return mk_where(mk_eq(low, ONE), mk_ix(x, [FULL, ONE]), mk_ix(x, [FULL, ZERO]))
    return mk_ix(x, [high, low]) if rank(k) == 0 else None


def _push_el(base, keys):
    """(f(a,b))[keys] -> f(a[keys'], b[keys'])"""
    if any(k.op == "ellipsis" for k in keys):
        return None
    R = rank(base)
    if R is None:
        return None
    nk = sum(1 for k in keys if k is not NEWAX)
    if nk > R:
        return None
    # a boolean key of rank 2 consumes two axes
    if any(k.op == "nz" and rank(k.args[0]) not in (1,) for k in keys):
        if not all(k.op == "nz" and rank(k.args[0]) == R for k in keys):
            return None

    def sel(a):
        r = rank(a)
        if r is None:
            return None
        if r == 0:
            return a
        if any(k is NEWAX for k in keys):
            if r != R:
                return None
            return mk_ix(a, keys)
        off = R - r
        ks = list(keys) + [FULL] * (R - nk)
        ks = ks[off:]
        da = dims(a)
        db = dims(base)
        out = []
        for j, k in enumerate(ks):
            if da[j] is ONE and db[off + j] is not ONE:
                # broadcast axis
                if is_scalar(k):
                    out.append(ZERO)
                elif k is FULL:
                    out.append(FULL)
                else:
                    out.append(FULL)
            else:
                out.append(k)
        if any(k.op == "nz" and rank(k.args[0]) == R and R > 1 for k in keys):
            if r != R or any(x is ONE for x in da):
                return None
            return mk_ix(a, keys)
        return mk_ix(a, out)

    if base.op == "poly":
        s = ZERO
        for m in base.args:
            p = m.args[0]
            for f in m.args[1:]:
                b = sel(f.args[0])
                if b is None:
                    return None
                p = mk_mul(p, mk_pow(b, f.args[1]))
            s = mk_add(s, p)
        return s
    parts = []
    for a in base.args:
        b = sel(a)
        if b is None:
            return None
        parts.append(b)
    return rebuild(base.op, parts)


def _push_red(base, keys):
    x = base.args[0]
    R = rank(x)
    if R is None:
        return None
    ax = base.args[1].args[0]
    if ax < 0:
        ax += R
    ks = list(keys)
    if len(ks) > R - 1:
        return None
    ks = ks + [FULL] * (R - 1 - len(ks))
    full = ks[:ax] + [FULL] + ks[ax:]
    nax = ax - sum(1 for k in ks[:ax] if is_scalar(k))
    nx = mk_ix(x, full)
    keep = R - sum(1 for k in full if is_scalar(k))
    return rebuild(base.op, [nx, NONE if keep == 1 else const(nax)] + list(base.args[2:]))


def _compose(base, keys):
    b, kt = base.args
    k1s = list(kt.args)
    if any(k.op == "ellipsis" for k in k1s) or any(k.op == "ellipsis" for k in keys):
        return None
    if any(not (k in (FULL, NEWAX) or k.op in ("slice",) or is_scalar(k) or is_array_key(k)) for k in k1s):
        # a key of unknown rank: only keys behind it that are FULL compose
        if not (len(k1s) == 1 and keys and keys[0] is FULL):
            return None
    out = []
    pos = 0  # position in k1s
    it = list(keys)

    def next_axis():
        nonlocal pos
        while pos < len(k1s) and is_scalar(k1s[pos]):
            out.append(k1s[pos])
            pos += 1

    for k2 in it:
        if k2 is NEWAX:
            next_axis_before = pos
            while pos < len(k1s) and is_scalar(k1s[pos]):
                out.append(k1s[pos])
                pos += 1
            out.append(NEWAX)
            continue
        next_axis()
        if pos < len(k1s):
            k1 = k1s[pos]
            pos += 1
        else:
            k1 = FULL
        if k1 is FULL:
            out.append(k2)
        elif k2 is FULL:
            out.append(k1)
        elif k1 is NEWAX:
            if is_scalar(k2):
                continue
            return None
        elif k1.op == "slice":
            lo, hi, st = k1.args
            if st is NONE and is_scalar(k2) and (nonneg(k2) or not is_const(k2) and lo in (NONE, ZERO) and hi is not NONE
                                                 and mk_sub(hi, k2) is ONE) and (lo is NONE or nonneg(lo)):
                out.append(mk_add(ZERO if lo is NONE else lo, k2))
            elif st is not NONE and is_int(st) and st.args[0] == -1 and lo is NONE and hi is NONE and is_int(k2) and k2.args[0] >= 0:
                out.append(const(-1 - k2.args[0]))
            else:
                return None
        else:
            # array key
            if rank(k1) == 1:
                out.append(mk_ix(k1, [k2]))
            else:
                return None
    out.extend(k1s[pos:])
    arr = sum(1 for k in out if is_array_key(k))
    if arr >= 2:
        while out and out[-1] is FULL:
            out.pop()
        return raw("oix", (b, keytuple(out)))
    return mk_ix(b, out)


def mk_oix(base, keys):
    """orthogonal selection (np.ix_)"""
    keys = [mask_key(k) for k in keys]
    if sum(1 for k in keys if is_array_key(k)) < 2:
        return mk_ix(base, keys)
    while keys and keys[-1] is FULL:
        keys.pop()
    return raw("oix", (base, keytuple(keys)))


def mk_T(a):
    if a.op == "T":
        return a.args[0]
    if rank(a) in (0, 1):
        return a
    if a.op == "matmul":
        return mk_matmul(mk_T(a.args[1]), mk_T(a.args[0]))
    if a.op == "map" and rank(a) == 2:
        return mk_mapax(1, a.args[0], a.args[1])
    if a.op == "mapax" and rank(a) == 2 and a.args[0].args[0] == 1:
        return mk_map(a.args[1], a.args[2])
    if a.op == "ix" and rank(a) == 2 and rank(a.args[0]) == 2 and NEWAX not in a.args[1].args:
        ks = list(a.args[1].args) + [FULL] * (2 - len(a.args[1].args))
        return mk_ix(mk_T(a.args[0]), [ks[1], ks[0]]) if False else raw("T", (a,))
    return raw("T", (a,))


def mk_matmul(a, b):
    return raw("matmul", (a, b))


def mk_where(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b and rank(c) is not None and rank(a) is not None and rank(c) <= rank(a):
        return a
    if c.op == "not":
        return mk_where(c.args[0], b, a)
    if dims(c) == () and kind(c) == "bool":
        return mk_phi(c, a, b)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    if c.op in ("or",) and all(x.op == "not" for x in c.args):
        return mk_where(mk_not(c), b, a)
    return raw("where", (c, a, b))


def _unselect(v, key, base_rank):
    """z with z[key] == v elementwise, or None"""
    if rank(v) == 0:
        return v
    if v.op == "ix" and len(v.args[1].args) == 1 and v.args[1].args[0] is key:
        return v.args[0]
    if is_elementwise(v.op):
        if v.op == "poly":
            s = ZERO
            for m in v.args:
                p = m.args[0]
                for f in m.args[1:]:
                    b = _unselect(f.args[0], key, base_rank)
                    if b is None:
                        return None
                    p = mk_mul(p, mk_pow(b, f.args[1]))
                s = mk_add(s, p)
            return s
        parts = [_unselect(a, key, base_rank) for a in v.args]
        if any(p is None for p in parts):
            return None
        return rebuild(v.op, parts)
    return None


def mk_store(base, keys, v):
    keys = [mask_key(k) for k in keys]
    while keys and keys[-1] is FULL:
        keys.pop()
    if not keys:
        # x[:] = v
        if rank(v) == 0:
            return raw("full_like", (strip_values(base), v))
        return v
    if len(keys) == 1 and keys[0].op == "nz":
        m = keys[0].args[0]
        z = _unselect(v, keys[0], rank(base))
        if z is not None and (rank(z) == 0 or rank(z) == rank(base)):
            if rank(m) is not None and rank(base) is not None and rank(m) < rank(base):
                m = mk_ix(m, [FULL] * rank(m) + [NEWAX] * (rank(base) - rank(m)))
            return mk_where(m, z, base)
    if len(keys) == 2 and keys[0] is FULL and keys[1].op == "nz" and rank(v) == 0 and rank(keys[1].args[0]) == 1:
        return mk_where(keys[1].args[0], v, base)
    if rank(v) == 0:
        # storing one value at a set of places: repetition and order do not matter
        keys = [k.args[0].args[0] if k.op == "call:np.unique" and len(k.args) == 1 and k.args[0].op == "kw:ar" else k for k in keys]
    if keys[-1].op == "list" and len(keys[-1].args) == 1 and rank(keys[-1].args[0]) == 0 and len(keys) == 2 and keys[0] is FULL:
        # x[:, [i]] = column
        if v.op == "ix" and rank(v.args[0]) == 1 and len(v.args[1].args) == 2 and v.args[1].args[0] is FULL and v.args[1].args[1] is NEWAX:
            return mk_store(base, [FULL, keys[-1].args[0]], v.args[0])
        if v.op == "reshape" and len(v.args) == 2 and len(v.args[1].args) == 2 and v.args[1].args[1] is ONE:
            return mk_store(base, [FULL, keys[-1].args[0]], v.args[0])
    kt = keytuple(keys)
    # overwriting the same place
    b = base
    while b.op == "store" and b.args[1] is kt:
        b = b.args[0]
    # writing back what is there
    if v is mk_ix(b, keys) and v.op in ("ix", "oix", "fix"):
        return b
    # independent constant keys: order them
    if b.op == "store" and _disjoint(b.args[1].args, kt.args) and kt.dig < b.args[1].dig:
        return raw("store", (mk_store(b.args[0], keys, v), b.args[1], b.args[2]))
    return raw("store", (b, kt, v))


def _disjoint(a, b):
    return any(is_const(x) and is_const(y) and x is not y for x, y in zip(a, b))


def strip_values(base):
    d = dims(base)
    if d is not None and all(x is not None for x in d):
        return mk_zeros(d)
    return base


def mk_dstore(d, k, v):
    if d.op == "dict":
        items = [(d.args[i], d.args[i + 1]) for i in range(0, len(d.args), 2)]
        if is_const(k) and all(is_const(a) for a, _ in items):
            out = []
            done = False
            for a, b in items:
                if a is k:
                    out += [a, v]
                    done = True
                else:
                    out += [a, b]
            if not done:
                out += [k, v]
            return raw("dict", out)
    if d.op == "dstore" and d.args[1] is k:
        return raw("dstore", (d.args[0], k, v))
    return raw("dstore", (d, k, v))


# ------------------------------------------------------------------ reductions

def unmasked(x):
    """z when x is z[~isnan(z)] (the selection may have been pushed to the leaves)"""
    ks = {}
    seen = set()
    st = [x]
    while st:
        t = st.pop()
        if id(t) in seen or not isinstance(t, T) or rank(t) == 0 or len(seen) > 300:
            continue
        seen.add(id(t))
        if t.op == "ix" and len(t.args[1].args) == 1 and t.args[1].args[0].op == "nz":
            ks[id(t.args[1].args[0])] = t.args[1].args[0]
            continue
        if t.op in ("poly", "mono", "powx", "where", "and", "or", "not", "pos", "nneg", "zero", "eq", "max2", "min2", "clip", "pow") or t.op.startswith("el:"):
            st.extend(t.args)
    if len(ks) != 1:
        return None
    k = next(iter(ks.values()))
    m = k.args[0]
    if m.op != "not" or m.args[0].op != "el:isnan":
        return None
    q = m.args[0].args[0]
    memo = {}

    def up(t):
        r = memo.get(id(t))
        if r is not None:
            return r
        if t.op == "ix" and len(t.args[1].args) == 1 and t.args[1].args[0] is k:
            r = t.args[0]
        elif t.op in ("const", "sym") or t.op not in ("mono", "pow") and rank(t) == 0:
            r = t
        elif t.op == "mono":
            r = raw("mono", [up(a) for a in t.args])
        elif t.op in ("poly", "pow", "powx", "where", "and", "or", "not", "pos", "nneg", "zero", "eq", "max2", "min2", "clip") or t.op.startswith("el:"):
            r = rebuild(t.op, [up(a) for a in t.args])
        else:
            r = t
        memo[id(t)] = r
        return r
    z = up(x)
    return q if z is q else None


def mk_red(name, x, axis=NONE, *extra):
    op = "red:" + name
    if axis is not NONE and is_int(axis) and axis.args[0] < 0:
        r = rank(x)
        if r is not None:
            axis = const(axis.args[0] + r)
    if axis is ZERO and rank(x) == 1:
        axis = NONE
    if name == "all" and axis is not None:
        # all(p) is not any(not p): keep one spelling (any)
        pass
    if name in ("any", "all") and x.op == "list" and axis is NONE:
        bs = [as_bool(a) for a in x.args]
        return mk_or(bs) if name == "any" else mk_and(bs)
    if name == "sum" and x.op == "list" and (axis is NONE or axis is ZERO):
        s = ZERO
        for a in x.args:
            s = mk_add(s, a)
        return s
    if name in ("max", "min") and x.op == "list" and axis is NONE and len(x.args) >= 1 and all(rank(a) == 0 for a in x.args):
        return (mk_max2 if name == "max" else mk_min2)(list(x.args))
    if name in ("any", "all") and axis is NONE and rank(x) == 0:
        return as_bool(x)
    if x.op == "full_like" and axis is NONE and name in ("any", "all") and rank(x) == 1:
        pass
    if name in ("max", "min", "mean", "median", "std", "var", "sum") and axis is NONE and not extra:
        z = unmasked(x)
        if z is not None:
            # x[~isnan(x)]
            return raw("red:nan" + name, (z, axis))
    if name in ("any", "all") and axis is NONE and x.op == "map" and not extra and sized(x.args[0]) is not None:
        v = fresh("#i")
        b = as_bool(open_lam(x.args[1], v))
        if name == "any":
            return mk_exists(x.args[0], v, b)
        if over_members(x.args[0], v, [b]) is not None or b.size < 4000 and free_atom(b, v.args[0]) is not None:
            return mk_not(mk_exists(x.args[0], v, mk_not(b)))
    if name == "all":
        # single spelling: not any(not x) is kept as red:all(x); push through map/where only by rebuild
        pass
    return raw(op, (x, axis) + tuple(extra))


# ------------------------------------------------------------------- rebuild

def _rb_poly(args):
    s = ZERO
    for m in args:
        if m.op == "mono":
            s = mk_add(s, _from_mono(m))
        else:
            s = mk_add(s, m)
    return s


REB = {
    "poly": _rb_poly,
    "phi": lambda a: mk_phi(as_bool(a[0]), a[1], a[2]),
    "and": lambda a: mk_and(a),
    "or": lambda a: mk_or(a),
    "not": lambda a: mk_not(a[0]),
    "pos": lambda a: mk_pos(a[0]),
    "nneg": lambda a: mk_nneg(a[0]),
    "zero": lambda a: mk_eq(a[0], ZERO),
    "eq": lambda a: mk_eq(a[0], a[1]),
    "isnone": lambda a: mk_isnone(a[0]),
    "truth": lambda a: as_bool(a[0]),
    "max2": lambda a: mk_max2(a),
    "min2": lambda a: mk_min2(a),
    "ix": lambda a: mk_ix(a[0], list(a[1].args)),
    "oix": lambda a: mk_oix(a[0], list(a[1].args)),
    "store": lambda a: mk_store(a[0], list(a[1].args), a[2]),
    "where": lambda a: mk_where(a[0], a[1], a[2]),
    "T": lambda a: mk_T(a[0]),
    "map": lambda a: mk_map(a[0], a[1]) if a[1].op == "lam" else raw("map", a),
    "mapax": lambda a: mk_mapax(a[0].args[0], a[1], a[2]),
    "filtermap": lambda a: mk_filtermap(a[0], a[1], a[2]),
    "lcat": lambda a: mk_lcat(a),
    "scat": lambda a: mk_scat(a),
    "cast:str": lambda a: mk_caststr(a[0]),
    "el:abs": lambda a: mk_abs(a[0]),
    "mod": lambda a: mk_mod(a[0], a[1]),
    "floordiv": lambda a: mk_floordiv(a[0], a[1]),
    "powx": lambda a: mk_pow(a[0], a[1]),
    "slice": lambda a: norm_slice(a[0], a[1], a[2]),
    "dim": lambda a: dim(a[0], a[1].args[0]),
    "dstore": lambda a: mk_dstore(a[0], a[1], a[2]),
    "dmerge": lambda a: mk_dmerge(a[0], a[1]),
    "nz": lambda a: mk_nz(a[0]),
    "cast:bool": lambda a: a[0] if kind(a[0]) == "bool" else raw("cast:bool", a),
    "cast:int": lambda a: a[0] if kind(a[0]) == "int" else raw("cast:int", a),
    "in": lambda a: mk_in(a[0], a[1]),
    "setmap": lambda a: mk_setmap(a[0], a[1], a[2]),
    "setand": lambda a: mk_setand(a),
    "setdiff": lambda a: mk_setdiff(a[0], a[1]),
    "union": lambda a: mk_union(a),
    "set": lambda a: mk_set(a),
    "setflat": lambda a: mk_setflat(*a),
    "meets": lambda a: mk_nonempty(mk_setand(a)),
    "issubset": lambda a: mk_subset(a[0], a[1]),
}


# ---------------------------------------------------------------------- sets

def setlike(t):
    return t.op in SET_OPS or kind(t) == "set"


def replace_term(t, old, new):
    """t with every occurrence of the term old (which names no binder of t) replaced"""
    memo = {}
    b, k = (old.args[0], old.args[1].args) if old.op == "ix" else (None, ())

    def go(x):
        if x is old:
            return new
        if b is not None and x.op == "ix" and x.args[0] is b and len(x.args[1].args) > len(k) and all(p is q for p, q in zip(x.args[1].args, k)):
            return mk_ix(new, [go(y) for y in x.args[1].args[len(k):]])
        if not x.args or x.op in ("const", "sym", "unk") or x.size < old.size:
            return x
        r = memo.get(id(x))
        if r is None:
            if x.op in ("lam", "flam"):
                v = binder(x)
                r = close(v, go(open_lam(x, v)), x.op)
            else:
                args = [go(a) if isinstance(a, T) else a for a in x.args]
                r = x if all(a is b for a, b in zip(args, x.args)) else rebuild(x.op, args)
            memo[id(x)] = r
        return r
    return go(t)


def mk_set(items):
    d = {id(t): t for t in items}
    return raw("set", sorted(d.values()))


def mk_union(ts):
    flat = []
    for t in ts:
        if t.op == "union":
            flat += list(t.args)
        else:
            flat.append(t)
    lits = [t for t in flat if t.op == "set"]
    rest = {id(t): t for t in flat if t.op != "set"}
    if lits:
        m = mk_set([x for t in lits for x in t.args])
        if m.args or not rest:
            rest[id(m)] = m
    out = _merged(sorted(rest.values()))
    return out[0] if len(out) == 1 else raw("union", out)


def _merged(sets):
    """one description for members described alike under several conditions"""
    by, out = {}, []
    for t in sets:
        if t.op == "setmap":
            k = ("setmap", id(t.args[0]), id(t.args[2]))
        elif t.op == "setflat" and t.args[2].args[0].op == "setmap":
            m = t.args[2].args[0]
            k = ("setflat", id(t.args[0]), id(t.args[1]), id(m.args[0]), id(m.args[2]))
        else:
            out.append(t)
            continue
        by.setdefault(k, []).append(t)
    for k, ts in by.items():
        if len(ts) == 1:
            out += ts
            continue
        v = fresh("#i")
        if k[0] == "setmap":
            m = mk_setmap(ts[0].args[0], close(v, mk_or([open_lam(t.args[1], v) for t in ts])), ts[0].args[2])
        else:
            w = fresh("#i")
            inner = [open_lam(t.args[2], v) for t in ts]
            m = mk_setmap(inner[0].args[0], close(w, mk_or([open_lam(x.args[1], w) for x in inner])), inner[0].args[2])
            m = mk_setflat(ts[0].args[0], ts[0].args[1], close(v, m))
        out += list(m.args) if m.op == "union" else [m]
    return sorted(out)


def mk_setdiff(a, b):
    if a is b or a.op == "set" and not a.args:
        return mk_set([])
    if b.op == "set" and not b.args:
        return a
    if a.op == "set" and b.op == "set" and all(x.op == "const" for x in a.args + b.args):
        known = {x.args[0] for x in b.args}
        return mk_set([x for x in a.args if x.args[0] not in known])
    if a.op == "setdiff":
        return mk_setdiff(a.args[0], mk_union([a.args[1], b]))
    if a.op == "setmap":
        v = fresh("#i")
        c, e = open_lam(a.args[1], v), open_lam(a.args[2], v)
        return mk_setmap(a.args[0], close(v, mk_and([c, mk_not(mk_in(e, b))])), close(v, e))
    return raw("setdiff", (a, b))


def mk_setand(ts):
    flat, minus = [], []
    for t in ts:
        for x in (t.args if t.op == "setand" else (t,)):
            if x.op == "setdiff":
                minus.append(x.args[1])
                x = x.args[0]
            flat += list(x.args) if x.op == "setand" else [x]
    if any(x.op == "set" and not x.args for x in flat):
        return mk_set([])
    for k, x in enumerate(flat):
        while x.op in ("call:set", "keys") and len(x.args) == 1 and (x.op == "keys" or kind(x.args[0]) in ("dict", "set") or x.args[0].op == "keys") and \
                any(setlike(y) for j, y in enumerate(flat) if j != k):
            x = x.args[0]
        flat[k] = x
    u = sorted({id(x): x for x in flat}.values(), key=adig)
    maps = [x for x in u if x.op == "setmap"]
    if maps:
        m = maps[0]
        v = fresh("#i")
        c, e = open_lam(m.args[1], v), open_lam(m.args[2], v)
        cs = [c] + [mk_in(e, x) for x in u if x is not m] + [mk_not(mk_in(e, x)) for x in minus]
        return mk_setmap(m.args[0], close(v, mk_and(cs)), close(v, e))
    r = u[0] if len(u) == 1 else raw("setand", u)
    return mk_setdiff(r, mk_union(minus)) if minus else r


def members(s, v):
    """(n, condition, element) of the members of s, numbered by v"""
    if s.op == "setmap":
        return s.args[0], open_lam(s.args[1], v), open_lam(s.args[2], v)
    if s.op == "setdiff":
        n, c, e = members(s.args[0], v)
        return n, mk_and([c, mk_not(mk_in(e, s.args[1]))]), e
    if s.op == "setand":
        # numbered by a set that is given rather than computed
        b = next((x for x in s.args if x.op not in ("setflat", "union", "set") and kind(x) != "dict"), s.args[0])
        n, c, e = members(b, v)
        return n, mk_and([c] + [mk_in(e, x) for x in s.args if x is not b]), e
    return mk_dim0(s), TRUE, mk_ix(raw("keys", (s,)) if kind(s) == "dict" else s, [v])


def mk_dim0(s):
    return dim(s, 0)


def over_members(n, v, ts):
    """something computed for every member of a set described by a condition, the members numbered by v:
    (n', v', condition, terms) numbering the candidates instead"""
    if n.op not in ("len", "dim") or n.op == "dim" and n.args[1] is not ZERO:
        return None
    s = n.args[0]
    if s.op not in ("setmap", "setdiff", "setand"):
        return None
    w = fresh("#i")
    n2, c, e = members(s, w)
    at = mk_ix(s, [v])
    out = [replace_term(t, at, e) for t in ts]
    if any(v.args[0] in t.syms for t in out):
        return None
    return n2, w, c, out


def mk_setmap(n, lc, le):
    if n is ZERO:
        return mk_set([])
    v = fresh("#i")
    c, e = open_lam(lc, v), open_lam(le, v)
    if c is FALSE:
        return mk_set([])
    if c.op == "or" and False:
        pass
    o = over_members(n, v, [c, e])
    while o is not None:
        n, v, extra, (c, e) = o
        c = mk_and([extra, c])
        if c is FALSE:
            return mk_set([])
        o = over_members(n, v, [c, e])
    a = n.args[0] if n.op in ("len", "dim") and (n.op == "len" or n.args[1] is ZERO) else None
    if a is not None and setlike(a) and e is mk_ix(a, [v]):
        ps = list(c.args) if c.op == "and" else [] if c is TRUE else [c]
        vn = v.args[0]
        ins = [p.args[1] for p in ps if p.op == "in" and p.args[0] is e and vn not in p.args[1].syms]
        outs = [p.args[0].args[1] for p in ps if p.op == "not" and p.args[0].op == "in" and p.args[0].args[0] is e and vn not in p.args[0].args[1].syms]
        rest = [p for p in ps if not (p.op == "in" and p.args[0] is e and vn not in p.args[1].syms) and
                not (p.op == "not" and p.args[0].op == "in" and p.args[0].args[0] is e and vn not in p.args[0].args[1].syms)]
        if not rest:
            return mk_setdiff(mk_setand([a] + ins), mk_union(outs)) if outs else mk_setand([a] + ins)
        cands = sorted([a] + [x for x in ins if setlike(x) and x.op not in ("union", "set")], key=adig)
        if cands[0] is not a:
            b = cands[0]
            e2 = mk_ix(b, [v])
            r2 = [replace_term(p, e, e2) for p in rest]
            # the member is read from the other set; nothing else may depend on its number
            w = fresh("#i")
            probe = [replace_term(p, e, w) for p in rest]
            if not any(vn in p.syms for p in probe):
                ks = r2 + [mk_in(e2, x) for x in ins + [a] if x is not b] + [mk_not(mk_in(e2, x)) for x in outs]
                return raw("setmap", (mk_dim0(b), close(v, mk_and(ks)), close(v, e2)))
    return raw("setmap", (n, close(v, c), close(v, e)))


def mk_setflat(n, lc, ls):
    """the union of ls over those numbers below n that meet lc"""
    v = fresh("#i")
    c, s = open_lam(lc, v), open_lam(ls, v)
    o = over_members(n, v, [c, s])
    if o is not None:
        n, v, extra, (c, s) = o
        c = mk_and([extra, c])
    if c is FALSE or s.op == "set" and not s.args:
        return mk_set([])
    if s.op == "union":
        return mk_union([mk_setflat(n, close(v, c), close(v, x)) for x in s.args])
    if s.op == "set":
        return mk_union([mk_setmap(n, close(v, c), close(v, x)) for x in s.args])
    if s.op == "phi":
        return mk_union([mk_setflat(n, close(v, mk_and([c, s.args[0]])), close(v, s.args[1])),
                         mk_setflat(n, close(v, mk_and([c, mk_not(s.args[0])])), close(v, s.args[2]))])
    if s.op == "setmap" and c is not TRUE:
        # the condition tells members apart as well as the members' own
        w = fresh("#i")
        s = mk_setmap(s.args[0], close(w, mk_and([c, open_lam(s.args[1], w)])), close(w, open_lam(s.args[2], w)))
        c = TRUE
        return mk_setflat(n, close(v, c), close(v, s))
    return raw("setflat", (n, close(v, c), close(v, s)))


def free_atom(c, name):
    """a condition inside the boolean formula c that does not depend on the named variable"""
    todo, best = [c], None
    seen = set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in ("and", "or", "not", "phi") and name in x.syms:
            todo += x.args
        elif name not in x.syms and kind(x) == "bool" and not is_const(x):
            y = x
            while y.op in ("not", "and", "or"):
                y = y.args[0]
            if not is_const(y) and kind(y) == "bool" and (best is None or y.dig < best.dig):
                best = y
    return best


def mk_exists(n, v, c):
    """c for some v < n"""
    if c is FALSE:
        return FALSE
    a = free_atom(c, v.args[0]) if c.size < 4000 else None
    if a is not None:
        t, f = mk_exists(n, v, replace_term(c, a, TRUE)), mk_exists(n, v, replace_term(c, a, FALSE))
        return t if t is f else mk_or([mk_and([a, t]), mk_and([mk_not(a), f])])
    o = over_members(n, v, [c])
    if o is not None:
        n, w, extra, (c,) = o
        return mk_exists(n, w, mk_and([extra, c]))
    s = sized(n)
    if s is not None and c.op in ("in", "and"):
        e = mk_ix(s, [v])
        ps = c.args if c.op == "and" else (c,)
        if all(p.op == "in" and p.args[0] is e and v.args[0] not in p.args[1].syms for p in ps):
            return raw("meets", sorted([s] + [p.args[1] for p in ps], key=adig))
    if c is TRUE:
        return mk_pos(n)
    if v.args[0] not in c.syms:
        return mk_and([c, mk_pos(n)])
    return raw("red:any", (mk_map(n, close(v, c)), NONE))


def mk_nonempty(s):
    if s.op == "set":
        return TRUE if s.args else FALSE
    if s.op == "union":
        return mk_or([mk_nonempty(x) for x in s.args])
    if s.op == "setand" and len(s.args) == 2 and s.args[0].op not in ("setflat", "union", "set") and s.args[1].op not in ("setflat", "union", "set"):
        return raw("meets", s.args)
    if s.op in ("setmap", "setdiff", "setand"):
        v = fresh("#i")
        n, c, _ = members(s, v)
        return mk_exists(n, v, c)
    if s.op == "phi":
        return mk_phi(s.args[0], mk_nonempty(s.args[1]), mk_nonempty(s.args[2]))
    if s.op in ("call:set", "keys") and len(s.args) == 1:
        return mk_nonempty(s.args[0])
    return raw("pos", (dim(s, 0),))


def mk_subset(a, b):
    """a <= b"""
    return mk_not(mk_nonempty(mk_setdiff(a, b)))


def mk_in(x, s):
    if s.op in ("list", "tuple", "set") and s.args:
        return mk_or([mk_eq(x, a) for a in s.args])
    if s.op in ("list", "tuple", "set"):
        return FALSE
    if s.op == "dict":
        return mk_or([mk_eq(x, s.args[i]) for i in range(0, len(s.args), 2)])
    if s.op == "union":
        return mk_or([mk_in(x, a) for a in s.args])
    if s.op == "setand":
        return mk_and([mk_in(x, a) for a in s.args])
    if s.op == "setdiff":
        return mk_and([mk_in(x, s.args[0]), mk_not(mk_in(x, s.args[1]))])
    if s.op in ("call:set", "keys") and len(s.args) == 1:
        return mk_in(x, s.args[0])
    if x.op == "ix" and x.args[0] is s and setlike(s):
        return TRUE
    if s.op == "setmap":
        v = fresh("#i")
        c, e = open_lam(s.args[1], v), open_lam(s.args[2], v)
        if e.op == "ix" and setlike(e.args[0]) and e is mk_ix(e.args[0], [v]) and s.args[0] is mk_dim0(e.args[0]):
            c2 = replace_term(c, e, x)
            if v.args[0] not in c2.syms:
                return mk_and([mk_in(x, e.args[0]), c2])
        return mk_exists(s.args[0], v, mk_and([c, mk_eq(x, e)]))
    if s.op == "setflat":
        v = fresh("#i")
        return mk_exists(s.args[0], v, mk_and([open_lam(s.args[1], v), mk_in(x, open_lam(s.args[2], v))]))
    return raw("in", (x, s))


def rebuild(op, args):
    f = REB.get(op)
    if f is not None:
        return f(list(args))
    if op.startswith("red:"):
        return mk_red(op[4:], *args)
    if op.startswith("attr:") and len(args) == 1 and args[0].op.startswith("rec:"):
        for k in args[0].args:
            if k.op == "kw:" + op[5:]:
                return k.args[0]
    if op.startswith("attr:") and len(args) == 1 and args[0].op == "sym":
        n = f"{args[0].args[0]}.{op[5:]}"
        if n in SYMINFO:
            return sym(n)
    return raw(op, args)


# ---------------------------------------------------------------------- show

def show(t, depth=8):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    op, a = t.op, t.args
    d = depth - 1
    if op == "const":
        return repr(a[0])
    if op == "sym":
        return a[0]
    if op == "bv":
        return f"b{a[0]}"
    if op == "poly":
        return "(" + " + ".join(show(m, d) for m in a) + ")"
    if op == "mono":
        fs = []
        if not (is_num(a[0]) and a[0].args[0] == 1) or len(a) == 1:
            fs.append(show(a[0], d))
        for p in a[1:]:
            e = p.args[1].args[0]
            fs.append(show(p.args[0], d) + ("" if e == 1 else f"**{e}"))
        return "*".join(fs)
    if op == "full":
        return ":"
    if op == "newaxis":
        return "None"
    if op == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if op in ("ix", "oix", "fix"):
        return show(a[0], d) + {"ix": "[", "oix": "[ix_ ", "fix": "[zip "}[op] + ", ".join(show(k, d) for k in a[1].args) + "]"
    if op == "phi":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if op == "pos":
        return f"({show(a[0], d)} > 0)"
    if op == "nneg":
        return f"({show(a[0], d)} >= 0)"
    if op == "zero":
        return f"({show(a[0], d)} == 0)"
    if op == "lam" or op == "flam":
        return f"b{t.h}: {show(a[0], d)}"
    if op == "map":
        return f"map[{show(a[0], d)}]({show(a[1], d)})"
    if op == "list":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    return op + "(" + ", ".join(show(x, d) for x in a) + ")"
