"""Analyse one entry point of the program under a configuration."""
from __future__ import annotations

import ast
import fnmatch
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)

import terms  # noqa: E402
from terms import *  # noqa: F403,E402
from values import *  # noqa: F403,E402
from interp import Interp  # noqa: E402
from program import Program  # noqa: E402


class MissingAnchor(Exception):
    """a public entry point named by a property no longer exists"""


REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_repo(repo=None):
    return Program([("instancespace", os.path.join(repo or REPO, "instancespace"))])


def add_spec(prog):
    prog._load("spec", os.path.join(VERIF, "spec"))
    return prog


def make_dims(table):
    """table: {pattern: (dim expressions)}; dims are symbol names or ints"""
    def dimsof(name):
        for pat, d in table.items():
            if name == pat or fnmatch.fnmatchcase(name, pat):
                return tuple(const(x) if isinstance(x, int) else sym(x, kind="int", dims=(), nonneg=True) for x in d)
        return None
    return dimsof


def new_interp(prog, dimtable=None, consts=None, models=None, kinds=None):
    I = Interp(prog, make_dims(dimtable or {}), models or {})
    I.consts = dict(consts or {})
    I.kinds = dict(kinds or {})
    return I


def lookup(I, dotted):
    """'pkg.mod:Class.method' -> (value, mod)"""
    modn, path = dotted.split(":")
    m = I.p.modules.get(modn)
    if m is None:
        raise MissingAnchor(f"module {modn} not found")
    v = None
    for k, part in enumerate(path.split(".")):
        if k == 0:
            v = I.global_value(m, part)
        else:
            c, v = v, I.class_attr(v, part)
            if isinstance(v, FuncV) and v.kindm == "class":
                v = BoundV(v, c)
        if v is None:
            raise MissingAnchor(f"{dotted} not found")
    return v, m


class Result:
    __slots__ = ("value", "term", "interp", "events", "raised", "dead", "state", "args")


def argument(I, a):
    """an argument given as a value, a maker of one, or a literal"""
    if callable(a):
        return a(I)
    if isinstance(a, dict):
        return I.alloc(Dct([(const(k), argument(I, v)) for k, v in a.items()]))
    if isinstance(a, list):
        return I.alloc(Lst([argument(I, v) for v in a]))
    if a is None or isinstance(a, (str, int, float)):
        return I.box(const(a))
    return a


def run(I, dotted, args, kwargs=None):
    """args: list of Values/T or callables(I)->Value"""
    f, m = lookup(I, dotted)
    r = Result()
    r.interp = I
    vals = [argument(I, a) for a in args]
    kw = {k: argument(I, a) for k, a in (kwargs or {}).items()}
    if "$world" in I.models:
        I.world = I.models["$world"](I)
    I.raises = [[]]
    r.dead = False
    try:
        r.value = I.call(f, vals, kw, None)
        r.term = I.term(r.value)
    except Dead:
        r.dead = True
        r.value = None
        r.term = UNDEF
    r.args = vals
    r.events = I.st.events
    r.state = I.st
    r.raised = [(mk_and(list(st.pc)), e) for st, e in I.raises[0]]
    return r


def symarg(name, dotted=None, ann=None):
    """symbolic argument of a class given as 'mod:Class', or of the annotation text `ann` (read in that class's module, if there is one)"""
    def mk(I):
        if dotted:
            modn, cls = dotted.split(":")
            m = I.p.modules.get(modn)
            if m is None or cls not in m.defs:
                raise MissingAnchor(f"{dotted} not found")
            return I.symbolic(name, ast.parse(ann, mode="eval").body if ann else ast.Name(id=cls, ctx=ast.Load()), m)
        m = next(iter(I.p.modules.values()))
        return I.symbolic(name, ast.parse(ann, mode="eval").body if ann else None, m)
    return mk


def fields(r):
    """result record -> {field: term}"""
    return term_fields(r.term)


def term_fields(t):
    if t.op.startswith("rec:") or t.op.startswith("upd:"):
        return {a.op[3:]: a.args[0] for a in t.args if a.op.startswith("kw:")}
    if t.op == "dict":
        return {t.args[i].args[0]: t.args[i + 1] for i in range(0, len(t.args), 2)}
    if t.op == "phi":
        a, b = term_fields(t.args[1]), term_fields(t.args[2])
        if a and set(a) == set(b) and "result" not in a:
            return {k: mk_phi(t.args[0], a[k], b[k]) for k in a}
    return {"result": t}


def own(*path):
    """a parameter for opaque: an attribute of self"""
    def get(I, loc):
        v = loc["self"]
        for a in path:
            v = I.getattr(v, a)
        return v
    return get


def present(prog, dotted):
    """does the repository still define this function?"""
    modn, path = dotted.split(":")
    m = prog.modules.get(modn)
    parts = path.split(".")
    if m is None or parts[0] not in m.defs:
        return False
    n = m.defs[parts[0]]
    n = getattr(n, "node", n)
    for p in parts[1:]:
        n = next((b for b in getattr(n, "body", []) if getattr(b, "name", None) == p), None)
        if n is None:
            return False
    return True


def opaque(name, outs=None, params=None, fails=False):
    """a model of a repository function as an uninterpreted function of its arguments

    outs: None for one result, else a list of (kind, dims of (arg terms) or None)
    """
    def result(I, op, ts, kd, dm):
        if kd is not None:
            OPKIND[op] = kd
        t = raw(op, ts)
        if kd is not None:
            t._kind = kd
        if dm is not None:
            t._dims = tuple(dm)
        return I.box(t)

    def model(I, loc):
        ts = [I.term(n(I, loc) if callable(n) else loc.get(n, NONE)) for n in (params or loc) if n != "self"]
        if fails:
            I.extcalls.append(raw("call:" + name, ts))
        if outs is None:
            return I.box(raw("call:" + name, ts))
        return TupV([result(I, f"call:{name}.{k}", ts, o[0], o[1](I, loc) if o[1] else None) for k, o in enumerate(outs)])
    return model
