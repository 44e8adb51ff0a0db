"""Abstract values and heap cells of the interpreter."""
from __future__ import annotations

from terms import *  # noqa: F403


class Value:
    __slots__ = ()


class Ref(Value):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class TupV(Value):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class FuncV(Value):
    __slots__ = ("node", "mod", "frame", "cls", "name", "kindm")

    def __init__(self, node, mod, frame=None, cls=None, name=None, kindm="fn"):
        self.node, self.mod, self.frame, self.cls, self.kindm = node, mod, frame, cls, kindm
        self.name = name or getattr(node, "name", "<lambda>")


class BoundV(Value):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ClassV(Value):
    __slots__ = ("node", "mod", "name", "_bases", "kindc", "sub")

    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self._bases = None
        self.kindc = None
        self.sub = None


class ExtV(Value):
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path


class ModV(Value):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class ExtBoundV(Value):
    """method of an external object, not yet called"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class PhiV(Value):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class ViewV(Value):
    """basic-slice view of an array cell"""
    __slots__ = ("ref", "keys")

    def __init__(self, ref, keys):
        self.ref, self.keys = ref, tuple(keys)


class PartialV(Value):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class SuperV(Value):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class GenAliasV(Value):
    """Generic alias Base[args]"""
    __slots__ = ("base", "args")

    def __init__(self, base, args):
        self.base, self.args = base, args


# cells (immutable; replaced on write)

class Cell:
    __slots__ = ()


class Arr(Cell):
    __slots__ = ("term", "origin")

    def __init__(self, term, origin=None):
        self.term, self.origin = term, origin


class Lst(Cell):
    __slots__ = ("items", "origin")

    def __init__(self, items, origin=None):
        self.items, self.origin = tuple(items), origin


class Dct(Cell):
    __slots__ = ("items", "origin")

    def __init__(self, items, origin=None):
        self.items, self.origin = tuple(items), origin  # ((keyT, Value),...)


class Inst(Cell):
    __slots__ = ("cls", "fields", "base", "origin")

    def __init__(self, cls, fields, base=None, origin=None):
        self.cls, self.fields, self.base, self.origin = cls, fields, base, origin


class Event:
    __slots__ = ("kind", "term", "pc", "where", "inner", "n", "var", "fn")

    def __init__(self, kind, term, pc, where, fn=None, inner=None, n=None, var=None):
        self.kind, self.term, self.pc, self.where, self.fn = kind, term, pc, where, fn
        self.inner, self.n, self.var = inner, n, var


class Dead(Exception):
    """the current path cannot continue"""


class Unsupported(Exception):
    pass
