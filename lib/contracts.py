"""What the stages of the default pipeline declare to read and write, and the order that follows from it."""
from __future__ import annotations

import ast

from engine import *  # noqa: F403

SAME = {"float64": "double", "bool": "bool_", "int64": "int_", "List": "list", "Dict": "dict", "Tuple": "tuple"}


def dotted(node, mod):
    """annotation as text: the last component of every name, aliases of numpy's types and unions in one form"""
    if isinstance(node, ast.Name):
        d = mod.defs.get(node.id)
        return SAME.get(d[2], d[2]) if isinstance(d, tuple) and d[2] is not None else SAME.get(node.id, node.id) if node.id != "bool" else "bool"
    if isinstance(node, ast.Attribute):
        return SAME.get(node.attr, node.attr)
    if isinstance(node, ast.Subscript):
        v = dotted(node.value, mod)
        s = node.slice
        es = [dotted(e, mod) for e in (s.elts if isinstance(s, ast.Tuple) else [s])]
        if v == "Optional":
            return " | ".join(sorted(set(es[0].split(" | ")) | {"None"}))
        if v == "Union":
            return " | ".join(sorted(es))
        return v + "[" + ", ".join(es) + "]"
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return " | ".join(sorted(set(dotted(node.left, mod).split(" | ")) | set(dotted(node.right, mod).split(" | "))))
    if isinstance(node, ast.Constant):
        if isinstance(node.value, str):
            return dotted(ast.parse(node.value, mode="eval").body, mod)
        return repr(node.value)
    return ast.unparse(node)


def described(I, cv):
    return {n: dotted(a, c.mod) for n, a, _, c in I.annotated_fields(cv)}


class Contract:
    def __init__(self, I, cv):
        self.name, self.cv = cv.name, cv
        self.where = f"{cv.mod.path}:{cv.node.lineno}"
        i, o = (I.call(I.class_attr(cv, m), [], {}, None) for m in ("_inputs", "_outputs"))
        if not isinstance(i, ClassV) or not isinstance(o, ClassV):
            raise MissingAnchor(f"{cv.name} does not declare its inputs and outputs")
        self.incls, self.outcls = i, o
        self.inputs, self.outputs = described(I, i), described(I, o)


def default_pipeline(prog):
    """(contracts of the default stages, initial inputs); None when the default list cannot be read off"""
    I = new_interp(prog)
    m = prog.modules["instancespace.instance_space"]
    cv = I.global_value(m, "InstanceSpace")
    init = I.class_attr(cv, "__init__").node
    args = init.args.args
    dflt = dict(zip([a.arg for a in args[len(args) - len(init.args.defaults):]], init.args.defaults))
    node = dflt.get("stages")
    if node is None:
        return None
    I.raises = [[]]
    v = I.eval_in_module(m, node)
    if isinstance(v, Ref):
        v = I.cell(v)
    items = getattr(v, "items", None)
    if items is None or not all(isinstance(x, ClassV) for x in items):
        return None
    first = I.global_value(m, "_InstanceSpaceInputs")
    if not isinstance(first, ClassV):
        return None
    return [Contract(I, x) for x in items], described(I, first)


def resolve(stages, initial):
    """the running order that the declarations determine: (elements, stages left over, clashes)"""
    have = set(initial.items())
    done, order, clashes = [], [], []
    mutated = {s.name: set(s.inputs.items()) & set(s.outputs.items()) for s in stages}
    while len(done) < len(stages):
        can = [s for s in stages if s not in done and set(s.inputs.items()) <= have]
        mut = [s for s in can if mutated[s.name]]
        for k, s in enumerate(mut):
            for t in mut[k + 1:]:
                if mutated[s.name] & mutated[t.name]:
                    clashes.append((s, t, mutated[s.name] & mutated[t.name]))
        taken = set().union(*[mutated[s.name] for s in mut]) if mut else set()
        now = [s for s in can if not ((taken - mutated[s.name]) & set(s.inputs.items()))]
        for k, s in enumerate(now):
            for t in now[k + 1:]:
                sh = set(s.outputs) & set(t.outputs)
                if sh:
                    clashes.append((s, t, sh))
        if not now:
            break
        for s in now:
            have |= set(s.outputs.items())
        done += now
        order.append(now)
    return order, [s for s in stages if s not in done], clashes
