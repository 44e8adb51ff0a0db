"""Decide whether two value graphs denote the same function of the inputs.

EQUAL      the normal forms coincide (on every feasible combination of the conditions).
DIFFERENT  they differ, and every minimal difference is of a kind that cannot be a
           mere difference of spelling (another input, another constant, a sibling
           operation, a dropped or added operand, a missing dependency, ...).
UNKNOWN    they differ in a way the normal form cannot decide.
"""
from __future__ import annotations

import itertools
import math

from terms import *  # noqa: F403
from terms import phi_atoms, _bvs as bvs
from terms import _to_poly, _from_poly

EQ, DIFF, UNK = "EQUAL", "DIFFERENT", "UNKNOWN"

FAMILIES = [
    {"red:" + n for n in ("min", "max", "mean", "median", "sum", "std", "var", "any", "all", "prod", "argmin", "argmax",
                          "nansum", "nanmean", "nanmedian", "nanstd", "nanvar", "nanmin", "nanmax", "nanargmin", "nanargmax")},
    {"max2", "min2"}, {"pos", "nneg", "zero"}, {"and", "or"},
    {"el:isnan", "el:isfinite", "el:isinf", "el:log", "el:log2", "el:log10", "el:exp", "el:abs", "el:sign", "el:floor", "el:ceil", "el:rint", "el:sqrt"},
    {"floordiv", "mod"},
    {"call:np.vstack", "call:np.hstack", "hcat", "vcat"},
    {"call:np.argsort", "call:np.sort"},
    {"call:m.is_dir", "call:m.is_file", "call:m.exists"},
    {"call:m.startswith", "call:m.endswith"},
    {"call:m.iloc", "call:m.loc"},
    {"union", "setand", "setdiff", "setxor"},
]
FAM = {}
for _k, _f in enumerate(FAMILIES):
    for _o in _f:
        FAM.setdefault(_o, set()).add(_k)

SOFT_KW = {"n_jobs", "verbose", "copy", "dtype", "out", "casting", "subok", "order"}
SOFT_OPS = {"cast:int", "cast:float", "cast:str", "cast:bool", "call:np.array", "call:m.copy", "call:list", "call:tuple", "keepdims",
            "call:m.astype", "call:m.reset_index", "unordlast"}
SHAPE_OPS = {"dim", "len", "isnone", "isinstance", "shape?", "count"}
COMM = {"and", "or", "max2", "min2", "union", "set", "setand", "meets"}


_SUP: dict = {}


def support(t):
    """names of the program inputs the value depends on (not through shapes or type tests)"""
    r = _SUP.get(id(t))
    if r is not None and r[0] is t:
        return r[1]
    if t.op == "sym":
        n = t.args[0]
        s = frozenset() if n.startswith("#") or n.isupper() else frozenset((n,))
    elif t.op in SHAPE_OPS or not t.args:
        s = frozenset()
    else:
        acc = set()
        for a in t.args:
            if isinstance(a, T) and a.syms:
                acc |= support(a)
        s = frozenset(acc)
    _SUP[id(t)] = (t, s)
    return s


def covers(sup, names):
    """every name in `names` is in sup, or sup holds a part / the whole of it"""
    miss = []
    for n in names:
        if n in sup:
            continue
        if any(x.startswith(n + ".") or n.startswith(x + ".") for x in sup):
            continue
        miss.append(n)
    return miss


class Diff:
    """soft: it may be no difference at all, and whether it is one does not matter to the differences beside it (a length)"""
    __slots__ = ("a", "b", "why", "definite", "path", "soft")

    def __init__(self, a, b, why, definite, path=(), soft=False):
        self.a, self.b, self.why, self.definite, self.path, self.soft = a, b, why, definite, path, soft

    def __repr__(self):
        return f"{'!' if self.definite else '?'} {self.why}: program {show(self.a, 5)[:300]} | required {show(self.b, 5)[:300]}" + \
            (f" when {', '.join(self.path)[:300]}" if self.path else "")


class Comparer:
    def __init__(self, budget=60000):
        self.budget = budget
        self.eqmemo = {}
        self.difmemo = {}
        self.found = {}

    # returns list of Diff ([] means equal)
    def diff(self, a, b, depth=0):
        if a is b:
            return []
        key = (id(a), id(b))
        r = self.difmemo.get(key)
        if r is not None:
            return r[2]
        self.budget -= 1
        if self.budget < 0 or depth > 400:
            return [Diff(a, b, "budget", False)]
        self.difmemo[key] = (a, b, [Diff(a, b, "recursive", False)])
        r = self._diff(a, b, depth)
        if r and (a.op in SHAPE_OPS or b.op in SHAPE_OPS) and a.op != "isnone":
            r = [Diff(a, b, "shape or type", False, (), all(d.definite or d.soft for d in r))]
        self.difmemo[key] = (a, b, r)
        if len(r) == 1 and r[0].definite and r[0].a is a and r[0].b is b:
            self.found[key] = r[0]
        return r

    def _diff(self, a, b, depth):
        for x, y in ((a, b), (b, a)):
            if x.op == "list" and y.op != "list" and len(x.args) > 1 and all(
                    q.op == "ix" and q.args[0] is x.args[0].args[0] and len(q.args[1].args) == 1 and is_int(q.args[1].args[0]) for q in x.args):
                # an array taken apart and put together again
                z = x.args[0].args[0]
                ks = [q.args[1].args[0].args[0] for q in x.args]
                ds = self.diff(z, y, depth + 1) if x is a else self.diff(y, z, depth + 1)
                if not ds and sorted(ks) == list(range(len(ks))):
                    return [] if ks == sorted(ks) else [Diff(a, b, "elements in another order", True)]
                return ds if ks == sorted(ks) else [Diff(a, b, "elements in another order", False)]
            if x.op == "ix" and depth and x.args[1].args[0] is NEWAX and all(k is FULL for k in x.args[1].args[1:]) and rank(y) is not None \
                    and rank(y) == rank(x.args[0]):
                # broadcasting adds leading axes by itself
                return self.diff(x.args[0], y, depth + 1) if x is a else self.diff(y, x.args[0], depth + 1)
            # a one-element array in place of a number, as left by broadcasting
            if x.op == "ix" and rank(y) == 0 and NEWAX in x.args[1].args:
                ks = [k for k in x.args[1].args if k is not NEWAX]
                if all(is_scalar(k) for k in ks) and rank(x.args[0]) == len(ks):
                    z = mk_ix(x.args[0], ks)
                    return self.diff(z, y, depth + 1) if x is a else self.diff(y, z, depth + 1)
        if a.op == "unk" or b.op == "unk":
            return [Diff(a, b, "not analysed" + (": " + a.args[0] if a.op == "unk" else ""), False)]
        for x, y in ((a, b), (b, a)):
            # a quantifier in place of its first or last instance
            if y.op in ("red:any", "red:all") and y.args[1] is NONE and len(y.args) == 2 and y.args[0].op == "map" and x.op != y.op and kind(x) == "bool":
                n, lam = y.args[0].args
                for at in (ZERO, mk_sub(n, ONE)):
                    one = apply_lam(lam, at)
                    for cand in (one, mk_and([mk_pos(n), one]), mk_or([mk_not(mk_pos(n)), one])):
                        if x is cand or not self.diff(x, cand, depth + 1):
                            return [Diff(a, b, "only one of the cases is inspected", True)]
        if a.op == "phi" or b.op == "phi":
            if kind(a) == "bool" and kind(b) == "bool" and a not in (TRUE, FALSE) and b not in (TRUE, FALSE):
                if to_bdd(a) is to_bdd(b):
                    return []
            return self.cases(a, b, depth)
        if (a.op in BOOLC or b.op in BOOLC) and kind(a) == "bool" and kind(b) == "bool" and (a.op != b.op or a.op != "not"):
            return self.boolean(a, b, depth)
        r = self.eta(a, b, depth)
        if r is not None:
            return r
        ds = self.struct(a, b, depth)
        if ds and any(not d.definite for d in ds):
            pw = self.piecewise(a, b, depth)
            if pw:
                return pw
            s = self.support_diff(a, b)
            if s is not None:
                return [s]
        return ds

    def support_diff(self, a, b):
        if a.unk or b.unk:
            return None
        sa, sb = support(a), support(b)
        miss = covers(sa, sb)
        if miss:
            return Diff(a, b, "does not depend on " + ", ".join(sorted(miss)), True)
        extra = covers(sb, sa)
        if extra:
            return Diff(a, b, "depends on " + ", ".join(sorted(extra)), True)
        return None

    # -------------------------------------------------------------- conditions

    def cases(self, a, b, depth):
        at = set()
        for t in (a, b):
            self.root_atoms(t, at)
        aa, ab = set(), set()
        self.root_atoms(a, aa)
        self.root_atoms(b, ab)
        ua, ub = sorted(aa - ab), sorted(ab - aa)
        if ua and ub:
            return self.realign(a, b, ua, ub, depth)
        if len(at) > 14:
            if a.op == b.op == "phi":
                return self.diff(a.args[0], b.args[0], depth + 1) + self.diff(a.args[1], b.args[1], depth + 1) + \
                    self.diff(a.args[2], b.args[2], depth + 1)
            return [Diff(a, b, "too many conditions", False)]
        return self.walk(a, b, depth)

    def walk(self, a, b, depth):
        out = []
        seen = set()

        def go(x, y, lits):
            if x is y or len(out) > 6:
                return
            self.budget -= 1
            if self.budget < 0:
                out.append(Diff(x, y, "budget", False))
                return
            # conjunctions hidden in leaves of kind bool are left to struct()
            r = [t.args[0] for t in (x, y) if t.op == "phi"]
            if not r:
                if not feasible(lits):
                    return
                k = (id(x), id(y))
                ds = self.diff(x, y, depth + 1)
                if not ds or k in seen:
                    return
                seen.add(k)
                p = tuple((show(c, 4) if v else "not " + show(c, 4))[:120] for c, v in lits)
                soft = any(closed_phi(c) for c, _ in lits)
                out.extend(Diff(d.a, d.b, d.why, d.definite and not soft, p + d.path, d.soft) for d in ds)
                return
            c = min(r, key=lambda q: q.dig)
            for _ in range(12):
                if c.op in ("and", "or", "not"):
                    c = pick_atom(c)
                # a condition that itself depends on another one: that one first
                inner = [q for q in phi_atoms(c, 400) if not bvs(q)] if c.hasphi else []
                if not inner:
                    break
                c = inner[-1]
            for v in (True, False):
                l2 = lits + [(c, v)]
                if feasible(l2):
                    go(spec(x, c, v), spec(y, c, v), l2)
        go(a, b, [])
        return out

    def realign(self, a, b, ua, ub, depth):
        """conditions spelled differently on the two sides: identify them pairwise"""
        ia = {id(x) for x in ua}
        for x in ub:
            if id(mk_not(x)) in ia:
                return [Diff(a, b, "conditions", False)]
        if len(ua) != len(ub):
            return [Diff(a, b, "conditions", False)]
        out = []
        table = {}
        pairs = self.pairing(ua, ub, depth)
        if self.unsure:
            return [Diff(a, b, "conditions", False)]
        for p, q in pairs:
            ds = self.diff(p, q, depth + 1)
            if any(not d.definite and not d.soft for d in ds):
                return [Diff(p, q, "condition", False)]
            out += ds
            if p.op != q.op:
                return out if ds else [Diff(p, q, "condition", False)]
            table[id(q)] = p
            table[id(mk_not(q))] = mk_not(p)
        b2 = rewrite(b, table)
        aa, ab = set(), set()
        self.root_atoms(a, aa)
        self.root_atoms(b2, ab)
        if (aa - ab) and (ab - aa):
            return out if out else [Diff(a, b, "conditions", False)]
        return out + self.diff(a, b2, depth + 1)

    def boolean(self, a, b, depth):
        A, B = bool_atoms(a), bool_atoms(b)
        ua, ub = sorted(A - B), sorted(B - A)
        if ua and ub:
            return self.realign_bool(a, b, ua, ub, depth)
        if len(A | B) > 14:
            return [Diff(a, b, "too many conditions", False)]
        fa, fb = to_bdd(a), to_bdd(b)
        if fa is fb:
            return []
        ds = self.walk(fa, fb, depth)
        if not ds:
            return []
        why = ("condition added" if ua else "condition missing" if ub else "condition combined differently")
        return [Diff(a, b, why, all(d.definite for d in ds), ds[0].path)]

    def realign_bool(self, a, b, ua, ub, depth):
        if len(ua) != len(ub):
            return [Diff(a, b, "conditions", False)]
        out = []
        table = {}
        for p, q in pair(ua, ub):
            ds = self.diff(p, q, depth + 1)
            if any(not d.definite and not d.soft for d in ds):
                return [Diff(p, q, "condition", False)] + ds
            out += ds
            if p.op != q.op:
                return out if ds else [Diff(p, q, "condition", False)]
            table[id(q)] = p
            table[id(mk_not(q))] = mk_not(p)
        b2 = rewrite(b, table)
        if bool_atoms(a) - bool_atoms(b2) and bool_atoms(b2) - bool_atoms(a):
            return out if out else [Diff(a, b, "conditions", False)]
        return out + self.diff(a, b2, depth + 1)

    def root_atoms(self, t, acc):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == "phi":
                acc.add(x.args[0])
                st.extend(x.args[1:])

    # ------------------------------------------------------------------- eta

    def eta(self, a, b, depth):
        """a loop-built array against an array expression"""
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.op == "map" and y.op != "map" and x.args[1].op == "lam" and y.op not in ("list", "const", "zeros"):
                n = x.args[0]
                if dim(y, 0) is not n:
                    continue
                v = fresh("#i", kind="int", dims=(), nonneg=True)
                e = open_lam(x.args[1], v)
                f = mk_ix(y, [v])
                if f.op in ("ix",) and f.args[0] is y and not (e.op == "ix" and e.args[0] is y and len(e.args[1].args) == 1
                                                               and e.args[1].args[0].op in ("poly", "bv")):
                    continue
                ds = self.diff(f, e, depth + 1) if sw else self.diff(e, f, depth + 1)
                return ds
            if x.op == "mapax" and y.op != "mapax" and x.args[2].op == "lam":
                ax = x.args[0].args[0]
                if y.op in ("list", "const", "zeros", "sym", "map") or dim(y, ax) is not x.args[1]:
                    continue
                v = fresh("#i", kind="int", dims=(), nonneg=True)
                e = open_lam(x.args[2], v)
                f = mk_ix(y, [FULL] * ax + [v])
                if f.op in ("ix",) and f.args[0] is y:
                    continue
                return self.diff(f, e, depth + 1) if sw else self.diff(e, f, depth + 1)
        return None

    # ------------------------------------------------------------- structural

    def struct(self, a, b, depth):
        if a.op != b.op and "ix" in (a.op, b.op):
            # more may be known about shapes now than when the term was built
            a2 = mk_ix(a.args[0], list(a.args[1].args)) if a.op == "ix" else a
            b2 = mk_ix(b.args[0], list(b.args[1].args)) if b.op == "ix" else b
            if a2 is not a or b2 is not b:
                return self.diff(a2, b2, depth + 1)
        oa, ob = a.op, b.op
        if oa != ob and "sym" in (oa, ob):
            p, q = (a, b) if oa == "sym" else (b, a)
            dp, dq = dims(p), dims(q)
            if dp is not None and dq is not None and len(dp) == len(dq) and not q.unk and \
                    any(x.op == "sym" and y.op in ("sym", "poly", "powx", "const") and x.args[0] not in y.syms for x, y in zip(dp, dq)):
                return [Diff(a, b, "another array", True)]
        if oa == ob and oa in ("pos", "nneg", "zero") and "poly" in (a.args[0].op, b.args[0].op):
            # the same test on another scale
            pa, pb = _to_poly(a.args[0]), _to_poly(b.args[0])
            rs = {round(pa[m] / pb[m], 12) for m in pa if m and pb.get(m)}
            if len(rs) == 1:
                f = next(iter(rs))
                if f != 1 and (f > 0 or oa == "zero"):
                    ds = self.diff(a.args[0], mk_mul(const(f if f != int(f) else int(f)), b.args[0]), depth + 1)
                    if all(d.definite for d in ds):
                        return ds
        if oa == ob and oa in ("zero", "el:abs"):
            d1 = self.diff(a.args[0], b.args[0], depth + 1)
            if not d1 or all(d.definite for d in d1):
                return d1
            d2 = self.diff(mk_neg(a.args[0]), b.args[0], depth + 1)
            return d2 if not d2 or all(d.definite for d in d2) else d1
        # leaves
        if oa == "const" and ob == "const":
            x, y = a.args[0], b.args[0]
            if isinstance(x, float) and isinstance(y, (int, float)) and not isinstance(y, bool) and math.isclose(x, y, rel_tol=1e-12):
                return []
            return [Diff(a, b, "constant", True)]
        if {oa, ob} <= {"const", "sym", "nan", "eps", "inf"}:
            return [Diff(a, b, "value", True)]
        if oa in ("lam", "flam") and oa == ob:
            v = fresh("#i", kind="int", dims=(), nonneg=True) if oa == "lam" else binder(a)
            return self.diff(open_lam(a, v), open_lam(b, v), depth + 1)
        if oa == "poly" or ob == "poly":
            return self.poly(a, b, depth)
        if oa in COMM and oa == ob:
            return self.comm(list(a.args), list(b.args), a, b, depth)
        if oa == ob:
            if oa.startswith("call:") or oa.startswith(("rec:", "upd:", "new:")) or oa == "apply":
                return self.call(a, b, depth)
            if oa in ("ix", "oix", "fix"):
                return self.index(a, b, depth)
            if oa == "path" or oa in ("scat", "list", "tuple", "lcat", "dict"):
                return self.seq(a, b, depth)
            if oa in ("loop", "loopval", "updates", "inits", "first"):
                ds = self.args(a, b, depth)
                if len(a.args) != len(b.args):
                    # early exits on one side only (what is carried is compared where the loop starts)
                    from terms import subterms
                    sm, lg = (a, b) if len(a.args) < len(b.args) else (b, a)
                    rest = lg.args[len(sm.args):]
                    acts = oa == "updates" and not ds and all(e.op.startswith("exit:") and e.args[0] not in (TRUE, FALSE) for e in rest) \
                        and any(x.op.startswith("call:") for u in sm.args if not u.op.startswith("exit:") for x in subterms(u))
                    ds = ds + [Diff(a, b, "an early exit " + ("is missing" if sm is a else "was added"), acts)]
                if oa == "loopval" and ds and a.args[0].op == b.args[0].op == "loop":
                    # the values carried by the two loops may be listed in another order
                    p = aligned(a.args[0], b.args[0])
                    if p is not None:
                        q, lb = p
                        k = q.index(b.args[1].args[0])
                        if k == a.args[1].args[0]:
                            ds = self.diff(a.args[0], lb, depth + 1)
                        elif not Comparer().diff(a.args[0], lb):
                            ds = [Diff(a, b, "another carried value", True)]
                        else:
                            ds = [Diff(a, b, "another carried value", False)]
                if oa == "loopval" and any(not d.definite for d in ds):
                    return self.unrolled(a, b, depth) or ds
                return ds
            if oa in ("sym",):
                return [Diff(a, b, "value", True)]
            if len(a.args) == len(b.args):
                return self.args(a, b, depth)
            if oa.startswith("red:"):
                return self.args_pad(a, b, depth)
            return [Diff(a, b, "arity", False)]
        # sibling operations
        fa, fb = FAM.get(oa), FAM.get(ob)
        if fa and fb and fa & fb:
            if oa in ("and", "or"):
                if {id(x) for x in a.args} == {id(x) for x in b.args}:
                    return [Diff(a, b, f"{oa} in place of {ob}", True)]
                return [Diff(a, b, "formula", False)]
            if oa in ("pos", "nneg", "zero"):
                if self.same_poly_family(a.args[0], b.args[0]):
                    return [Diff(a, b, "comparison", True)]
                for q in (b.args[0], mk_neg(b.args[0])):
                    ds = self.diff(a.args[0], q, depth + 1)
                    if ds and all(d.definite for d in ds):
                        return ds
                return [Diff(a, b, "comparison", False)]
            if oa.startswith("red:") and len(a.args) == len(b.args):
                ds = self.args(a, b, depth)
                if not ds or all(d.definite for d in ds):
                    return [Diff(a, b, f"{oa[4:]} in place of {ob[4:]}", True)] + ds
                sa, sb = oa[4:].replace("nan", ""), ob[4:].replace("nan", "")
                if sa != sb and {sa, sb} <= STATS and {sa, sb} != {"min", "max"}:
                    return [Diff(a, b, f"{oa[4:]} in place of {ob[4:]}", True)]
                return [Diff(a, b, "reduction", False)]
            if len(a.args) == len(b.args):
                ds = self.args(a, b, depth)
                if not ds:
                    return [Diff(a, b, f"{oa} in place of {ob}", True)]
            return [Diff(a, b, "operation", False)]
        if {oa, ob} == {"eq", "zero"}:
            e, z = (a, b) if oa == "eq" else (b, a)
            if len(e.args) == 2 and kind(e.args[0]) not in ("str", "list", "dict", "none") and kind(e.args[1]) not in ("str", "list", "dict", "none"):
                p = mk_sub(e.args[0], e.args[1])
                for q in (z.args[0], mk_neg(z.args[0])):
                    ds = self.diff(p, q, depth + 1) if oa == "eq" else self.diff(q, p, depth + 1)
                    if not ds or all(d.definite for d in ds):
                        return ds
        if {oa, ob} == {"red:any", "pos"}:
            x, y = (a, b) if oa == "red:any" else (b, a)
            z = raw("red:sum", x.args)
            if self.same_poly_family(z, y.args[0]):
                return [Diff(a, b, "comparison", True)]
        la, lb = less(a), less(b)
        if (la or lb) and (la or oa == "eq") and (lb or ob == "eq") and (a.op != b.op or oa == "lt?"):
            x, y = set(map(id, la or a.args)), set(map(id, lb or b.args))
            if x == y:
                return [Diff(a, b, "comparison", True)]
        # nested selections with one level dropped or applied twice
        for x, y, w in ((a, b, "added"), (b, a, "missing")):
            if x.op == "ix" and y.op != "ix" and any(k is y or (y.op == "nz" and y.args[0] is k) or (k.op == "nz" and k.args[0] is y) for k in x.args[1].args):
                return [Diff(a, b, f"position list {w}", True)]
        if "loopval" in (oa, ob):
            ds = self.unrolled(a, b, depth)
            if ds:
                return ds
        # added / dropped wrapper
        for x, y, w in ((a, b, "added"), (b, a, "missing")):
            if x.op == "el:abs" and x.args[0] is mk_neg(y):
                return [Diff(a, b, f"absolute value {w}", True)]
            if x.op == "el:abs" and y.op == x.args[0].op == "ix" and y.args[0] is x.args[0].args[0]:
                ds = self.diff(x.args[0], y, depth + 1)
                if all(d.definite for d in ds):
                    return [Diff(a, b, f"absolute value {w}", True)] + ds
            if x.op == "not" and x.args[0] is y:
                return [Diff(a, b, f"negation {w}", True)]
            if x.op in ("and", "or") and any(z is y for z in x.args):
                return [Diff(a, b, f"operand of {x.op} {w}", True)]
            if x.op in ("max2", "min2") and any(z is y for z in x.args):
                return [Diff(a, b, f"bound {w}", True)]
            if x.op == "store" and x.args[2] is y:
                return [Diff(a, b, f"restriction of assignment {w}", True)]
            if x.op == "store":
                z = x
                while z.op == "store":
                    z = z.args[0]
                    if z is y:
                        return [Diff(a, b, f"assignment {w}", True)]
            if x.op == "where" and (x.args[1] is y or x.args[2] is y):
                return [Diff(a, b, f"selection {w}", True)]
            if x.op in ("ix", "oix", "fix") and x.args[0] is y:
                return [Diff(a, b, f"indexing {w}", True)]
            if x.op in ("T", "el:abs", "matmul", "unord", "el:log", "el:exp", "call:stats.zscore", "call:np.sort", "call:sorted", "call:np.unique") \
                    and any(z is y for z in x.args if isinstance(z, T)):
                return [Diff(a, b, f"{x.op} {w}", True)]
            if x.op in ("call:stats.zscore", "call:np.sort", "call:sorted", "call:np.unique") and \
                    any(z.op.startswith("kw:") and z.args[0] is y for z in x.args):
                return [Diff(a, b, f"{x.op} {w}", True)]
            if x.op in ("mod", "floordiv", "clip", "el:round", "el:floor", "el:ceil", "powx") and x.args[0] is y:
                return [Diff(a, b, f"{x.op} {w}", True)]
            if x.op == "lcat" and any(z is y for z in x.args):
                return [Diff(a, b, f"part of sequence {w}", True)]
            if x.op == "union" and any(z is y for z in x.args):
                return [Diff(a, b, f"part of set {w}", True)]
            if x.op == "setdiff" and x.args[0] is y:
                return [Diff(a, b, f"exclusion {w}", True)]
            if x.op in ("dstore", "dictmap", "dmerge") and x.args[0] is y:
                return [Diff(a, b, f"entry {w}", True)]
            if x.op == "filtermap" and y.op == "map" and x.args[0] is y.args[0] and x.args[2] is y.args[1]:
                return [Diff(a, b, f"filter {w}", True)]
        for x, y in ((a, b), (b, a)):
            if x.op == "red:argmax" and y.op == "ix" and y.args[0].op == "nz" and len(y.args[1].args) == 1 and is_int(y.args[1].args[0]):
                ds = self.diff(x.args[0], y.args[0].args[0], depth + 1)
                if all(d.definite for d in ds):
                    return [Diff(a, b, "which of the positions", True)] + ds
        if (oa.startswith("rec:") and ob.startswith("rec:")) or (oa.startswith("exc:") and ob.startswith("exc:")):
            return [Diff(a, b, "kind of record", True)]
        if (oa == "const" and a.args[0] is None and ob in NEVER_NONE) or (ob == "const" and b.args[0] is None and oa in NEVER_NONE):
            return [Diff(a, b, "None", True)]
        if oa == "const" and ob == "sym" or oa == "sym" and ob == "const":
            return [Diff(a, b, "value", True)]
        for x, y in ((a, b), (b, a)):
            if x.op in ("call:m.intersection", "call:m.difference", "call:m.union") and any(z is y for z in x.args):
                return [Diff(a, b, f"{x.op[7:]} {'added' if x is a else 'missing'}", True)]
            if y.op == "call:unary_union" and x.op in ("ix", "call:max", "call:min") and x.args[0] is y.args[0]:
                return [Diff(a, b, "one part in place of the union", True)]
            if y.op == "sym" and y.args[0].startswith("#") and x.op.startswith(("attr:", "call:m.", "call:Polygon")) and y.args[0] not in x.syms and not x.unk:
                return [Diff(a, b, "another value", True)]
        for x, y in ((a, b), (b, a)):
            if x.op == "list" and len(x.args) <= 2 and y.op == "map" and y.args[0].op == "dim" and y.args[0].args[0].op.startswith(("attr:", "sym", "call:")):
                return [Diff(a, b, f"{len(x.args)} elements and one for each", True)]
        if oa != ob and oa in ROUNDING and ob in ROUNDING and len(a.args) == len(b.args) == 1:
            ds = self.args(a, b, depth)
            if all(d.definite for d in ds) and not (ds and is_num(mk_sub(a.args[0], b.args[0]))):
                return [Diff(a, b, f"{oa} in place of {ob}", True)] + ds
        for x, y in ((a, b), (b, a)):
            if x.op in ROWDROP and y.op not in ROWDROP and x.args and not self.diff(x.args[0], y, depth + 1):
                return [Diff(a, b, x.op[7:] + (" is applied" if x is a else " is not applied"), True)]
        for x, y in ((a, b), (b, a)):
            if x.op.startswith("rec:") and y.op == "const":
                return [Diff(a, b, "an object of a class and a constant", True)]
            if x.op in CASE and len(x.args) == 1 and y.op not in CASE and kind(y) != "num":
                z = x.args[0].args[0] if x.args[0].op == "attr:str" else x.args[0]
                w = y.args[0] if y.op == "attr:str" else y
                if not self.diff(z, w, depth + 1):
                    return [Diff(a, b, x.op[7:] + (" is applied" if x is a else " is not applied"), True)]
            if x.op == "cast:str" and y.op == "call:m.squeeze" and x.args[0] is y:
                return [Diff(a, b, "text " + ("in place of" if x is a else "is required, not") + " the values", True)]
        for x, y in ((a, b), (b, a)):
            if x.op in ("call:m.startswith", "call:m.endswith") and len(x.args) == 2 and x.args[1].op == "const":
                s = x.args[0].args[0] if x.args[0].op == "attr:str" else x.args[0]
                if y.op == "eq" and any(z is x.args[1] for z in y.args) and any(z is s for z in y.args):
                    return [Diff(a, b, x.op[7:] + " and equality", True)]
        if oa != ob and oa.startswith("call:pd.api.types.is_") and ob.startswith("call:pd.api.types.is_") and not self.args(a, b, depth):
            return [Diff(a, b, f"{oa[18:]} in place of {ob[18:]}", True)]
        if oa != ob and any(oa in f and ob in f for f in RIVALS):
            return [Diff(a, b, f"{oa[5:]} in place of {ob[5:]}", True)]
        return [Diff(a, b, f"shape {oa}/{ob}", False)]

    def unrolled(self, a, b, depth):
        """an array built by a recurrence against an array given element by element: the first elements, with the recurrence unrolled"""
        x = a if a.op == "loopval" else b
        loop = x.args[0]
        if loop.op != "loop" or depth > 200 or x.unk:
            return None
        n = loop.args[0]
        y = b if x is a else a
        ax = None
        for t in (y, x):
            d = dims(t)
            if d is not None and any(q is n for q in d):
                ax = [q is n for q in d].index(True)
                break
        if ax is None and not (a.op == b.op and b.args[0].op == "loop" and b.args[0].args[0] is n):
            return None
        for k in (1, 2, 3):
            ex, ey = unroll(x, k, n), unroll(y, k, n)
            if ex is None or ey is None:
                return None
            if ax is None:
                ds = self.diff(ex, ey, depth + 1)
                if ds and all(d.definite for d in ds):
                    return [Diff(a, b, f"value after {k} iterations", True)] + ds
                continue
            for j in range(k):
                p, q = mk_ix(ex, [FULL] * ax + [const(j)]), mk_ix(ey, [FULL] * ax + [const(j)])
                if any(z.op in ("ix", "oix") and z.args[0] is w for z, w in ((p, ex), (q, ey))) and "loopval" in (ex.op, ey.op):
                    return None
                ds = self.diff(p, q, depth + 1) if x is a else self.diff(q, p, depth + 1)
                if ds and all(d.definite for d in ds):
                    return [Diff(a, b, f"element {j} after {k} iterations", True)] + ds
        return None

    def same_poly_family(self, p, q):
        """p and q equal up to sign and a constant"""
        for s in (q, mk_neg(q)):
            d = mk_sub(p, s)
            if is_num(d):
                return True
        return False

    def args(self, a, b, depth):
        out = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                out += self.diff(x, y, depth + 1)
            elif x != y:
                out.append(Diff(a, b, "value", True))
        return out

    def args_pad(self, a, b, depth):
        """reductions: operand, axis, then options"""
        out = self.diff(a.args[0], b.args[0], depth + 1) + self.diff(a.args[1], b.args[1], depth + 1)
        return out + self.kws(a, b, a.args[2:], b.args[2:], depth)

    def kws(self, a, b, ka, kb, depth):
        out = []
        da = {x.op: x for x in ka if x.op.startswith("kw:")}
        db = {x.op: x for x in kb if x.op.startswith("kw:")}
        for k in sorted(set(da) | set(db)):
            if k in da and k in db:
                out += self.diff(da[k].args[0], db[k].args[0], depth + 1)
            else:
                soft = k[3:] in SOFT_KW
                out.append(Diff(a, b, f"argument {k[3:]} {'added' if k in da else 'missing'}", not soft))
        return out

    def call(self, a, b, depth):
        pa = [x for x in a.args if not x.op.startswith("kw:")]
        pb = [x for x in b.args if not x.op.startswith("kw:")]
        out = []
        if len(pa) != len(pb):
            out.append(Diff(a, b, "number of arguments", False))
        else:
            for x, y in zip(pa, pb):
                out += self.diff(x, y, depth + 1)
        return out + self.kws(a, b, a.args, b.args, depth)

    def index(self, a, b, depth):
        ka, kb = list(a.args[1].args), list(b.args[1].args)
        n = max(len(ka), len(kb))
        ka += [FULL] * (n - len(ka))
        kb += [FULL] * (n - len(kb))
        out = self.diff(a.args[0], b.args[0], depth + 1)
        for x, y in zip(ka, kb):
            if x is y:
                continue
            if x is FULL or y is FULL or x is NEWAX or y is NEWAX:
                out.append(Diff(a, b, "axis of selection", a.args[0] is b.args[0]))
            elif {x.op, y.op} == {"nz", "slice"}:
                out.append(Diff(x, y, "positions selected by a mask or by a range", True))
            elif x.op == "nz" and y.op == "nz":
                out += self.diff(x.args[0], y.args[0], depth + 1)
            else:
                out += self.diff(x, y, depth + 1)
        return out

    def seq(self, a, b, depth):
        if len(a.args) == len(b.args):
            return self.args(a, b, depth)
        # one sequence is the other with elements left out
        x, y = list(a.args), list(b.args)
        s, l = (x, y) if len(x) < len(y) else (y, x)
        it = iter(l)
        if a.op in ("list", "tuple", "dict", "path") and all(any(e is f for f in it) for e in s):
            return [Diff(a, b, "elements " + ("missing" if len(x) < len(y) else "added"), True)]
        if a.op in ("scat", "path"):
            return [Diff(a, b, "text", a.op == "path" or all(e.op == "const" for e in s))]
        return [Diff(a, b, "length of sequence", a.op in ("tuple",))]

    def comm(self, x, y, a, b, depth):
        ids = {}
        for e in y:
            ids.setdefault(id(e), []).append(e)
        la = []
        for e in x:
            if ids.get(id(e)):
                ids[id(e)].pop()
            else:
                la.append(e)
        lb = [e for v in ids.values() for e in v]
        if not la or not lb:
            return [Diff(a, b, f"operand of {a.op} " + ("missing" if lb else "added"), True)]
        if len(la) != len(lb):
            return [Diff(a, b, f"operands of {a.op}", False)]
        out = []
        for p, q in pair(la, lb):
            out += self.diff(p, q, depth + 1)
        return out

    def poly(self, a, b, depth):
        pa, pb = _to_poly(a), _to_poly(b)
        if kind(a) in ("str", "list", "dict", "none") or kind(b) in ("str", "list", "dict", "none"):
            return [Diff(a, b, "kind", False)]
        r = self.indicators(a, b, pa, pb, depth)
        if r is not None:
            return r
        # factors that are the same value in another form
        fa, fb = ({id(p): p for m in x for p, _ in m} for x in (pa, pb))
        oa, ob = [p for k, p in fa.items() if k not in fb], [p for k, p in fb.items() if k not in fa]
        if oa and ob and len(oa) * len(ob) <= 36 and max(len(m) for m in pb) > 1:
            mp = {}
            for q in ob:
                for p in oa:
                    if p.op == q.op and p not in mp.values() and adig(p) == adig(q) and not self.diff(p, q, depth + 1):
                        mp[id(q)] = p
                        break
            if mp:
                np_: dict = {}
                for m, c in pb.items():
                    k = tuple(sorted(((mp.get(id(p), p), e) for p, e in m), key=lambda pe: pe[0].dig))
                    np_[k] = np_.get(k, 0) + c
                pb = np_
        out = []
        la, lb = [], []
        for m in set(pa) | set(pb):
            x, y = pa.get(m, 0), pb.get(m, 0)
            if x == y or (x and y and math.isclose(x, y, rel_tol=1e-12)):
                continue
            if x and y:
                out.append(Diff(a, b, f"coefficient {x} in place of {y}", True))
            elif x:
                la.append((m, x))
            else:
                lb.append((m, y))
        # pair leftover monomials with one differing base
        used = set()
        la.sort(key=lambda mc: [p.dig for p, _ in mc[0]])
        lb.sort(key=lambda mc: [p.dig for p, _ in mc[0]])
        for m, c in la:
            best = None
            for j, (q, d) in enumerate(lb):
                if j in used or len(q) != len(m) or not m:
                    continue
                same = sum(1 for p in m if p in q)
                if same >= len(m) - 1 or len(m) <= 3 and sorted((p.op, repr(e)) for p, e in m) == sorted((p.op, repr(e)) for p, e in q) \
                        and len({p.op for p, _ in m}) == len(m):
                    sc = same * 1000 + sim(m[0][0], q[0][0])
                    if best is None or sc > best[0]:
                        best = (sc, j)
            if best is None and m:
                # the same product with further factors
                for j, (q, d) in enumerate(lb):
                    if j not in used and q and q != m and (all(p in m for p in q) or all(p in q for p in m)):
                        used.add(j)
                        out.append(Diff(a, b, "factor " + ("added" if len(m) > len(q) else "missing"), True))
                        best = j
                        break
                if best is not None:
                    continue
            if best is None and m:
                for j, (q, d) in enumerate(lb):
                    if j not in used and {id(p) for p, _ in m} == {id(p) for p, _ in q}:
                        used.add(j)
                        out.append(Diff(a, b, "exponents", True))
                        best = j
                        break
                if best is not None:
                    continue
            if best is None:
                single = Diff(a, b, "term added", bool(pb) and not self.rich(m))
                out.append(single)
                continue
            j = best[1]
            used.add(j)
            q, d = lb[j]
            r1 = [p for p in m if p not in q]
            r2 = [p for p in q if p not in m]
            if len(r1) > 1:
                r1.sort(key=lambda pe: pe[0].op)
                r2.sort(key=lambda pe: pe[0].op)
            if c != d:
                # a sign or scale folded into the base?
                out.append(Diff(a, b, f"coefficient {c} in place of {d}", not r1))
            for (p, e), (p2, e2) in zip(r1, r2):
                if p is p2:
                    out.append(Diff(a, b, f"exponent {e} in place of {e2}", True))
                elif e != e2:
                    ab = [x for x in (p, p2) if x.op == "el:abs"]
                    ot = p2 if ab and ab[0] is p else p
                    out.append(Diff(p, p2, "factor", bool(ab) and (ab[0].args[0] is ot or ab[0].args[0] is mk_neg(ot))))
                else:
                    out += self.diff(p, p2, depth + 1)
        for j, (q, d) in enumerate(lb):
            if j not in used:
                out.append(Diff(a, b, "term missing", bool(pa) and not self.rich(q)))
        return out

    def indicators(self, a, b, pa, pb, depth):
        """conditions used as factors, spelled differently on the two sides: identify them pairwise"""
        at = []
        for p in (pa, pb):
            acc = set()
            for m in p:
                for f, _ in m:
                    if f.op in BOOLC or f.op in ("pos", "nneg", "zero", "eq", "el:isnan"):
                        acc |= bool_atoms(f)
            at.append(acc)
        ua, ub = sorted(at[0] - at[1]), sorted(at[1] - at[0])
        if not ua or len(ua) != len(ub) or len(ua) > 6:
            return None
        out, table = [], {}
        for p, q in self.pairing(ua, ub, depth):
            ds = self.diff(p, q, depth + 1)
            if not ds or any(not d.definite for d in ds):
                return None
            out += ds
            table[id(q)] = p
            table[id(mk_not(q))] = mk_not(p)
        b2 = rewrite(b, table)
        if b2 is b:
            return None
        return out + self.diff(a, b2, depth + 1)

    def pairing(self, la, lb, depth):
        """pair() taking the correspondence with the fewest and clearest differences"""
        self.unsure = False
        if not 1 < len(la) == len(lb) <= 6:
            return pair(la, lb)
        la, lb = sorted(la, key=lambda t: t.dig), sorted(lb, key=lambda t: t.dig)
        # differences seen while trying correspondences out do not count as found
        trial = Comparer(self.budget)
        trial.difmemo = dict(self.difmemo)

        def cost(p, q):
            if p.op != q.op or (p.op == "isinstance" and p.args[1] is not q.args[1]):
                return (9, 9)
            ds = trial.diff(p, q, depth + 1)
            return (sum(1 for d in ds if not d.definite and not d.soft), len(ds))
        m = [[cost(p, q) for q in lb] for p in la]
        self.budget = trial.budget
        best = min(itertools.permutations(range(len(lb))),
                   key=lambda perm: tuple(map(sum, zip(*(m[i][j] for i, j in enumerate(perm))))))
        # another correspondence may be the intended one, with differences that are not clear
        self.unsure = sum(m[i][j][1] for i, j in enumerate(best)) and any(
            all(m[i][best[i]] != (0, 0) or j == best[i] for i, j in enumerate(perm))
            and all(m[i][j] != (9, 9) for i, j in enumerate(perm)) and any(m[i][j][0] for i, j in enumerate(perm))
            for perm in itertools.permutations(range(len(lb))))
        return [(la[i], lb[j]) for i, j in enumerate(best)]

    def piecewise(self, a, b, depth):
        """a selection spelled with where(), with masks as factors or with bounds: compared case by case"""
        ops = {a.op, b.op}
        if a.op == b.op == "where" or not (ops & {"where", "clip", "max2", "min2"} or
                                            any(f.op == "where" for t in (a, b) if t.op == "poly" for m in _to_poly(t) for f, _ in m)):
            return None
        a, b = as_where(a), as_where(b)
        A, B = set(), set()
        piece_atoms(a, A)
        piece_atoms(b, B)
        if not A or not B:
            return None
        ua, ub = sorted(A - B), sorted(B - A)
        if len(ua) != len(ub) or len(A) > 3:
            return None
        out, table = [], {}
        for p, q in self.pairing(ua, ub, depth):
            ds = self.diff(p, q, depth + 1)
            if p.op != q.op or any(not d.definite for d in ds):
                return None
            out += ds
            table[id(q)] = p
            table[id(mk_not(q))] = mk_not(p)
        if table:
            b = rewrite(b, table)
        for true in [None] + sorted(A):
            x, y = a, b
            for c in sorted(A):
                x, y = assume(x, c, c is true), assume(y, c, c is true)
            ds = self.diff(x, y, depth + 1)
            if any(not d.definite for d in ds):
                return None
            out += ds
        return out or None

    def rich(self, m):
        """a leftover monomial that might equal something spelled differently"""
        return sum(p.size for p, _ in m) > 40


def unroll(t, k, n):
    """t when its recurrence over n steps has k steps (None: not unrolled)"""
    if t.op != "loopval" or t.args[0].op != "loop" or t.args[0].args[0] is not n:
        return t
    loop = t.args[0]
    if loop.args[3].args[0]:
        return None
    vals = list(loop.args[1].args)
    for j in range(k):
        body = open_lam(loop.args[2], const(j))
        for v in vals:
            body = open_lam(body, v)
        if body.op != "updates" or len(body.args) != len(vals) or body.size > 20000:
            return None
        vals = list(body.args)
    return vals[t.args[1].args[0]]


BOOLC = {"and", "or", "not"}


def less(t):
    """operands of an order comparison that could not be put in arithmetic form"""
    if t.op == "not":
        t = t.args[0]
    return t.args if t.op == "lt?" else None


def as_where(t):
    if t.op == "clip" and len(t.args) == 3 and NONE not in t.args:
        x, lo, hi = t.args
        return mk_where(mk_pos(mk_sub(x, hi)), hi, mk_where(mk_pos(mk_sub(lo, x)), lo, x))
    if t.op == "poly" and any(f.op in ("clip", "max2", "min2") for m in _to_poly(t) for f, _ in m):
        return rewrite(t, {id(f): as_where(f) for m in _to_poly(t) for f, _ in m if f.op in ("clip", "max2", "min2")})
    if t.op in ("max2", "min2") and len(t.args) == 2:
        x, y = t.args
        x, y = as_where(x), as_where(y)
        return mk_where(mk_pos(mk_sub(y, x)) if t.op == "max2" else mk_pos(mk_sub(x, y)), y, x)
    return t


def piece_atoms(t, acc):
    if t.op == "where":
        bool_atoms(t.args[0], acc)
        piece_atoms(t.args[1], acc)
        piece_atoms(t.args[2], acc)
    elif t.op == "poly":
        for m in _to_poly(t):
            for f, _ in m:
                if f.op in BOOLC or f.op in ("pos", "nneg", "zero", "eq", "el:isnan"):
                    bool_atoms(f, acc)
                elif f.op == "where":
                    piece_atoms(f, acc)



def bool_atoms(t, acc=None):
    acc = set() if acc is None else acc
    if t.op in BOOLC:
        for x in t.args:
            bool_atoms(x, acc)
    elif t.op == "phi":
        acc.add(t.args[0])
        bool_atoms(t.args[1], acc)
        bool_atoms(t.args[2], acc)
    elif t is not TRUE and t is not FALSE:
        # the positive spelling of the atom
        f = to_bdd(t)
        acc.add(f.args[0] if f.op == "phi" and f.args[1] in (TRUE, FALSE) and f.args[2] in (TRUE, FALSE) else t)
    return acc


def rewrite(t, table):
    from terms import _rewrite
    return _rewrite(t, table, {})


NEVER_NONE = {"list", "tuple", "dict", "map", "mapax", "poly", "where", "zeros", "and", "or", "not", "pos", "nneg", "zero", "scat", "matmul",
              "store", "tab"} | {f"red:{n}" for n in ("min", "max", "mean", "sum", "any", "all")}


def pair(la, lb):
    out = []
    lb = list(lb)
    for p in sorted(la, key=lambda t: t.dig):
        q = max(lb, key=lambda t: (sim(p, t), t.dig))
        lb.remove(q)
        out.append((p, q))
    return out


def sim(a, b):
    s = 0
    if a.op == b.op:
        s += 4
        for x, y in zip(a.args, b.args):
            if x is y:
                s += 3
            elif isinstance(x, T) and isinstance(y, T) and x.op == y.op:
                s += 1
    if a.syms == b.syms:
        s += 2
    return s


def pick_atom(c):
    while c.op in ("and", "or", "not"):
        c = c.args[0]
    return c


def spec(t, c, v):
    r = assume(t, c, v)
    if v and c.op == "zero" and c.args[0].op == "sym":
        r = subst(r, {c.args[0].args[0]: ZERO})
    if v and c.op == "isnone" and c.args[0].op == "sym":
        r = subst(r, {c.args[0].args[0]: NONE})
    if v and c.op == "eq":
        for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
            if x.op == "sym" and is_const(y):
                r = subst(r, {x.args[0]: y})
                break
    if not v and c.op == "red:any" and c.args[1] is NONE and len(c.args) == 2 and rank(c.args[0]) == 1:
        m = c.args[0]
        r = rewrite(r, {id(mk_nz(mk_not(m))): FULL})
    if v and c.op == "red:all" and c.args[1] is NONE and len(c.args) == 2 and rank(c.args[0]) == 1:
        r = rewrite(r, {id(mk_nz(c.args[0])): FULL})
    return r


# ---------------------------------------------------------------- feasibility

def feasible(lits):
    """can these literals hold together?  (linear tests over one quantity, equality tests)"""
    iv = {}
    eqs = {}
    truth = {}
    for c, v in lits:
        if c.op == "not":
            c, v = c.args[0], not v
        if c.op == "and" and v:
            if not feasible([(x, True) for x in c.args]):
                return False
            continue
        k = id(c)
        if truth.setdefault(k, v) != v:
            return False
        if c.op in ("pos", "nneg", "zero"):
            p = _to_poly(c.args[0])
            k0 = p.pop((), 0)
            if not p:
                continue
            key0 = sorted(p.items(), key=lambda mc: [x.dig for x, _ in mc[0]])
            s = key0[0][1]
            if not isinstance(s, (int, float)) or s == 0:
                continue
            key = tuple((tuple((id(x), e) for x, e in m), round(co / s, 9)) for m, co in key0)
            isint = all(isinstance(co, int) for _, co in key0) and isinstance(k0, int) and kind(c.args[0]) == "int"
            bnd = -k0 / s
            lo, los, hi, his, ne = iv.get(key, (-math.inf, False, math.inf, False, set()))
            up = s > 0
            if c.op == "zero":
                if v:
                    rel = "=="
                else:
                    ne = ne | {bnd}
                    rel = None
            else:
                strict = c.op == "pos"
                if v:
                    rel = ">" if strict else ">="
                else:
                    rel = "<=" if strict else "<"
                if not up:
                    rel = {">": "<", ">=": "<=", "<": ">", "<=": ">="}[rel]
            if rel in (">", ">=", "=="):
                st = rel == ">"
                if bnd > lo or (bnd == lo and st):
                    lo, los = bnd, st
            if rel in ("<", "<=", "=="):
                st = rel == "<"
                if bnd < hi or (bnd == hi and st):
                    hi, his = bnd, st
            iv[key] = (lo, los, hi, his, ne)
            if lo > hi or (lo == hi and (los or his)):
                return False
            if lo == hi and lo in ne:
                return False
            if isint and s in (1, -1):
                l = math.floor(lo) + 1 if los and lo == math.floor(lo) else (math.ceil(lo) if lo > -math.inf else lo)
                h = math.ceil(hi) - 1 if his and hi == math.ceil(hi) else (math.floor(hi) if hi < math.inf else hi)
                if l > h:
                    return False
                if len(key0) == 1 and len(key0[0][0]) == 1 and key0[0][0][0][1] == 1 and nonneg(key0[0][0][0][0]) and h < 0:
                    return False
        elif c.op == "eq":
            for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if is_const(y):
                    if v:
                        prev = eqs.setdefault(id(x), y)
                        if prev is not y:
                            return False
    # x == const excludes x is None, and decides the truth of x
    for c, v in lits:
        if c.op == "isnone" and v and id(c.args[0]) in eqs and eqs[id(c.args[0])] is not NONE:
            return False
        if c.op == "truth" and not v and id(c.args[0]) in eqs and bool(eqs[id(c.args[0])].args[0]):
            return False
        if c.op == "truth" and v and any(d.op == "isnone" and w and d.args[0] is c.args[0] for d, w in lits):
            return False
    return True


STATS = {"mean", "median", "std", "var", "min", "max"}
_ESS: dict = {}


def closed_phi(c):
    """does the condition itself depend on another closed condition?"""
    return c.hasphi and any(not bvs(x) for x in phi_atoms(c, 400))


def essentials(t):
    """numerical operations the value is made of (outside branch conditions and shapes)"""
    r = _ESS.get(id(t))
    if r is not None:
        return r[1]
    acc = set()
    if t.op in SHAPE_OPS or t.op in ("phi", "and", "or", "not") and kind(t) == "bool":
        s = frozenset()
    else:
        if (t.op.startswith("call:") and t.op not in SOFT_OPS) or (t.op.startswith("red:") and t.op not in ("red:any", "red:all")) or \
                t.op.startswith("attr:") and t.op not in LABELS and t.args and t.args[0].op.startswith("call:") or t.op in TRANS or t.op in GEOM or t.op in ("matmul", "el:abs", "unord", "dictmap", "el:sqrt"):
            acc.add(t.op)
        for k, a in enumerate(t.args):
            if isinstance(a, T) and a.args and not (t.op == "phi" and k == 0):
                acc |= essentials(a)
        s = frozenset(acc)
    _ESS[id(t)] = (t, s)
    return s


def heavy(ops):
    return sorted(o for o in ops if o.startswith("attr:") or o.startswith("call:") and not o.startswith(("call:np.", "call:m.", "call:math.")) and ("." in o or o[5:6].isupper() or o in FNS))


def swaps(extra, lost):
    """the extra operations are at most siblings of lost ones (argmin for argmax)"""
    return all(o.startswith("attr:") or any(o != q and FAM.get(o) and FAM.get(q) and FAM[o] & FAM[q] for q in lost) for o in extra)


LABELS = {"attr:columns", "attr:index", "attr:dtypes", "attr:dtype", "attr:axes", "attr:name", "attr:empty"}
TRANS = {"el:log", "el:exp", "el:log10", "el:log2", "el:log1p", "el:expm1"}
GEOM = {"attr:convex_hull", "attr:envelope", "attr:centroid", "attr:minimum_rotated_rectangle"}
FNS = {"call:train_test_split", "call:cross_val_predict", "call:cross_val_score", "call:silhouette_score", "call:deepcopy", "call:unary_union",
       "call:confusion_matrix", "call:accuracy_score", "call:precision_score", "call:recall_score"}


# estimator operations that give different things whatever their arguments
ROUNDING = {"el:floor", "el:round", "el:ceil", "el:trunc", "el:rint", "cast:int"}
ROWDROP = {"call:m." + m for m in ("dropna", "drop_duplicates", "head", "tail", "sample", "sort_values", "sort_index", "nlargest", "nsmallest", "fillna", "abs",
                                   "describe", "cumsum", "diff", "rank", "iloc")}
CASE = {"call:m." + m for m in ("lower", "upper", "title", "capitalize", "casefold", "swapcase", "strip", "lstrip", "rstrip")}
RIVALS = [{"call:m.predict", "call:m.predict_proba", "call:cross_val_predict", "call:m.decision_function"},
          {"call:RandomizedSearchCV", "call:BayesSearchCV", "call:GridSearchCV"},
          {"call:accuracy_score", "call:precision_score", "call:recall_score", "call:f1_score"},
          {"call:m.intersection", "call:m.difference", "call:m.union", "call:m.symmetric_difference"},
          {"call:KFold", "call:StratifiedKFold", "call:ShuffleSplit", "call:StratifiedShuffleSplit"}]

MAXLEAVES = 96


def split_atom(ts):
    """the smallest closed condition, itself free of cases, that the values in ts depend on

    When each value has conditions the other lacks, these may be one condition spelled in two ways: only a shared one is split on."""
    sets = []
    for t in ts:
        d = {}
        for c in phi_atoms(t, 400):
            while c.op in ("and", "or", "not"):
                c = min(c.args, key=lambda z: (z.size, z.dig))
            if c.hasphi or c.unk or bvs(c) or c.op == "const":
                continue
            d[id(c)] = c
        sets.append(d)
    a, b = sets
    pool = dict(a)
    pool.update(b)
    if set(a) - set(b) and set(b) - set(a):
        pool = {k: v for k, v in a.items() if k in b}
    return min(pool.values(), key=lambda c: (c.size, c.dig), default=None)


def blind(t):
    """t with a > b and not (a <= b) taken for the same: they differ only for a NaN"""
    memo: dict = {}

    def go(x):
        if not x.args or x.op in ("const", "sym", "bv", "bva", "unk"):
            return x
        r = memo.get(id(x))
        if r is None:
            if x.op == "pos":
                r = mk_not(mk_nneg(mk_neg(go(x.args[0]))))
            elif x.op in ("lam", "flam"):
                v = binder(x)
                r = close(v, go(open_lam(x, v)), x.op)
            else:
                n = [go(q) if isinstance(q, T) else q for q in x.args]
                r = x if all(p is q for p, q in zip(n, x.args)) else rebuild(x.op, n)
            memo[id(x)] = r
        return r
    return go(t)


def verdict(a, b, maxsites=8):
    """as verdict1; a difference that is gone once comparisons are taken to be total is left undecided"""
    r = verdict1(a, b, maxsites)
    if r[0] == DIFF:
        x, y = blind(a), blind(b)
        if (x is not a or y is not b) and (x is y or verdict1(x, y, maxsites)[0] == EQ):
            return UNK, r[1]
    return r


def verdict1(a, b, maxsites=8):
    """(EQUAL | DIFFERENT | UNKNOWN, diffs); conditions are split when the plain comparison is inconclusive"""
    r = verdict0(a, b, maxsites)
    if r[0] != UNK or not (a.hasphi or b.hasphi):
        return r
    leaves = [0]
    bad = []
    unknown = []
    budget = [MAXLEAVES]

    def go(x, y, lits):
        if x is y or bad:
            return
        if budget[0] <= 0:
            unknown.append(r[1])
            return
        c = split_atom([x, y]) if len(lits) < 10 else None
        if c is None:
            budget[0] -= 1
            leaves[0] += 1
            v, ds = verdict0(x, y, maxsites)
            if v == DIFF and doubtful(a, b, lits):
                unknown.append(ds)
            elif v == DIFF:
                p = tuple((show(q, 4) if w else "not " + show(q, 4))[:120] for q, w in lits)
                bad.append([Diff(d.a, d.b, d.why, d.definite, p + d.path, d.soft) for d in ds])
            elif v == UNK:
                unknown.append(ds)
            return
        for v in (True, False):
            l2 = lits + [(c, v)]
            if feasible(l2):
                go(spec(x, c, v), spec(y, c, v), l2)
    go(a, b, [])
    if bad:
        return DIFF, bad[0]
    if unknown:
        return UNK, unknown[0]
    return EQ, []


def doubtful(a, b, lits):
    """a case in which a condition of one side holds and one of the other, possibly the same, does not"""
    ina, inb = {id(x) for x in subterms(a)}, {id(x) for x in subterms(b)}
    one = [(c, v) for c, v in lits if id(c) not in inb]
    two = [(c, v) for c, v in lits if id(c) not in ina]
    for c, v in one:
        for e, w in two:
            if c.op == e.op and v != w and c is not e:
                ds = Comparer().diff(c, e)
                if not all(d.definite for d in ds):
                    return True
    return False


def verdict0(a, b, maxsites=8):
    if a is b:
        return EQ, []
    comparer = Comparer()
    ds = comparer.diff(a, b)
    if not ds:
        return EQ, []
    uniq = {}
    for d in ds:
        uniq.setdefault((id(d.a), id(d.b), d.why), d)
    ds = list(uniq.values())
    if all(d.definite or d.soft for d in ds) and len([d for d in ds if d.definite]) <= maxsites and any(d.definite for d in ds):
        return DIFF, sorted(ds, key=lambda d: not d.definite)
    # whole-value dependency difference
    s = Comparer().support_diff(a, b)
    if s is not None:
        return DIFF, [s]
    if not a.unk and not b.unk:
        ea, eb = essentials(a), essentials(b)
        if heavy(eb - ea) and swaps(ea - eb, eb - ea):
            return DIFF, [Diff(a, b, "without " + ", ".join(heavy(eb - ea)), True)]
        if heavy(ea - eb) and swaps(eb - ea, ea - eb):
            return DIFF, [Diff(a, b, "with " + ", ".join(heavy(ea - eb)), True)]
        if bool(ea & TRANS) != bool(eb & TRANS):
            return DIFF, [Diff(a, b, ("with " if ea & TRANS else "without ") + ", ".join(sorted((ea | eb) & TRANS)), True)]
        r = by_loops(a, b)
        if r:
            return DIFF, r
        r = explained(a, b, comparer.found.values())
        if r:
            return DIFF, r
    return UNK, sorted(ds, key=lambda d: d.definite)


def explained(a, b, found):
    """one definite difference, carried through the whole value, accounts for everything else"""
    tried = 0
    for d in sorted(found, key=lambda d: -(d.a.size + d.b.size)):
        if d.a.op == "const" or d.b.op == "const" or d.a.op == "flam" or d.a.op == "lam":
            continue
        if not outside(a, d.a) or not outside(b, d.b):
            continue
        tried += 1
        if tried > 8:
            break
        for x, y in ((a, rewrite(b, {id(d.b): d.a})), (rewrite(a, {id(d.a): d.b}), b)):
            if x is a and y is b:
                continue
            ds = Comparer().diff(x, y)
            if all(e.definite or e.soft for e in ds):
                return [d] + ds[:3]
    return None


def outside(t, sub):
    """sub occurs in t, not only where its shape or type is asked for"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x is sub:
            return True
        if id(x) in seen or not isinstance(x, T) or x.op in SHAPE_OPS:
            continue
        seen.add(id(x))
        st.extend(x.args)
    return False


def outer_loops(t):
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if id(x) in seen or not isinstance(x, T):
            continue
        seen.add(id(x))
        if x.op == "loop":
            out[id(x)] = x
            continue
        st.extend(x.args)
    return out


def widened(sm, lg):
    """sm carrying also, unchanged, what only lg carries: (loop, position of each value of sm, positions added)"""
    if sm.args[0] is not lg.args[0]:
        return None
    si, li = sm.args[1].args, lg.args[1].args
    at = []
    for p in si:
        k = next((k for k, q in enumerate(li) if q is p and k not in at), None)
        if k is None:
            return None
        at.append(k)
    kept = [k for k in range(len(li)) if k not in at]
    i = fresh("#i", kind="int", dims=(), nonneg=True)
    body = open_lam(sm.args[2], i)
    mus = []
    for _ in si:
        if body.op != "flam":
            return None
        v = binder(body)
        body = open_lam(body, v)
        mus.append(v)
    if body.op != "updates":
        return None
    new = {k: fresh("#a", kind="bool" if kind(li[k]) == "bool" else None) for k in kept}
    us, extra = body.args[:len(si)], body.args[len(si):]
    order = [(us[at.index(k)], mus[at.index(k)]) if k in at else (new[k], new[k]) for k in range(len(li))]
    ex2 = []
    for e in extra:
        if e.op.startswith("exit:"):
            vals = e.args[2].args
            e = raw(e.op, (e.args[0], e.args[1], raw("vals", [vals[at.index(k)] if k in at else new[k] for k in range(len(li))])))
        ex2.append(e)
    # where the value was read directly it is now read from what is carried
    b = rewrite(raw("updates", [u for u, _ in order] + ex2), {id(li[k]): new[k] for k in kept})
    for _, v in reversed(order):
        b = close(v, b, "flam")
    return raw("loop", (sm.args[0], lg.args[1], close(i, b), sm.args[3])), at, kept


_ALIGN: dict = {}


def aligned(la, lb):
    """the order of the values carried by lb under which it is most like la, and lb in that order (None: its own)"""
    r = _ALIGN.get((id(la), id(lb)))
    if r is not None:
        return r[2]
    res = None
    n = len(la.args[1].args)
    if 2 <= n <= 4 and len(lb.args[1].args) == n and la is not lb:
        best = None
        pre_a, pre_b = ([adig(x) for x in l.args[1].args] for l in (la, lb))
        for q in itertools.permutations(range(n)):
            if sorted(pre_a) == sorted(pre_b) and any(pre_a[k] != pre_b[q[k]] for k in range(n)):
                continue
            w = lb if q == tuple(range(n)) else permuted(lb, q)
            if w is None:
                break
            ds = Comparer().diff(la, w)
            sc = (sum(not d.definite for d in ds), len(ds))
            if best is None or sc < best[0]:
                best = (sc, q, w)
            if not ds:
                break
        if best is not None and best[2] is not lb:
            res = (best[1], best[2])
    _ALIGN[(id(la), id(lb))] = (la, lb, res)
    return res


def permuted(l, q):
    """the loop l with its carried values listed in the order q"""
    i = fresh("#i", kind="int", dims=(), nonneg=True)
    body = open_lam(l.args[2], i)
    mus = []
    for _ in q:
        if body.op != "flam":
            return None
        v = binder(body)
        body = open_lam(body, v)
        mus.append(v)
    if body.op != "updates":
        return None
    ups, extra = body.args[:len(q)], []
    for e in body.args[len(q):]:
        if e.op.startswith("exit:"):
            vals = e.args[2].args
            e = raw(e.op, (e.args[0], e.args[1], raw("vals", [vals[k] for k in q])))
        extra.append(e)
    b = raw("updates", [ups[k] for k in q] + extra)
    for k in reversed(q):
        b = close(mus[k], b, "flam")
    return raw("loop", (l.args[0], raw("inits", [l.args[1].args[k] for k in q]), close(i, b)) + l.args[3:])


def by_loops(a, b):
    """the values agree but for their loops, and the loops certainly do different things"""
    la, lb = outer_loops(a), outer_loops(b)
    ua = [x for k, x in la.items() if k not in lb]
    ub = [x for k, x in lb.items() if k not in la]
    if not ua or len(ua) != len(ub) or len(ua) > 6:
        return None

    def shape(l):
        return (adig(l.args[0]) if isinstance(l.args[0], T) else "", tuple(adig(q) for q in l.args[1].args), len(outer_loops(l.args[2])))
    ua.sort(key=shape)
    ub.sort(key=shape)
    ta, tb, out = {}, {}, []
    for x, y in zip(ua, ub):
        nx, ny = len(x.args[1].args), len(y.args[1].args)
        if nx == ny:
            ta[id(x)] = y
            out += Comparer().diff(x, y)
            continue
        # one of them leaves some value as it is
        sm, lg = (x, y) if nx < ny else (y, x)
        r = widened(sm, lg)
        if r is None:
            return None
        w, at, kept = r
        out += Comparer().diff(w, y) if sm is x else Comparer().diff(x, w)
        tab_s, tab_l = (ta, tb) if sm is x else (tb, ta)
        for j, k in enumerate(at):
            tab_s[id(raw("loopval", (sm, const(j))))] = raw("loopval", (lg, const(k)))
        for k in kept:
            tab_l[id(raw("loopval", (lg, const(k))))] = lg.args[1].args[k]
        if sm is y:
            # the program's loop stands for both
            continue
    a2, b2 = rewrite(a, ta) if ta else a, rewrite(b, tb) if tb else b
    rest = Comparer().diff(a2, b2) if a2 is not b2 else []
    ds = out + rest
    if ds and all(d.definite or d.soft for d in ds) and any(d.definite for d in ds):
        return [d for d in ds if d.definite]
    return None


def compare_any(a, alts):
    """best verdict over the accepted forms"""
    res = [verdict(a, b) for b in alts]
    for v, d in res:
        if v == EQ:
            return EQ, []
    for v, d in res:
        if v == DIFF and not (len(alts) > 1 and False):
            return DIFF, d
    return res[0]
