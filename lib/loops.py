"""Loop summarisation: closed forms for the loops of the analysed program.

Concrete loops are unrolled.  A symbolic loop is analysed once with placeholders
for the values carried round it; the updates of the carried values are then
recognised as maps, filters, fills, reductions, counters, searches ... or kept as
an opaque (but comparable) recurrence.
"""
from __future__ import annotations

import ast

from terms import *  # noqa: F403
from terms import _to_poly, _from_poly, _bvs as bvs, phi_atoms, _rewrite as _rw
from values import *  # noqa: F403

UNROLL = 40


class Carried:
    __slots__ = ("key", "mu", "pre", "prev", "u", "uend", "final", "at", "shape")


class LoopMixin:
    def iter_source(self, v):
        """(n, term, unordered)"""
        import nplib
        if isinstance(v, PhiV):
            t = self.term(v)
        else:
            t = self.term(v)
        un = False
        while t.op == "unord":
            un = True
            t = t.args[0]
        t = nplib.keys_view(t)
        if is_setlike_(t):
            un = True
        return nplib.mk_len(t), t, un

    def s_For(self, s):
        self.for_over(s, self.eval(s.iter))

    def for_over(self, s, itv):
        its = self.concrete_items(itv)
        t = None
        if its is None:
            n, t, un = self.iter_source(itv)
            if is_int(n) and n.args[0] <= UNROLL:
                its = [self.box(mk_ix(t, [const(k)])) for k in range(n.args[0])]
        if its is not None and len(its) <= UNROLL:
            return self.unrolled(s, its)
        if its is not None:
            n, t, un = self.iter_source(itv)
        if isinstance(itv, PhiV) or (t is not None and t.op == "phi"):
            # iterate over each alternative separately when one of them is concrete
            tt = self.term(itv)
            if tt.op == "phi" and all(x.op in ("list", "tuple") for x in tt.args[1:]):
                a, b = tt.args[1], tt.args[2]
                self.forked_stmt(tt.args[0], lambda: self.unrolled(s, [self.box(x) for x in a.args]),
                                 lambda: self.unrolled(s, [self.box(x) for x in b.args]))
                return
            if tt.op == "phi" and all(isinstance(q, ast.Expr) for q in s.body) and not bvs(tt.args[0]) and nplib.mk_len(tt.args[1]) is not nplib.mk_len(tt.args[2]) \
                    and any(x.op in ("list", "tuple") for x in leaves_(tt)):
                self.forked_stmt(tt.args[0], lambda: self.for_over(s, self.box(tt.args[1])), lambda: self.for_over(s, self.box(tt.args[2])))
                return
        elem = lambda q: q  # noqa: E731
        if t is not None and t.op == "ix" and t.args[1].args and t.args[1].args[0].op == "nz" and rank(t.args[1].args[0].args[0]) == 1 \
                and not any(nplib.is_array_key(k) for k in t.args[1].args[1:]):
            base_, rest_ = t.args[0], list(t.args[1].args[1:])
            elem = lambda q: mk_ix(base_, [q] + rest_)  # noqa: E731
            t = t.args[1].args[0]
        if t is not None and t.op == "nz" and rank(t.args[0]) == 1:
            # the positions at which a mask holds: the whole range, guarded
            mask = t.args[0]
            n = dim(mask, 0)
            i = fresh("#i", kind="int", dims=(), nonneg=True)
            SYMINFO[i.args[0]]["range"] = n

            def gbody():
                def inner():
                    self.assign(s.target, self.box(elem(i)))
                    self.exec_block(s.body)
                self.forked_stmt(as_bool(mk_ix(mask, [i])), inner, lambda: None)
            self.symbolic_loop(n, i, gbody, un, s.orelse)
            return
        i = fresh("#i", kind="int", dims=(), nonneg=True)
        SYMINFO[i.args[0]]["range"] = n

        def body():
            self.assign(s.target, self.loop_elem(t, i))
            self.exec_block(s.body)
        self.symbolic_loop(n, i, body, un, s.orelse)

    def loop_elem(self, t, i):
        e = mk_ix(t, [i])
        return self.box(e)

    def forked_stmt(self, c, fa, fb):
        self.forked(c, lambda: fa() or NONE, lambda: fb() or NONE)

    def unrolled(self, s, its):
        ctx = self.ctxs[-1]
        broke = []
        dead = False
        basepc = self.st.pc
        for x in its:
            ctx.loops.append(([], []))
            try:
                self.assign(s.target, x)
                self.exec_block(s.body)
                normal = self.st
            except Dead:
                normal = None
            finally:
                br, co = ctx.loops.pop()
            broke += br
            alive = ([normal] if normal is not None else []) + co
            if not alive:
                dead = True
                break
            self.st = self.join(alive, basepc_of(alive))
        if not dead and s.orelse:
            try:
                self.exec_block(s.orelse)
            except Dead:
                dead = True
        alive = broke + ([] if dead else [self.st])
        if not alive:
            raise Dead
        self.st = self.join(alive, basepc)

    def join(self, states, basepc):
        if len(states) == 1:
            return states[0]
        bp = basepc
        k = min(len(x.pc) for x in states)
        n = len(bp) if len(bp) <= k and all(x.pc[:len(bp)] == bp for x in states) else common_prefix([x.pc for x in states])
        bp = states[0].pc[:n]
        st, _ = self.merge_many([(x, NONE) for x in states], bp)
        return st

    def s_Break(self, s):
        self.ctxs[-1].loops[-1][0].append(self.st)
        raise Dead

    def s_Continue(self, s):
        self.ctxs[-1].loops[-1][1].append(self.st)
        raise Dead

    # ---------------------------------------------------------- symbolic loop

    def run_body(self, body):
        """one symbolic iteration from self.st; returns (end or None, breaks, returns, raises)"""
        ctx = self.ctxs[-1]
        nret = len(ctx.returns)
        ctx.loops.append(([], []))
        self.raises.append([])
        basepc = self.st.pc
        try:
            body()
            end = self.st
        except Dead:
            end = None
        br, co = ctx.loops.pop()
        rs = self.raises.pop()
        rets = ctx.returns[nret:]
        del ctx.returns[nret:]
        alive = ([end] if end is not None else []) + co
        end = self.join(alive, basepc) if alive else None
        return end, br, rets, rs

    def changed_keys(self, base, st):
        out = []
        for loc, c in st.heap.items():
            b = base.heap.get(loc)
            if b is None or b is c:
                continue
            if isinstance(b, Inst) and isinstance(c, Inst):
                for f in c.fields:
                    x, y = b.fields.get(f), c.fields.get(f)
                    if x is y:
                        continue
                    if x is None and b.base is not None and self._lazy_same_in(st, y, f"{b.base}.{f}"):
                        continue
                    out.append(("f", loc, f))
                continue
            if isinstance(b, Arr) and isinstance(c, Arr) and b.term is c.term:
                continue
            out.append(("h", loc))
        for fid, fr in st.frames.items():
            bf = base.frames.get(fid)
            if bf is None:
                continue
            for nm, v in fr.items():
                if nm.startswith("$") and not nm.startswith("$c"):
                    continue
                b = bf.get(nm)
                if b is v:
                    continue
                if isinstance(b, T) and isinstance(v, T) and b is v:
                    continue
                if isinstance(b, Ref) and isinstance(v, Ref) and b.loc == v.loc:
                    continue
                out.append(("v", fid, nm))
        return out

    def _lazy_same_in(self, st, y, s):
        saved = self.st
        self.st = st
        try:
            return self._lazy_same(y, s)
        finally:
            self.st = saved

    def get_key(self, st, key):
        if key[0] == "h":
            return Ref(key[1])
        if key[0] == "f":
            c = st.heap[key[1]]
            v = c.fields.get(key[2])
            if v is None and c.base is not None:
                saved = self.st
                self.st = st
                try:
                    v = self.lazy_field(c, key[2])
                finally:
                    self.st = saved
            return v
        return st.frames[key[1]].get(key[2])

    def put_key(self, st, key, v):
        if key[0] == "h":
            old = st.heap.get(key[1])
            st.heap[key[1]] = v
        elif key[0] == "f":
            c = st.heap[key[1]]
            st.heap[key[1]] = Inst(c.cls, {**c.fields, key[2]: v}, c.base, c.origin)
        else:
            st.frames[key[1]][key[2]] = v

    def pre_of(self, base, key):
        v = self.get_key(base, key)
        if v is None or v is UNDEF:
            return None
        return self.term_in(base, v)

    def symbolic_loop(self, n, i, body, unordered=False, orelse=(), cond=None):
        """cond: for while loops, evaluated at the start of each iteration"""
        base = self.st
        keys = []
        basepc = base.pc
        snap_unks = len(self.unks)
        for attempt in range(6):
            st = base.fork()
            carried = []
            for key in keys:
                pre = self.pre_of(base, key)
                c = Carried()
                c.key, c.pre = key, pre
                c.mu = c.prev = None
                if pre is not None:
                    pv = self.get_key(base, key)
                    k = kind(pre)
                    if key[0] == "h":
                        cell = base.heap[key[1]]
                        if isinstance(cell, Lst):
                            k, d = "list", None
                        elif isinstance(cell, Dct):
                            k, d = "dict", None
                        else:
                            d = dims(pre)
                        kk = k if k in ("list", "dict", "set", "str", "bool", "int", "num") else ("set" if is_setlike_(pre) else None)
                        c.mu = fresh("#m", kind=kk, dims=d, optional=False)
                        st.heap[key[1]] = Arr(c.mu, getattr(cell, "origin", None))
                    else:
                        d = () if rank(pre) == 0 else None
                        kk = k if k in ("list", "dict", "set", "str", "bool") else None
                        c.mu = fresh("#m", kind=kk, dims=d, optional=pre is NONE or pre.op not in NOTNONE and pre.op != "const")
                        self.st = st
                        self.put_key(st, key, self.box(c.mu) if d != () else c.mu)
                carried.append(c)
            self.st = st
            if i is not None:
                st.pc = basepc
            cnd = TRUE
            ctx = self.ctxs[-1]
            ncond = None
            if cond is not None:
                cnd = cond()
                if cnd is not TRUE:
                    self.st.pc = self.st.pc + (cnd,)
            start_events = self.st.events
            extn = len(self.extcalls)
            end, br, rets, rs = self.run_body(body)
            ends = ([end] if end is not None else []) + br
            ch = []
            for e in ends + [x[0] for x in rets] + [x[0] for x in rs]:
                for k in self.changed_keys(base, e):
                    if k not in ch:
                        ch.append(k)
            new = [k for k in ch if k not in keys]
            if not new or attempt == 5:
                break
            keys = keys + new
            for c in keys:
                pass
        body_events = ()
        if end is not None:
            body_events = end.events[len(base.events):]
        elif ends:
            body_events = ends[0].events[len(base.events):]
        elif rets:
            body_events = rets[0][0].events[len(base.events):]
        # updates
        for c in carried:
            if end is not None:
                v = self.get_key(end, c.key)
                c.u = self.term_in(end, v) if v is not None else None
            else:
                c.u = c.mu
            c.final = c.at = None
        npc = len(basepc)
        mus = {c.mu.args[0]: c for c in carried if c.mu is not None}
        out = base.fork()
        self.st = out
        iname = i.args[0] if i is not None else None
        if cond is not None:
            conv = self.while_as_for(cnd, carried, mus)
            if conv is None or br or rets or rs:
                self.generic_while(out, cnd, carried, mus, br, rets, rs, npc, body_events)
                return
            n, i, iname = conv
        exits = rets or br or rs
        if exits:
            ok = self.search_exits(out, n, i, carried, mus, end, br, rets, rs, npc, basepc, orelse, body_events)
            if ok:
                return
        for c in carried:
            c.prev = None
        self.solve_all(carried, mus, n, i, unordered, brk=br)
        for c in carried:
            if c.pre is None and c.final is None:
                continue
            self.write_final(out, c)
        self.add_loop_events(out, body_events, n, i, carried)
        self.st = out
        if orelse and not br:
            self.exec_block(orelse)

    def add_loop_events(self, out, evs, n, i, carried):
        if not evs:
            return
        mp = {}
        for c in carried:
            if c.mu is not None:
                mp[c.mu.args[0]] = c.at if c.at is not None else raw("carried", (c.pre,))
        inner = []
        for e in evs:
            inner.append(subst_event(e, mp))
        e0 = evs[0]
        out.events = out.events + (Event("loop", n, self.pcterm(), e0.where, e0.fn, inner=tuple(inner), n=n, var=i),)

    def write_final(self, out, c):
        self.st = out
        f = c.final
        if f is None:
            f = unk("loop value")
        if c.key[0] == "h":
            old = out.heap[c.key[1]]
            org = getattr(old, "origin", None)
            if f.op == "list":
                cell = Lst([self.box(a) for a in f.args], org)
            elif f.op == "dict":
                cell = Dct([(f.args[k], self.box(f.args[k + 1])) for k in range(0, len(f.args), 2)], org)
            else:
                cell = Arr(f, org)
            out.heap[c.key[1]] = cell
        else:
            self.put_key(out, c.key, self.box(f))

    # ------------------------------------------------------------- solving

    def solve_all(self, carried, mus, n, i, unordered, brk=()):
        rem = [c for c in carried if c.u is not None]
        iname = i.args[0]
        def use_fills(u):
            for x in carried:
                if x.mu is not None and x.prev is not None and x.mu.args[0] in u.syms:
                    v = replace_reads(u, x.mu, x.pre, i, x.prev)
                    if v is not None:
                        u = v
            return u
        # values computed from what other carried values have become at the end of the iteration
        ends = {}
        for c in carried:
            if c.mu is not None and c.u is not None and c.u is not c.mu and c.u.args:
                ends[id(c.u)] = c
        endsym = {k: fresh("#e", kind=kind(x.u), dims=dims(x.u), optional=False) for k, x in ends.items()}
        owner = {endsym[k].args[0]: ends[k] for k in ends}
        allmus = {x.mu.args[0] for x in carried if x.mu is not None}
        for c in carried:
            c.uend = None
            if c.u is not None and endsym:
                tab = {k: v for k, v in endsym.items() if ends[k] is not c}
                e = _rw(c.u, tab, {})
                if e is not c.u and not (e.syms & allmus):
                    c.uend = e
        # values that do not survive: assigned in the loop, undefined before it
        progress = True
        while progress and rem:
            progress = False
            for c in list(rem):
                live = {x.mu.args[0] for x in rem if x.mu is not None}
                mp = {x.mu.args[0]: x.at for x in carried if x.mu is not None and x not in rem and x.at is not None}
                blocked = {x.mu.args[0] for x in carried if x.mu is not None and x not in rem and x.at is None}
                u = subst(c.u, mp) if mp else c.u
                u = use_fills(u)
                dep = u.syms & (live | blocked)
                own = {c.mu.args[0]} if c.mu is not None else set()
                if dep - own or dep & own and c.uend is not None:
                    if c.uend is not None:
                        need = [nm for nm in c.uend.syms if nm in owner]
                        if all(owner[nm] not in rem and owner[nm].final is not None and not owner[nm].final.unk for nm in need):
                            last = subst(c.uend, {**{nm: owner[nm].final for nm in need}, iname: mk_sub(n, ONE)})
                            c.final = last if c.pre is None else mk_phi(mk_pos(n), last, c.pre)
                            c.at = None
                            rem.remove(c)
                            progress = True
                            continue
                if dep - own:
                    continue
                r = solve(u, c.mu, c.pre, n, i, unordered)
                if r is None:
                    continue
                c.final, c.at = r
                if isinstance(c.at, tuple):
                    c.prev = c.at[1]
                    c.at = None
                rem.remove(c)
                progress = True
        if rem:
            for c in rem:
                c.u = use_fills(c.u)
            # values depending on solved ones without a closed form at iteration i join the recurrence
            group = list(rem)
            changed = True
            while changed:
                changed = False
                need = set()
                for c in group:
                    need |= c.u.syms
                for c in carried:
                    if c not in group and c.mu is not None and c.at is None and c.mu.args[0] in need:
                        group.append(c)
                        changed = True
            mp = {x.mu.args[0]: x.at for x in carried if x.mu is not None and x not in group and x.at is not None}
            for c in group:
                c.u = use_fills(subst(c.u, mp) if mp else c.u)
            # temporaries: overwritten before they are read
            dropped = []
            changed = True
            while changed:
                changed = False
                for c in list(group):
                    if c.mu is not None and c.key[0] == "v" and not any(c.mu.args[0] in x.u.syms for x in group if x is not c) \
                            and c.mu.args[0] not in c.u.syms:
                        group.remove(c)
                        dropped.append(c)
                        changed = True
            for c in dropped:
                c.final = unk("loop temporary")
            for c in rem:
                if c not in group:
                    continue
                # only what this value depends on takes part in its recurrence
                part, reads = [c], set(c.u.syms)
                grew = True
                while grew:
                    grew = False
                    for x in group:
                        if x not in part and x.mu is not None and x.mu.args[0] in reads:
                            part.append(x)
                            reads |= x.u.syms
                            grew = True
                c.final = generic_loop([x for x in group if x in part], n, i, None, unordered)[[x for x in group if x in part].index(c)]
            for c in rem:
                if c.final is None or not c.final.unk:
                    continue
                # the value last assigned, expressed by what the other values end as
                if c.uend is None:
                    continue
                need = [nm for nm in c.uend.syms if nm in owner]
                if all(owner[nm].final is not None and not owner[nm].final.unk for nm in need):
                    last = subst(c.uend, {**{nm: owner[nm].final for nm in need}, iname: mk_sub(n, ONE)})
                    c.final = last if c.pre is None else mk_phi(mk_pos(n), last, c.pre)

    # ------------------------------------------------------- loops with exits

    def search_exits(self, out, n, i, carried, mus, end, br, rets, rs, npc, basepc, orelse, body_events):
        """loops left early by break/return/raise: recognised when nothing else is carried"""
        # which carried values change on iterations that do not leave?
        pure = True
        for c in carried:
            if c.mu is None:
                continue
            if end is not None and c.u is not None and c.u is not c.mu:
                # temporaries (recomputed each time) are fine if not read before assignment
                if c.u.syms & set(mus):
                    pure = False
        exits = []
        for st in br:
            exits.append(("b", st, None))
        for st, v in rets:
            exits.append(("r", st, v))
        for st, e in rs:
            exits.append(("x", st, e))
        conds = []
        for kd, st, v in exits:
            c = mk_and(list(st.pc[npc:]))
            conds.append(c)
        allc = simp_or_(conds)
        if (allc.syms & set(mus)) or not pure:
            if end is not None and not orelse and all(kd == "b" for kd, _, _ in exits) and not body_events \
                    and self.absorbing(carried, exits, conds, set(mus), i):
                # leaving early changes nothing: later iterations could only set again what is already set
                self.solve_all(carried, mus, n, i, False)
                self.st = out
                for c in carried:
                    if c.pre is None and c.final is None:
                        continue
                    self.write_final(out, c)
                out.pc = basepc
                self.st = out
                return True
            return self.general_exits(out, n, i, carried, mus, end, exits, conds, npc, basepc, orelse, body_events)
        lamc = close(i, allc)
        anyc = mk_any(n, lamc)
        if allc is TRUE:
            first = ZERO
        else:
            first = raw("first", (n, lamc))
            raw("first", (n, lamc))._dims = ()
            raw("first", (n, lamc))._kind = "int"
        mp = {i.args[0]: first}
        premap = {c.mu.args[0]: (c.pre if c.pre is not None else UNDEF) for c in carried if c.mu is not None}
        # normal completion
        nstate = out.fork()
        self.st = nstate
        for c in carried:
            if c.u is None:
                continue
            if end is None:
                c.final = c.pre
            else:
                r = solve(c.u, c.mu, c.pre, n, i, False)
                c.final = r[0] if r is not None else unk("loop exit")
            if c.final is not None:
                self.write_final(nstate, c)
        self.add_loop_events(nstate, body_events, n, i, carried)
        nstate.pc = basepc + (() if mk_not(anyc) is TRUE else (mk_not(anyc),))
        alive = []
        dead = anyc is TRUE
        if not dead:
            self.st = nstate
            try:
                if orelse:
                    self.exec_block(orelse)
                alive.append(self.st)
            except Dead:
                pass
        prior = []
        for (kd, st, v), c in zip(exits, conds):
            ec = mk_and([anyc] + [mk_not(x) for x in prior] + ([] if c is allc else [subst(c, mp)]))
            if c is not allc:
                prior.append(subst(c, mp))
            es = out.fork()
            self.st = es
            for cc in carried:
                val = self.get_key(st, cc.key)
                if val is None:
                    continue
                t = self.term_in(st, val)
                t = subst(subst(t, premap), mp)
                cx = Carried()
                cx.key, cx.final = cc.key, t
                if cc.key[0] == "h" and cc.key[1] not in es.heap:
                    continue
                self.write_final(es, cx)
            self.add_loop_events(es, body_events, n, i, carried)
            es.pc = basepc + (ec,)
            if kd == "b":
                alive.append(es)
            elif kd == "r":
                self.st = es
                t = subst(subst(self.term_in(st, v), premap), mp)
                if isinstance(v, (FuncV, ClassV, BoundV)):
                    vv = v
                else:
                    vv = self.box(t)
                self.ctxs[-1].returns.append((es, vv))
            else:
                self.raises[-1].append((es, subst(subst(v, premap), mp)))
        if not alive:
            raise Dead
        self.st = self.join(alive, basepc)
        return True

    def absorbing(self, carried, exits, conds, mus, i):
        plan, stops = [], []
        for c in carried:
            if c.mu is None:
                continue
            vals = []
            for _, st, _ in exits:
                x = self.get_key(st, c.key)
                if x is None:
                    return False
                vals.append(self.term_in(st, x))
            whole = c.u if c.u is not None else c.mu
            for v, ec in zip(reversed(vals), reversed(conds)):
                whole = mk_phi(ec, v, whole)
            if whole is c.mu:
                continue
            if c.key[0] == "v" and all(c.mu.args[0] not in (x.u.syms if x.u is not None else ()) for x in carried) and c.pre is None:
                continue
            plan.append((c, whole, vals))
        if len(plan) != 1:
            return False
        c, whole, vals = plan[0]
        a = absorb(c.u if c.u is not None else c.mu, c.mu, mus)
        if a is None:
            return False
        sets, keys, val = a
        for ec, v in zip(conds, vals):
            av = absorb(v, c.mu, mus)
            if av is None or (keys is not None and av[1] is not None and av[1:] != (keys, val)):
                return False
            if keys is None and val is None:
                keys, val = av[1:]
            atoms = set(phi_atoms(ec))
            if mk_and([ec, mk_not(av[0])]) is FALSE and not ec.syms & mus:
                # leaves right after setting
                sets = mk_or([sets, ec])
                continue
            if av[0] is not sets:
                return False
            rest = []
            for e in (ec.args if ec.op == "or" else (ec,)):
                e0 = e.args[0] if e.op == "truth" else e
                if val is TRUE and (keys is not None and e0.op == "ix" and e0.args[0] is v and e0.args[1] is keys or keys is None and e0 is v):
                    continue
                if e.syms & mus:
                    return False
                rest.append(e)
            stops += rest
        if stops:
            # leaving for another reason: what later iterations would have set stays unset
            before = fresh("#i", kind="int", dims=(), nonneg=True)
            sets = mk_and([sets, mk_not(mk_any(i, close(before, subst(mk_or(stops), {i.args[0]: before}))))])
        c.u = mk_phi(sets, mk_store(c.mu, list(keys.args), val) if keys is not None else val, c.mu)
        return True

    def general_exits(self, out, n, i, carried, mus, end, exits, conds, npc, basepc, orelse, body_events):
        """early exit from a loop that also carries values: one opaque recurrence"""
        group = [c for c in carried if c.mu is not None]
        for c in group:
            if c.u is None:
                c.u = c.mu
        # counters have a closed form
        extra = []
        for (kd, st, v), c in zip(exits, conds):
            vals = []
            for cc in group:
                x = self.get_key(st, cc.key)
                vals.append(self.term_in(st, x) if x is not None else UNDEF)
            rv = self.term_in(st, v) if kd == "r" else (v if kd == "x" else NONE)
            extra.append(raw("exit:" + kd, (c, rv, raw("vals", vals))))
        finals, loop = sliced_loop(group, n, i, extra)
        for c, f in zip(group, finals):
            c.final = f
        for c in carried:
            if c.mu is None and c.u is not None:
                c.final = raw("loopvar", (loop, c.u)) if not (c.u.syms & (set(mus) | {i.args[0]})) else unk("loop local")
        alive = []
        nstate = out.fork()
        prior = []
        for k, (kd, st, v) in enumerate(exits):
            if kd == "b":
                continue
            ex = raw("exited", (loop, const(k)))
            ex._kind = "bool"
            ex._dims = ()
            es = out.fork()
            self.st = es
            for cc in carried:
                if cc.final is not None:
                    self.write_final(es, cc)
            es.pc = basepc + (ex,)
            rv = raw("loopret", (loop, const(k)))
            if kd == "r":
                self.st = es
                self.ctxs[-1].returns.append((es, self.box(rv)))
            else:
                self.raises[-1].append((es, v if not (v.syms & (set(mus) | {i.args[0]})) else raw(v.op, ())))
            prior.append(mk_not(ex))
        self.st = nstate
        for c in carried:
            if c.final is not None:
                self.write_final(nstate, c)
        self.add_loop_events(nstate, body_events, n, i, carried)
        nstate.pc = basepc + tuple(prior)
        self.st = nstate
        if orelse:
            if any(kd == "b" for kd, _, _ in exits):
                ex = raw("exited", (loop, const("b")))
                ex._kind = "bool"
                ex._dims = ()
                self.forked_stmt(mk_not(ex), lambda: self.exec_block(orelse), lambda: None)
            else:
                self.exec_block(orelse)
        return True

    # ----------------------------------------------------------------- while

    def leading_break(self, s):
        """while c: if b: break; rest   ->   while c and not b: rest"""
        while not s.orelse and len(s.body) > 1 and isinstance(s.body[0], ast.If) and len(s.body[0].body) == 1 \
                and isinstance(s.body[0].body[0], ast.Break):
            f = s.body[0]
            no = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=f.test), f)
            if not (isinstance(s.test, ast.Constant) and s.test.value):
                no = ast.copy_location(ast.BoolOp(op=ast.And(), values=[s.test, no]), f)
            s = ast.copy_location(ast.While(test=no, body=f.orelse + s.body[1:], orelse=[]), s)
        return s

    def s_While(self, s):
        s = self.leading_break(s)
        # bounded concrete loops
        c0 = self.cond(s.test) if not self.has_side_effects(s.test) else None
        if c0 is FALSE:
            if s.orelse:
                self.exec_block(s.orelse)
            return

        def body():
            self.exec_block(s.body)
        self.symbolic_loop(None, None, body, False, s.orelse, cond=lambda: self.cond(s.test))

    def has_side_effects(self, e):
        return any(isinstance(x, (ast.NamedExpr, ast.Yield)) for x in ast.walk(e))

    def while_as_for(self, cnd, carried, mus):
        """while k < N: ...; k += 1   ->  (n, i) with k = pre + i"""
        for c in carried:
            if c.mu is None or c.u is None or c.pre is None:
                continue
            d = mk_sub(c.u, c.mu)
            if d is not ONE:
                continue
            name = c.mu.args[0]
            if cnd.op != "pos" and cnd.op != "nneg":
                continue
            p = cnd.args[0]
            N = mk_add(p, c.mu)
            if cnd.op == "nneg":
                N = mk_add(N, ONE)
            if N.syms & set(mus):
                continue
            n = mk_sub(N, c.pre)
            i = fresh("#i", kind="int", dims=(), nonneg=True)
            at = mk_add(c.pre, i)
            for x in carried:
                if x.u is not None:
                    x.u = subst(x.u, {name: at})
            c.u = mk_add(c.mu, ONE)
            return n, i, i.args[0]
        return None

    def generic_while(self, out, cnd, carried, mus, br, rets, rs, npc, body_events):
        group = [c for c in carried if c.mu is not None]
        for c in group:
            if c.u is None:
                c.u = c.mu
        extra = [raw("cond", (cnd,))]
        for kd, lst in (("b", [(x, None) for x in br]), ("r", rets), ("x", rs)):
            for st, v in lst:
                cc = mk_and([x for x in st.pc[npc:] if x is not cnd])
                vals = []
                for g in group:
                    x = self.get_key(st, g.key)
                    vals.append(self.term_in(st, x) if x is not None else UNDEF)
                rv = self.term_in(st, v) if kd == "r" else (v if kd == "x" else NONE)
                extra.append(raw("exit:" + kd, (cc, rv, raw("vals", vals))))
        i = fresh("#i", kind="int", dims=(), nonneg=True)
        finals, loop = sliced_loop(group, raw("while", ()), i, extra)
        for c, f in zip(group, finals):
            c.final = f
        for c in carried:
            if c.mu is None and c.u is not None:
                c.final = unk("while local")
        nstate = out.fork()
        prior = []
        basepc = out.pc
        k = -1
        for kd, lst in (("b", [(x, None) for x in br]), ("r", rets), ("x", rs)):
            for st, v in lst:
                k += 1
                if kd == "b":
                    continue
                ex = raw("exited", (loop, const(k)))
                ex._kind = "bool"
                ex._dims = ()
                es = out.fork()
                self.st = es
                for cc in carried:
                    if cc.final is not None:
                        self.write_final(es, cc)
                es.pc = basepc + (ex,)
                if kd == "r":
                    self.ctxs[-1].returns.append((es, self.box(raw("loopret", (loop, const(k))))))
                else:
                    self.raises[-1].append((es, raw(v.op, ())))
                prior.append(mk_not(ex))
        self.st = nstate
        for c in carried:
            if c.final is not None:
                self.write_final(nstate, c)
        self.add_loop_events(nstate, body_events, raw("while", ()), i, carried)
        nstate.pc = basepc + tuple(prior)
        self.st = nstate
        if cnd is TRUE and not br:
            raise Dead


# --------------------------------------------------------------------- helpers

def leaves_(t):
    return leaves_(t.args[1]) + leaves_(t.args[2]) if t.op == "phi" else [t]


def basepc_of(states):
    n = common_prefix([s.pc for s in states])
    return states[0].pc[:n]


def common_prefix(pcs):
    n = min(len(p) for p in pcs)
    k = 0
    while k < n and all(p[k] is pcs[0][k] for p in pcs):
        k += 1
    return k


def is_setlike_(t):
    return t.op in ("set", "union", "setdiff", "setand", "setxor", "setmap", "setflat", "call:set") or kind(t) == "set"


def simp_or_(ps):
    import interp
    return interp.simp_or(ps)


def mk_any(n, lamc):
    v = fresh("#i")
    b = open_lam(lamc, v)
    if b is TRUE:
        return mk_pos(n)
    if b is FALSE:
        return FALSE
    if v.args[0] not in b.syms:
        return mk_and([b, mk_pos(n)])
    m = mk_map(n, lamc)
    return mk_red("any", m)


def subst_event(e, mp):
    if e.kind == "loop":
        return Event("loop", subst(e.n, mp), subst(e.pc, mp), e.where, e.fn,
                     inner=tuple(subst_event(x, mp) for x in e.inner), n=subst(e.n, mp), var=e.var)
    return Event(e.kind, subst(e.term, mp), subst(e.pc, mp), e.where, e.fn)


def free(t, name):
    return name not in t.syms


def solve(u, mu, pre, n, i, unordered):
    """closed form (final, value at the start of iteration i or None) of v := u(v, i), v0 = pre"""
    iname = i.args[0]
    if mu is not None and u is mu:
        return pre, pre
    mname = mu.args[0] if mu is not None else None
    if mu is None or free(u, mname):
        # recomputed each iteration
        last = subst(u, {iname: mk_sub(n, ONE)})
        if unordered and not free(u, iname):
            last = raw("unordlast", (n, close(i, u)))
        if pre is None:
            return last, None
        return mk_phi(mk_pos(n), last, pre), None
    if mu is not None and pre is None:
        return None
    k = kind(mu)
    # lists
    r = as_append(u, mu)
    if r is not None:
        c, seg = r
        if free(c, mname) and free(seg, mname):
            if seg.op == "list" and len(seg.args) == 1:
                e = seg.args[0]
                if c is TRUE:
                    m = mk_map(n, close(i, e))
                    if e is i or m.op not in ("map", "list"):
                        pass
                else:
                    m = mk_filtermap(n, close(i, c), close(i, e))
            elif c is TRUE:
                m = raw("flatmap", (n, close(i, seg)))
            else:
                m = raw("flatmap", (n, close(i, mk_phi(c, seg, mk_list([])))))
            if unordered:
                m = raw("unord", (m,))
            if pre.op == "list" and not pre.args:
                return m, None
            return mk_lcat([pre, m]), None
    if u.op == "lcat" and len(u.args) == 2 and u.args[1] is mu and not unordered:
        seg = u.args[0]
        if seg.op == "list" and len(seg.args) == 1 and free(seg, mname):
            # inserted at the front: last one first
            e = subst(seg.args[0], {i.args[0]: mk_sub(mk_sub(n, ONE), i)})
            m = mk_map(n, close(i, e))
            return (m if pre.op == "list" and not pre.args else mk_lcat([m, pre])), None
    r = as_setadd(u, mu)
    if r is not None:
        c, e = r
        if free(c, mname) and free(e, mname):
            m = mk_setmap(n, close(i, c), close(i, e))
            if pre.op == "set" and not pre.args:
                return m, None
            import interp
            return interp.mk_union([pre, m]), None
    if mu is not None and setlike(u) and not free(u, mname):
        g = as_setgrow(u, mu)
        if g is not None and free(g, mname):
            return mk_union([pre, mk_setflat(n, close(i, TRUE), close(i, g))]), None
    # dictionaries
    r = as_dstore(u, mu)
    if r is not None:
        c, kk, v = r
        if free(c, mname) and free(kk, mname) and free(v, mname):
            return raw("dictmap", (pre, n, close(i, c), close(i, kk), close(i, v))), None
    # strings
    if u.op == "scat" and u.args[0] is mu and all(free(a, mname) for a in u.args[1:]):
        return mk_scat([pre, raw("sjoin", (n, close(i, mk_scat(list(u.args[1:])))))]), None
    # reductions
    d = as_add(u, mu)
    if d is not None and free(d, mname):
        if free(d, iname):
            return mk_add(pre, mk_mul(n, d)), mk_add(pre, mk_mul(i, d))
        if rank(d) == 0:
            return mk_add(pre, mk_red("sum", mk_map(n, close(i, d)))), None
        return mk_add(pre, mk_red("sum", mk_map(n, close(i, d)), ZERO)), None
    if u.op in ("max2", "min2") and any(a is mu for a in u.args):
        rest = [a for a in u.args if a is not mu]
        f = mk_max2 if u.op == "max2" else mk_min2
        e = f(rest)
        if free(e, mname):
            return f([pre, mk_red(u.op[:3], mk_map(n, close(i, e)))]), None
    if u.op in ("or", "and") and any(a is mu for a in u.args):
        rest = [a for a in u.args if a is not mu]
        f = mk_or if u.op == "or" else mk_and
        e = f(rest)
        if free(e, mname):
            if u.op == "or":
                return mk_or([pre, mk_any(n, close(i, e))]), None
            return mk_and([pre, mk_not(mk_any(n, close(i, mk_not(e))))]), None
    if u.op == "phi":
        c, a, b = u.args
        for (x, y, cc) in ((a, b, c), (b, a, mk_not(c))):
            if y is mu and free(x, mname) and not free(c, mname) and cc.op == "pos":
                # if e > best: best = e
                if mk_sub(x, mu) is cc.args[0]:
                    return mk_max2([pre, mk_red("max", mk_map(n, close(i, x)))]), None
                if mk_sub(mu, x) is cc.args[0]:
                    return mk_min2([pre, mk_red("min", mk_map(n, close(i, x)))]), None
            if y is mu and free(x, mname) and free(c, mname):
                return raw("lastwhere", (pre, n, close(i, cc), close(i, x))), None
        ab = absorb(u, mu, {mname})
        if ab is not None and ab[1] is not None and free(ab[1], iname):
            return mk_phi(mk_any(n, close(i, ab[0])), mk_store(pre, list(ab[1].args), ab[2]), pre), None
    # fills
    f = solve_fill(u, mu, pre, n, i)
    if f is not None:
        return f[0], ("fill", f[1])
    # multiplicative
    if u.op == "poly" and len(u.args) == 1:
        m = u.args[0]
        if any(p.args[0] is mu and p.args[1] is ONE for p in m.args[1:]):
            e = mk_div(u, mu)
            if free(e, mname):
                return mk_mul(pre, mk_red("prod", mk_map(n, close(i, e)))), None
    return None


def absorb(u, mu, mus):
    """(condition, key or None, value): u sets mu (at key) to a constant when the condition holds and leaves it alone otherwise"""
    if u is mu:
        return FALSE, None, None
    if u.op == "store" and u.args[0] is mu and is_const(u.args[2]) and not (u.args[1].syms & mus):
        return TRUE, u.args[1], u.args[2]
    if is_const(u):
        return TRUE, None, u
    if u.op != "phi" or u.args[0].syms & mus:
        return None
    a, b = absorb(u.args[1], mu, mus), absorb(u.args[2], mu, mus)
    if a is None or b is None:
        return None
    if a[2] is None:
        kv = b[1:]
    elif b[2] is None or a[1:] == b[1:]:
        kv = a[1:]
    else:
        return None
    return (mk_phi(u.args[0], a[0], b[0]),) + kv


def as_append(u, mu):
    """(condition, appended segment)"""
    if u is mu:
        return FALSE, mk_list([])
    if u.op == "lcat" and u.args[0] is mu:
        return TRUE, mk_lcat(list(u.args[1:]))
    if u.op == "phi":
        a, b = as_append(u.args[1], mu), as_append(u.args[2], mu)
        if a is None or b is None:
            return None
        c = phi_to_bool_(mk_phi(u.args[0], a[0], b[0]))
        if a[0] is FALSE:
            return c, b[1]
        if b[0] is FALSE:
            return c, a[1]
        if a[1].op == "list" and b[1].op == "list" and len(a[1].args) == len(b[1].args):
            return c, mk_list([mk_phi(u.args[0], x, y) for x, y in zip(a[1].args, b[1].args)])
        return c, mk_phi(u.args[0], a[1], b[1])
    return None


def as_setadd(u, mu):
    if u is mu:
        return FALSE, UNDEF
    if u.op == "union" and any(a is mu for a in u.args):
        rest = [a for a in u.args if a is not mu]
        if len(rest) == 1 and rest[0].op == "set" and len(rest[0].args) == 1:
            return TRUE, rest[0].args[0]
        return None
    if u.op == "phi":
        a, b = as_setadd(u.args[1], mu), as_setadd(u.args[2], mu)
        if a is None or b is None:
            return None
        c = phi_to_bool_(mk_phi(u.args[0], a[0], b[0]))
        if a[0] is FALSE:
            return c, b[1]
        if b[0] is FALSE:
            return c, a[1]
        return c, mk_phi(u.args[0], a[1], b[1])
    return None


def as_setgrow(u, mu):
    """the set by which u is larger than mu"""
    if u is mu:
        return mk_set([])
    if u.op == "union" and any(a is mu for a in u.args):
        return mk_union([a for a in u.args if a is not mu] or [mk_set([])])
    if u.op == "union":
        gs = [as_setgrow(a, mu) if mu.args[0] in a.syms else a for a in u.args]
        return None if any(g is None for g in gs) else mk_union(gs)
    if u.op == "phi" and mu.args[0] not in u.args[0].syms:
        a, b = as_setgrow(u.args[1], mu), as_setgrow(u.args[2], mu)
        return None if a is None or b is None else mk_phi(u.args[0], a, b)
    return None


def as_dstore(u, mu):
    if u is mu:
        return FALSE, UNDEF, UNDEF
    if u.op == "dstore" and u.args[0] is mu:
        return TRUE, u.args[1], u.args[2]
    if u.op == "phi":
        a, b = as_dstore(u.args[1], mu), as_dstore(u.args[2], mu)
        if a is None or b is None:
            return None
        c = phi_to_bool_(mk_phi(u.args[0], a[0], b[0]))
        if a[0] is FALSE:
            return c, b[1], b[2]
        if b[0] is FALSE:
            return c, a[1], a[2]
        return c, mk_phi(u.args[0], a[1], b[1]), mk_phi(u.args[0], a[2], b[2])
    return None


def phi_to_bool_(t):
    import interp
    return interp.phi_to_bool_deep(t) if t.op == "phi" else t


def as_add(u, mu):
    if u is mu:
        return ZERO
    if u.op == "poly":
        d = mk_sub(u, mu)
        if free(d, mu.args[0]):
            return d
        return None
    if u.op == "phi":
        a, b = as_add(u.args[1], mu), as_add(u.args[2], mu)
        if a is None or b is None:
            return None
        if a is ONE and b is ZERO:
            return u.args[0]
        if a is ZERO and b is ONE:
            return mk_not(u.args[0])
        return mk_phi(u.args[0], a, b)
    return None


# ------------------------------------------------------------------------ fill

def store_positions(u, base, iname, out):
    """axis positions at which stores into base are indexed by i"""
    if u is base:
        return True
    if u.op == "store":
        ks = u.args[1].args
        out.append([p for p, k in enumerate(ks) if k.op == "sym" and k.args[0] == iname])
        return store_positions(u.args[0], base, iname, out)
    if u.op == "phi":
        return store_positions(u.args[1], base, iname, out) and store_positions(u.args[2], base, iname, out)
    if u.op in ("tab", "mapax"):
        if u.op == "tab":
            q, lam, b = u.args[1].args[0], u.args[3], u.args[0]
            if not store_positions(b, base, iname, out):
                return False
        else:
            q, lam, b = u.args[0].args[0], u.args[2], base
        j = fresh("#i")
        e = open_lam(lam, j)
        bj = mk_ix(base, [FULL] * q + [j])
        inner = []
        if not store_positions(e, bj, iname, inner):
            return False
        for ps in inner:
            out.append([p if p < q else p + 1 for p in ps])
        return True
    if u.op == "map":
        j = fresh("#i")
        e = open_lam(u.args[1], j)
        bj = mk_ix(base, [j])
        inner = []
        if not store_positions(e, bj, iname, inner):
            return False
        for ps in inner:
            out.append([p + 1 for p in ps])
        return True
    return False


def elem(u, base, i, p):
    """element i along axis p of u, where u only differs from base there; None when not so"""
    if u is base:
        return mk_ix(base, [FULL] * p + [i])
    if u.op == "store":
        e = elem(u.args[0], base, i, p)
        if e is None:
            return None
        ks = list(u.args[1].args)
        if len(ks) <= p or ks[p] is not i:
            return None
        if any(k is NEWAX for k in ks):
            return None
        rest = ks[:p] + ks[p + 1:]
        while rest and rest[-1] is FULL:
            rest.pop()
        if not rest:
            return u.args[2]
        return mk_store(e, rest, u.args[2])
    if u.op == "phi":
        a, b = elem(u.args[1], base, i, p), elem(u.args[2], base, i, p)
        if a is None or b is None:
            return None
        return mk_phi(u.args[0], a, b)
    if u.op in ("tab", "mapax", "map"):
        if u.op == "tab":
            q, n2, lam, b = u.args[1].args[0], u.args[2], u.args[3], u.args[0]
            eb = elem(b, base, i, p)
            if eb is None:
                return None
        elif u.op == "mapax":
            q, n2, lam, b, eb = u.args[0].args[0], u.args[1], u.args[2], base, mk_ix(base, [FULL] * p + [i])
        else:
            q, n2, lam, b, eb = 0, u.args[0], u.args[1], base, mk_ix(base, [FULL] * p + [i])
        if q == p:
            return None
        j = fresh("#i", kind="int", dims=(), nonneg=True)
        e = open_lam(lam, j)
        bj = mk_ix(base, [FULL] * q + [j])
        inner = elem(e, bj, i, p - (1 if q < p else 0))
        if inner is None:
            return None
        q2 = q - (1 if p < q else 0)
        return mk_tab(eb, q2, n2, close(j, inner))
    return None


def mk_tab(pre, p, n, lam):
    d = dims(pre)
    covered = d is not None and p < len(d) and d[p] is n
    if not covered and p == 0 and dim(pre, 0) is n:
        covered = True
    if covered:
        r = mk_mapax(p, n, lam)
        if d is not None and r.op in ("map", "mapax") and dims(r) is None:
            r._dims = d
        return r
    return raw("tab", (pre, const(p), n, lam))


def solve_fill(u, mu, pre, n, i):
    iname = i.args[0]
    poss = []
    if not store_positions(u, mu, iname, poss) or not poss:
        return None
    common = set(poss[0])
    for ps in poss[1:]:
        common &= set(ps)
    for p in sorted(common):
        e = elem(u, mu, i, p)
        if e is None:
            continue
        e = replace_reads(e, mu, pre, i, p)
        if e is None or not free(e, mu.args[0]):
            continue
        return mk_tab(pre, p, n, close(i, e)), p
    return None


def replace_reads(e, mu, pre, i, p):
    """reads of the element being filled see its value before the loop"""
    memo = {}

    def go(t):
        if mu.args[0] not in t.syms:
            return t
        r = memo.get(id(t))
        if r is not None:
            return r[1]
        if t.op == "sym":
            res = None
            memo[id(t)] = (t, None)
            return None
        if t.op in ("ix", "oix") and t.args[0] is mu:
            ks = list(t.args[1].args)
            if len(ks) > p and ks[p] is i:
                k2 = [go(k) for k in ks]
                if all(k is not None for k in k2):
                    res = mk_ix(pre, k2)
                    memo[id(t)] = (t, res)
                    return res
            memo[id(t)] = (t, None)
            return None
        if t.op == "dim" or t.op == "shape?":
            res = dim(pre, t.args[1].args[0]) if t.op == "dim" and t.args[0] is mu else None
            if res is not None:
                memo[id(t)] = (t, res)
                return res
        if t.op == "lam" or t.op == "flam":
            v = binder(t)
            b = go(open_lam(t, v))
            res = None if b is None else close(v, b, t.op)
            memo[id(t)] = (t, res)
            return res
        new = []
        for a in t.args:
            if isinstance(a, T):
                x = go(a)
                if x is None:
                    memo[id(t)] = (t, None)
                    return None
                new.append(x)
            else:
                new.append(a)
        res = rebuild(t.op, new)
        memo[id(t)] = (t, res)
        return res
    return go(e)


# -------------------------------------------------------------- opaque recurrence

def sliced_loop(group, n, i, extra):
    """without the values the loop leaves as they are (objects first touched inside)"""
    inv = [k for k, c in enumerate(group) if c.u is c.mu and c.pre is not None
           and all(e.args[2].args[k] is c.mu for e in extra if e.op.startswith("exit:"))]
    if not inv:
        return sliced_loop_(group, n, i, extra)
    mp = {group[k].mu.args[0]: group[k].pre for k in inv}
    rest = [k for k in range(len(group)) if k not in inv]
    for k in rest:
        group[k].u = subst(group[k].u, mp)
    ex2 = [raw(e.op, (subst(e.args[0], mp), subst(e.args[1], mp), raw("vals", [subst(e.args[2].args[k], mp) for k in rest])))
           if e.op.startswith("exit:") else subst(e, mp) for e in extra]
    f, loop = sliced_loop_([group[k] for k in rest], n, i, ex2)
    finals = [group[k].pre for k in range(len(group))]
    for k, x in zip(rest, f):
        finals[k] = x
    return finals, loop


def sliced_loop_(group, n, i, extra):
    """each value with only the values it depends on (directly or through the conditions for going on)"""
    finals, loop = generic_loop(group, n, i, extra, False, want_loop=True)
    if any(e.op in ("exit:r", "exit:x") for e in extra):
        return finals, loop
    base = set()
    for e in extra:
        base |= e.args[0].syms
    for k, c in enumerate(group):
        part, reads = {k}, base | c.u.syms
        grew = True
        while grew:
            grew = False
            for j, x in enumerate(group):
                if j in part:
                    for e in extra:
                        if e.op == "exit:b":
                            reads = reads | e.args[2].args[j].syms
            for j, x in enumerate(group):
                if j not in part and x.mu.args[0] in reads:
                    part.add(j)
                    reads = reads | x.u.syms
                    grew = True
        if len(part) == len(group):
            continue
        idx = sorted(part)
        ex2 = [raw(e.op, (e.args[0], e.args[1], raw("vals", [e.args[2].args[j] for j in idx]))) if e.op.startswith("exit:") else e for e in extra]
        finals[k] = generic_loop([group[j] for j in idx], n, i, ex2, False)[idx.index(k)]
    return finals, loop


def merge_stores(t, mu):
    """t as mu or one store into mu: a choice between storing at a position and not storing is a choice of what to store there"""
    if t.op != "phi":
        return t
    a, b = merge_stores(t.args[1], mu), merge_stores(t.args[2], mu)
    st = [x for x in (a, b) if x.op == "store" and x.args[0] is mu]
    if not st or any(x is not mu and x not in st for x in (a, b)) or st[0].args[1] is not st[-1].args[1]:
        return t if a is t.args[1] and b is t.args[2] else mk_phi(t.args[0], a, b)
    key = st[0].args[1]
    if mu.args[0] in key.syms or any(kind(k) != "int" or dims(k) != () for k in key.args):
        return t
    old = mk_ix(mu, list(key.args))
    v = mk_phi(t.args[0], a.args[2] if a is not mu else old, b.args[2] if b is not mu else old)
    if kind(old) == "bool" and kind(v) == "bool":
        v = to_bdd(v)
    return raw("store", (mu, key, v))


def stored_at(u, mu, out):
    """the positions u may store into mu; False if u is anything but mu with stores"""
    if u is mu:
        return True
    if u.op == "phi":
        return stored_at(u.args[1], mu, out) and stored_at(u.args[2], mu, out)
    if u.op == "store" and len(u.args[1].args) == 1:
        out.append(u.args[1].args[0])
        return stored_at(u.args[0], mu, out)
    return False


def frozen_reads(group, i):
    """elements of a carried array that no iteration writes are read as they were before the loop"""
    names = frozenset(c.mu.args[0] for c in group) | {i.args[0]}
    table = {}
    for c in group:
        ks = []
        if not stored_at(c.u, c.mu, ks) or not ks or c.pre is None:
            continue
        seen, st = set(), [x.u for x in group]
        while st:
            t = st.pop()
            if not isinstance(t, T) or id(t) in seen or c.mu.args[0] not in t.syms:
                continue
            seen.add(id(t))
            st += t.args
            if t.op == "ix" and t.args[0] is c.mu and len(t.args[1].args) == 1:
                k = t.args[1].args[0]
                if k.syms.isdisjoint(names) and kind(k) == "int" and dims(k) == () and \
                        all(mk_pos(mk_sub(q, k)) is TRUE or mk_pos(mk_sub(k, q)) is TRUE for q in ks):
                    table[id(t)] = mk_ix(c.pre, [k])
    if table:
        for c in group:
            c.u = _rw(c.u, table, {})


def generic_loop(group, n, i, extra, unordered, want_loop=False):
    if not extra and not want_loop and all(c.mu is not None for c in group):
        frozen_reads(group, i)
        names = frozenset(c.mu.args[0] for c in group) | {i.args[0]}
        for a in phi_atoms(group[0].u, 40):
            if a.syms.isdisjoint(names) and not bvs(a):
                for v in (True, False):
                    if all(assume(c.u, a, v) is c.mu for c in group):
                        old = [c.u for c in group]
                        for c in group:
                            c.u = assume(c.u, a, not v)
                        fs = generic_loop(group, n, i, extra, unordered)
                        for c, u in zip(group, old):
                            c.u = u
                        return [mk_phi(a, c.pre, f) if v else mk_phi(a, f, c.pre) for c, f in zip(group, fs)]
    if not extra:
        for c in group:
            if c.mu is not None and c.u.op == "phi":
                c.u = merge_stores(c.u, c.mu)
    names = [c.mu.args[0] for c in group if c.mu is not None]
    withmu = [c for c in group if c.mu is not None]
    anon = sym("#anon", kind=None)
    amap = {m: anon for m in names}

    def key(c):
        return (adig(c.pre) if c.pre is not None else "", adig(c.u),
                c.pre.dig if c.pre is not None else b"", subst(c.u, {**amap, i.args[0]: sym("#anoni", kind="int", dims=())}).dig)
    order = sorted(withmu, key=key)
    ups = raw("updates", [c.u for c in order] + list(extra or []))
    if extra:
        # the exits list the values in the order of `group`; reorder to canonical order
        perm = [withmu.index(c) for c in order]
        ex2 = []
        for e in extra:
            if e.op.startswith("exit:"):
                vals = e.args[2].args
                ex2.append(raw(e.op, (e.args[0], e.args[1], raw("vals", [vals[k] for k in perm]))))
            else:
                ex2.append(e)
        ups = raw("updates", [c.u for c in order] + ex2)
    body = ups
    for c in reversed(order):
        body = close(c.mu, body, "flam")
    body = close(i, body)
    loop = raw("loop", (n, raw("inits", [c.pre if c.pre is not None else UNDEF for c in order]), body,
                        const("unordered" if unordered else "")))
    finals = []
    for c in group:
        if c.mu is None:
            # a temporary recomputed in the loop from carried values
            f = unk("loop temporary")
        else:
            f = raw("loopval", (loop, const(order.index(c))))
            if c.key[0] == "h" and dims(c.pre) is not None and f._dims is False:
                f._dims = dims(c.pre)
        finals.append(f)
    return (finals, loop) if want_loop else finals
