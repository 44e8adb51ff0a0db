"""Obligations, reporting and evidence for one property."""
from __future__ import annotations

import itertools
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

import terms
from compare import DIFF, EQ, UNK, verdict
from engine import *  # noqa: F403
from engine import VERIF
from terms import show

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ob:
    """one obligation: an observable of an entry point under a configuration"""
    __slots__ = ("name", "status", "detail", "where", "config", "rule")

    def __init__(self, name, status, detail="", where=None, config="", rule=""):
        self.name, self.status, self.detail, self.where, self.config, self.rule = name, status, detail, where, config, rule


WORKERS = int(os.environ.get("VERIF_WORKERS", "6"))
DEADLINE = float(os.environ.get("VERIF_DEADLINE", "760"))     # seconds a check may take in all
BUDGET = float(os.environ.get("VERIF_BUDGET", "420"))         # seconds one group of obligations may take
MEMORY = 5 << 30                                              # bytes one worker may hold


class Checker:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []
        self.prog = add_spec(load_repo())
        self.functions = set()
        self.callsites = 0
        self.entries = []
        self.rules = []
        self.specs = set()
        self.known = load_known(pid)
        self.known_hit = {}
        self.jobs = []

    # ------------------------------------------------------------- running

    def absorb(self, I, entry):
        for m, f in I.visited:
            if m.startswith("instancespace"):
                self.functions.add(f"{m}.{f}")
            else:
                self.specs.add(f"{m}.{f}")
        self.callsites += I.callsites

    def interp(self, dims=None, consts=None, kinds=None, models=None):
        return new_interp(self.prog, dims, consts, models, kinds)

    def entry(self, dotted, args, dims=None, consts=None, kinds=None, models=None, kwargs=None):
        I = self.interp(dims, consts, kinds, models)
        terms.WHERE[0] = None
        r = run(I, dotted, args, kwargs)
        terms.WHERE[0] = None
        self.absorb(I, dotted)
        if dotted.startswith("instancespace"):
            self.entries.append(dotted)
        return r

    # -------------------------------------------------------- obligations

    def add(self, name, status, detail="", where=None, config="", rule=""):
        self.obs.append(Ob(name, status, detail, where, config, rule))

    def decide(self, name, got, want, config="", entry="", known=None, rule="value equivalence", weak=()):
        """got: program term; want: list of accepted terms; known: {finding id: term}"""
        wants = want if isinstance(want, (list, tuple)) else [want]
        v, ds = None, []
        best = None
        for w in wants:
            v, ds = verdict(got, w)
            if v == EQ:
                break
            if best is None or (best[0] == DIFF and v == UNK):
                best = (v, ds)
        if v != EQ:
            v, ds = best
            for fid, kt in (known or {}).items():
                v2, ds2 = verdict(got, kt)
                if v2 == EQ:
                    if fid in self.known:
                        self.known_hit[fid] = self.known_hit.get(fid, 0) + 1
                        self.add(name, "known", fid, None, config, rule)
                        return "known"
                else:
                    # the listed finding is still there but something else changed too
                    if v2 == UNK:
                        v, ds = v2, ds2
                    elif v == DIFF:
                        ds = ds2
        if v == EQ:
            self.add(name, "ok", "", None, config, rule)
        elif v == DIFF and weak:
            self.add(name, "undecided", f"{', '.join(weak)} not found; " + "; ".join(repr(d) for d in ds[:2]), None, config, rule)
        elif v == DIFF:
            self.add(name, "violated", "; ".join(repr(d) for d in ds[:4]), self.locate(ds, entry), config, rule)
        else:
            self.add(name, "undecided", "; ".join(repr(d) for d in ds[:3]), None, config, rule)
        return v

    def locate(self, ds, entry):
        for d in ds:
            p = d.a.prov
            if p and "/spec/" not in p[0]:
                return f"{os.path.relpath(p[0], os.path.dirname(os.path.dirname(p[0])) if False else '/')}:{p[1]}"
        return entry

    def equiv(self, label, *a, **k):
        """see _equiv; each group of obligations is decided in a process of its own, with bounded time and memory"""
        if not WORKERS:
            return self._equiv(label, *a, **k)
        while len([j for j in self.jobs if j["fd"] is not None]) >= WORKERS:
            self.collect()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                self.obs, self.entries, self.callsites, self.jobs = [], [], 0, []
                try:
                    self._equiv(label, *a, **k)
                except MissingAnchor as e:
                    self.add(label, "undecided", f"anchor vanished: {e}")
                except MemoryError:
                    self.add(label, "undecided", "the analysis ran out of memory")
                data = pickle.dumps(([(o.name, o.status, o.detail, o.where, o.config, o.rule) for o in self.obs], self.entries,
                                     self.callsites, self.functions, self.specs, self.known_hit))
                with os.fdopen(w, "wb") as fh:
                    fh.write(data)
                code = 0
            except BaseException:  # noqa: BLE001
                sys.stderr.write(f"{label}: " + traceback.format_exc(limit=-3)[-1500:])
            finally:
                os._exit(code)
        os.close(w)
        self.jobs.append({"pid": pid, "fd": r, "label": label, "at": len(self.obs), "data": b"", "t": time.time()})

    def collect(self):
        """wait until some group is finished (or has used up its time)"""
        live = [j for j in self.jobs if j["fd"] is not None]
        if not live:
            return
        ready = select.select([j["fd"] for j in live], [], [], 1.0)[0]
        now = time.time()
        for j in live:
            if j["fd"] in ready:
                b = os.read(j["fd"], 1 << 20)
                j["data"] += b
                if b:
                    continue
            elif now - j["t"] > BUDGET or now - self.t0 > DEADLINE:
                os.kill(j["pid"], signal.SIGKILL)
                j["data"] = None
            else:
                continue
            os.close(j["fd"])
            os.waitpid(j["pid"], 0)
            j["fd"] = None

    def merge(self):
        while any(j["fd"] is not None for j in self.jobs):
            self.collect()
        obs = list(self.obs)
        at = 0
        out = []
        for j in self.jobs:
            out += obs[at:j["at"]]
            at = j["at"]
            if not j["data"]:
                out.append(Ob(j["label"], "undecided", "the analysis ran out of time or memory"))
                continue
            os_, en, cs, fn, sp, kh = pickle.loads(j["data"])
            out += [Ob(*o) for o in os_]
            self.entries += en
            self.callsites += cs
            self.functions |= fn
            self.specs |= sp
            for f, n in kh.items():
                self.known_hit[f] = self.known_hit.get(f, 0) + n
        self.obs = out + obs[at:]
        self.jobs = []

    def _equiv(self, label, entry, spec, args, fields_=None, dims=None, grid=None, kinds=None, known_spec=None,
              specargs=None, skip=(), models=None, rename=None, alt=None, pick=None, kwargs=None):
        """entry and spec give the same observables under every configuration of `grid`

        grid: {symbol: [values]};  fields_: observables to compare (default: those the spec returns)
        """
        grid = grid or {}
        keys = list(grid)
        # a helper named by the decomposition is gone (renamed, inlined): differences prove nothing
        gone = [m for m in (models or {}) if m.startswith("instancespace") and not present(self.prog, m.split("$")[0])]
        if not present(self.prog, entry):
            self.add(label, "undecided", f"{entry} not found", None, "")
            return
        for combo in itertools.product(*[grid[k] for k in keys]):
            consts = dict(zip(keys, combo))
            if skip and skip(consts):
                continue
            cfg = ", ".join(f"{k.split('.')[-1]}={_cv(v)}" for k, v in consts.items())
            try:
                r = self.entry(entry, args, dims, consts, kinds, models, kwargs)
                got = fields(r) if not pick else pick(r)
            except MissingAnchor:
                raise
            except RecursionError:
                self.add(f"{label}", "undecided", "analysis did not finish", None, cfg)
                continue
            except Exception as e:  # noqa: BLE001
                self.add(f"{label}", "undecided", f"analysis failed: {type(e).__name__} {e} at {traceback.extract_tb(e.__traceback__)[-1]}", None, cfg)
                continue
            wants = []
            for sp in [spec] + list(alt or []):
                rs = self.entry(sp, specargs or args, dims, consts, kinds, models, kwargs)
                wants.append(fields(rs) if not pick else pick(rs))
            kn = {}
            for fid, sp in (known_spec or {}).items():
                rs = self.entry(sp, specargs or args, dims, consts, kinds, models, kwargs)
                kn[fid] = fields(rs) if not pick else pick(rs)
            names = [f for f in wants[0] if fields_ is None or f in fields_]
            if r.dead and not any("$dead" in w for w in wants):
                self.add(f"{label}", "undecided", "no normal completion found", None, cfg)
                continue
            for f in names:
                g = got.get((rename or {}).get(f, f))
                if g is None:
                    self.add(f"{label}.{f}", "violated", "output is not produced", entry, cfg)
                    continue
                ws = []
                for w in wants:
                    if f in w and w[f] not in ws:
                        ws.append(w[f])
                self.decide(f"{label}.{f}", g, ws, cfg, entry, {k: v[f] for k, v in kn.items() if f in v}, weak=gone)

    def rule(self, name, ok, detail="", where=None, config="", rule="structural rule"):
        """a syntactic / graph obligation decided directly (ok: True, False, None)"""
        self.add(name, "ok" if ok else ("undecided" if ok is None else "violated"), detail, where, config, rule)

    # ------------------------------------------------------------ finishing

    def finish(self):
        self.merge()
        viol = [o for o in self.obs if o.status == "violated"]
        und = [o for o in self.obs if o.status == "undecided"]
        ok = [o for o in self.obs if o.status == "ok"]
        kn = [o for o in self.obs if o.status == "known"]
        evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static decision from the source of /repo: each obligation compares the value graph computed from the "
                               "current source for one observable of a public entry point (under one configuration of the options) with "
                               "the value graph of the property's reference definition, or applies a graph/effect rule to the analysed "
                               "call graph. ok = normal forms coincide; undecided = outside what the normal form decides (no alarm).",
                "obligations": len(self.obs), "discharged": len(ok), "undecided": len(und), "known_findings": len(kn),
                "distinct_observables": len({o.name for o in self.obs}),
                "entries": sorted(set(self.entries)),
                "functions_analysed": sorted(self.functions), "call_sites": self.callsites,
                "reference_definitions": sorted(self.specs),
                "rules": sorted({o.rule for o in self.obs if o.rule}),
                "samples": [f"{o.name} [{o.config}] {o.status}" for o in self.obs[:12]],
                "undecided_list": sorted({f"{o.name}: {o.detail[:300]}" for o in und})[:60],
            },
            "assumptions": ["library functions are deterministic functions of their arguments (seeded generators: of their seed)",
                            "floating-point rounding is ignored when expressions are normalised"],
            "wall_s": round(time.time() - self.t0, 2), "violations": len(viol),
        }
        with open(os.path.join(evd, f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.pid}: {len(self.obs)} obligations, {len(ok)} discharged, {len(und)} undecided, {len(kn)} known, "
              f"{len(viol)} violated; {len(self.functions)} functions, {self.callsites} call sites, {time.time()-self.t0:.1f}s")
        for fid, n in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {fid}: {self.known[fid]}")
        for o in und[:8]:
            print(f"  undecided {o.name} [{o.config}] {o.detail[:240]}")
        if not self.obs:
            print("ERROR: nothing analysed")
            return 2
        if viol:
            seen = {}
            for o in viol:
                seen.setdefault(o.name, o)
            rp = os.path.join(evd, f"{self.pid}.violations.txt")
            with open(rp, "w") as fh:
                for o in viol:
                    fh.write(f"{o.name} [{o.config}] at {o.where}\n    {o.detail}\n")
            for o in list(seen.values())[:10]:
                print(f"  violated {o.name} [{o.config}] at {o.where}: {o.detail[:400]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


def _cv(v):
    return getattr(v, "label", None) or (repr(v) if not callable(v) else getattr(v, "__name__", "?"))


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                parts = line[6:].strip().split(None, 2)
                if parts[0] == f"property={pid}":
                    out[parts[1].rstrip(":")] = parts[2]
    return out
