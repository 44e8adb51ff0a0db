from common import *

M = INST + "model:Model"
OUT = symarg("out", None, "Path")
DIMS = {"self.data.x": ("N", "F"), "self.data.y": ("N", "A"), "self.data.x_raw": ("N", "G"), "self.data.y_raw": ("N", "A"), "self.data.y_bin": ("N", "A"),
        "self.data.num_good_algos": ("N",), "self.data.beta": ("N",), "self.data.p": ("N",), "self.pythia.y_hat": ("N", "A"), "self.pythia.selection0": ("N",),
        "self.pilot.z": ("N", 2), "self.cloister.z_edge": ("E", 2), "self.cloister.z_ecorr": ("C", 2)}
SAVES = ("save_to_csv", "save_for_web", "save_graphs", "save_to_mat", "save_zip")


def changed(events):
    """events that change something the caller holds, those in loops included"""
    for e in events:
        if e.kind == "mutate":
            yield e
        if e.inner:
            yield from changed(e.inner)


def check(c):
    from effects import Effects
    from engine import MissingAnchor
    from terms import show
    rule = "effects: nothing reachable from the model is assigned or changed in place"
    me = symarg("self", M)
    for fn in SAVES:
        args = [me, symarg("zip_filename", None, "str"), OUT] if fn == "save_zip" else [me, OUT]
        try:
            r = c.entry(M + "." + fn, args, dims=DIMS)
        except MissingAnchor as e:
            c.rule(fn, None, str(e), rule=rule)
            continue
        t = r.interp.term(r.args[0])
        evs = list(changed(r.events))
        c.rule(fn + " leaves the model", t.op == "sym", "the model afterwards: " + show(t, 4)[:300], M + "." + fn, rule=rule)
        c.rule(fn + " changes nothing in place", not evs, "; ".join(f"{show(e.term, 3)[:120]} in {e.fn} at {e.where}" for e in evs[:3]),
               str(evs[0].where) if evs else None, rule=rule)
    rule = "effects: what the caller hands in is not changed in place"
    for fn, name, typ in (("data.metadata:Metadata.from_data_frame", "data", "DataFrame"), ("data.options:InstanceSpaceOptions.from_dict", "file_contents", "dict[str, Any]")):
        try:
            r = c.entry(INST + fn, [symarg(name, None, typ)])
        except MissingAnchor as e:
            c.rule(fn, None, str(e), rule=rule)
            continue
        evs = list(changed(r.events))
        c.rule(fn.split(":")[1] + " leaves what it is given", not evs, "; ".join(f"{show(e.term, 3)[:120]} in {e.fn} at {e.where}" for e in evs[:3]),
               str(evs[0].where) if evs else None, rule=rule)
    e = Effects(c.prog)
    rule = "effects over the call graph: what building reaches writes no files and changes no settings of the process"
    reached = e.reach([f for f in e.fns if f.name == "_run" or f.cls is not None and f.cls.name in ("InstanceSpace", "StageRunner", "StageBuilder")])
    for f in reached:
        bad = e.ambient(f)
        if f.name != "<lambda>":
            c.functions.add(f.qual().replace(":", "."))
        c.callsites += len(f.calls)
        if f.name != "<lambda>" or bad:
            n = bad[0] if bad else None
            c.rule(f.qual() + f" (line {f.node.lineno})" if f.name == "<lambda>" else f.qual(), not bad, f"{n[1]}" if n else "", e.loc(f, n[0]) if n else None, rule=rule)
