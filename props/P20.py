from common import *


def check(c):
    from effects import Effects
    e = Effects(c.prog)
    rule = "provenance of seeds: constants, and draws from generators made in the same run"
    count = {}
    for f, call, what, ok, why in e.random_sites():
        k = (f.qual(), what)
        count[k] = count.get(k, 0) + 1
        c.rule(f"seed of {what.rsplit('.', 1)[-1]} in {f.qual()} #{count[k]}", ok, f"{what}: {why}", e.loc(f, call), rule=rule)
    state, flows = e.taint()
    rule = "taint: clock, environment, process, addresses, and state kept between runs reach no output and decide no computation"
    for f in e.fns:
        if f.name != "<lambda>":
            c.functions.add(f.qual().replace(":", "."))
    c.callsites += sum(len(f.calls) for f in e.fns)
    hit = {}
    for ok, where, why, what in flows:
        hit.setdefault(what, []).append((ok, where, why))
    for what, uses in hit.items():
        bad = [u for u in uses if u[0] is False]
        ok, where, why = (bad or uses)[0]
        c.rule(f"use of {what.split(',')[0]}", ok, f"{what}: {why}" + (f" (and {len(bad or uses) - 1} more)" if len(bad or uses) > 1 else ""), where, rule=rule)
    c.rule("flows", True, f"{len(e.fns)} functions followed, {len(state)} pieces of kept state", rule=rule)
    rule = "concurrent work: own generators, results placed by what they belong to"
    n = {}
    for ok, where, why, what in e.concurrent():
        i = n[what] = n.get(what, 0) + 1
        c.rule(f"{what} #{i}", ok, why, where, rule=rule)
    rule = "order of sets of text: never kept"
    for i, (ok, where, why, what) in enumerate(e.set_order(), 1):
        c.rule(f"order of set #{i} in {what}", ok, why, where, rule=rule)
