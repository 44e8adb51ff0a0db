"""How a running order is found from what the stages declare.  Analysed, never executed."""
from typing import get_args, get_origin

from instancespace.stage_builder import StageResolutionError, _BeforeAfterRestriction, _StageRestrictions
from instancespace.stage_runner import RunAfter, RunBefore, StageRunner, StageRunningError, _StageArgument


def restriction(kind, *which):
    o = get_origin(kind) or kind
    return isinstance(o, type) and issubclass(o, which)


def arguments(named_tuple):
    return {_StageArgument(k, v) for k, v in named_tuple.__annotations__.items()}


def added(self, stage):
    if stage in self._stages:
        raise ValueError("twice")
    if any(restriction(a.parameter_type, RunBefore, RunAfter) for a in arguments(stage._outputs())):
        raise TypeError("restriction as output")
    self._stages.add(stage)
    self._stage_inputs[stage] = arguments(stage._inputs())
    self._stage_outputs[stage] = arguments(stage._outputs())
    return self


def plain(declared):
    return {a for a in declared if not restriction(a.parameter_type, RunBefore, RunAfter)}


def mutating(self):
    return {s: self._stage_inputs[s] & self._stage_outputs[s] for s in self._stages if len(self._stage_inputs[s] & self._stage_outputs[s]) > 0}


def restrictions(self):
    r = set()
    for s in self._stages:
        for a in self._stage_inputs[s]:
            if restriction(a.parameter_type, RunBefore):
                r.add(_BeforeAfterRestriction(s, get_args(a.parameter_type)[0]))
            if restriction(a.parameter_type, RunAfter):
                r.add(_BeforeAfterRestriction(get_args(a.parameter_type)[0], s))
    return r


def of_stage(restr, stage):
    return _StageRestrictions({a for b, a in restr if b == stage}, {b for b, a in restr if a == stage})


def resolves(self, stage, resolved, available, restr):
    return len(plain(self._stage_inputs[stage]) - available) == 0 and len(of_stage(restr, stage).run_after - resolved) == 0


def first_in_line(self, can, mutates):
    now = {s for s in can if s in mutates}
    if not now:
        return can
    for s in now:
        for t in now - {s}:
            if mutates[s] & mutates[t]:
                raise StageResolutionError("two mutating stages")
    return {s for s in can if not {a for a in self._stage_inputs[s]
                                   if any(a in mutates[t] for t in now) and not (s in mutates and a in mutates[s])}}


def first_in_line_short(self, can, mutates):
    now = {s for s in can if s in mutates}
    for s in now:
        for t in now - {s}:
            if mutates[s] & mutates[t]:
                raise StageResolutionError("two mutating stages")
    return {s for s in can if not {a for a in self._stage_inputs[s]
                                   if any(a in mutates[t] for t in now) and not (s in mutates and a in mutates[s])}}


def ordered(self, initial):
    done = set()
    order = []
    have = initial.copy()
    before = None
    mutates = mutating(self)
    restr = restrictions(self)
    while before is None or len(done - before) > 0:
        if not self._stages - done:
            return order
        before = done.copy()
        can = {s for s in self._stages - done if resolves(self, s, done, have, restr)}
        now = first_in_line(self, can, mutates)
        for s in now:
            for t in now - {s}:
                if self._stage_outputs[s] & self._stage_outputs[t]:
                    raise StageResolutionError("two stages give the same")
        for s in now:
            have |= self._stage_outputs[s]
            done.add(s)
        order.append(list(now))
    if self._stages - done:
        raise StageResolutionError("left over")
    return order


def order_for_set(self, initial):
    return StageRunner(ordered(self, initial), self._stage_inputs, self._stage_outputs, initial)


def order_for_tuple(self, initial):
    have = arguments(initial)
    return StageRunner(ordered(self, have), self._stage_inputs, self._stage_outputs, have)


def runnable(stages, inputs, outputs, initial):
    have = initial.copy()
    for step in stages:
        for s in step:
            if not plain(inputs[s]) <= have:
                raise StageRunningError("missing")
        for s in step:
            have |= outputs[s]
