"""Running stages one after another over the data they exchange.  Analysed, never executed."""
from collections import defaultdict
from copy import deepcopy

from instancespace.instance_space import _InstanceSpaceInputs
from instancespace.model import Model
from instancespace.stage_runner import AnnotatedStageOutput, RunAfter, RunBefore, StageRunningError
from spec.builder import restriction, runnable


def created(self, stages, inputs, outputs, initial):
    runnable(stages, inputs, outputs, initial)
    self._stage_order = stages
    self._schedule_output_data = [{}]
    self._available_arguments = {}
    self._current_schedule_item = 0
    self._stages_ran = defaultdict(lambda: False)
    self._stage_to_schedule_index = {}
    for k, step in enumerate(stages):
        for s in step:
            self._stage_to_schedule_index[s] = k


def rolled_back(self, index):
    self._schedule_output_data = self._schedule_output_data[:index + 1]
    self._available_arguments = self._schedule_output_data[index].copy()
    self._current_schedule_item = index
    for step in self._stage_order[index:]:
        for s in step:
            self._stages_ran[s] = False


def rolled_back_counting(self, index):
    self._schedule_output_data = self._schedule_output_data[:index + 1]
    self._available_arguments = self._schedule_output_data[index].copy()
    self._current_schedule_item = index
    for k in range(index, len(self._stage_order)):
        for s in self._stage_order[k]:
            self._stages_ran[s] = False


def rolled_back_by_index(self, index):
    self._schedule_output_data = self._schedule_output_data[:index + 1]
    self._available_arguments = self._schedule_output_data[index].copy()
    self._current_schedule_item = index
    for s, k in self._stage_to_schedule_index.items():
        if k >= index:
            self._stages_ran[s] = False


def restarted(self, initial):
    self._schedule_output_data = [initial._asdict()]
    rolled_back(self, 0)


def progressed(self):
    if all(self._stages_ran[s] for s in self._stage_order[self._current_schedule_item]):
        self._schedule_output_data.append(self._available_arguments.copy())
        self._current_schedule_item += 1


def ran(self, stage, **given):
    at = self._stage_to_schedule_index[stage]
    if at > self._current_schedule_item:
        raise StageRunningError("prerequisites")
    if at < self._current_schedule_item:
        rolled_back(self, at)
    have = {**self._available_arguments, **given}
    kinds = stage._inputs()
    arguments = {}
    for n in kinds._fields:
        arguments[n] = None if restriction(kinds.__annotations__[n], RunBefore, RunAfter) else have[n]
    result = stage._run(deepcopy(kinds(**arguments)))
    for n, v in result._asdict().items():
        self._available_arguments[n] = v
    self._stages_ran[stage] = True
    progressed(self)
    return result


def ran_all(self, initial):
    restarted(self, initial)
    for step in self._stage_order:
        for s in step:
            self.run_stage(s)
    return self._available_arguments


def ran_until(self, stage, initial):
    restarted(self, initial)
    for step in self._stage_order:
        for s in step:
            self.run_stage(s)
        if stage in step:
            break
    return self._available_arguments


def iterated(self, initial):
    restarted(self, initial)
    for step in self._stage_order:
        for s in step:
            yield AnnotatedStageOutput(s, self.run_stage(s))
    return self._available_arguments


def inputs_of(self):
    return _InstanceSpaceInputs.from_metadata_and_options(self._metadata, self._options)


def current_model(self):
    if self._model is None:
        if self._final_output is None:
            raise StageRunningError("not built")
        self._model = Model.from_stage_runner_output(self._final_output, self._options)
    return self._model


def built(self):
    self._final_output = self._runner.run_all(inputs_of(self))
    self._model = Model.from_stage_runner_output(self._final_output, self._options)
    return self._model


def built_stepwise(self):
    self._final_output = yield from self._runner.run_iter(inputs_of(self))
    self._model = None


def one_stage(self, stage, **given):
    return self._runner.run_stage(stage, **given)


def until_stage(self, stage):
    return self._runner.run_until_stage(stage, inputs_of(self))
