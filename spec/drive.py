"""Calls of the repository with one given section, so that each is read on its own."""
from instancespace.data.options import InstanceSpaceOptions


def one(name, section):
    return InstanceSpaceOptions.from_dict({name: section})


def tried(contents):
    try:
        return InstanceSpaceOptions.from_dict(contents)
    except ValueError:
        return "refused"


def defaults():
    return InstanceSpaceOptions.default()


def given(parallel, perf, auto, bound, norm, selvars, sifted, pilot, cloister, pythia, trace, outputs):
    return InstanceSpaceOptions.default(parallel=parallel, perf=perf, auto=auto, bound=bound, norm=norm, selvars=selvars, sifted=sifted, pilot=pilot,
                                        cloister=cloister, pythia=pythia, trace=trace, outputs=outputs)
