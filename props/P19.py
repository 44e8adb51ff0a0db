from common import *
from terms import NONE

O = INST + "data.options:"
IS = INST + "instance_space:"
META = INST + "data.metadata:"
SP = "spec.settings:"


def handed(I, loc):
    """InstanceSpace.__init__ as the record of what it was given"""
    for f in ("metadata", "options"):
        I.setattr(loc["self"], "given_" + f, loc[f])
    return I.box(NONE)


def failing(*classes):
    """the result when reading goes well, and when it fails with each of these exceptions"""
    def pick(r):
        from compare import rewrite
        from terms import FALSE, TRUE, subclass, subterms
        out = dict(observed()(r))
        t = out.pop("result")
        atoms = [x for x in subterms(t) if x.op == "exc"]
        out["read"] = rewrite(t, {id(x): FALSE for x in atoms})
        for k in classes:
            out["failed with " + k] = rewrite(t, {id(x): TRUE if subclass(k, x.args[0].args[0].args[0]) else FALSE for x in atoms})
        return out
    return pick


def check(c):
    see = observed()
    c.equiv("options file", O + "from_json_file", SP + "from_json_file", [symarg("file_path", None, "Path")],
            pick=failing("FileNotFoundError", "IsADirectoryError", "JSONDecodeError", "UnicodeDecodeError", "ValueError"), models={O + "InstanceSpaceOptions.from_dict": opaque("from_dict", fails=True)})
    c.equiv("metadata", META + "Metadata.from_data_frame", SP + "from_data_frame", [symarg("data", None, "DataFrame")], pick=see)
    c.equiv("metadata file", META + "from_csv_file", SP + "from_csv_file", [symarg("file_path", None, "Path")],
            pick=failing("FileNotFoundError", "IsADirectoryError", "EmptyDataError", "ParserError", "UnicodeDecodeError"), models={META + "Metadata.from_data_frame": opaque("from_data_frame")})
    k = {META + "from_csv_file": opaque("from_csv_file"), O + "from_json_file": opaque("from_json_file"), IS + "InstanceSpace.__init__": handed}
    c.equiv("from files", IS + "instance_space_from_files", SP + "from_files", [symarg("m", None, "Path"), symarg("o", None, "Path")], pick=see, models=k)
    c.equiv("from directory", IS + "instance_space_from_directory", SP + "from_directory", [symarg("directory", None, "Path")], pick=see, models=k)
