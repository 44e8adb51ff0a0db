"""Files written by the exporters, as values: file name pattern -> what it holds"""
from common import observed
from engine import symarg
from terms import NONE, ONE, ZERO, const, mk_add, mk_dstore, mk_lcat, raw
from values import TupV


def pattern(t):
    """(pattern of the file name, key among the files of that pattern)"""
    last = t.args[-1] if t.op == "path" else t
    parts = last.args if last.op == "scat" else (last,)
    out, key = "", []
    for p in parts:
        if p.op == "const":
            out += str(p.args[0])
        else:
            out += "*"
            key.append(p)
    folder = t.args[:-1] if t.op == "path" else ()
    return out, raw("file", (raw("path", folder), *key))


def world(names):
    def mk(I):
        w = symarg("world", "spec.world:World")(I)
        for n in [*names, "other"]:
            I.setattr(w, n, I.box(raw("dict", ())))
        return w
    return mk


def write(I, path, content, names):
    n, key = pattern(path)
    if n not in names:
        n, key = "other", path
    I.setattr(I.world, n, I.box(mk_dstore(I.term(I.getattr(I.world, n)), key, content)))


def csv_models(names):
    def to_csv(I, recv, t, pos, kw):
        path = pos[0] if pos else kw.get("path_or_buf")
        if path is None:
            return None
        rest = [raw("kw:" + k, (v,)) for k, v in sorted(kw.items()) if k != "path_or_buf"]
        write(I, path, raw("call:csv", [t, *pos[1:], *rest]), names)
        return NONE_V(I)
    return {"$world": world(names), "$method:to_csv": to_csv}


def NONE_V(I):
    return I.box(NONE)


def written(names, also=()):
    base = observed()

    def pick(r):
        out = base(r)
        out.pop("result", None)
        if not r.dead:
            for n in [*names, "other", *also]:
                out[n] = r.interp.term(r.interp.getattr(r.interp.world, n))
        return out
    return pick


def figure_models(names):
    """a figure is its title, its groups of points (with label and values shown as colours) and its shapes"""
    empty = raw("list", ())

    def add(I, log, t):
        I.setattr(I.world, log, I.box(mk_lcat([I.term(I.getattr(I.world, log)), raw("list", (t,))])))
        return NONE_V(I)

    def count(I, n):
        I.setattr(I.world, "open", I.box(mk_add(I.term(I.getattr(I.world, "open")), n)))

    def subplots(I, args, kwargs):
        for log in ("points", "shapes"):
            I.setattr(I.world, log, I.box(empty))
        I.setattr(I.world, "title", NONE_V(I))
        count(I, ONE)
        return TupV([I.box(raw("call:figure", ())), I.box(raw("call:axes", ()))])

    def scatter(I, recv, t, pos, kw):
        c = kw.get("c", NONE)
        if c.op == "list":      # fixed colours
            c = NONE
        x = pos[0] if pos else kw.get("x", NONE)
        y = pos[1] if len(pos) > 1 else kw.get("y", NONE)
        return add(I, "points", raw("call:points", (x, y, c, kw.get("label", NONE))))

    def patch(I, recv, t, pos, kw):
        return add(I, "shapes", pos[0])

    def outline(I, args, kwargs):
        return I.box(raw("call:outline", [I.term(a) for a in (*args[:1], *([kwargs["xy"]] if "xy" in kwargs else []))]))

    def title(I, recv, t, pos, kw):
        I.setattr(I.world, "title", I.box(pos[0] if pos else kw.get("t", NONE)))
        return NONE_V(I)

    def save(I, recv, t, pos, kw):
        g = [I.term(I.getattr(I.world, f)) for f in ("title", "points", "shapes")]
        write(I, pos[0] if pos else kw["fname"], raw("call:figure_of", g), names)
        return NONE_V(I)

    def close(I, args, kwargs):
        count(I, MINUS)
        return NONE_V(I)

    def nothing(I, args, kwargs):
        return NONE_V(I)

    def start(I):
        w = world(names)(I)
        for log in ("points", "shapes"):
            I.setattr(w, log, I.box(empty))
        I.setattr(w, "title", NONE_V(I))
        I.setattr(w, "open", I.box(ZERO))
        return w
    quiet = {"$method:" + n: (lambda I, recv, t, pos, kw: NONE_V(I) if t.op in ("call:axes", "call:figure") else None) for n in COSMETIC}
    return {**quiet, "$world": start, "$method:scatter": scatter, "$method:add_patch": patch, "$method:suptitle": title, "$method:savefig": save,
            **{p + "subplots": subplots for p in PLT}, **{p + "close": close for p in PLT}, **{p + "clf": nothing for p in PLT},
            **{p: outline for p in ("mpl.patches.Polygon", "matplotlib.patches.Polygon")}}


COSMETIC = ("set_xlim", "set_ylim", "set_xlabel", "set_ylabel", "set_title", "legend", "colorbar", "grid", "set_aspect", "tight_layout", "axis")
MINUS = const(-1)
PLT = ("plt.", "matplotlib.pyplot.")


def archive_models(names):
    def savemat(I, args, kwargs):
        ts = [I.term(a) for a in args] + [I.term(kwargs[k]) for k in ("file_name", "mdict") if k in kwargs]
        write(I, ts[0], raw("call:mat", ts[1:2]), names)
        return NONE_V(I)

    def zipped(I, recv, t, pos, kw):
        if t.op != "call:zip":
            return None
        I.setattr(I.world, "zip", I.box(mk_lcat([I.term(I.getattr(I.world, "zip")), raw("list", (raw("entry", (t, *pos, *(kw[k] for k in sorted(kw)))),))])))
        return NONE_V(I)

    def zipfile(I, args, kwargs):
        return I.box(raw("call:zip", [I.term(a) for a in args] + [I.term(kwargs[k]) for k in ("mode", "compression") if k in kwargs]))

    def start(I):
        w = world(names)(I)
        I.setattr(w, "zip", I.box(raw("list", ())))
        return w
    return {"$world": start, "$method:write": zipped, **{n: savemat for n in ("savemat", "scipy.io.savemat")}, **{n: zipfile for n in ("zipfile.ZipFile", "ZipFile")}}
