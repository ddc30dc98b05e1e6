"""Which contracts and which run-time harness decide each property."""


def _block():
    from .specs import block
    return block


def _life():
    from .specs import life
    return life


def _c01():
    from .specs import hyperslab as h
    return h.tasks_interp(["up", "low", "lowtol"], "value is the multilinear interpolant of an enclosing cell") + h.tasks_nearest() + h.tasks_compose() + h.tasks_getslab() + _block().tasks_query() + h.lemmas()


def _c02():
    from .specs import hyperslab as h
    return h.tasks_getslab() + h.tasks_ctor() + _block().tasks_open() + _block().tasks_query() + h.tasks_compose() + h.tasks_interp(["up", "low"], "value is a function of the data set and the point only") + h.lemmas() + _life().tasks_c02()


def _c03():
    from .specs import hyperslab as h
    return h.tasks_interp(["up", "low", "lowtol"], "NODATA iff a vertex is NODATA, else the interpolant") + h.tasks_nearest() + h.lemmas()


def _c04():
    from .specs import indexing as i
    return i.tasks()


def _c05():
    from .specs import model as m
    return m.tasks_map() + _life().tasks_c05()


def _c06():
    from .specs import model as m, block as b, metadata as d
    return m.tasks_block() + b.tasks_range() + b.tasks_query() + d.tasks_model()


def _c07():
    from .specs import query as q
    return q.tasks_query() + _life().tasks_c07()


def _c08():
    from .specs import query as q
    return q.tasks_names() + q.tasks_query() + q.tasks_init()


def _c09():
    from .specs import query as q
    return q.tasks_units() + q.tasks_init()


def _c10():
    from .specs import query as q
    return q.tasks_query() + q.tasks_config() + q.tasks_init()


def _c11():
    from .specs import query as q, model as m
    return q.tasks_elev() + m.tasks_elev() + [t for t in m.tasks_map() if t.name == "rotation lemma"]


def _c12():
    from .specs import capi as c
    return c.tasks_cquery() + c.tasks_ceh()


def _c13():
    from .specs import capi as c
    return c.tasks_handler() + c.tasks_ceh()


def _c14():
    from .specs import metadata as m
    return m.tasks_info() + m.tasks_grid() + m.tasks_model()


def _c15():
    from .specs import storage as t
    return t.tasks()


def _c16():
    from .specs import isosurface as i
    return i.tasks_search()


def _c17():
    from .specs import isosurface as i
    from .specs import apps as a
    return i.tasks_run() + [a.t_main("Isosurface")]


def _c18():
    from .specs import apps as a
    return a.tasks_c18()


def _c19():
    from .specs import apps as a
    return a.tasks_c19()


def _c20():
    from .specs import info as i, apps as a
    return i.tasks() + [a.t_main("Info")]


def _c24():
    from .specs import geotiff as g
    return g.tasks()


def _c26():
    from .specs import crs as c
    return c.tasks()


def _c25():
    from .specs import pybind as p
    return p.tasks()


def _prog25(repo):
    from .specs import pybind as p
    return p.program(repo)


def _c21():
    from .specs import batch as b
    return b.tasks()


def _c22():
    from .specs import builder as b
    return b.tasks()


def _c23():
    from .specs import pystore as b, pyconfig as c
    return b.tasks() + c.tasks()


def _c28():
    from .specs import infoprint as i
    return i.tasks()


def _c27():
    from .specs import datasrc as b
    return b.tasks()


def _progpy(repo):
    from .specs import builder as b
    return b.program(repo)


PYTRUST = ["contract trusted: numpy array operations (array, linspace, arange, meshgrid, stack, zeros, ix_, slicing and broadcasting, searchsorted, sort, min, max), written in vc/pyvc.py",
           "contract trusted: Python built-ins used by the code (len, range, zip, map, int, float, tuple, list, isinstance, getattr), written in vc/pyvc.py"]
DSTRUST = ["contract trusted: numpy functions used by the data sources (loadtxt, savetxt, argmin, vectorize, flat/reshape/ravel/transpose, maximum, minimum, diff, std), written in vc/pyvc.py and vc/specs/datasrc.py",
           "contract trusted: pyproj transformation, netCDF4 variables, the EarthVision programs (ev_label, ev_fp) as functions of the point"]
H5TRUST = ["contract trusted: texts and configuration: float(), int(), str.split and str.strip as functions of the text, json.loads, configparser.ConfigParser (read, sections, items), argparse (add_argument, parse_args)",
           "contract trusted: h5py files, groups, datasets and attributes (create, delete, slice assignment, slice reading)"]

PROPS = {
    "C01": dict(tasks=_c01, harness=[dict(src="interp")]),
    "C02": dict(tasks=_c02, harness=[dict(src="interp")]),
    "C03": dict(tasks=_c03, harness=[dict(src="interp")]),
    "C04": dict(tasks=_c04, harness=[dict(src="index")], secs=5),
    "C05": dict(tasks=_c05, harness=[dict(src="model")]),
    "C06": dict(tasks=_c06, harness=[dict(src="model")]),
    "C07": dict(tasks=_c07, harness=[dict(src="query")]),
    "C08": dict(tasks=_c08, harness=[dict(src="query")]),
    "C09": dict(tasks=_c09, harness=[dict(src="query")]),
    "C10": dict(tasks=_c10, harness=[dict(src="query")]),
    "C11": dict(tasks=_c11, harness=[dict(src="query")]),
    "C12": dict(tasks=_c12, harness=[dict(src="capi")]),
    "C13": dict(tasks=_c13, harness=[dict(src="capi")], secs=5),
    "C14": dict(tasks=_c14, harness=[dict(src="meta")]),
    "C15": dict(tasks=_c15, harness=[dict(src="storage")]),
    "C16": dict(tasks=_c16, harness=[dict(src="isosurface")], secs=15),
    "C17": dict(tasks=_c17, bins=("isosurface",), harness=[dict(src="isosurface")], secs=15),
    "C18": dict(tasks=_c18, bins=("query", "queryelev",), harness=[dict(src="apps")], secs=12),
    "C19": dict(tasks=_c19, bins=("borehole",), harness=[dict(src="apps")], secs=10),
    "C20": dict(tasks=_c20, bins=("info",), harness=[dict(src="info")], secs=10),
    "C21": dict(tasks=_c21, program=_progpy, python=True, trusted=PYTRUST, harness=[dict(src="batch", py=True)], secs=6),
    "C22": dict(tasks=_c22, program=_progpy, python=True, trusted=PYTRUST, harness=[dict(src="builder", py=True)], secs=10),
    "C23": dict(tasks=_c23, program=_progpy, python=True, trusted=PYTRUST + H5TRUST, harness=[dict(src="storage_py", py=True)], secs=15),
    "C24": dict(tasks=_c24, harness=[dict(src="geotiff")], secs=8),
    "C25": dict(tasks=_c25, program=_prog25, harness=[dict(src="bind")], secs=15, flags=["-fno-sanitize=alignment", "-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/pybind11/include"], link=["-lpython3.12"],
                extra_src=["modulesrc/%s.cc" % n for n in ("Query_wrap", "Model_wrap", "ModelInfo_wrap", "ErrorHandler_wrap", "geomodelgrids")]),
    "C26": dict(tasks=_c26, harness=[dict(src="crs")], secs=10),
    "C27": dict(tasks=_c27, program=_progpy, python=True, trusted=PYTRUST + DSTRUST, harness=[dict(src="datasrc", py=True)], secs=12),
    "C28": dict(tasks=_c28, harness=[dict(src="infoprint")], secs=10),
}

LEVEL_NOTE = ("Obligations generated from the current source are discharged for all inputs by z3/cvc5; reals for doubles, mathematical integers; the contracts of library calls are assumed and sampled by the "
              "run-time contracts (bounded, not counted as proved).")
NOTES = "Each check regenerates the obligations from /repo's source, discharges them, and runs the same contracts as run-time oracles against the code compiled from /repo."
NOT_APPLICABLE = {}
