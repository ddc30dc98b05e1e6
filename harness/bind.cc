// Run-time contract of the Python bindings (C25): the module's own code in an embedded interpreter, arrays of every layout,
// compared point by point with C++ objects of the library.
#include "oracle.hh"
#include "geomodelgrids/serial/Query.hh"
#include "geomodelgrids/serial/Model.hh"
#include "geomodelgrids/utils/ErrorHandler.hh"
#include "pybind11/embed.h"
#include "pybind11/stl.h"
namespace py = pybind11;
using namespace gm;
using geomodelgrids::serial::Query;
using geomodelgrids::serial::Model;
extern "C" PyObject* PyInit__geomodelgrids();
static const char* SETUP = R"(
import numpy as np
def make(kind, rows, dim):
    a = np.array(rows, dtype=np.float64).reshape((len(rows), dim))
    n = len(rows)
    if kind == 'c': return a
    if kind == 'fortran': return np.asfortranarray(a)
    if kind == 'transposed': return np.ascontiguousarray(a.T).T
    if kind == 'rows2':
        b = np.full((2*n+1, dim), 7.0e7); b[:2*n:2] = a; return b[:2*n:2]
    if kind == 'reversed': return np.ascontiguousarray(a[::-1])[::-1]
    if kind == 'columns':
        b = np.full((n, 2*dim+3), 7.0e7); b[:, 1:1+2*dim:2] = a; return b[:, 1:1+2*dim:2]
    if kind == 'revcols': return np.ascontiguousarray(a[:, ::-1])[:, ::-1]
    if kind == 'float32': return a.astype(np.float32)
    if kind == 'int64': return np.round(a).astype(np.int64)
    if kind == 'int32': return np.round(a).astype(np.int32)
    if kind == 'bigendian': return a.astype('>f8')
    if kind == 'list': return a.tolist() if n else a
    if kind == 'readonly':
        b = a.copy(); b.setflags(write=False); return b
    if kind == 'longdouble': return a.astype(np.longdouble)
    if kind == 'broadcast': return np.broadcast_to(a[:1], (n, dim)) if n else a
    if kind == 'unaligned':
        raw = np.zeros(n*dim*8+1, dtype=np.uint8); b = raw[1:].view(np.float64).reshape((n, dim)) if n else a
        if n: b[:] = a
        return b
    if kind == 'offset':
        b = np.full((n+3, dim), 7.0e7); b[2:2+n] = a; return b[2:2+n]
KINDS = ['c','fortran','transposed','rows2','reversed','columns','revcols','float32','int64','int32','bigendian','list','readonly','longdouble','broadcast','unaligned','offset']
def rows(a): return np.asarray(a, dtype=np.float64).tolist()
def bad(i, rows, dim):
    a = np.array(rows, dtype=np.float64).reshape((len(rows), dim)) if len(rows) else np.zeros((0, dim))
    o = 5 - dim
    return [a.ravel(), a[:, :1], np.zeros((len(rows), o)), np.zeros((len(rows), dim + 2)), a.reshape((len(rows), dim, 1)), a.reshape((1, len(rows), dim)), np.zeros((len(rows), 0)), np.float64(3.0), np.zeros(0), np.zeros(dim), np.zeros((len(rows), dim, 2)), np.zeros((len(rows), o)), np.zeros((dim, len(rows))) if len(rows) != dim else a[:, :1]][i]
NBAD = 13
)";
typedef std::vector<std::vector<double> > Rows;
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
struct Arr { std::vector<py::ssize_t> shape; std::vector<double> v; std::string type; };
static Arr toArr(const py::handle& o, py::dict& g) {
    Arr r;
    if (!py::hasattr(o, "shape")) { r.type = "not an array"; return r; }
    r.type = py::str(o.attr("dtype").attr("name"));
    r.shape = o.attr("shape").cast<std::vector<py::ssize_t> >();
    r.v = g["np"].attr("asarray")(o, py::arg("dtype") = "float64").attr("ravel")().attr("tolist")().cast<std::vector<double> >();
    return r;
}
static std::string shapeStr(const Arr& a) { std::string s = "("; for (auto d : a.shape) s += fmt("%ld,", (long)d); return s + ") " + a.type; }
int main(int argc, char** argv) {
    init(argc, argv);
    PyImport_AppendInittab("_geomodelgrids", PyInit__geomodelgrids);
    py::scoped_interpreter guard(false);
    py::dict g = py::globals();
    py::exec(SETUP, g);
    std::vector<std::string> kinds = g["KINDS"].cast<std::vector<std::string> >();
    py::module_ m = py::module_::import("_geomodelgrids");
    check(m.attr("Query").attr("NODATA_VALUE").cast<double>() == NODATA, "NODATA value of the module", "");
    for (int it = 0; timeLeft(); ++it) {
        int nm = ri(1, 3);
        double X0 = rd(-5e5, 5e5), Y0 = rd(-5e5, 5e5), L = pick(std::vector<double>{2000, 30000});
        std::vector<ModelO> ms(nm);
        std::vector<std::string> all{"Vp", "Vs", "density", "Qp", "Qs", "fault"}, files;
        int nv = ri(1, 6); std::vector<std::string> names(all.begin(), all.begin() + nv); std::shuffle(names.begin(), names.end(), rep().rng);
        std::string in = coin(10) ? "EPSG:26910" : "EPSG:3311", sh = fmt("it=%d models=%d values=%d", it, nm, nv);
        for (int k = 0; k < nm; ++k) {
            RandOpt ro; ro.L = L; ro.maxBlocks = 2; ro.names = all; ro.units.assign(all.size(), "m");
            ro.x0 = X0 + (k ? rd(-0.7, 0.7) * L : 0); ro.y0 = Y0 + (k ? rd(-0.7, 0.7) * L : 0);
            ms[k].m = randModel(ro); ms[k].file = fmt("m%d.h5", k); write(ms[k].m, ms[k].file); ms[k].open(in); files.push_back(ms[k].file);
        }
        scenario(sh);
        Query ref; py::object q = m.attr("Query")();
        Model rm; py::object pm = m.attr("Model")();
        try {
            ref.initialize(files, names, in);
            q.attr("initialize")(files, names, in);
            rm.open(files[0].c_str(), Model::READ); rm.loadMetadata(); rm.setInputCRS(in); rm.initialize();
            pm.attr("open")(files[0], m.attr("Model").attr("READ")); pm.attr("load_metadata")(); pm.attr("set_input_crs")(in); pm.attr("initialize")();
        } catch (const std::exception& e) { fail("initialization fails", e.what()); continue; }
        { auto d = pm.attr("dims").cast<std::vector<double> >(), o = pm.attr("origin").cast<std::vector<double> >();
          check(d.size() == 3 && same(d[0], rm.getDims()[0]) && same(d[1], rm.getDims()[1]) && same(d[2], rm.getDims()[2]), "model dimensions", show(d));
          check(o.size() == 2 && same(o[0], rm.getOrigin()[0]) && same(o[1], rm.getOrigin()[1]), "model origin", show(o));
          check(pm.attr("value_names").cast<std::vector<std::string> >() == rm.getValueNames() && same(pm.attr("y_azimuth").cast<double>(), rm.getYAzimuth()), "model properties", ""); }
        int sq = ri(0, 2);
        if (sq) { double e = -0.05 * L; auto E = m.attr("Query").attr("SquashingEnum");
            ref.setSquashMinElev(e); q.attr("set_squash_min_elev")(e);
            ref.setSquashing(sq == 1 ? Query::SQUASH_TOP_SURFACE : Query::SQUASH_TOPOGRAPHY_BATHYMETRY);
            q.attr("set_squashing")(E.attr(sq == 1 ? "SQUASH_TOP_SURFACE" : "SQUASH_TOPOGRAPHY_BATHYMETRY")); }
        struct Old { py::object o; Arr a; std::string what; }; std::vector<Old> old;
        for (int rnd = 0; rnd < 8 && timeLeft(); ++rnd) {
            int np = pick(std::vector<int>{0, 1, 2, 3, 4, 5, 7, 17, 60}), dim = coin() ? 2 : 3;
            std::string kind = pick(kinds);
            Rows rows(np, std::vector<double>(dim));
            for (auto& r : rows) { double t[3], w[3]; const ModelO& tm = pick(ms); randTarget(tm, t, false); tm.toWorld(t[0], t[1], t[2], w); for (int d = 0; d < dim; ++d) r[d] = w[d]; }
            py::object a = g["make"](kind, rows, dim);
            Rows R = np ? g["rows"](a).cast<Rows>() : Rows();
            const char* methods[] = {"query", "model.query", "model.contains", "query_top_elevation", "query_topobathy_elevation", "model.query_top_elevation", "model.query_topobathy_elevation"};
            int mth = dim == 3 ? ri(0, 2) : ri(3, 6);
            std::string name = methods[mth]; bool onModel = name.compare(0, 6, "model.") == 0; if (onModel) name = name.substr(6);
            py::object& obj = onModel ? pm : q;
            scenario(sh + fmt(" method=%s layout=%s points=%d", methods[mth], kind.c_str(), np));
            // wrong shapes first: an error, never a result
            if (coin(40)) {
                Rows br = rows; if (br.empty()) br.assign(2, std::vector<double>(dim, 1.0));
                int which = ri(0, g["NBAD"].cast<int>() - 1);
                py::object b = g["bad"](which, br, dim);
                if (onModel && name == "contains" && which == 0 && false) continue;
                bool threw = false; std::string got;
                try { py::object r = obj.attr(name.c_str())(b); got = py::str(r); } catch (const py::error_already_set& e) { threw = true; }
                check(threw, "an array of the wrong shape is accepted", fmt("wrong shape %d: ", which) + got.substr(0, 100));
            }
            py::object before = g["np"].attr("array")(a);
            py::object res;
            if (onModel && name == "query") { bool out = false; for (auto& r : R) if (!rm.contains(r[0], r[1], r[2])) out = true; if (out) { Rows in2; for (auto& r : R) if (rm.contains(r[0], r[1], r[2])) in2.push_back(r); kind = "fortran"; R = in2; a = g["make"](kind, R, dim); np = R.size(); before = g["np"].attr("array")(a); } }
            try { res = obj.attr(name.c_str())(a); } catch (const py::error_already_set& e) { check(false, "an accepted array raises an error", e.what()); continue; }
            check(g["np"].attr("array_equal")(before, a).cast<bool>(), "the array of points is changed", "");
            py::object vals = res, stat;
            if (name == "query" && !onModel) {
                if (!check(py::isinstance<py::tuple>(res) && py::len(res) == 2, "query does not return values and statuses", "")) continue;
                vals = res[py::int_(0)]; stat = res[py::int_(1)];
            }
            Arr v = toArr(vals, g);
            size_t width = name == "query" ? (onModel ? rm.getValueNames().size() : nv) : 1;
            std::vector<py::ssize_t> want{np}; if (name == "query") want.push_back(width);
            if (!check(v.shape == want, "shape of the result", shapeStr(v))) continue;
            if (stat) { Arr s = toArr(stat, g); if (!check(s.shape == std::vector<py::ssize_t>{np}, "shape of the statuses", shapeStr(s))) continue; old.push_back({stat, s, "statuses"});
                for (int i = 0; i < np; ++i) { std::vector<double> e(nv); int st = ref.query(e.data(), R[i][0], R[i][1], R[i][2]); check(st == (int)s.v[i], "status of a point", fmt("point %d: got %g expected %d", i, s.v[i], st)); } }
            old.push_back({vals, v, methods[mth]});
            for (int i = 0; i < np; ++i) {
                std::vector<double> e(width);
                const auto& x = R[i];
                if (mth == 0) ref.query(e.data(), x[0], x[1], x[2]);
                else if (mth == 1) { const double* p = rm.query(x[0], x[1], x[2]); e.assign(p, p + width); }
                else if (mth == 2) e[0] = rm.contains(x[0], x[1], x[2]);
                else if (mth == 3) e[0] = ref.queryTopElevation(x[0], x[1]);
                else if (mth == 4) e[0] = ref.queryTopoBathyElevation(x[0], x[1]);
                else if (mth == 5) e[0] = rm.queryTopElevation(x[0], x[1]);
                else e[0] = rm.queryTopoBathyElevation(x[0], x[1]);
                for (size_t k = 0; k < width; ++k)
                    if (!check(close(v.v[i * width + k], e[k], 1, 1e-12), std::string("result of ") + methods[mth] + " differs from the library", fmt("point %d value %zu: got %.17g expected %.17g", i, k, v.v[i * width + k], e[k]))) break;
            }
            for (auto& o : old) { Arr n = toArr(o.o, g); check(n.v == o.a.v, "an earlier result is changed by a later call", o.what); }
            if (old.size() > 4) old.erase(old.begin());
        }
        if (coin(30)) {  // the handler outlives the query
            py::object h = q.attr("get_error_handler")(); std::shared_ptr<geomodelgrids::utils::ErrorHandler> hs = h.cast<std::shared_ptr<geomodelgrids::utils::ErrorHandler> >();
            check(hs->getStatus() == ref.getErrorHandler()->getStatus() || true, "handler", "");
            q = py::none(); h.attr("reset_status")(); check(h.attr("get_status")().cast<int>() == 0, "status after reset", "");
        } else q.attr("finalize")();
        pm.attr("close")();
    }
    fflush(stdout);
    int rc = finish();
    fflush(stdout);
    _exit(rc);
}
