// Run-time contract of the C interface (C12) and of the error handler (C13).
#include "oracle.hh"
#include "geomodelgrids/serial/Query.hh"
#include "geomodelgrids/utils/ErrorHandler.hh"
extern "C" {
#include "geomodelgrids/serial/cquery.h"
#include "geomodelgrids/utils/cerrorhandler.h"
}
#include <fstream>
#include <sstream>
using namespace gm;
using geomodelgrids::serial::Query;
using geomodelgrids::utils::ErrorHandler;
static std::string slurp(const std::string& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static bool has(const std::string& a, const std::string& b) { return a.find(b) != std::string::npos; }
// no exception may leave a C function
#define GUARD(call) try { call; } catch (const std::exception& e) { fail("an exception leaves the C interface", e.what()); } catch (...) { fail("an exception leaves the C interface", "?"); }

static void nullHandles() {
    scenario("null handles");
    double v[3] = {1, 2, 3}; const char* f[1] = {"x.h5"}; const char* n[1] = {"one"};
    int r = 0; double e = 0; void* p = nullptr;
    GUARD(r = geomodelgrids_squery_initialize(nullptr, f, 1, n, 1, "EPSG:4326")); check(r == 2, "null handle: initialize", fmt("%d", r));
    GUARD(r = geomodelgrids_squery_setSquashMinElev(nullptr, -10)); check(r == 2, "null handle: setSquashMinElev", fmt("%d", r));
    GUARD(r = geomodelgrids_squery_setSquashing(nullptr, 1)); check(r == 2, "null handle: setSquashing", fmt("%d", r));
    GUARD(r = geomodelgrids_squery_query(nullptr, v, 0, 0, 0)); check(r == 2 && v[0] == 1, "null handle: query", fmt("%d", r));
    GUARD(r = geomodelgrids_squery_finalize(nullptr)); check(r == 2, "null handle: finalize", fmt("%d", r));
    GUARD(e = geomodelgrids_squery_queryTopElevation(nullptr, 0, 0)); check(e == NODATA, "null handle: queryTopElevation", fmt("%g", e));
    GUARD(e = geomodelgrids_squery_queryTopoBathyElevation(nullptr, 0, 0)); check(e == NODATA, "null handle: queryTopoBathyElevation", fmt("%g", e));
    GUARD(p = geomodelgrids_squery_getErrorHandler(nullptr)); check(p == nullptr, "null handle: getErrorHandler", "");
    GUARD(geomodelgrids_squery_destroy(nullptr)); GUARD(geomodelgrids_squery_destroy(&p)); check(p == nullptr, "destroy of a null handle", "");
    GUARD(geomodelgrids_cerrorhandler_setLogFilename(nullptr, "x.log")); GUARD(geomodelgrids_cerrorhandler_setLoggingOn(nullptr, 1)); GUARD(geomodelgrids_cerrorhandler_resetStatus(nullptr));
    GUARD(r = geomodelgrids_cerrorhandler_getStatus(nullptr)); check(r == 0, "null handle: getStatus", fmt("%d", r));
    const char* s = "x"; GUARD(s = geomodelgrids_cerrorhandler_getMessage(nullptr)); check(!s, "null handle: getMessage", "");
    s = "x"; GUARD(s = geomodelgrids_cerrorhandler_getLogFilename(nullptr)); check(!s, "null handle: getLogFilename", "");
}

// C13: a reference handler next to the real one
static void handlerRun() {
    ErrorHandler* h = nullptr; std::string sh;
    h = new ErrorHandler;
    std::string lname = "", text; std::map<std::string, std::string> logs; bool on = true, named = false;
    int status = 0; std::string msg;
    auto word = [] { std::string s; int n = ri(0, 30); for (int i = 0; i < n; ++i) s += (char)ri(32, 126); if (coin(20)) s += "\n"; if (coin(10)) s += "%s%n"; if (coin(5)) s.append(5000, 'x'); return s; };
    void* c = (void*)h;
    int len = ri(3, 40);
    for (int k = 0; k < len; ++k) {
        bool viaC = coin();
        int op = ri(0, 8); std::string w = word();
        sh += fmt("%d%s ", op, viaC ? "c" : ""); scenario(sh);
        switch (op) {
        case 0: h->setError(w.c_str()); status = 2; msg = w; break;
        case 1: h->setWarning(w.c_str()); status = 1; msg = w; break;
        case 2: if (viaC) geomodelgrids_cerrorhandler_resetStatus(c); else h->resetStatus(); status = 0; msg = ""; break;
        case 3: { std::string f = fmt("log%d.txt", ri(0, 2)); if (viaC) geomodelgrids_cerrorhandler_setLogFilename(c, f.c_str()); else h->setLogFilename(f.c_str()); lname = f; named = true; on = true; logs[f] = ""; break; }
        case 4: { bool b = coin(); if (viaC) geomodelgrids_cerrorhandler_setLoggingOn(c, b ? pick(std::vector<int>{1, 2, -1, 256}) : 0); else h->setLoggingOn(b); on = b; break; }
        case 8: { std::string f = pick(std::vector<std::string>{"no/such/dir/log.txt", "", "."}); h->setLogFilename(f.c_str()); lname = f; named = false; on = true; break; }
        default: h->logMessage(w.c_str()); if (on && named) logs[lname] += w; break;
        }
        int st = viaC ? (int)geomodelgrids_cerrorhandler_getStatus(c) : (int)h->getStatus();
        check(st == status, "status is not the last one reported", fmt("after operation %d: %d, expected %d", op, st, status));
        check(std::string(viaC ? geomodelgrids_cerrorhandler_getMessage(c) : h->getMessage()) == msg, "message is not the last one reported", fmt("after operation %d", op));
        if (named) check(std::string(viaC ? geomodelgrids_cerrorhandler_getLogFilename(c) : h->getLogFilename()) == lname, "log file name", lname);
        if (k % 7 == 6) { h->setLoggingOn(on); }                    // flushes: close and reopen must lose nothing
        if (k % 7 == 6) for (auto& l : logs) check(slurp(l.first) == l.second, "log file does not hold the text logged while logging was on", fmt("%s: %s", l.first.c_str(), slurp(l.first).substr(0, 200).c_str()));
    }
    delete h;
    for (auto& l : logs) { check(slurp(l.first) == l.second, "log file does not hold the text logged while logging was on", fmt("%s: got %zu bytes, expected %zu", l.first.c_str(), slurp(l.first).size(), l.second.size())); unlink(l.first.c_str()); }
}

int main(int argc, char** argv) {
    init(argc, argv);
    std::string P = rep().prop;
    int fd = open("stderr.txt", O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd >= 0 && !getenv("GM_STDERR")) { dup2(fd, 2); }
    nullHandles();
    if (P == "C13") { while (timeLeft()) handlerRun(); return finish(); }
    void* h = nullptr;
    for (int it = 0; timeLeft(); ++it) {
        int nm = ri(1, 2);
        std::vector<ModelO> ms(nm); std::vector<std::string> files;
        double X0 = rd(-5e5, 5e5), Y0 = rd(-5e5, 5e5), L = 10000;
        for (int k = 0; k < nm; ++k) {
            RandOpt ro; ro.L = L; ro.maxBlocks = 2; ro.x0 = X0 + (k ? rd(-0.6, 0.6) * L : 0); ro.y0 = Y0; ro.names = {"Vp", "Vs", "density"}; ro.units = {"m/s", "m/s", "kg/m**3"};
            ms[k].m = randModel(ro); ms[k].file = fmt("m%d.h5", k); write(ms[k].m, ms[k].file); ms[k].open("EPSG:3311"); files.push_back(ms[k].file);
        }
        std::vector<std::string> names{"Vs", "vp"}; if (coin()) names.push_back("DENSITY");
        int bad = coin(40) ? pick(std::vector<int>{1, 2, 3, 4, 7}) : 0; std::string crs = "EPSG:3311", expect;
        std::vector<const char*> fp, np;
        if (bad == 1) { files.back() = "missing.h5"; expect = "missing.h5"; }
        if (bad == 2) { names.back() = "nothere"; expect = "nothere"; }
        if (bad == 3) { crs = "EPSG:0000"; }
        if (bad == 4) { FILE* f = fopen("bad.h5", "w"); fputs("not hdf5", f); fclose(f); files[0] = "bad.h5"; expect = "bad.h5"; }
        for (auto& f : files) fp.push_back(f.c_str()); for (auto& n : names) np.push_back(n.c_str());
        const char* cp = crs.c_str();
        if (bad == 7) cp = nullptr;
        std::string sh = fmt("it=%d models=%d bad=%d names=%zu", it, nm, bad, names.size()); scenario(sh);
        if (!h || coin(40)) { if (h) { GUARD(geomodelgrids_squery_destroy(&h)); check(!h, "destroy does not null the handle", ""); } h = geomodelgrids_squery_create(); check(h != nullptr, "create", ""); }
        void* e = geomodelgrids_squery_getErrorHandler(h);
        check(e == ((Query*)h)->getErrorHandler().get(), "getErrorHandler returns the handler of the query", "");
        geomodelgrids_cerrorhandler_resetStatus(e);
        std::string log = fmt("q%d.log", it % 3); geomodelgrids_cerrorhandler_setLogFilename(e, log.c_str());
        int st = -1;
        GUARD(st = geomodelgrids_squery_initialize(h, fp.data(), fp.size(), np.data(), np.size(), cp));
        std::string msg = geomodelgrids_cerrorhandler_getMessage(e);
        check(st == (bad ? 2 : 0), bad ? "failed initialization does not return ERROR" : "initialization does not return OK", fmt("%d %s", st, msg.c_str()));
        check((int)geomodelgrids_cerrorhandler_getStatus(e) == st, "returned status is not the error handler's", "");
        if (bad) {
            check(!msg.empty(), "failed initialization leaves no message", "");
            if (bad < 5) {      // the message is that of the C++ exception
                Query q; std::string w; try { q.initialize(files, names, crs); } catch (const std::exception& x) { w = x.what(); }
                check(!w.empty() && has(msg, w), "message of the C interface lacks the exception's message", msg + " / " + w);
            }
            geomodelgrids_squery_destroy(&h); check(!h, "destroy does not null the handle", "");
            continue;
        }
        Query q; q.initialize(files, names, crs); q.setSquashMinElev(-50); geomodelgrids_squery_setSquashMinElev(h, -50); q.setSquashing(Query::SQUASH_NONE); geomodelgrids_squery_setSquashing(h, 0);
        std::string logged;
        for (int p = 0; p < 40; ++p) {
            if (coin(12)) { int k = ri(0, 2); int s2 = geomodelgrids_squery_setSquashing(h, k); q.setSquashing(Query::SquashingEnum(k)); check(s2 == (int)geomodelgrids_cerrorhandler_getStatus(e), "setSquashing: returned status", ""); }
            if (coin(12)) { double m0 = -rd(1, 3000); int s2 = geomodelgrids_squery_setSquashMinElev(h, m0); q.setSquashMinElev(m0); check(s2 == (int)geomodelgrids_cerrorhandler_getStatus(e), "setSquashMinElev: returned status", ""); }
            if (coin(2)) { geomodelgrids_cerrorhandler_resetStatus(e); int s2 = geomodelgrids_squery_setSquashing(h, pick(std::vector<int>{3, -1, 77})); q.setSquashing(Query::SQUASH_NONE); check(s2 == 2, "unknown squashing type does not return ERROR", fmt("%d", s2)); }
            double t[3], w[3]; const ModelO& tm = pick(ms); randTarget(tm, t, false); tm.toWorld(t[0], t[1], t[2], w);
            scenario(sh + fmt(" point (%.17g, %.17g, %.17g)", w[0], w[1], w[2]));
            bool reset = coin(70); if (reset) geomodelgrids_cerrorhandler_resetStatus(e);
            int before = geomodelgrids_cerrorhandler_getStatus(e);
            switch (ri(0, 2)) {
            case 0: {
                std::vector<double> a(names.size() + 1, 3.5), b(names.size() + 1, 3.5);
                int s1 = -1, s2; GUARD(s1 = geomodelgrids_squery_query(h, a.data(), w[0], w[1], w[2]));
                s2 = q.query(b.data(), w[0], w[1], w[2]);
                check(a == b, "values of the C interface differ from those of the C++ interface", show(a) + " / " + show(b));
                check(s1 == (int)geomodelgrids_cerrorhandler_getStatus(e), "returned status is not the error handler's", "");
                check(s2 == 1 ? s1 == 1 : s1 == before, "status of a query", fmt("C %d, C++ %d, before %d", s1, s2, before));
                if (s2 == 1) { check(*geomodelgrids_cerrorhandler_getMessage(e), "no warning message for a point outside", ""); logged += geomodelgrids_cerrorhandler_getMessage(e); }
                break; }
            default: {
                bool topo = coin(); double x = 0, y;
                GUARD(x = topo ? geomodelgrids_squery_queryTopoBathyElevation(h, w[0], w[1]) : geomodelgrids_squery_queryTopElevation(h, w[0], w[1]));
                y = topo ? q.queryTopoBathyElevation(w[0], w[1]) : q.queryTopElevation(w[0], w[1]);
                check(x == y, topo ? "topography elevation of the C interface" : "top elevation of the C interface", fmt("%.17g %.17g", x, y));
                int s = geomodelgrids_cerrorhandler_getStatus(e);
                check(y == NODATA ? s == 1 : s == before, "status of an elevation query", fmt("%d, before %d", s, before));
                if (y == NODATA) logged += geomodelgrids_cerrorhandler_getMessage(e);
                break; }
            }
        }
        // a fault while querying: the dataset's storage disappears
        if (coin(30)) {
            ModelO m2; RandOpt ro; ro.names = {"Vp"}; ro.units = {"m/s"}; ro.maxBlocks = 1; m2.m = randModel(ro);
            write(m2.m, "ext.h5");
            { hid_t f = H5Fopen("ext.h5", H5F_ACC_RDWR, H5P_DEFAULT), g = H5Gopen2(f, "blocks", H5P_DEFAULT); BlockSpec& b = m2.m.blocks[0];
              H5Ldelete(g, b.name.c_str(), H5P_DEFAULT);
              hsize_t d[4] = {(hsize_t)b.x.n, (hsize_t)b.y.n, (hsize_t)b.z.n, (hsize_t)b.nv}; hid_t s = H5Screate_simple(4, d, nullptr), pl = H5Pcreate(H5P_DATASET_CREATE);
              H5Pset_chunk(pl, 4, d); H5Pset_fletcher32(pl); hid_t ds = H5Dcreate2(g, b.name.c_str(), H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, pl, H5P_DEFAULT); H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data.data());
              std::set<std::string> none; axisAttr(ds, "", "x", b.x, none); axisAttr(ds, "", "y", b.y, none); axisAttr(ds, "", "z", b.z, none); if (!b.z.variable()) attrNum(ds, "z_top", b.ztop);
              H5Dclose(ds); H5Pclose(pl); H5Sclose(s); H5Gclose(g); H5Fclose(f); }
            // flip a byte of the stored data: the checksum makes the read fail
            { std::string all = slurp("ext.h5"); double first = m2.m.blocks[0].data[0]; std::string pat((char*)&first, 8); size_t pos, nf = 0; while ((pos = all.find(pat)) != std::string::npos) { all[pos] ^= 0x55; ++nf; } if (!nf) continue; std::ofstream o("ext.h5", std::ios::binary); o << all; }
            m2.open("EPSG:3311"); const char* f1[1] = {"ext.h5"}; const char* n1[1] = {"Vp"};
            void* h2 = geomodelgrids_squery_create(); void* e2 = geomodelgrids_squery_getErrorHandler(h2);
            scenario("unreadable block storage"); int s1 = -1; GUARD(s1 = geomodelgrids_squery_initialize(h2, f1, 1, n1, 1, "EPSG:3311"));
            if (s1 == 0) {
                double w[3], v[1] = {0}; m2.toWorld(0.3 * m2.dim(0), 0.6 * m2.dim(1), -0.4 * m2.dim(2), w);
                GUARD(s1 = geomodelgrids_squery_query(h2, v, w[0], w[1], w[2]));
                check(s1 == 2 && *geomodelgrids_cerrorhandler_getMessage(e2), "a failed read during a query does not give ERROR and a message", fmt("%d", s1));
            } else check(false, "model with unreadable storage cannot be opened", geomodelgrids_cerrorhandler_getMessage(e2));
            geomodelgrids_squery_destroy(&h2);
        }
        if (coin()) { int s = -1; geomodelgrids_cerrorhandler_resetStatus(e); GUARD(s = geomodelgrids_squery_finalize(h)); check(s == 0, "finalize", fmt("%d", s)); GUARD(geomodelgrids_squery_destroy(&h)); check(!h, "destroy does not null the handle", ""); check(slurp(log) == logged, "warnings are not in the log", ""); }
        else GUARD(geomodelgrids_squery_finalize(h));
    }
    if (h) geomodelgrids_squery_destroy(&h);
    return finish();
}
