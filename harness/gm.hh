// Common parts of the run-time contract harnesses: model files written with the HDF5 C API, an independent oracle,
// failure reporting.  Nothing here includes or copies geomodelgrids code.
#pragma once
#include <hdf5.h>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <algorithm>

namespace gm {
const double NODATA = -1.0e+20;
inline std::string fmt(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// ------------------------------------------------------------------ reporting
struct Report {
    std::string prop, scenario, dir;
    long cases = 0, fails = 0;
    int seed = 1; double budget = 10; bool thorough = false;
    std::mt19937_64 rng;
    double t0 = 0;
    std::map<std::string, long> counts;
    std::set<std::string> keys;
};
inline Report& rep() { static Report r; return r; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline bool timeLeft() { return now() - rep().t0 < rep().budget; }
inline bool timeLeft(double share) { return now() - rep().t0 < rep().budget * share; }
inline void scenario(const std::string& s) { rep().scenario = s; }
inline std::string oneline(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
inline void fail(const std::string& key, const std::string& detail) {
    Report& r = rep();
    r.fails++;
    if (r.keys.insert(key).second || r.fails < 5) {
        printf("FAIL %s | %s | scenario: %s\n", key.c_str(), oneline(detail).c_str(), oneline(r.scenario).c_str());
        fflush(stdout);
    }
}
inline bool check(bool ok, const std::string& key, const std::string& detail) { rep().cases++; rep().counts[key]++; if (!ok) fail(key, detail); return ok; }
inline bool close(double a, double b, double scale = 1.0, double tol = 1e-9) { if (a == b) return true; if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b), scale}); }
inline void onCrash(int sig) {
    char b[4200];
    int n = snprintf(b, sizeof b, "FAIL crash | program stopped by signal %d (assertion, abort or memory error) | scenario: %s\n", sig, oneline(rep().scenario).c_str());
    ssize_t w = write(1, b, n > (int)sizeof b ? sizeof b : n); (void)w;
    _exit(7);
}
extern "C" void __asan_on_error() __attribute__((weak));
extern "C" inline void gm_asan() {}
inline void cleanup() { std::string d = rep().dir; if (!d.empty()) { std::string c = "/bin/rm -rf -- '" + d + "'"; int r = system(c.c_str()); (void)r; } }
inline void init(int argc, char** argv) {
    Report& r = rep();
    r.prop = argc > 1 ? argv[1] : "?";
    r.seed = argc > 2 ? atoi(argv[2]) : 1;
    r.budget = argc > 3 ? atof(argv[3]) : 10;
    r.thorough = argc > 4 && !strcmp(argv[4], "thorough");
    r.rng.seed(r.seed * 7919 + 13);
    r.t0 = now();
    const char* t = getenv("GM_SCRATCH");
    if (t) { r.dir = ""; if (chdir(t)) exit(9); }
    signal(SIGABRT, onCrash); signal(SIGSEGV, onCrash); signal(SIGFPE, onCrash); signal(SIGBUS, onCrash); signal(SIGILL, onCrash);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
}
inline int finish() {
    Report& r = rep();
    printf("STATS {\"cases\": %ld, \"fails\": %ld, \"seconds\": %.2f, \"counts\": {", r.cases, r.fails, now() - r.t0);
    bool first = true;
    for (auto& c : r.counts) { printf("%s\"%s\": %ld", first ? "" : ", ", c.first.c_str(), c.second); first = false; }
    printf("}}\n");
    fflush(stdout);
    return 0;
}
// ------------------------------------------------------------------ random
inline int ri(int a, int b) { return a + (int)(rep().rng() % (unsigned long)(b - a + 1)); }
inline double rd(double a, double b) { return a + (b - a) * ((rep().rng() >> 11) * (1.0 / 9007199254740992.0)); }
inline bool coin(int pct = 50) { return ri(0, 99) < pct; }
template<class T> const T& pick(const std::vector<T>& v) { return v[ri(0, (int)v.size() - 1)]; }

// ------------------------------------------------------------------ model specification
struct Axis {                                   // n coordinates, from the first: distances in increasing order
    int n = 2; double res = 1.0; std::vector<double> coords;     // coords as stored (z: negative downwards, descending)
    bool variable() const { return !coords.empty(); }
    double dist(int i) const { return variable() ? std::fabs(coords[i] - coords[0]) : i * res; }
    double extent() const { return dist(n - 1); }
    // fractional index of a distance
    double index(double d) const {
        if (!variable()) return d / res;
        int i = 0; while (i < n - 2 && d >= dist(i + 1)) ++i;
        return i + (d - dist(i)) / (dist(i + 1) - dist(i));
    }
};
struct BlockSpec {
    std::string name = "block"; Axis x, y, z; double ztop = 0; int nv = 1; std::vector<double> data;
    size_t at(int i, int j, int k, int v) const { return ((size_t(i) * y.n + j) * z.n + k) * nv + v; }
    double zTop() const { return z.variable() ? z.coords[0] : ztop; }
    double zBottom() const { return zTop() - z.extent(); }
};
struct SurfSpec { Axis x, y; std::vector<double> data; double at(int i, int j) const { return data[size_t(i) * y.n + j]; } };
struct ModelSpec {
    std::map<std::string, std::string> str = {
        {"title", "Title"}, {"id", "model-id"}, {"description", "A description"}, {"history", "none"}, {"comment", "a comment"}, {"creator_name", "Jane Doe"},
        {"creator_institution", "Institute"}, {"creator_email", "jane@x.org"}, {"acknowledgement", "thanks"}, {"repository_name", "repo"}, {"repository_url", "http://repo"},
        {"repository_doi", "10.1/2"}, {"version", "1.2.3"}, {"license", "CC0"}, {"data_layout", "vertex"}, {"crs", "EPSG:3311"}};
    std::map<std::string, std::vector<std::string> > lists = {{"keywords", {"k1", "k2"}}, {"authors", {"A, B"}}, {"references", {"R1", "R2"}}, {"data_values", {"one", "two"}}, {"data_units", {"m", "m/s"}}};
    std::map<std::string, double> num = {{"dim_x", 1}, {"dim_y", 1}, {"dim_z", 1}, {"origin_x", 0}, {"origin_y", 0}, {"y_azimuth", 0}};
    bool hasTop = false, hasTopo = false; SurfSpec top, topo; std::vector<BlockSpec> blocks;
    std::set<std::string> omit;                 // attributes left out: "title", "blocks/top/x_resolution", ...
    bool varStr = true; hid_t dataType = -1; bool noSurfaces() const { return !hasTop && !hasTopo; }
};

// ------------------------------------------------------------------ writer
inline void attrStr(hid_t o, const char* n, const std::string& v, bool var) {
    hid_t t = H5Tcopy(H5T_C_S1), s = H5Screate(H5S_SCALAR);
    H5Tset_size(t, var ? H5T_VARIABLE : v.size() + 1);
    hid_t a = H5Acreate2(o, n, t, s, H5P_DEFAULT, H5P_DEFAULT);
    const char* p = v.c_str();
    if (var) H5Awrite(a, t, &p); else H5Awrite(a, t, p);
    H5Aclose(a); H5Sclose(s); H5Tclose(t);
}
inline void attrList(hid_t o, const char* n, const std::vector<std::string>& v, bool var) {
    hsize_t d = v.size();
    size_t w = 1; for (auto& x : v) w = std::max(w, x.size() + 1);
    hid_t t = H5Tcopy(H5T_C_S1), s = H5Screate_simple(1, &d, nullptr);
    H5Tset_size(t, var ? H5T_VARIABLE : w);
    hid_t a = H5Acreate2(o, n, t, s, H5P_DEFAULT, H5P_DEFAULT);
    if (var) { std::vector<const char*> p; for (auto& x : v) p.push_back(x.c_str()); H5Awrite(a, t, p.data()); }
    else { std::vector<char> b(w * v.size() + 1, 0); for (size_t i = 0; i < v.size(); ++i) strcpy(&b[i * w], v[i].c_str()); H5Awrite(a, t, b.data()); }
    H5Aclose(a); H5Sclose(s); H5Tclose(t);
}
inline void attrNum(hid_t o, const char* n, double v) {
    hid_t s = H5Screate(H5S_SCALAR), a = H5Acreate2(o, n, H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT);
    H5Awrite(a, H5T_NATIVE_DOUBLE, &v); H5Aclose(a); H5Sclose(s);
}
inline void attrArr(hid_t o, const char* n, const std::vector<double>& v) {
    hsize_t d = v.size();
    hid_t s = H5Screate_simple(1, &d, nullptr), a = H5Acreate2(o, n, H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT);
    H5Awrite(a, H5T_NATIVE_DOUBLE, v.data()); H5Aclose(a); H5Sclose(s);
}
inline hid_t dset(hid_t g, const char* n, const std::vector<hsize_t>& d, const std::vector<double>& v, hid_t type = -1, bool chunk = true) {
    hid_t s = H5Screate_simple(d.size(), d.data(), nullptr), pl = H5Pcreate(H5P_DATASET_CREATE);
    bool zero = false; for (auto x : d) if (!x) zero = true;
    if (chunk && !zero) { std::vector<hsize_t> c(d); for (auto& x : c) x = std::max<hsize_t>(1, std::min<hsize_t>(x, 16)); H5Pset_chunk(pl, c.size(), c.data()); }
    hid_t ds = H5Dcreate2(g, n, type < 0 ? H5T_NATIVE_DOUBLE : type, s, H5P_DEFAULT, pl, H5P_DEFAULT);
    if (!v.empty()) H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    H5Pclose(pl); H5Sclose(s);
    return ds;
}
inline void axisAttr(hid_t o, const std::string& path, const char* ax, const Axis& a, const std::set<std::string>& omit) {
    std::string r = std::string(ax) + "_resolution", c = std::string(ax) + "_coordinates";
    if (a.variable()) { if (!omit.count(path + "/" + c)) attrArr(o, c.c_str(), a.coords); }
    else if (!omit.count(path + "/" + r)) attrNum(o, r.c_str(), a.res);
}
inline void write(const ModelSpec& m, const std::string& file) {
    hid_t f = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    if (f < 0) { fprintf(stderr, "cannot create %s\n", file.c_str()); exit(9); }
    hid_t r = H5Gopen2(f, "/", H5P_DEFAULT);
    for (auto& x : m.str) if (!m.omit.count(x.first)) attrStr(r, x.first.c_str(), x.second, m.varStr);
    for (auto& x : m.lists) if (!m.omit.count(x.first)) attrList(r, x.first.c_str(), x.second, m.varStr);
    for (auto& x : m.num) if (!m.omit.count(x.first)) attrNum(r, x.first.c_str(), x.second);
    if (!m.noSurfaces()) {
        hid_t g = H5Gcreate2(f, "surfaces", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        auto put = [&](const char* n, const SurfSpec& s) {
            hid_t d = dset(g, n, {(hsize_t)s.x.n, (hsize_t)s.y.n, 1}, s.data, m.dataType);
            std::string p = std::string("surfaces/") + n;
            axisAttr(d, p, "x", s.x, m.omit); axisAttr(d, p, "y", s.y, m.omit);
            H5Dclose(d);
        };
        if (m.hasTop) put("top_surface", m.top);
        if (m.hasTopo) put("topography_bathymetry", m.topo);
        H5Gclose(g);
    }
    hid_t g = H5Gcreate2(f, "blocks", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    for (auto& b : m.blocks) {
        hid_t d = dset(g, b.name.c_str(), {(hsize_t)b.x.n, (hsize_t)b.y.n, (hsize_t)b.z.n, (hsize_t)b.nv}, b.data, m.dataType);
        std::string p = "blocks/" + b.name;
        axisAttr(d, p, "x", b.x, m.omit); axisAttr(d, p, "y", b.y, m.omit); axisAttr(d, p, "z", b.z, m.omit);
        if (!b.z.variable() && !m.omit.count(p + "/z_top")) attrNum(d, "z_top", b.ztop);
        H5Dclose(d);
    }
    H5Gclose(g); H5Gclose(r); H5Fclose(f);
}

// ------------------------------------------------------------------ oracle
inline bool isNoData(double v) { return std::fabs(1.0 - v / NODATA) < 1.0e-3; }
// cells (lower corner) enclosing fractional index x on an axis of n points; eps allows for rounding at a face
inline std::vector<int> cellsOf(double x, int n, double eps = 1e-9) {
    std::vector<int> c;
    for (int i = std::max(0, (int)std::floor(x) - 1); i <= std::min(n - 2, (int)std::floor(x) + 1); ++i)
        if (x >= i - eps && x <= i + 1 + eps) c.push_back(i);
    return c;
}
// all values the property allows for value v of a block at fractional indices (one per enclosing cell)
inline std::vector<double> allowed(const BlockSpec& b, const double x[3], int v) {
    std::vector<double> out;
    for (int i : cellsOf(x[0], b.x.n)) for (int j : cellsOf(x[1], b.y.n)) for (int k : cellsOf(x[2], b.z.n)) {
        long double s = 0; bool nod = false;
        for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) for (int e = 0; e < 2; ++e) {
            double val = b.data[b.at(i + a, j + c, k + e, v)];
            if (isNoData(val)) nod = true;
            long double p = x[0] - i, q = x[1] - j, r = x[2] - k;
            s += (a ? p : 1 - p) * (c ? q : 1 - q) * (e ? r : 1 - r) * (long double)val;
        }
        out.push_back(nod ? NODATA : (double)s);
    }
    return out;
}
inline double surfAt(const SurfSpec& s, double xd, double yd) {
    double x = s.x.index(xd), y = s.y.index(yd);
    auto snap = [](double v, int n) { return v < 0 && v > -1e-9 * n ? 0.0 : v > n - 1 && v < n - 1 + 1e-9 * n ? n - 1.0 : v; };      // rounding
    x = snap(x, s.x.n); y = snap(y, s.y.n);
    if (x < 0 || y < 0 || x > s.x.n - 1 || y > s.y.n - 1) return NODATA;
    int i = std::min((int)std::floor(x), s.x.n - 2), j = std::min((int)std::floor(y), s.y.n - 2);
    double p = x - i, q = y - j;
    return (1 - p) * (1 - q) * s.at(i, j) + (1 - p) * q * s.at(i, j + 1) + p * (1 - q) * s.at(i + 1, j) + p * q * s.at(i + 1, j + 1);
}
inline bool anyClose(const std::vector<double>& a, double v, double scale, double tol = 1e-9) {
    for (double x : a) if (x == v || (x != NODATA && v != NODATA && close(x, v, scale, tol))) return true;
    return false;
}
inline std::string show(const std::vector<double>& a) { std::string s; for (double x : a) s += fmt("%.17g ", x); return s; }

// ------------------------------------------------------------------ random pieces
inline Axis randAxis(int n, bool variable, double scale, int dir = +1, double first = 0) {
    Axis a; a.n = n;
    if (!variable) { a.res = scale * rd(0.5, 2); if (coin(40)) a.res = scale * pick(std::vector<double>{0.1, 0.7, 1.0, 0.3, 2.5}); }
    else { double c = first; for (int i = 0; i < n; ++i) { a.coords.push_back(c); c += dir * scale * rd(0.2, 2.0); } }
    return a;
}
inline double randIndex(int n) {                // fractional index, biased to vertices, faces and the ends
    switch (ri(0, 5)) { case 0: return ri(0, n - 1); case 1: return n - 1; case 2: return 0; default: return rd(0, n - 1); }
}
inline double distOf(const Axis& a, double x) { // distance of a fractional index
    int i = std::min((int)std::floor(x), a.n - 2);
    if (i < 0) i = 0;
    if (!a.variable()) return x * a.res;
    if (x == i) return a.dist(i);
    if (x == i + 1) return a.dist(i + 1);
    return a.dist(i) + (x - i) * (a.dist(i + 1) - a.dist(i));
}
inline BlockSpec randBlock(int maxn, bool nodata, bool allowVar = true, double scale = 100) {
    BlockSpec b;
    b.x = randAxis(ri(2, maxn), allowVar && coin(30), scale);
    b.y = randAxis(ri(2, maxn), allowVar && coin(30), scale);
    b.ztop = coin() ? 0 : -ri(0, 5) * 10.0;
    b.z = randAxis(ri(2, maxn), allowVar && coin(30), scale / 2, -1, b.ztop);
    b.nv = ri(1, 4);
    b.data.resize((size_t)b.x.n * b.y.n * b.z.n * b.nv);
    int pct = nodata ? ri(1, 25) : 0;
    for (auto& d : b.data) d = coin(pct) ? (coin(80) ? NODATA : pick(std::vector<double>{-1.0005e20, -0.9995e20, -1.0e20})) : rd(-1000, 5000);
    return b;
}
} // namespace gm
