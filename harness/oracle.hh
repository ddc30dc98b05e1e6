// Independent oracle for models and multi-model queries.
#pragma once
#include "gm.hh"
#include <proj.h>
#include <memory>
namespace gm {
struct Crs {                     // input CRS -> model CRS with PROJ itself
    PJ* p = nullptr;
    Crs() {}
    void set(const std::string& a, const std::string& b) { if (p) proj_destroy(p); p = proj_create_crs_to_crs(PJ_DEFAULT_CTX, a.c_str(), b.c_str(), nullptr); }
    void fwd(double x, double y, double z, double* o) const { PJ_COORD c = proj_trans(p, PJ_FWD, proj_coord(x, y, z, HUGE_VAL)); o[0] = c.xyzt.x; o[1] = c.xyzt.y; o[2] = c.xyzt.z; }
    void inv(double x, double y, double z, double* o) const { PJ_COORD c = proj_trans(p, PJ_INV, proj_coord(x, y, z, HUGE_VAL)); o[0] = c.xyzt.x; o[1] = c.xyzt.y; o[2] = c.xyzt.z; }
    ~Crs() { if (p) proj_destroy(p); }
};
inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

struct ModelO {
    ModelSpec m; std::string file, crsIn; std::shared_ptr<Crs> crs = std::make_shared<Crs>();
    double az() const { return m.num.at("y_azimuth") * M_PI / 180.0; }
    double dim(int i) const { return m.num.at(i == 0 ? "dim_x" : i == 1 ? "dim_y" : "dim_z"); }
    void open(const std::string& in) { crsIn = in; crs->set(in, m.str.at("crs")); }
    double ground(double xm, double ym) const { return m.hasTop ? surfAt(m.top, xm, ym) : 0.0; }
    void toModel(double x, double y, double z, double* o) const {
        double c[3]; crs->fwd(x, y, z, c);
        double xr = c[0] - m.num.at("origin_x"), yr = c[1] - m.num.at("origin_y");
        o[0] = xr * cos(az()) - yr * sin(az());
        o[1] = xr * sin(az()) + yr * cos(az());
        double g = ground(o[0], o[1]), D = dim(2);
        o[2] = -D * (g - c[2]) / (g + D);
        if (o[2] > 0 && o[2] < 1.0e-4) o[2] = 0;
    }
    // +1 inside, -1 outside, 0 within rounding of the boundary; exact: no rounding margin
    int inside(const double* o, bool exact = false) const {
        double e[3] = {1e-7 * dim(0), 1e-7 * dim(1), 1e-7 * dim(2)};
        bool in = o[0] >= 0 && o[0] <= dim(0) && o[1] >= 0 && o[1] <= dim(1) && o[2] <= 0 && o[2] >= -dim(2);
        if (exact) return in ? 1 : -1;
        bool deepIn = o[0] > e[0] && o[0] < dim(0) - e[0] && o[1] > e[1] && o[1] < dim(1) - e[1] && o[2] < -e[2] && o[2] > -dim(2) + e[2];
        bool farOut = o[0] < -e[0] || o[0] > dim(0) + e[0] || o[1] < -e[1] || o[1] > dim(1) + e[1] || o[2] > 1.1e-4 + e[2] || o[2] < -dim(2) - e[2];
        if (deepIn) return 1;
        if (farOut) return -1;
        return 0;
    }
    std::vector<const BlockSpec*> sorted() const {
        std::vector<const BlockSpec*> b; for (auto& x : m.blocks) b.push_back(&x);
        std::sort(b.begin(), b.end(), [](const BlockSpec* p, const BlockSpec* q) { return p->zTop() > q->zTop(); });
        return b;
    }
    // blocks that may answer (more than one only within rounding of an interface)
    std::vector<const BlockSpec*> covering(double z, bool exact) const {
        std::vector<const BlockSpec*> out; double e = exact ? 0 : 1e-7 * dim(2);
        for (auto b : sorted()) {
            if (z <= b->zTop() && z >= b->zBottom()) { out.push_back(b); if (exact || (z <= b->zTop() - e && z >= b->zBottom() + e)) return out; }
            else if (z <= b->zTop() + e && z >= b->zBottom() - e) out.push_back(b);
        }
        return out;
    }
    std::vector<double> answer(const double* o, int v, bool exact) const {
        std::vector<double> out;
        for (auto b : covering(o[2], exact)) {
            double d = b->zTop() - o[2]; if (d < 0) d = 0;
            double ii[3] = {std::min(b->x.index(o[0]), b->x.n - 1.0), std::min(b->y.index(o[1]), b->y.n - 1.0), std::min(b->z.index(d), b->z.n - 1.0)};
            for (int a = 0; a < 3; ++a) if (ii[a] < 0) ii[a] = 0;
            for (double x : allowedTol(*b, ii, v)) out.push_back(x);
        }
        return out;
    }
    static std::vector<double> allowedTol(const BlockSpec& b, const double ii[3], int v) {
        std::vector<double> out;
        for (int i : cellsOf(ii[0], b.x.n, 1e-6)) for (int j : cellsOf(ii[1], b.y.n, 1e-6)) for (int k : cellsOf(ii[2], b.z.n, 1e-6)) {
            BlockSpec const& c = b; long double s = 0; bool nod = false;
            for (int q = 0; q < 8; ++q) { int a = q >> 2, e = (q >> 1) & 1, f = q & 1; double val = c.data[c.at(i + a, j + e, k + f, v)]; if (isNoData(val)) nod = true;
                long double p = ii[0] - i, r = ii[1] - j, t = ii[2] - k; s += (a ? p : 1 - p) * (e ? r : 1 - r) * (f ? t : 1 - t) * (long double)val; }
            out.push_back(nod ? NODATA : (double)s);
        }
        return out;
    }
    int valueIndex(const std::string& n) const { auto& l = m.lists.at("data_values"); for (size_t i = 0; i < l.size(); ++i) if (lower(l[i]) == lower(n)) return i; return -1; }
    std::string unit(int i) const { return lower(m.lists.at("data_units")[i]); }
    // elevation of the reference surface at (x,y), in the input CRS
    double elev(double x, double y, bool topo) const {
        const SurfSpec* s = topo ? (m.hasTopo ? &m.topo : m.hasTop ? &m.top : nullptr) : (m.hasTop ? &m.top : nullptr);
        if (!s) return 0.0;
        double c[3]; crs->fwd(x, y, 0.0, c);
        double xr = c[0] - m.num.at("origin_x"), yr = c[1] - m.num.at("origin_y");
        double xm = xr * cos(az()) - yr * sin(az()), ym = xr * sin(az()) + yr * cos(az());
        double e = surfAt(*s, xm, ym), o[3];
        crs->inv(c[0], c[1], e, o);
        return o[2];
    }
    // world point of model coordinates
    void toWorld(double xm, double ym, double zm, double* o) const {
        double xr = xm * cos(az()) + ym * sin(az()), yr = -xm * sin(az()) + ym * cos(az());
        double g = ground(std::min(std::max(xm, 0.0), dim(0)), std::min(std::max(ym, 0.0), dim(1))), D = dim(2);
        if (g == NODATA) g = 0;
        double z = g + zm * (g + D) / D;
        crs->inv(xr + m.num.at("origin_x"), yr + m.num.at("origin_y"), z, o);
    }
};

inline Axis axisOver(double L, int n, bool var, int dir = 1, double first = 0, bool exact = false) {
    Axis a; a.n = n;
    if (!var) a.res = L / (n - 1);
    else {
        std::vector<double> t{0.0, 1.0}; for (int i = 0; i < n - 2; ++i) t.push_back(exact ? ri(1, 63) / 64.0 : rd(0.02, 0.98));
        std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
        a.n = t.size();
        for (double u : t) a.coords.push_back(first + dir * u * L);
    }
    return a;
}
struct RandOpt { bool exact = false, surf = true, nodata = false, allowVar = true; int maxBlocks = 4; double x0 = 0, y0 = 0, L = 10000; std::vector<std::string> names, units; bool wide = false; };
inline ModelSpec randModel(const RandOpt& o) {
    ModelSpec m;
    double D = o.exact ? 4096 : rd(0.2, 1.0) * o.L;
    double Lx = o.exact ? 8192 : o.L * rd(0.5, 1.5), Ly = o.exact ? 16384 : o.L * rd(0.5, 1.5);
    m.num["dim_x"] = Lx; m.num["dim_y"] = Ly; m.num["dim_z"] = D;
    m.num["origin_x"] = o.exact ? 0 : o.x0; m.num["origin_y"] = o.exact ? 0 : o.y0;
    m.num["y_azimuth"] = o.exact ? 0 : pick(std::vector<double>{0, 90, 180, 270, 330, 45, 30, -30, rd(0, 360)});
    std::vector<std::string> nm = o.names, un = o.units;
    if (nm.empty()) { nm = {"Vp", "vs"}; un = {"m/s", "m/s"}; }
    m.lists["data_values"] = nm; m.lists["data_units"] = un;
    auto surf = [&](double lo, double hi) { SurfSpec s; s.x = axisOver(Lx, ri(2, 6), o.allowVar && coin(30)); s.y = axisOver(Ly, ri(2, 6), o.allowVar && coin(30)); s.data.resize((size_t)s.x.n * s.y.n); for (auto& d : s.data) d = rd(lo, hi); return s; };
    if (o.surf && !o.exact) {
        if (coin(75)) { m.hasTop = true; m.top = surf(-0.1 * D, 0.2 * D); }
        if (coin(50)) { m.hasTopo = true; m.topo = surf(-0.2 * D, 0.1 * D); }
    }
    int nb = ri(1, o.maxBlocks);
    std::vector<double> cut{0, D}; for (int i = 1; i < nb; ++i) cut.push_back(o.exact ? 64.0 * ri(1, 63) : D * rd(0.05, 0.95));
    std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
    std::vector<std::string> bn{"a", "zz", "Block1", "block", "B 2", "m", "top", "bottom", "0", "9"}; std::shuffle(bn.begin(), bn.end(), rep().rng);
    for (size_t i = 0; i + 1 < cut.size(); ++i) {
        BlockSpec b; b.name = bn[i];
        int p2[3] = {1, 2, 4};
        b.x = axisOver(Lx, o.exact ? 1 + p2[ri(0, 2)] : ri(2, 7), o.allowVar && coin(30), 1, 0, o.exact);
        b.y = axisOver(Ly, o.exact ? 1 + p2[ri(0, 2)] : ri(2, 7), o.allowVar && coin(30), 1, 0, o.exact);
        b.ztop = -cut[i];
        b.z = axisOver(cut[i + 1] - cut[i], o.exact ? 1 + p2[ri(0, 2)] : ri(2, 7), o.allowVar && coin(30), -1, b.ztop, o.exact);
        b.nv = nm.size();
        b.data.resize((size_t)b.x.n * b.y.n * b.z.n * b.nv);
        double off = 10000.0 * (i + 1);
        for (auto& d : b.data) d = (o.nodata && coin(6)) ? NODATA : off + rd(-3000, 3000);
        m.blocks.push_back(b);
    }
    std::shuffle(m.blocks.begin(), m.blocks.end(), rep().rng);
    // the last block must end at -D up to rounding: accept what the arithmetic gives
    return m;
}
// a model-space target, biased to interfaces, ends and outside points
inline void randTarget(const ModelO& o, double* t, bool exact) {
    for (int a = 0; a < 3; ++a) {
        double L = o.dim(a);
        double u = exact ? ri(-2, 66) / 64.0 : rd(-0.02, 1.02);
        if (coin(60)) u = exact ? ri(0, 64) / 64.0 : rd(0.001, 0.999);
        if (exact && coin(20)) u = coin();
        t[a] = u * L;
    }
    if (exact && coin(40)) { auto& b = pick(o.m.blocks); t[2] = coin() ? -b.zTop() : -b.zBottom(); }
    if (!exact && coin(20)) { auto& b = pick(o.m.blocks); t[2] = (coin() ? -b.zTop() : -b.zBottom()) + rd(-1e-3, 1e-3) * o.dim(2); }
    t[2] = -t[2];
}
} // namespace gm
