// Run-time contract of the coordinate reference systems (C26): units per axis and direction of the transforms, against PROJ itself.
#include "gm.hh"
#include "geomodelgrids/utils/CRSTransformer.hh"
#include <proj.h>
#include <strings.h>
using namespace gm;
using geomodelgrids::utils::CRSTransformer;
// a projected CRS whose axes have units u1, u2
static std::string mixed(const char* u1, double f1, const char* u2, double f2) {
    return fmt("PROJCRS[\"mixed\",BASEGEOGCRS[\"WGS 84\",DATUM[\"World Geodetic System 1984\",ELLIPSOID[\"WGS 84\",6378137,298.257223563,LENGTHUNIT[\"metre\",1]]],PRIMEM[\"Greenwich\",0,ANGLEUNIT[\"degree\",0.0174532925199433]]],"
               "CONVERSION[\"UTM zone 10N\",METHOD[\"Transverse Mercator\",ID[\"EPSG\",9807]],PARAMETER[\"Latitude of natural origin\",0,ANGLEUNIT[\"degree\",0.0174532925199433]],PARAMETER[\"Longitude of natural origin\",-123,ANGLEUNIT[\"degree\",0.0174532925199433]],"
               "PARAMETER[\"Scale factor at natural origin\",0.9996,SCALEUNIT[\"unity\",1]],PARAMETER[\"False easting\",500000,LENGTHUNIT[\"metre\",1]],PARAMETER[\"False northing\",0,LENGTHUNIT[\"metre\",1]]],"
               "CS[Cartesian,2],AXIS[\"(E)\",east,ORDER[1],LENGTHUNIT[\"%s\",%.17g]],AXIS[\"(N)\",north,ORDER[2],LENGTHUNIT[\"%s\",%.17g]]]", u1, f1, u2, f2);
}
static std::string geo3(const char* u1, double f1, const char* u2, double f2, const char* u3, double f3) {
    return fmt("GEOGCRS[\"g3\",DATUM[\"World Geodetic System 1984\",ELLIPSOID[\"WGS 84\",6378137,298.257223563,LENGTHUNIT[\"metre\",1]]],PRIMEM[\"Greenwich\",0,ANGLEUNIT[\"degree\",0.0174532925199433]],"
               "CS[ellipsoidal,3],AXIS[\"latitude\",north,ORDER[1],ANGLEUNIT[\"%s\",%.17g]],AXIS[\"longitude\",east,ORDER[2],ANGLEUNIT[\"%s\",%.17g]],AXIS[\"ellipsoidal height\",up,ORDER[3],LENGTHUNIT[\"%s\",%.17g]]]", u1, f1, u2, f2, u3, f3);
}
struct U3 { std::string u[3]; };
static std::string spell(const std::string& s) { if (!strcasecmp(s.c_str(), "metre") || !strcasecmp(s.c_str(), "meter")) return "meter"; if (!strcasecmp(s.c_str(), "kilometre")) return "kilometer"; return s; }
// unit names of the axes of the CRS, read from its PROJJSON-free description
static std::vector<std::string> axes(const PJ* crs) {
    std::vector<std::string> r; PJ* cs = proj_crs_get_coordinate_system(nullptr, crs); if (!cs) return r;
    for (int i = 0; i < proj_cs_get_axis_count(nullptr, cs); ++i) { const char* u = nullptr; proj_cs_get_axis_info(nullptr, cs, i, nullptr, nullptr, nullptr, nullptr, &u, nullptr, nullptr); r.push_back(u ? u : "?"); }
    proj_destroy(cs); return r;
}
static U3 expected(const std::string& text) {
    U3 w{{"unknown", "unknown", "meter (assumed)"}}; if (text.empty()) return w;
    PJ* p = proj_create(nullptr, text.c_str()); if (!p) return w;
    std::vector<std::string> a = axes(p);
    if (a.empty() && proj_get_type(p) == PJ_TYPE_BOUND_CRS) { PJ* s = proj_get_source_crs(nullptr, p); if (s) { a = axes(s); proj_destroy(s); } }
    if (a.empty() && proj_get_type(p) == PJ_TYPE_COMPOUND_CRS) {
        PJ *h = proj_crs_get_sub_crs(nullptr, p, 0), *v = proj_crs_get_sub_crs(nullptr, p, 1);
        if (h) { a = axes(h); a.resize(std::min<size_t>(a.size(), 2)); proj_destroy(h); }
        if (v) { auto z = axes(v); if (!z.empty() && a.size() == 2) a.push_back(z[0]); proj_destroy(v); }
    }
    for (size_t i = 0; i < 3 && i < a.size(); ++i) w.u[i] = spell(a[i]);
    proj_destroy(p); return w;
}
int main(int argc, char** argv) {
    init(argc, argv);
    proj_log_level(nullptr, PJ_LOG_NONE);
    // known answers
    struct K { std::string crs; U3 w; };
    std::vector<K> known = {
        {"EPSG:4326", {{"degree", "degree", "meter (assumed)"}}}, {"EPSG:4979", {{"degree", "degree", "meter"}}}, {"EPSG:26910", {{"meter", "meter", "meter (assumed)"}}},
        {"EPSG:2227", {{"US survey foot", "US survey foot", "meter (assumed)"}}}, {"", {{"unknown", "unknown", "meter (assumed)"}}}, {"no such crs", {{"unknown", "unknown", "meter (assumed)"}}},
        {mixed("metre", 1, "kilometre", 1000), {{"meter", "kilometer", "meter (assumed)"}}}, {mixed("foot", 0.3048, "metre", 1), {{"foot", "meter", "meter (assumed)"}}},
        {geo3("degree", 0.0174532925199433, "radian", 1, "foot", 0.3048), {{"degree", "radian", "foot"}}}, {geo3("degree", 0.0174532925199433, "degree", 0.0174532925199433, "METRE", 1), {{"degree", "degree", "meter"}}},
        {"EPSG:26910+5703", {{"meter", "meter", "meter"}}}, {"EPSG:26910+6360", {{"meter", "meter", "US survey foot"}}}, {"EPSG:2227+5703", {{"US survey foot", "US survey foot", "meter"}}},
        {"+proj=utm +zone=10 +datum=WGS84 +units=km +type=crs", {{"kilometer", "kilometer", "meter (assumed)"}}},
        {"+proj=tmerc +lon_0=-123 +ellps=GRS80 +towgs84=1,2,3 +units=us-ft +type=crs", {{"US survey foot", "US survey foot", "meter (assumed)"}}},
    };
    auto units = [&](const std::string& crs, int mask) {
        U3 g{{"?", "?", "?"}};
        CRSTransformer::getCRSUnits(mask & 1 ? &g.u[0] : nullptr, mask & 2 ? &g.u[1] : nullptr, mask & 4 ? &g.u[2] : nullptr, crs.c_str());
        return g;
    };
    auto compare = [&](const std::string& crs, const U3& w, int mask) {
        scenario(fmt("units mask=%d of ", mask) + crs.substr(0, 900));
        U3 g = units(crs, mask);
        for (int i = 0; i < 3; ++i) check(g.u[i] == (mask >> i & 1 ? w.u[i] : std::string("?")), "unit of an axis", fmt("axis %d: '", i) + g.u[i] + "' expected '" + (mask >> i & 1 ? w.u[i] : std::string("?")) + "'");
    };
    for (auto& k : known) for (int mask = 0; mask < 8; ++mask) compare(k.crs, k.w, mask);
    scenario("units of a null CRS"); { std::string x = "a", y = "b", z = "c"; CRSTransformer::getCRSUnits(&x, &y, &z, nullptr); check(x == "unknown" && y == "unknown" && z == "meter (assumed)", "unit of an axis", "null CRS: " + x + "," + y + "," + z); }
    const std::vector<std::string> crss = {"EPSG:4326", "EPSG:26910", "EPSG:26911", "EPSG:3310", "EPSG:3488", "EPSG:2227", "EPSG:4269", "EPSG:3857", "EPSG:4979", "EPSG:32610", "EPSG:2193", "+proj=utm +zone=10 +datum=WGS84 +units=km +type=crs", "EPSG:26910+5703", "EPSG:4326+5773",
        mixed("metre", 1, "kilometre", 1000), mixed("kilometre", 1000, "metre", 1), "+proj=tmerc +lon_0=-123 +ellps=GRS80 +towgs84=1,2,3 +units=us-ft +type=crs", "EPSG:4167", "garbage", "EPSG:99999999"};
    const std::vector<std::pair<const char*, double> > lens = {{"metre", 1}, {"Metre", 1}, {"meter", 1}, {"METER", 1}, {"kilometre", 1000}, {"KILOMETRE", 1000}, {"foot", 0.3048}, {"US survey foot", 0.304800609601219}, {"yard", 0.9144}, {"kilometer", 1000}};
    auto direct = [](const std::string& a, const std::string& b, PJ_DIRECTION d, const double* p, double* q) {
        static std::map<std::string, PJ*> known; auto k = a + "\n" + b;
        if (!known.count(k)) known[k] = proj_create_crs_to_crs(nullptr, a.c_str(), b.c_str(), nullptr);
        PJ* t = known[k]; if (!t) return false;
        PJ_COORD c = proj_trans(t, d, proj_coord(p[0], p[1], p[2], HUGE_VAL)); for (int i = 0; i < 3; ++i) q[i] = c.v[i]; return true;
    };
    for (int it = 0; timeLeft(); ++it) {
        if (coin(30)) {
            auto a = pick(lens), b = pick(lens), c = pick(lens);
            std::string t = coin() ? mixed(a.first, a.second, b.first, b.second) : coin() ? geo3("degree", 0.0174532925199433, coin() ? "radian" : "grad", 0.015, c.first, c.second) : fmt("EPSG:%d", ri(0, 3) ? ri(2000, 4999) : ri(20000, 33000));
            if (coin(15)) t = fmt("EPSG:%d+%d", pick(std::vector<int>{26910, 2227, 4326, 3310}), pick(std::vector<int>{5703, 6360, 5773, 5714, 8228}));
            compare(t, expected(t), ri(1, 7));
            continue;
        }
        std::string s = pick(crss), d = pick(crss);
        scenario(fmt("it=%d ", it) + s.substr(0, 700) + " -> " + d.substr(0, 700));
        CRSTransformer t; bool ok = true; std::string what;
        if (coin(30)) { t.setSrc(pick(crss).c_str()); t.setDest(pick(crss).c_str()); try { t.initialize(); } catch (const std::exception&) {} }      // used for something else before
        t.setSrc(s.c_str()); t.setDest(d.c_str());
        try { t.initialize(); } catch (const std::exception& e) { ok = false; what = e.what(); }
        double z0[3] = {0, 0, 0}, q[3]; bool exists = direct(s, d, PJ_FWD, z0, q);
        if (!check(ok == exists, ok ? "a transform that does not exist" : "a transform is refused", what)) continue;
        if (!ok) { check(what.find(s) != std::string::npos && what.find(d) != std::string::npos, "error does not name the CRS", what); continue; }
        for (int n = 0; n < 20; ++n) {
            double lonlat[3] = {rd(36.0, 39.5), rd(-124, -120), rd(-2000, 2000)}, p[3];
            if (!direct("EPSG:4326", s, PJ_FWD, lonlat, p)) break;
            double w[3], g[3] = {-7, -7, -7}; direct(s, d, PJ_FWD, p, w);
            bool noz = coin(20);
            t.transform(&g[0], &g[1], noz ? nullptr : &g[2], p[0], p[1], p[2]);
            for (int i = 0; i < (noz ? 2 : 3); ++i) check(close(g[i], w[i], 1, 1e-12), "transform", fmt("axis %d of (%.12g %.12g %.12g): %.15g expected %.15g", i, p[0], p[1], p[2], g[i], w[i]));
            double wi[3], b[3] = {-7, -7, -7}; direct(s, d, PJ_INV, w, wi);
            t.inverse_transform(&b[0], &b[1], noz ? nullptr : &b[2], w[0], w[1], w[2]);
            for (int i = 0; i < (noz ? 2 : 3); ++i) { check(close(b[i], wi[i], 1, 1e-12), "inverse transform", fmt("axis %d of (%.12g %.12g %.12g): %.15g expected %.15g", i, w[0], w[1], w[2], b[i], wi[i]));
                if (i < 2) check(std::isinf(b[i]) || close(b[i], p[i], 1, 1e-5), "there and back again", fmt("axis %d: %.12g from %.12g", i, b[i], p[i])); }
        }
        if (coin(40)) {
            CRSTransformer* x = nullptr; std::string err; try { x = CRSTransformer::createGeoToXYAxisOrder(s.c_str()); } catch (const std::exception& e) { err = e.what(); }
            bool swapped = s == "EPSG:4326" || s == "EPSG:4269" || s == "EPSG:4979" || s == "EPSG:2193" || s == "EPSG:4167" || s == "EPSG:4326+5773", bad = s == "garbage" || s == "EPSG:99999999";
            if (check((x != nullptr) == !bad, "x/y order", "of " + s.substr(0, 100) + ": " + err) && x) {
                double a = 37.5, b = -122.25, gx, gy; if (s == "EPSG:2193" ) { a = 5.9e6; b = 1.6e6; } if (!swapped) { a = 500.0; b = 4000; }
                x->transform(&gx, &gy, nullptr, a, b, 0.0);
                check(close(gx, swapped ? b : a, 1, 1e-9) && close(gy, swapped ? a : b, 1, 1e-9), "x/y order", fmt("(%g %g) gives (%.12g %.12g)", a, b, gx, gy));
            }
            delete x;
        }
    }
    return finish();
}
