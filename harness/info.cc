// Run-time contract of geomodelgrids_info --verify (C20).
#include "apps.hh"
#include "geomodelgrids/apps/Info.hh"
using namespace gm;
// the verdicts, in the order printed
static std::vector<std::pair<std::string, bool> > verdicts(const std::string& out, std::vector<std::string>& bodies) {
    std::vector<std::pair<std::string, bool> > v; size_t p = out.find("Verifying");
    while (p != std::string::npos) {
        size_t e = out.find("Verifying", p + 1); std::string s = out.substr(p, e == std::string::npos ? e : e - p);
        size_t d = s.find("..."); std::string head = s.substr(0, d), body = d == std::string::npos ? "" : s.substr(d + 3);
        v.push_back({head, body.compare(0, 2, "OK") == 0 && body.find("FAIL") == std::string::npos}); bodies.push_back(body); p = e;
    }
    return v;
}
static bool off(double extent, double dim) { return std::fabs(1.0 - extent / dim) > 1e-6; }
static const char* CRS_MIXED = "PROJCRS[\"mixed\",BASEGEOGCRS[\"WGS 84\",DATUM[\"World Geodetic System 1984\",ELLIPSOID[\"WGS 84\",6378137,298.257223563,LENGTHUNIT[\"metre\",1]]],PRIMEM[\"Greenwich\",0,ANGLEUNIT[\"degree\",0.0174532925199433]]],"
    "CONVERSION[\"UTM zone 10N\",METHOD[\"Transverse Mercator\",ID[\"EPSG\",9807]],PARAMETER[\"Latitude of natural origin\",0,ANGLEUNIT[\"degree\",0.0174532925199433]],PARAMETER[\"Longitude of natural origin\",-123,ANGLEUNIT[\"degree\",0.0174532925199433]],"
    "PARAMETER[\"Scale factor at natural origin\",0.9996,SCALEUNIT[\"unity\",1]],PARAMETER[\"False easting\",500000,LENGTHUNIT[\"metre\",1]],PARAMETER[\"False northing\",0,LENGTHUNIT[\"metre\",1]]],"
    "CS[Cartesian,2],AXIS[\"(E)\",east,ORDER[1],LENGTHUNIT[\"metre\",1]],AXIS[\"(N)\",north,ORDER[2],LENGTHUNIT[\"kilometre\",1000]]]";
int main(int argc, char** argv) {
    init(argc, argv);
    for (int it = 0; timeLeft(); ++it) {
        int nm = coin(75) ? 1 : ri(2, 3); std::vector<ModelSpec> ms; std::vector<std::string> files; std::string sh;
        for (int q = 0; q < nm; ++q) {
            RandOpt ro; ro.L = pick(std::vector<double>{2000, 30000, 1000}); ro.maxBlocks = 4; ro.allowVar = coin(60);
            ModelSpec m = randModel(ro);
            std::sort(m.blocks.begin(), m.blocks.end(), [](const BlockSpec& a, const BlockSpec& b) { return a.zTop() > b.zTop(); });
            if (coin(40)) for (auto& b : m.blocks) { b.x = m.hasTop ? m.top.x : b.x; b.y = m.hasTop ? m.top.y : b.y; b.data.assign((size_t)b.x.n * b.y.n * b.z.n * b.nv, 1.0); }   // the same grid
            if (coin(50) && m.hasTop && m.hasTopo) { m.topo = m.top; }
            if (coin(8)) m.str["crs"] = CRS_MIXED; else if (coin(20)) m.str["crs"] = pick(std::vector<std::string>{"EPSG:26910", "EPSG:4326", "EPSG:4979", "EPSG:2227"});
            auto stretch = [&](Axis& a) { double f = pick(std::vector<double>{0.5, 2.0, 1.001, 0.999, 1.0 - 1e-5, 1 + 1e-12, 10}); if (a.variable()) { double c0 = a.coords[0]; for (auto& c : a.coords) c = c0 + (c - c0) * f; } else a.res *= f; };
            int faults = pick(std::vector<int>{0, 0, 1, 1, 2, 4}); auto& B = m.blocks; auto anyB = [&]() -> BlockSpec& { return B[ri(0, (int)B.size() - 1)]; };
            for (int k = 0; k < faults && !B.empty(); ++k) switch (ri(0, 6)) {
                case 0: { auto& b = anyB(); stretch(coin() ? b.x : b.y); break; }
                case 1: if (m.hasTop || m.hasTopo) { SurfSpec& s = m.hasTop && (coin() || !m.hasTopo) ? m.top : m.topo; stretch(coin() ? s.x : s.y); } break;
                case 2: { auto& b = anyB(); double d = rd(-50, 50); b.ztop += d; if (b.z.variable()) for (auto& c : b.z.coords) c += d; break; }
                case 3: { stretch(anyB().z); break; }
                case 4: m.num[coin() ? "dim_x" : coin() ? "dim_y" : "dim_z"] *= pick(std::vector<double>{2, 0.9, 1.0001}); break;
                case 5: if (B.size() > 1 && coin(50)) { B.erase(B.begin() + ri(0, (int)B.size() - 1)); } break;
                case 6: { int w = ri(0, 3); if (w == 0) m.omit.insert(pick(std::vector<std::string>{"title", "keywords", "data_units", "dim_x", "crs", "origin_y", "y_azimuth", "license", "data_layout"})); if (w == 1) { auto& b = anyB(); m.omit.insert("blocks/" + b.name + (b.x.variable() ? "/x_coordinates" : "/x_resolution")); } if (w == 2) B.clear(); break; }
            }
            std::sort(m.blocks.begin(), m.blocks.end(), [](const BlockSpec& a, const BlockSpec& b) { return a.zTop() > b.zTop(); });
            for (auto o = m.omit.begin(); o != m.omit.end();) { bool gone = o->compare(0, 7, "blocks/") == 0; for (auto& b : B) if (o->compare(0, b.name.size() + 8, "blocks/" + b.name + "/") == 0) gone = false; if (gone) o = m.omit.erase(o); else ++o; }
            ms.push_back(m);
            std::string f = fmt("i%d.h5", q); ModelSpec w = m; std::shuffle(w.blocks.begin(), w.blocks.end(), rep().rng); write(w, f); files.push_back(f);
            sh += fmt(" [dims %.9g %.9g %.9g top=%d topo=%d omit:", m.num["dim_x"], m.num["dim_y"], m.num["dim_z"], m.hasTop, m.hasTopo); for (auto& o : m.omit) sh += " " + o;
            for (auto& b : m.blocks) sh += fmt("; %s x %d*%g%s y %d*%g%s z %.9g..%.9g", b.name.c_str(), b.x.n, b.x.res, b.x.variable() ? "v" : "", b.y.n, b.y.res, b.y.variable() ? "v" : "", b.zTop(), b.zBottom());
            sh += "]";
        }
        std::vector<std::string> args{"--models=" + joined(files, ","), coin(80) ? "--verify" : "--all"};
        bool complete = true; for (auto& m : ms) if (!m.omit.empty()) complete = false;
        if (complete && coin(20)) args.push_back("--values");
        std::shuffle(args.begin(), args.end(), rep().rng);
        scenario(fmt("it=%d ", it) + joined(args) + sh);
        bool all = std::count(args.begin(), args.end(), "--all");
        if (all && !complete) continue;                                  // showing a model that cannot be read is not verification
        Ran r = runApp<geomodelgrids::apps::Info>(args);
        if (!check(!r.threw && r.status == 0, "verification stopped", r.what)) continue;
        // the part of the output about each model
        std::vector<size_t> at; for (auto& f : files) at.push_back(r.out.find("Model: " + f)); at.push_back(std::string::npos);
        for (int q = 0; q < nm; ++q) {
            ModelSpec& m = ms[q];
            if (!check(at[q] != std::string::npos, "model is not verified", files[q])) break;
            std::string out = r.out.substr(at[q], at[q + 1] == std::string::npos ? std::string::npos : at[q + 1] - at[q]);
            std::vector<std::string> bodies; auto v = verdicts(out, bodies);
            struct Want { std::string what; int fails; }; std::vector<Want> w;
            double D[3] = {m.num["dim_x"], m.num["dim_y"], m.num["dim_z"]};
            w.push_back({"metadata", !m.omit.empty()});
            w.push_back({"coordinate system", m.str["crs"] == CRS_MIXED && !m.omit.count("crs")});
            auto surf = [&](const char* n, SurfSpec& s) { w.push_back({n, off(s.x.extent(), D[0]) + off(s.y.extent(), D[1])}); };
            if (m.hasTop) surf("top surface", m.top);
            if (m.hasTopo) surf("topography/bathymetry", m.topo);
            auto differ = [](Axis& a, Axis& b) { return !a.variable() && !b.variable() && std::fabs(1 - b.res / a.res) > 1e-4; };
            if (m.hasTop && m.hasTopo) w.push_back({"matches", differ(m.top.x, m.topo.x) || differ(m.top.y, m.topo.y)});
            auto notMult = [&](Axis& s, Axis& a) { if (s.variable() || a.variable()) return false; double k = std::floor(0.01 + a.res / s.res); return std::fabs(k * s.res - a.res) > 1e-6; };
            bool tie = false;
            for (auto& b : m.blocks) {
                if (m.hasTop) for (int i = 0; i < 2; ++i) { Axis &s = i ? m.top.y : m.top.x, &a = i ? b.y : b.x; double k = std::floor(0.01 + a.res / s.res), d = std::fabs(k * s.res - a.res); if (!s.variable() && !a.variable() && d > 1e-8 && d < 1e-4) tie = true; }
                w.push_back({b.name, off(b.x.extent(), D[0]) + off(b.y.extent(), D[1]) + (m.hasTop ? notMult(m.top.x, b.x) + notMult(m.top.y, b.y) : 0)}); }
            int z = 0; auto apart = [&](double a, double b) { double d = std::fabs(a - b); if (d > 1e-6 && d < 1e-3) tie = true; return d > 1e-4; };
            if (m.blocks.empty()) z = 1; else { z += apart(m.blocks[0].zTop(), 0); for (size_t i = 1; i < m.blocks.size(); ++i) z += apart(m.blocks[i - 1].zBottom(), m.blocks[i].zTop()); z += apart(m.blocks.back().zBottom(), -D[2]); }
            w.push_back({"vertical", z});
            if (tie) { rep().counts["skipped near ties"]++; continue; }
            if (!check(v.size() == w.size(), "number of verdicts", fmt("%s: %zu expected %zu; output: ", files[q].c_str(), v.size(), w.size()) + oneline(out))) continue;
            if (!m.omit.empty()) {
                check(!v[0].second, "incomplete metadata is accepted", oneline(out));
                for (auto& o : m.omit) check(bodies[0].find(o.substr(o.rfind('/') + 1)) != std::string::npos, "missing metadata is not named", o);
                continue;
            }
            for (size_t i = 0; i < w.size(); ++i) {
                check(v[i].second == (w[i].fails == 0), w[i].fails ? "inconsistent model is accepted" : "consistent model is rejected", files[q] + " " + w[i].what + ": " + v[i].first + oneline(bodies[i]));
                if (w[i].fails && i) { long n = 0; std::istringstream in(bodies[i]); std::string line; while (std::getline(in, line)) if (line.find_first_not_of(" ") != std::string::npos && line.find("FAIL") == std::string::npos) ++n; bool last = i + 1 == w.size();
                    if (!last || (!all && args.size() == 2)) check(n >= w[i].fails, "a check that fails is not reported", files[q] + " " + w[i].what + fmt(": %ld lines for %d failures: ", n, w[i].fails) + oneline(bodies[i])); }
            }
        }
    }
    return finish();
}
