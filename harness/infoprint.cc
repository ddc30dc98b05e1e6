// Run-time contract of the descriptions printed by geomodelgrids_info (C28).
#include "apps.hh"
#include "geomodelgrids/apps/Info.hh"
#include "geomodelgrids/utils/CRSTransformer.hh"
using namespace gm;
struct Piece { bool num; double v; std::string s; };
struct Text {
    std::vector<Piece> p;
    Text& operator<<(const std::string& s) { p.push_back({false, 0, s}); return *this; }
    Text& operator<<(const char* s) { return *this << std::string(s); }
    Text& operator<<(double v) { p.push_back({true, v, ""}); return *this; }
    Text& operator<<(int v) { return *this << (double)v; }
};
static bool blank(char c) { return c == ' ' || c == '\t'; }
// the place where the output differs from the expected text, or npos; blanks do not count, numbers within the printed digits
static size_t differs(const std::string& out, const Text& t, std::string& want) {
    size_t i = 0; auto skip = [&]() { while (i < out.size() && blank(out[i])) ++i; };
    for (auto& p : t.p) {
        if (p.num) {
            skip(); char* e = nullptr; double v = strtod(out.c_str() + i, &e);
            if (e == out.c_str() + i || !(std::fabs(v - p.v) <= 6e-6 * std::fabs(p.v) + 1e-9 || (std::isinf(v) && v == p.v) || (std::isnan(v) && std::isnan(p.v)))) { want = g17(p.v); return i; }
            i = e - out.c_str();
        } else for (char c : p.s) { if (blank(c)) continue; skip(); if (i >= out.size() || out[i] != c) { want = p.s; return i; } ++i; }
    }
    skip();
    if (i != out.size()) { want = "end of output"; return i; }
    return std::string::npos;
}
static std::string word() { static const char* w[] = {"alpha", "Beta two", "x", "Smith, Jim", "http://a.b/c?d=1", "10.5066/P9", "", "a (b)", "v08-3.0", "42", "1.5e3", "Sierra; Nevada", "100%", "a: b"}; return w[ri(0, 13)]; }
static std::string listText(const std::vector<std::string>& v, const char* d) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? d : "") + v[i]; return s; }
int main(int argc, char** argv) {
    init(argc, argv);
    const std::vector<std::string> texts{"title", "id", "description", "history", "comment", "creator_name", "creator_institution", "creator_email", "acknowledgement", "repository_name", "repository_url", "repository_doi", "version", "license"};
    for (int it = 0; timeLeft(); ++it) {
        int nm = coin(70) ? 1 : ri(2, 3); std::vector<ModelSpec> ms; std::vector<std::string> files;
        bool incomplete = coin(12);
        for (int q = 0; q < nm; ++q) {
            RandOpt ro; ro.L = pick(std::vector<double>{2000, 30000, 100000}); ro.x0 = rd(-200000, 200000); ro.y0 = rd(-300000, 300000); ro.allowVar = coin(50);
            int nv = ri(1, 5); for (int i = 0; i < nv; ++i) { ro.names.push_back(fmt("value-%c%d", 'z' - ri(0, 20), i)); ro.units.push_back(pick(std::vector<std::string>{"m/s", "kg/m**3", "none", "m", "-"})); }
            ModelSpec m = randModel(ro);
            for (auto& t : texts) m.str[t] = word();
            for (auto n : {"keywords", "authors", "references"}) { m.lists[n].clear(); for (int k = ri(1, 4); k > 0; --k) { std::string w = word(); m.lists[n].push_back(w); } }
            if (coin(40)) m.str["auxiliary"] = "{\"a\": 1}";
            m.str["data_layout"] = coin(70) ? "vertex" : "VERTEX";
            m.str["crs"] = pick(std::vector<std::string>{"EPSG:3311", "EPSG:3311", "EPSG:26910", "EPSG:32611", "EPSG:3857"});
            m.varStr = coin(70);
            std::sort(m.blocks.begin(), m.blocks.end(), [](const BlockSpec& a, const BlockSpec& b) { return a.zTop() > b.zTop(); });
            if (incomplete && (q == 0 || coin())) for (int k = ri(1, 2); k > 0; --k) m.omit.insert(pick(std::vector<std::string>{"data_units", "data_values", "title", "keywords", "references", "license", "data_layout", "version"}));
            std::string f = fmt("p%d.h5", q); ModelSpec w = m; std::shuffle(w.blocks.begin(), w.blocks.end(), rep().rng); write(w, f); files.push_back(f); ms.push_back(m);
        }
        std::vector<std::string> args{"--models=" + joined(files, ",")}; bool want[5] = {false, false, false, false, false}; const char* on[5] = {"--description", "--coordsys", "--values", "--blocks", "--all"};
        const char* sn[4] = {"-d", "-c", "-v", "-b"};
        if (coin(20)) want[4] = true; else { for (int i = 0; i < 4; ++i) want[i] = coin(45); if (!want[0] && !want[1] && !want[2] && !want[3]) want[ri(0, 3)] = true; }
        for (int i = 0; i < 5; ++i) if (want[i]) args.push_back(i < 4 && coin(30) ? sn[i] : on[i]);
        std::shuffle(args.begin(), args.end(), rep().rng);
        std::string sh; for (auto& m : ms) { sh += " ["; for (auto& o : m.omit) sh += " omit " + o; for (auto& b : m.blocks) sh += fmt("; %s x %d*%g%s y %d*%g%s z %d*%g%s", b.name.c_str(), b.x.n, b.x.res, b.x.variable() ? "v" : "", b.y.n, b.y.res, b.y.variable() ? "v" : "", b.z.n, b.z.res, b.z.variable() ? "v" : ""); sh += "]"; }
        scenario(fmt("it=%d ", it) + joined(args) + sh);
        Ran r = runApp<geomodelgrids::apps::Info>(args);
        if (!check(!r.threw && r.status == 0, "no description is printed", r.what)) continue;
        std::vector<size_t> at; size_t from = 0; for (auto& f : files) { size_t p = r.out.find("Model: " + f, from); at.push_back(p); if (p != std::string::npos) from = p + 1; } at.push_back(std::string::npos);
        if (!check(at[0] == 0, "the first model comes first", oneline(r.out))) continue;
        for (int q = 0; q < nm; ++q) {
            ModelSpec& m = ms[q];
            if (!check(at[q] != std::string::npos, "a model is not described", files[q])) break;
            std::string out = r.out.substr(at[q], at[q + 1] == std::string::npos ? std::string::npos : at[q + 1] - at[q]);
            if (!m.omit.empty()) {                                      // information may be incomplete
                const char* head[4] = {"    Title:", "    Coordinate system:", "    Values stored in model:", "    Blocks ("};
                for (int i = 0; i < 4; ++i) if (want[i] || want[4]) check(out.find(head[i]) != std::string::npos, "a section is missing", files[q] + ": " + head[i]);
                continue;
            }
            if (want[4]) { size_t v = out.find("Verification"), e = out.find("    Title:"); if (!check(v != std::string::npos && e != std::string::npos && v < e, "verification comes with --all", oneline(out))) continue; v = out.rfind('\n', v) + 1; out.erase(v, e - v); }
            Text t; t << "Model: " + files[q] + "\n";
            if (want[0] || want[4]) {
                auto S = [&](const char* k) { return m.str[k]; };
                t << "Title: " + S("title") + "\nId: " + S("id") + "\nDescription: " + S("description") + "\nKeywords: " + listText(m.lists["keywords"], ", ") + "\nHistory: " + S("history") + "\nComment: " + S("comment")
                    + "\nCreator: " + S("creator_name") + ", " + S("creator_institution") + ", " + S("creator_email") + "\nAuthors: " + listText(m.lists["authors"], "; ") + "\nReferences:\n" + listText(m.lists["references"], "\n")
                    + "\nAcknowledgement: " + S("acknowledgement") + "\nRepository: " + S("repository_name") + " " + S("repository_url") + "\nDOI: " + S("repository_doi") + "\nVersion: " + S("version") + "\nLicense: " + S("license") + "\n";
                if (m.str.count("auxiliary")) t << "Auxiliary information: " + S("auxiliary") + "\n";
                t << "Dimensions of model: x=" << m.num["dim_x"] << ", y=" << m.num["dim_y"] << ", z=" << m.num["dim_z"] << "\nBounding box (WGS84):";
                Crs c; c.set(m.str["crs"], "EPSG:4326"); double a = m.num["y_azimuth"] * M_PI / 180, dx = m.num["dim_x"], dy = m.num["dim_y"];
                for (auto k : std::vector<std::pair<double, double> >{{0, 0}, {dx, 0}, {dx, dy}, {0, dy}}) {
                    double o[3]; c.fwd(m.num["origin_x"] + k.first * std::cos(a) + k.second * std::sin(a), m.num["origin_y"] - k.first * std::sin(a) + k.second * std::cos(a), 0, o);
                    t << " (" << o[0] << ", " << o[1] << ")";
                }
                t << "\n";
            }
            if (want[1] || want[4]) {
                std::string ux, uy, uz; geomodelgrids::utils::CRSTransformer::getCRSUnits(&ux, &uy, &uz, m.str["crs"].c_str());
                t << "Coordinate system:\nCRS (PROJ, EPSG, WKT): " + m.str["crs"] + "\nCoordinate system units: x=" + ux + ", y=" + uy + ", z=" + uz + "\nOrigin: x=" << m.num["origin_x"] << ", y=" << m.num["origin_y"]
                  << "\nAzimuth (degrees) of y axis from north: " << m.num["y_azimuth"] << "\n";
            }
            if (want[2] || want[4]) {
                t << "Values stored in model:\n"; auto &nv = m.lists["data_values"], &un = m.lists["data_units"];
                for (size_t i = 0; i < nv.size(); ++i) t << (int)i << ": " + nv[i] + " (" + un[i] + ")\n";
                t << "Vertex-based data\n";
            }
            if (want[3] || want[4]) {
                auto res = [](const Axis& a) { return a.variable() ? 0.0 : a.res; };
                auto surf = [&](bool has, SurfSpec& s) { if (!has) t << "None\n"; else t << "Number of points: x=" << s.x.n << ", y=" << s.y.n << "\nResolution: x=" << res(s.x) << ", y=" << res(s.y) << "\n"; };
                t << "Surfaces\nTop surface:\n"; surf(m.hasTop, m.top); t << "Topography/bathymetry:\n"; surf(m.hasTopo, m.topo);
                t << "Blocks (" << (int)m.blocks.size() << ")\n";
                for (auto& b : m.blocks) t << "Block '" + b.name + "'\nResolution: x=" << res(b.x) << ", y=" << res(b.y) << ", z=" << res(b.z) << "\nElevation of top of block in logical space: " << b.zTop()
                    << "\nNumber of points: x=" << b.x.n << ", y=" << b.y.n << ", z=" << b.z.n << "\nDimensions: x=" << b.x.extent() << ", y=" << b.y.extent() << ", z=" << b.z.extent() << "\n";
            }
            std::string w; size_t d = differs(out, t, w);
            check(d == std::string::npos, "description differs from what is stored", files[q] + fmt(": at %zu \"", d) + oneline(out.substr(d == std::string::npos ? 0 : d, 60)) + "\" expected \"" + oneline(w) + "\"");
        }
    }
    return finish();
}
