// Run-time contract of geomodelgrids_query, geomodelgrids_queryelev (C18) and geomodelgrids_borehole (C19).
#include "apps.hh"
#include "geomodelgrids/apps/Query.hh"
#include "geomodelgrids/apps/QueryElev.hh"
#include "geomodelgrids/apps/Borehole.hh"
#include "geomodelgrids/serial/Query.hh"
#include <unistd.h>
using namespace gm;
using Q = geomodelgrids::serial::Query;
typedef std::vector<std::vector<double>> Rows;
static bool num(double got, double want, double abstol = 0) { return got == want || std::fabs(got - want) <= 1e-5 * std::fabs(want) + abstol || (std::isnan(got) && std::isnan(want)); }
// the rows of numbers of an output file; the header lines start with '#' and come first
static bool parse(const std::string& text, Rows& rows, std::vector<std::string>& head) {
    std::istringstream in(text); std::string line; bool numbers = false;
    if (!text.empty() && text.back() != '\n') return false;
    while (std::getline(in, line)) {
        if (!line.empty() && line[0] == '#') { if (numbers) return false; head.push_back(line); continue; }
        numbers = true; std::istringstream w(line); std::string t; std::vector<double> r;
        while (w >> t) { char* e; r.push_back(strtod(t.c_str(), &e)); if (*e) return false; }
        rows.push_back(r);
    }
    return true;
}
static bool namesIn(const std::vector<std::string>& head, const std::vector<std::string>& names) {
    for (auto& h : head) { std::istringstream w(h); std::vector<std::string> t; std::string s; while (w >> s) t.push_back(s);
        if (t.size() >= names.size() && std::equal(names.begin(), names.end(), t.end() - names.size())) return true; }
    return names.empty();
}
template<class App> static void rejected(std::vector<std::string> args, const std::vector<std::string>& required) {
    std::string how;
    int k = ri(0, (int)required.size() + 2);
    auto find = [&](const std::string& o) { for (size_t i = 0; i < args.size(); ++i) if (args[i].compare(0, o.size() + 1, o + "=") == 0) return i; return args.size(); };
    if (k < (int)required.size()) { size_t i = find(required[k]); how = "without " + required[k]; args.erase(args.begin() + i); }
    else if (k == (int)required.size()) { size_t i = find("--output"); how = "output in an absent folder"; args[i] = "--output=absent/out.txt"; }
    else if (k == (int)required.size() + 1) { size_t i = find("--models"); how = "absent model"; args[i] += coin() ? ",absent.h5" : "x"; }
    else { size_t i = find("--points"); if (i == args.size()) return; how = "absent points"; args[i] = "--points=absent.txt"; }
    scenario(how + ": " + joined(args));
    unlink("out.txt");
    Ran r = runApp<App>(args);
    check(r.threw || r.status != 0, "bad request accepted", how);
    Rows rows; std::vector<std::string> h; check(access("out.txt", F_OK) != 0 || (parse(slurp("out.txt"), rows, h) && rows.empty()), "bad request answered", how);
}
int main(int argc, char** argv) {
    init(argc, argv);
    bool bore = rep().prop == "C19";
    for (int it = 0; timeLeft(); ++it) {
        RandOpt ro; ro.L = pick(std::vector<double>{2000, 30000}); ro.maxBlocks = 3; ro.allowVar = coin(30); ro.x0 = rd(-5e4, 5e4); ro.y0 = rd(-1e5, 5e4); ro.nodata = coin(20);
        ro.names = {"Vp", "Vs", "Qs", "rho"}; ro.units = {"m/s", "m/s", "none", "kg/m**3"};
        int nm = coin(60) ? 1 : 2; std::vector<ModelO> ms(nm); std::vector<std::string> files;
        std::string crs = coin(20) ? pick(std::vector<std::string>{"EPSG:4326", "EPSG:26910"}) : "EPSG:3311";
        for (int k = 0; k < nm; ++k) {
            if (k) { ro.x0 += rd(-0.5, 0.5) * ro.L; ro.y0 += rd(-0.5, 0.5) * ro.L; }
            ms[k].m = randModel(ro); ms[k].file = fmt("m%d.h5", k); write(ms[k].m, ms[k].file); ms[k].open(crs); files.push_back(ms[k].file);
        }
        std::vector<std::string> names; int nv = ri(1, 5); for (int i = 0; i < nv; ++i) names.push_back(pick(ro.names));
        bool deflt = crs == "EPSG:4326" && coin();
        std::vector<std::string> args{"--models=" + joined(files, ","), "--output=out.txt"};
        if (!deflt) args.push_back("--points-coordsys=" + crs);
        if (coin(20)) args.push_back("--log=app.log");
        unlink("out.txt");
        auto target = [&](double* p) { ModelO& M = ms[ri(0, nm - 1)]; double t[3]; randTarget(M, t, false); M.toWorld(t[0], t[1], t[2], p); };
        if (bore) {
            double p[3]; target(p);
            bool defD = coin(10), defZ = coin(10);
            double dz = defZ ? 10.0 : pick(std::vector<double>{0.1, 0.2, 0.7, 1, 3, 25, 50, rd(1, 500)}), depth = defD ? 5000.0 : dz * (coin(60) ? ri(0, 120) + pick(std::vector<double>{0, 0, 0.5, 0.25}) : rd(0, 120));
            std::string ds = g17(dz), hs = g17(depth);
            if (!defZ && !defD && coin(40)) { int k = ri(1, 9), m = ri(0, 100); ds = fmt("0.%d", k); hs = fmt("%d.%d", m * k / 10, m * k % 10); dz = atof(ds.c_str()); depth = atof(hs.c_str()); }
            if (!defZ) args.push_back("--dz=" + ds);
            if (!defD) args.push_back("--max-depth=" + hs);
            args.push_back("--values=" + joined(names, ",")); args.push_back("--location=" + g17(p[0]) + "," + g17(p[1]));
            std::shuffle(args.begin(), args.end(), rep().rng);
            scenario(fmt("it=%d ", it) + joined(args));
            Ran r = runApp<geomodelgrids::apps::Borehole>(args);
            if (!check(!r.threw, "borehole raised an error", r.what)) continue;
            Q q; q.initialize(files, names, crs);
            double top = q.queryTopElevation(p[0], p[1]);
            if (top == NODATA) { check(r.status != 0 && !r.out.empty(), "borehole outside all models is not reported", fmt("status %d", r.status)); }
            else {
                Rows rows; std::vector<std::string> head; std::string text = slurp("out.txt");
                check(r.status == 0 && parse(text, rows, head), "borehole output", fmt("status %d", r.status));
                check(namesIn(head, names), "the header names the columns", "");
                double quo = depth / dz; long want = 1 + (std::fabs(quo - std::round(quo)) < 1e-9 * std::max(1.0, quo) ? (long)std::round(quo) : (long)std::floor(quo));
                check((long)rows.size() == want, "number of rows in borehole", fmt("got %zu, expected %ld (max depth %.17g, dz %.17g)", rows.size(), want, depth, dz));
                double g = top != 0.0 ? top - 1e-6 : 0.0;
                for (size_t i = 0; i < rows.size(); ++i) {
                    auto& w = rows[i]; if (!check(w.size() == names.size() + 2, "columns of borehole row", fmt("row %zu has %zu", i, w.size()))) break;
                    double e = g - dz * i;
                    check(num(w[0], e, 2e-6), "elevation of borehole row", fmt("row %zu: %.9g expected %.9g", i, w[0], e));
                    check(num(w[1], dz * i, 1e-9 * (std::fabs(top) + dz * i) + 1e-9), "depth of borehole row", fmt("row %zu: %.9g expected %.9g", i, w[1], dz * i));
                    double hair = 1e-9 * (std::fabs(e) + 1) + 1e-7; std::vector<double> v0(nv), v1(nv), v2(nv);
                    q.query(v0.data(), p[0], p[1], e); q.query(v1.data(), p[0], p[1], e - hair); q.query(v2.data(), p[0], p[1], e + hair);
                    for (int k = 0; k < nv; ++k) check(num(w[2 + k], v0[k], 1e-6) || num(w[2 + k], v1[k], 1e-6) || num(w[2 + k], v2[k], 1e-6), "value in borehole", fmt("row %zu %s: %.9g expected %.9g", i, names[k].c_str(), w[2 + k], v0[k]));
                }
            }
            if (coin(30)) rejected<geomodelgrids::apps::Borehole>(args, {"--values", "--location", "--models", "--output"});
            if (coin(10)) { std::vector<std::string> a(args); a.push_back(pick(std::vector<std::string>{"--dz=0", "--dz=-5", "--max-depth=-10"})); a.push_back("--output=out.txt"); scenario(joined(a)); Ran b = runApp<geomodelgrids::apps::Borehole>(a); check(b.threw || b.status != 0, "senseless borehole accepted", a[a.size() - 2]); }
            continue;
        }
        bool el = coin(35); int dim = el ? 2 : 3, np = coin(15) ? ri(0, 1) : ri(2, 30);
        Rows pts; std::string text; const char* seps[] = {" ", "  ", "\t", " \t "};
        const char* lineEnd = coin(10) ? "\r\n" : "\n";
        for (int i = 0; i < np; ++i) {
            double p[3]; target(p); std::vector<double> r(p, p + dim); if (i && coin(10)) r = pick(pts);
            if (i && coin(30)) { double d = crs == "EPSG:4326" ? 1e-3 : 100; r = pts.back(); int c = ri(0, dim); for (int a = 0; a < dim; ++a) if (a != c) r[a] += a == 2 ? rd(-50, 50) : rd(-1, 1) * d * pick(std::vector<double>{1, 0.1, 0.01}); }   // close to the previous one
            pts.push_back(r); if (coin(20)) text += "  ";
            for (int a = 0; a < dim; ++a) text += std::string(a ? seps[ri(0, 3)] : "") + g17(r[a]);
            if (i + 1 < np || coin()) text += lineEnd; if (coin(5) && i + 1 < np) text += "\n";
        }
        { std::ofstream o("points.txt"); o << text; }
        args.push_back("--points=points.txt");
        if (el) {
            bool topo = coin(); if (topo) args.push_back("--surface=topography_bathymetry"); else if (coin()) args.push_back("--surface=top_surface");
            std::shuffle(args.begin(), args.end(), rep().rng);
            scenario(fmt("it=%d points=%d newline=%d ", it, np, !text.empty() && text.back() == '\n') + joined(args));
            Ran r = runApp<geomodelgrids::apps::QueryElev>(args);
            if (!check(!r.threw && r.status == 0, "queryelev raised an error", r.what)) continue;
            Rows rows; std::vector<std::string> head; check(parse(slurp("out.txt"), rows, head) && !head.empty(), "queryelev output", "");
            check(rows.size() == pts.size(), "one row per point", fmt("%zu rows for %zu points", rows.size(), pts.size()));
            Q q; q.initialize(files, {}, crs);
            for (size_t i = 0; i < rows.size() && i < pts.size(); ++i) {
                if (!check(rows[i].size() == 3, "columns of row", fmt("row %zu has %zu", i, rows[i].size()))) break;
                double e = topo ? q.queryTopoBathyElevation(pts[i][0], pts[i][1]) : q.queryTopElevation(pts[i][0], pts[i][1]);
                check(num(rows[i][0], pts[i][0]) && num(rows[i][1], pts[i][1]), "row does not hold its point", fmt("row %zu", i));
                check(num(rows[i][2], e, 1e-5), "elevation of the point", fmt("row %zu: %.9g expected %.9g", i, rows[i][2], e));
            }
            if (coin(30)) rejected<geomodelgrids::apps::QueryElev>(args, {"--points", "--models", "--output"});
            continue;
        }
        args.push_back("--values=" + joined(names, ","));
        int squash = 0; double minElev = 0; bool has = false;
        if (coin(50)) {
            int m = ri(1, 3); minElev = -std::floor(rd(1, 2000));
            if (m & 1) { args.push_back(fmt("--squash-min-elev=%g", minElev)); squash = 1; has = true; }
            if (m & 2) { squash = coin() ? 1 : 2; args.push_back(squash == 1 ? "--squash-surface=top_surface" : "--squash-surface=topography_bathymetry"); }
            if (m == 2) minElev = -10.0e+3;
        }
        std::shuffle(args.begin(), args.end(), rep().rng);
        scenario(fmt("it=%d points=%d newline=%d ", it, np, !text.empty() && text.back() == '\n') + joined(args));
        Ran r = runApp<geomodelgrids::apps::Query>(args);
        if (!check(!r.threw && r.status == 0, "query raised an error", r.what)) continue;
        Rows rows; std::vector<std::string> head; check(parse(slurp("out.txt"), rows, head) && !head.empty(), "query output", "");
        check(namesIn(head, names), "the header names the columns", "");
        check(rows.size() == pts.size(), "one row per point", fmt("%zu rows for %zu points", rows.size(), pts.size()));
        Q q; q.initialize(files, names, crs); if (squash) { q.setSquashing(squash == 1 ? Q::SQUASH_TOP_SURFACE : Q::SQUASH_TOPOGRAPHY_BATHYMETRY); if (has) q.setSquashMinElev(minElev); else q.setSquashMinElev(-10.0e+3); }
        std::vector<double> v(nv);
        for (size_t i = 0; i < rows.size() && i < pts.size(); ++i) {
            if (!check((int)rows[i].size() == 3 + nv, "columns of row", fmt("row %zu has %zu", i, rows[i].size()))) break;
            for (int a = 0; a < 3; ++a) check(num(rows[i][a], pts[i][a], 1e-9), "row does not hold its point", fmt("row %zu: %.9g expected %.9g", i, rows[i][a], pts[i][a]));
            q.query(v.data(), pts[i][0], pts[i][1], pts[i][2]);
            for (int k = 0; k < nv; ++k) check(num(rows[i][3 + k], v[k], 1e-6), "value of the point", fmt("row %zu %s: %.9g expected %.9g", i, names[k].c_str(), rows[i][3 + k], v[k]));
        }
        if (coin(30)) rejected<geomodelgrids::apps::Query>(args, {"--values", "--points", "--models", "--output"});
    }
    return finish();
}
