// Run-time contract of Query: first containing model (C07), value names (C08), units (C09), squashing (C10), elevations (C11).
#include "oracle.hh"
#include "geomodelgrids/serial/Query.hh"
#include "geomodelgrids/utils/ErrorHandler.hh"
using namespace gm;
using geomodelgrids::serial::Query;
static std::string mixCase(std::string s) { for (auto& c : s) if (isalpha((unsigned char)c)) c = coin() ? toupper(c) : tolower(c); return s; }
static bool has(const std::string& msg, const std::string& what) { return lower(msg).find(lower(what)) != std::string::npos; }
static bool hasQ(const std::string& msg, const std::string& what) { return lower(msg).find("'" + lower(what) + "'") != std::string::npos || (what.size() > 2 && has(msg, what)); }
int main(int argc, char** argv) {
    init(argc, argv);
    std::string P = rep().prop;
    const std::vector<std::string> pool{"Vp", "Vs", "density", "Qp", "Q_S", "v", "Vp2", "fault_block"};
    const std::vector<std::string> poolUnits{"m/s", "m/s", "kg/m**3", "None", "none", "km/s", "ft/s", "-"};
    std::shared_ptr<Query> keep;
    const Query* configured = nullptr; int sq = 0; double m0 = 0;
    for (int it = 0; timeLeft(); ++it) {
        int nm = ri(1, P == "C07" || P == "C11" ? 4 : 3);
        bool geo = coin(P == "C08" || P == "C09" ? 4 : 20);
        double X0 = geo ? rd(-50000, 50000) : rd(-5e5, 5e5), Y0 = geo ? rd(-100000, 50000) : rd(-5e5, 5e5), L = pick(std::vector<double>{2000, 30000});
        bool missing = P == "C08" && coin(30), badUnits = P == "C09" && coin(70);
        std::vector<ModelO> ms(nm);
        // requested names
        std::vector<int> order(pool.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        std::shuffle(order.begin(), order.end(), rep().rng);
        int nreq = ri(1, 4);
        std::vector<int> req; for (int i = 0; i < nreq; ++i) req.push_back(coin(20) && i ? req[ri(0, i - 1)] : order[i]);
        std::vector<std::string> names; for (int r : req) names.push_back(mixCase(pool[r]));
        std::string in = "EPSG:3311", sh = fmt("it=%d models=%d L=%g request=", it, nm, L);
        for (auto& n : names) sh += n + ",";
        if (geo) in = pick(std::vector<std::string>{"EPSG:4326", "EPSG:26910"});
        std::vector<std::string> files;
        for (int k = 0; k < nm; ++k) {
            RandOpt ro; ro.L = L; ro.maxBlocks = 2; ro.allowVar = coin(30);
            ro.x0 = X0 + (k ? rd(-0.7, 0.7) * L : 0); ro.y0 = Y0 + (k ? rd(-0.7, 0.7) * L : 0);
            // names this model holds: the requested ones and some more, in its own order
            std::vector<int> hold(req); for (int i = 0; i < 2; ++i) hold.push_back(order[(nreq + ri(0, 3)) % order.size()]);
            if (missing && coin(60)) { int drop = pick(req); hold.erase(std::remove(hold.begin(), hold.end(), drop), hold.end()); }
            std::sort(hold.begin(), hold.end()); hold.erase(std::unique(hold.begin(), hold.end()), hold.end());
            if (hold.empty()) hold.push_back((req[0] + 1) % pool.size());
            std::shuffle(hold.begin(), hold.end(), rep().rng);
            for (int h : hold) { ro.names.push_back(mixCase(pool[h])); ro.units.push_back(mixCase(poolUnits[h])); }
            if (badUnits && coin(50)) {  // other units, and units related to the right ones: beginning, continuation, one character off
                std::string& u = ro.units[ri(0, ro.units.size() - 1)];
                switch (ri(0, 4)) {
                case 0: u = mixCase(pick(poolUnits)); break;
                case 1: u = u.substr(0, ri(1, u.size())); break;
                case 2: u += pick(std::vector<std::string>{"/s", "2", "**3", "s"}); break;
                case 3: u = pick(std::vector<std::string>{"k", "c", "/"}) + u; break;
                case 4: u[ri(0, u.size() - 1)] = pick(std::vector<char>{'q', '/', '*', 'm'}); break;
                }
            }
            if (P == "C07" || P == "C08") ro.nodata = coin(40);
            if (P == "C10") ro.surf = coin(85);
            ms[k].m = randModel(ro);
            ms[k].m.str["title"] = fmt("Model %d", k);
            ms[k].file = fmt("m%d.h5", k); write(ms[k].m, ms[k].file); ms[k].open(in); files.push_back(ms[k].file);
            sh += fmt(" [m%d values", k); for (size_t i = 0; i < ro.names.size(); ++i) sh += " " + ro.names[i] + "(" + ro.units[i] + ")"; sh += fmt(" top=%d topo=%d]", ms[k].m.hasTop, ms[k].m.hasTopo);
        }
        scenario(sh);
        // expected outcome of initialization: the first problem in model order
        int lackModel = -1, lackName = -1, unitModel = -1, unitName = -1; std::map<int, std::string> seen; std::string u1, u2;
        for (int k = 0; k < nm && lackModel < 0 && unitModel < 0; ++k) {
            for (size_t i = 0; i < req.size() && lackModel < 0; ++i) if (ms[k].valueIndex(names[i]) < 0) { lackModel = k; lackName = i; }
            if (lackModel >= 0) break;
            for (size_t i = 0; i < req.size() && unitModel < 0; ++i) {
                std::string u = ms[k].unit(ms[k].valueIndex(names[i]));
                if (!seen.count(i)) seen[i] = u;
                else if (seen[i] != u) { unitModel = k; unitName = i; u1 = seen[i]; u2 = u; }
            }
        }
        if (!keep || coin(60)) { keep.reset(new Query); configured = nullptr; }
        Query& q = *keep;
        std::string what; bool threw = false;
        if (configured != keep.get()) { configured = keep.get(); sq = 0; m0 = 0; }
        auto configure = [&] {  // the configuration is the user's: it holds until the user changes it
            double m1 = pick(std::vector<double>{-0.02 * L, -0.1 * L, -0.3 * L, -1, 0.01 * L});
            switch (ri(0, 4)) {
            case 0: q.setSquashing(Query::SQUASH_NONE); q.setSquashMinElev(m1); sq = 1; break;
            case 1: q.setSquashing(Query::SQUASH_TOP_SURFACE); q.setSquashMinElev(m1); sq = 1; break;
            case 2: q.setSquashing(Query::SQUASH_TOPOGRAPHY_BATHYMETRY); q.setSquashMinElev(m1); sq = 2; break;
            case 3: q.setSquashing(Query::SQUASH_NONE); q.setSquashMinElev(m1); q.setSquashing(Query::SQUASH_TOPOGRAPHY_BATHYMETRY); sq = 2; break;
            case 4: q.setSquashMinElev(m1); q.setSquashing(Query::SQUASH_NONE); sq = 0; break;
            }
            m0 = m1;
        };
        int when = P == "C10" ? ri(0, 3) : 4;  // before initialization, after it, or (same object) not again
        if (when == 0) configure();
        try { q.initialize(files, names, in); } catch (const std::exception& e) { threw = true; what = e.what(); }
        if (P == "C08" || P == "C09" || threw) {
            bool expect = lackModel >= 0 || unitModel >= 0;
            if (P == "C09" && lackModel >= 0) { keep.reset(); configured = nullptr; continue; }
            check(threw == expect, expect ? (lackModel >= 0 ? "initialization accepts a missing value name" : "initialization accepts inconsistent units") : "initialization rejects consistent models",
                  expect ? fmt("model %d value %s", std::max(lackModel, unitModel), names[std::max(lackName, unitName)].c_str()) : what);
            if (threw && expect) {
                if (lackModel >= 0) check(has(what, names[lackName]), "error does not name the missing value", what);
                else check(has(what, names[unitName]) && hasQ(what, u1) && hasQ(what, u2), "error does not name the value and both units", what);
            }
        }
        if (threw) { keep.reset(); configured = nullptr; continue; }
        if (lackModel >= 0 || unitModel >= 0) { keep.reset(); configured = nullptr; continue; }
        // squashing
        if (P != "C10") { q.setSquashing(Query::SQUASH_NONE); sq = 0; }
        else if (when == 1 || when == 2) configure();
        if (P == "C10") sh += fmt(" squash=%d min=%g (%s)", sq, m0, when == 0 ? "set before initialize" : when == 3 ? "kept" : "set after initialize");
        int np = P == "C09" ? 2 : 50;
        for (int p = 0; p < np; ++p) {
            double t[3], w[3];
            const ModelO& tm = pick(ms);
            randTarget(tm, t, false);
            if (P == "C10" && coin(60)) t[2] = rd(-0.15, 0.1) * tm.dim(2);
            tm.toWorld(t[0], t[1], t[2], w);
            if (P == "C10" && coin(8)) w[2] = m0;
            scenario(sh + fmt(" point %d (%.17g, %.17g, %.17g) in model %s", p, w[0], w[1], w[2], tm.file.c_str()));
            if (P == "C11") {
                for (int topo = 0; topo < 2; ++topo) {
                    bool skip = false; double e = NODATA; bool in1 = false;
                    for (auto& m : ms) {
                        double el = m.elev(w[0], w[1], topo), c[3];
                        m.toModel(w[0], w[1], el - 1e-3, c);
                        // just below the surface: only rounding of z is a matter of tolerance
                        int ins = m.inside(c);
                        if (ins == 0) { double e3 = 1e-7; bool in = c[0] > e3 * m.dim(0) && c[0] < (1 - e3) * m.dim(0) && c[1] > e3 * m.dim(1) && c[1] < (1 - e3) * m.dim(1) && c[2] < -1e-5 && c[2] > -0.9 * m.dim(2); if (in) ins = 1; }
                        if (ins == 0) { skip = true; break; }
                        if (ins > 0) { e = el; in1 = true; break; }
                    }
                    if (skip) continue;
                    double got = topo ? q.queryTopoBathyElevation(w[0], w[1]) : q.queryTopElevation(w[0], w[1]);
                    check(in1 ? close(got, e, L, 1e-6) : got == NODATA, topo ? "topography elevation" : "top elevation", fmt("got %.17g expected %.17g", got, e));
                }
                continue;
            }
            int first = -1; bool skip = false; double c[3];
            for (int k = 0; k < nm; ++k) {
                double z = w[2];
                if (sq && w[2] > m0) { double s = ms[k].elev(w[0], w[1], sq == 2); z = s + w[2] * (m0 - s) / m0; }
                ms[k].toModel(w[0], w[1], z, c);
                int ins = ms[k].inside(c);
                if (ins == 0) { skip = true; break; }
                if (ins > 0) { first = k; break; }
            }
            if (skip) continue;
            const double guard = 7.25; std::vector<double> v(nreq + 2, guard);
            int st = q.query(v.data(), w[0], w[1], w[2]);
            check(v[nreq] == guard && v[nreq + 1] == guard, "values written beyond the requested ones", "");
            if (first < 0) {
                bool all = true; for (int i = 0; i < nreq; ++i) if (v[i] != NODATA) all = false;
                check(all, "values are not NODATA outside all models", show(v));
                check(st == geomodelgrids::utils::ErrorHandler::WARNING, "status outside all models", fmt("%d", st));
            } else {
                check(st == geomodelgrids::utils::ErrorHandler::OK, "status inside a model", fmt("%d", st));
                for (int i = 0; i < nreq; ++i) {
                    std::vector<double> al = ms[first].answer(c, ms[first].valueIndex(names[i]), false);
                    check(anyClose(al, v[i], 2e4, 1e-6), "value is not that of the first containing model and the requested name", fmt("slot %d (%s): got %.17g, model %d allows %s", i, names[i].c_str(), v[i], first, show(al).c_str()));
                }
            }
        }
        q.finalize();
        if (coin(30)) { keep.reset(); configured = nullptr; }
    }
    return finish();
}
