// Run-time contract of the metadata readers (C14): every reported property is the stored attribute of that name; what is missing is named.
#include "oracle.hh"
#include "geomodelgrids/serial/Model.hh"
#include "geomodelgrids/serial/ModelInfo.hh"
#include "geomodelgrids/serial/Block.hh"
#include "geomodelgrids/serial/Surface.hh"
using namespace gm;
using namespace geomodelgrids::serial;

static std::string rs() { std::string s; int n = ri(0, 12); for (int i = 0; i < n; ++i) s += (char)ri(33, 122); return s + fmt("#%d", ri(0, 1000000)); }
static double rn() { return rd(-1e6, 1e6); }

int main(int argc, char** argv) {
    init(argc, argv);
    std::string P = rep().prop;
    for (int it = 0; timeLeft(); ++it) {
        ModelSpec m;
        for (auto& s : m.str) if (s.first != "data_layout") s.second = rs();
        m.str["data_layout"] = coin(90) ? pick(std::vector<std::string>{"vertex", "VERTEX", "Vertex"}) : coin() ? "cell" : "vertices";
        if (coin()) m.str["auxiliary"] = rs();
        for (auto& l : m.lists) { l.second.clear(); for (int i = ri(1, 4); i > 0; --i) l.second.push_back(rs()); }
        for (auto& n : m.num) n.second = rn();
        m.varStr = coin();
        auto axis = [&](bool z) { Axis a = randAxis(ri(1, 6) + 1, coin(), 100, z ? -1 : 1, z ? rn() : rn());
            if (a.variable() && coin(30)) std::shuffle(a.coords.begin(), a.coords.end(), rep().rng); return a; };
        auto surf = [&]() { SurfSpec s; s.x = axis(false); s.y = axis(false); s.data.assign((size_t)s.x.n * s.y.n, 0.0); return s; };
        if (coin(70)) { m.hasTop = true; m.top = surf(); }
        if (coin(70)) { m.hasTopo = true; m.topo = surf(); }
        int nb = ri(1, 5);
        std::vector<std::string> names = {"zebra", "a", "middle", "b10", "b9", "Top", "bottom"};
        std::shuffle(names.begin(), names.end(), rep().rng);
        for (int i = 0; i < nb; ++i) {
            BlockSpec b; b.name = names[i]; b.x = axis(false); b.y = axis(false); b.z = axis(true); b.nv = ri(1, 4); b.ztop = rn();
            b.data.assign((size_t)b.x.n * b.y.n * b.z.n * b.nv, 1.0); m.blocks.push_back(b);
        }
        // faults: leave attributes out, or store a wrong number of coordinates
        std::vector<std::string> all; std::set<std::string> wrong;
        for (auto& s : m.str) if (s.first != "auxiliary") all.push_back(s.first);
        for (auto& s : m.lists) all.push_back(s.first);
        for (auto& s : m.num) all.push_back(s.first);
        size_t nroot = all.size();
        std::vector<std::pair<std::string, Axis*> > ax;
        auto axes = [&](const std::string& p, Axis& x, Axis& y) { ax.push_back({p + "/x", &x}); ax.push_back({p + "/y", &y}); };
        if (m.hasTop) axes("surfaces/top_surface", m.top.x, m.top.y);
        if (m.hasTopo) axes("surfaces/topography_bathymetry", m.topo.x, m.topo.y);
        for (auto& b : m.blocks) { axes("blocks/" + b.name, b.x, b.y); ax.push_back({"blocks/" + b.name + "/z", &b.z}); if (!b.z.variable()) all.push_back("blocks/" + b.name + "/z_top"); }
        for (auto& a : ax) all.push_back(a.first + (a.second->variable() ? "_coordinates" : "_resolution"));
        int mode = ri(0, 4);
        if (mode == 1) m.omit.insert(pick(all));
        if (mode == 2) for (auto& a : all) if (coin(15)) m.omit.insert(a);
        if (mode == 3) { auto& a = pick(ax); if (a.second->variable() && !m.omit.count(a.first + "_coordinates")) { wrong.insert(a.first); if (coin() && a.second->coords.size() > 1) a.second->coords.pop_back(); else a.second->coords.push_back(rn()); } }
        (void)nroot;
        write(m, "meta.h5");
        bool vertex = !strcasecmp(m.str["data_layout"].c_str(), "vertex");
        std::string sh = fmt("it=%d mode=%d varStr=%d layout=%s blocks=%d surfaces=%d,%d omitted:", it, mode, m.varStr, m.str["data_layout"].c_str(), nb, m.hasTop, m.hasTopo);
        for (auto& o : m.omit) sh += " " + o;
        for (auto& o : wrong) sh += " wrong-length:" + o;
        scenario(sh);
        Model mm; mm.open("meta.h5", Model::READ);
        int rounds = coin(25) ? 2 : 1;            // loading again must give the same
        for (int r = 0; r < rounds; ++r) {
        std::string err; bool failed = false;
        try { mm.loadMetadata(); } catch (const std::exception& e) { failed = true; err = e.what(); }
        bool expect = !m.omit.empty() || !wrong.empty() || (!vertex && !m.omit.count("data_layout"));
        check(failed == expect, expect ? "incomplete metadata is accepted" : "complete metadata is rejected", err);
        if (failed) {
            // a name that ends where the attribute's name ends
            auto named = [&](const std::string& n) { size_t p = 0; while ((p = err.find(n, p)) != std::string::npos) { char c = p + n.size() < err.size() ? err[p + n.size()] : 0; if ((!p || err[p - 1] == '/' || err[p - 1] == ' ') && !isalnum(c) && c != '_') return true; ++p; } return false; };
            for (auto& o : m.omit) if (o.size() < 6 || o.compare(o.size() - 6, 6, "/z_top") || !m.omit.count(o.substr(0, o.size() - 5) + "z_resolution")) check(named(o), "missing attribute is not named", o + " in: " + err);
            for (auto& a : all) if (!m.omit.count(a)) { bool sib = false; for (auto& o : m.omit) { if (o.size() > a.size() && o.compare(o.size() - a.size() - 1, std::string::npos, "/" + a) == 0) sib = true; } if (!sib) check(!named(a), "present attribute is reported as missing", a + " in: " + err); }
            for (auto& w : wrong) { std::string g = w.substr(0, w.rfind('/')); check(err.find(g.substr(g.rfind('/') + 1)) != std::string::npos && err.find(std::string(1, w.back()) + " dimension") != std::string::npos, "wrong number of coordinates is not named", w + " in: " + err); }
            continue;
        }
        const ModelInfo& f = *mm.getInfo();
        auto S_ = [&](const char* n, const std::string& v) { check(v == m.str.at(n), std::string("property ") + n, v + " expected " + m.str.at(n)); };
        auto L_ = [&](const char* n, const std::vector<std::string>& v) { std::string g; for (auto& x : v) g += x + ";"; check(v == m.lists.at(n), std::string("property ") + n, g); };
        S_("title", f.getTitle()); S_("id", f.getId()); S_("description", f.getDescription()); S_("history", f.getHistory()); S_("comment", f.getComment());
        S_("creator_name", f.getCreatorName()); S_("creator_institution", f.getCreatorInstitution()); S_("creator_email", f.getCreatorEmail()); S_("acknowledgement", f.getAcknowledgement());
        S_("repository_name", f.getRepositoryName()); S_("repository_url", f.getRepositoryURL()); S_("repository_doi", f.getRepositoryDOI()); S_("version", f.getVersion()); S_("license", f.getLicense());
        L_("keywords", f.getKeywords()); L_("authors", f.getAuthors()); L_("references", f.getReferences());
        if (m.str.count("auxiliary")) S_("auxiliary", f.getAuxiliary());
        L_("data_values", mm.getValueNames()); L_("data_units", mm.getValueUnits()); S_("crs", mm.getCRSString());
        for (int i = 0; i < 3; ++i) { std::string n = std::string("dim_") + "xyz"[i]; check(mm.getDims()[i] == m.num.at(n), "property " + n, fmt("%.17g expected %.17g", mm.getDims()[i], m.num.at(n))); }
        for (int i = 0; i < 2; ++i) { std::string n = std::string("origin_") + "xy"[i]; check(mm.getOrigin()[i] == m.num.at(n), "property " + n, fmt("%.17g", mm.getOrigin()[i])); }
        check(mm.getYAzimuth() == m.num.at("y_azimuth"), "property y_azimuth", fmt("%.17g", mm.getYAzimuth()));
        auto grid = [&](const std::string& what, const Axis& a, double res, const double* c, size_t n) {
            check((int)n == a.n, "number of points of an axis", what + fmt(": %d expected %d", (int)n, a.n));
            if (!a.variable()) { check(res == a.res && !c, "resolution of an axis", what + fmt(": %.17g expected %.17g", res, a.res)); return; }
            std::vector<double> w = a.coords; std::sort(w.begin(), w.end()); if (what.back() == 'z') std::reverse(w.begin(), w.end());
            if (!check(c != nullptr, "coordinates of an axis are missing", what)) return;
            bool ok = true; for (int i = 0; i < a.n; ++i) ok = ok && c[i] == w[i];
            check(ok, "coordinates of an axis", what);
        };
        auto sf = [&](const std::string& n, bool has, const SurfSpec& s, const std::shared_ptr<Surface>& g) {
            if (!check(bool(g) == has, "presence of a surface", n) || !has) return;
            grid(n + " x", s.x, g->getResolutionX(), g->getCoordinatesX(), g->getDims()[0]); grid(n + " y", s.y, g->getResolutionY(), g->getCoordinatesY(), g->getDims()[1]);
        };
        sf("top_surface", m.hasTop, m.top, mm.getTopSurface()); sf("topography_bathymetry", m.hasTopo, m.topo, mm.getTopoBathy());
        const auto& bs = mm.getBlocks();
        if (check((int)bs.size() == nb, "number of blocks", fmt("%d expected %d", (int)bs.size(), nb))) {
            std::set<std::string> seen;
            for (size_t i = 0; i < bs.size(); ++i) {
                if (!check(bool(bs[i]), "block is missing", "")) continue;
                if (i && bs[i - 1]) check(bs[i - 1]->getZTop() >= bs[i]->getZTop(), "blocks are not in order from the top", "");
                const BlockSpec* b = nullptr; for (auto& q : m.blocks) if (q.name == bs[i]->getName()) b = &q;
                if (!check(b && seen.insert(b->name).second, "blocks are not those stored", bs[i]->getName())) continue;
                const size_t* d = bs[i]->getDims();
                grid(b->name + " x", b->x, bs[i]->getResolutionX(), bs[i]->getCoordinatesX(), d[0]); grid(b->name + " y", b->y, bs[i]->getResolutionY(), bs[i]->getCoordinatesY(), d[1]);
                grid(b->name + " z", b->z, bs[i]->getResolutionZ(), bs[i]->getCoordinatesZ(), d[2]);
                double top = b->z.variable() ? *std::max_element(b->z.coords.begin(), b->z.coords.end()) : b->ztop;
                check(bs[i]->getZTop() == top, "top of a block", fmt("%s: %.17g expected %.17g", b->name.c_str(), bs[i]->getZTop(), top));
                check((int)bs[i]->getNumValues() == b->nv, "number of values of a block", b->name);
            }
        }
        }
        mm.close();
    }
    return finish();
}
