// Run-time contract of Model: world-to-model mapping and containment (C05), block selection (C06).
#include "oracle.hh"
#include "geomodelgrids/serial/Model.hh"
#include "geomodelgrids/serial/Block.hh"
using namespace gm;
using namespace geomodelgrids::serial;
// points exactly on the boundary of a model whose spacing is a decimal fraction (rounding in x/dx)
static void boundary() {
    double k = pick(std::vector<double>{1, 10, 0.1});
    auto dec = [&](int n, double r) { char b[40]; snprintf(b, sizeof b, "%.10g", n * r); return atof(b); };     // the decimal a user writes
    double r[3]; int n[3];
    for (int a = 0; a < 3; ++a) { r[a] = k * pick(std::vector<double>{0.1, 0.7, 0.3, 0.6, 1.1, 2.3, 5}); n[a] = ri(2, 9); }
    ModelO o; ModelSpec& m = o.m;
    m.num["dim_x"] = dec(n[0] - 1, r[0]); m.num["dim_y"] = dec(n[1] - 1, r[1]);
    m.lists["data_values"] = {"v"}; m.lists["data_units"] = {"m"};
    bool two = coin();
    BlockSpec b; b.name = "top"; b.nv = 1; b.x.n = n[0]; b.x.res = r[0]; b.y.n = n[1]; b.y.res = r[1]; b.z.n = n[2]; b.z.res = r[2]; b.ztop = 0;
    auto fill = [&](BlockSpec& q) { q.data.resize((size_t)q.x.n * q.y.n * q.z.n); for (auto& d : q.data) d = rd(1, 2); };
    fill(b); m.blocks.push_back(b);
    double D = dec(n[2] - 1, r[2]);
    if (two) { BlockSpec c = b; c.name = "bottom"; c.ztop = -D; fill(c); m.blocks.push_back(c); D = dec(2 * (n[2] - 1), r[2]); }
    m.num["dim_z"] = D;
    bool surf = coin();
    if (surf) { m.hasTop = true; m.top.x = b.x; m.top.y = b.y; m.top.data.assign((size_t)n[0] * n[1], 0.0); }
    o.file = "bound.h5"; write(m, o.file); o.open(m.str["crs"]);
    Model mm; mm.setInputCRS(m.str["crs"]); mm.open("bound.h5", Model::READ); mm.loadMetadata(); mm.initialize();
    for (int p = 0; p < 40; ++p) {
        double x = coin(60) ? m.num["dim_x"] : coin() ? 0 : dec(ri(0, n[0] - 1), r[0]), y = coin(60) ? m.num["dim_y"] : dec(ri(0, n[1] - 1), r[1]);
        double z = -(coin(50) ? D : coin() ? D / (two ? 2 : 1) : dec(ri(0, n[2] - 1), r[2]));
        double c[3]; o.toModel(x, y, z, c);
        scenario(fmt("boundary: res %.17g %.17g %.17g points %d %d %d blocks %d surface %d dims %.17g %.17g %.17g point %.17g %.17g %.17g model z %.17g", r[0], r[1], r[2], n[0], n[1], n[2], two ? 2 : 1, surf, m.num["dim_x"], m.num["dim_y"], D, x, y, z, c[2]));
        if (!mm.contains(x, y, z)) { double e = 1e-12 * D; if (surf) check(c[2] > -e || c[2] < -D + e, "boundary point not contained", fmt("model z %.17g", c[2])); continue; }
        const double* v = mm.query(x, y, z);
        c[0] = x; c[1] = y; c[2] = std::max(-D, std::min(0.0, -D * (0 - z) / (0 + D)));
        std::vector<double> al = o.answer(c, 0, false);
        check(anyClose(al, v[0], 1, 1e-6), "value at the boundary of the model", fmt("got %.17g allowed %s", v[0], show(al).c_str()));
    }
    mm.close();
}
int main(int argc, char** argv) {
    init(argc, argv);
    std::string P = rep().prop;
    for (int it = 0; timeLeft(); ++it) {
        if (it % 4 == 3) boundary();
        RandOpt ro; ro.exact = coin(40);
        bool geo = !ro.exact && coin(30);
        ro.x0 = geo ? rd(-100000, 100000) : rd(-5e5, 5e5); ro.y0 = geo ? rd(-200000, 100000) : rd(-5e5, 5e5); ro.L = pick(std::vector<double>{1000, 60000, 10, 20000});
        if (P == "C05") ro.maxBlocks = 2;
        // one model, or two open at a time that are asked about the same locations in turn (same origin and azimuth, own surfaces and blocks)
        int nmod = coin(40) ? 2 : 1;
        ModelO os[2]; std::unique_ptr<Model> mm[2]; std::string shs[2];
        std::string in = "EPSG:3311";
        if (geo) in = pick(std::vector<std::string>{"EPSG:4326", "EPSG:26910", "EPSG:4269"});
        auto load = [&](int k, bool fresh) {
            ModelO& o = os[k]; o.m = randModel(ro);
            if (k && fresh) o.m.num["y_azimuth"] = os[0].m.num["y_azimuth"];
            o.file = fmt("model%d.h5", k); write(o.m, o.file); o.open(in);
            shs[k] = fmt("model it=%d (%d of %d open) exact=%d az=%g origin=(%g,%g) dims=(%.17g,%.17g,%.17g) top=%d blocks=%d in=%s", it, k, nmod, ro.exact, o.m.num["y_azimuth"], o.m.num["origin_x"], o.m.num["origin_y"], o.dim(0), o.dim(1), o.dim(2), o.m.hasTop, (int)o.m.blocks.size(), in.c_str());
            scenario(shs[k]);
            if (fresh) mm[k].reset(new Model);
            Model& m = *mm[k];
            m.setInputCRS(in); m.open(o.file.c_str(), Model::READ); m.loadMetadata(); m.initialize();
            auto srt = o.sorted();
            if (check(m.getBlocks().size() == srt.size(), "number of blocks", "")) for (size_t i = 0; i < srt.size(); ++i) {
                check(m.getBlocks()[i]->getName() == srt[i]->name, "blocks are not kept from top to bottom", fmt("position %d: %s, expected %s", (int)i, m.getBlocks()[i]->getName().c_str(), srt[i]->name.c_str()));
                check(close(m.getBlocks()[i]->getZTop(), srt[i]->zTop(), o.dim(2)) && close(m.getBlocks()[i]->getZBottom(), srt[i]->zBottom(), o.dim(2)), "depth range of a block", fmt("block %s: [%.17g,%.17g] expected [%.17g,%.17g]", srt[i]->name.c_str(), m.getBlocks()[i]->getZBottom(), m.getBlocks()[i]->getZTop(), srt[i]->zBottom(), srt[i]->zTop()));
            }
        };
        for (int k = 0; k < nmod; ++k) load(k, true);
        auto ask = [&](int np) { for (int p = 0; p < np; ++p) {
            double t[3], w[3], c[3];
            { const ModelO& o = os[ri(0, nmod - 1)];
            randTarget(o, t, ro.exact);
            if (P == "C05" && !ro.exact && coin(15)) { t[2] = rd(0, 3e-4); }
            if (ro.exact && coin(10)) t[2] = pick(std::vector<double>{0.5e-4, 0.99e-4, 1.5e-4, 1.0, 0.0});
            o.toWorld(t[0], t[1], t[2], w); }
            for (int k = 0; k < nmod; ++k) {
            const ModelO& o = os[k]; Model& m = *mm[k];
            o.toModel(w[0], w[1], w[2], c);
            if (ro.exact && std::fabs(c[2]) > 0 && std::fabs(std::fabs(c[2]) - 1e-4) < 1e-9) continue;
            int ins = o.inside(c, ro.exact);
            scenario(shs[k] + fmt(" point %d (%.17g, %.17g, %.17g) model (%.17g, %.17g, %.17g)", p, w[0], w[1], w[2], c[0], c[1], c[2]));
            if (ins == 0) continue;
            bool got = m.contains(w[0], w[1], w[2]);
            check(got == (ins > 0), "containment", fmt("contains()=%d", got));
            if (ins < 0 || !got) continue;
            const double* v = m.query(w[0], w[1], w[2]);
            for (int q = 0; q < (int)o.m.lists.at("data_values").size(); ++q) {
                std::vector<double> al = o.answer(c, q, ro.exact);
                check(anyClose(al, v[q], 2e4, 1e-6), "value does not belong to the covering block at the model coordinates", fmt("value %d: got %.17g, allowed %s", q, v[q], show(al).c_str()));
            }
            }
        } };
        ask(60);
        // the same object again: initialized for another input coordinate system, or closed and opened on another file
        if (geo && coin()) {
            in = pick(std::vector<std::string>{"EPSG:4326", "EPSG:26910", "EPSG:4269", "EPSG:3311"});
            int k = ri(0, nmod - 1); nmod = 1; std::swap(os[0], os[k]); std::swap(mm[0], mm[k]); std::swap(shs[0], shs[k]); mm[1].reset();
            os[0].open(in); shs[0] += " then initialized again for in=" + in;
            scenario(shs[0]); mm[0]->setInputCRS(in); mm[0]->initialize(); ask(25);
        }
        if (coin(20)) {
            for (int k = 0; k < nmod; ++k) { mm[k]->close(); load(k, false); shs[k] += " (object used before for another file)"; }
            ask(25);
        }
        for (int k = 0; k < nmod; ++k) mm[k]->close();
    }
    return finish();
}
