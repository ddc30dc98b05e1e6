// Run-time contract of interpolation (C01), window independence (C02), NODATA (C03) on the real Hyperslab, Block, Surface.
#include <fstream>
#include <iterator>
#include "gm.hh"
#include "geomodelgrids/serial/HDF5.hh"
#include "geomodelgrids/serial/Hyperslab.hh"
#include "geomodelgrids/serial/Block.hh"
#include "geomodelgrids/serial/Surface.hh"
#include <memory>
using namespace gm;
using namespace geomodelgrids::serial;

static double inCell(const Axis& a) { double x = randIndex(a.n); return x; }

static void blockCase(const std::string& P) {
    bool nod = P == "C03" || (P == "C02" && coin(40));
    int maxn = coin(85) ? 7 : (coin() ? 40 : 75);
    BlockSpec b = randBlock(maxn, nod, true);
    if (maxn > 7) { b.z = randAxis(ri(2, 4), false, 10); b.nv = 1 + (P != "C01" ? 1 : 0); if (maxn > 40) b.y = randAxis(ri(2, 5), false, 100); b.data.assign((size_t)b.x.n * b.y.n * b.z.n * b.nv, 0); for (auto& d : b.data) d = (nod && coin(3)) ? NODATA : rd(-1000, 5000); }
    b.name = "block";
    ModelSpec m; m.blocks.push_back(b);
    write(m, "interp.h5");
    std::string shape = fmt("block %dx%dx%dx%d var %d%d%d", b.x.n, b.y.n, b.z.n, b.nv, b.x.variable(), b.y.variable(), b.z.variable());
    HDF5 h5; h5.open("interp.h5", H5F_ACC_RDONLY);
    auto mk = [&](int sel) {
        auto k = std::make_unique<Block>("block");
        k->loadMetadata(&h5);
        if (sel == 1) { size_t d[3] = {2, 2, 2}; k->setHyperslabDims(d, 3); }
        if (sel == 2) { size_t d[3] = {(size_t)ri(2, b.x.n + 2), (size_t)ri(2, b.y.n + 2), (size_t)ri(2, b.z.n + 2)}; k->setHyperslabDims(d, 3); }
        k->openQuery(&h5);
        return k;
    };
    auto blk = mk(ri(0, 2));
    auto blk2 = mk(1);
    int np = maxn > 7 ? 40 : 25;
    double scale = 5000;
    for (int p = 0; p < np; ++p) {
        static double last[3];
        double xi[3] = {inCell(b.x), inCell(b.y), inCell(b.z)};
        if (p && coin(20)) { int c = ri(0, 3); for (int a = 0; a < 3; ++a) if (a != c) xi[a] = last[a]; }      // history: the last point again, or all but one coordinate of it
        for (int a = 0; a < 3; ++a) last[a] = xi[a];
        double d[3] = {distOf(b.x, xi[0]), distOf(b.y, xi[1]), distOf(b.z, xi[2])};
        if (b.x.index(d[0]) > b.x.n - 1 || b.y.index(d[1]) > b.y.n - 1) continue;      // rounding beyond the grid
        double z = b.zTop() - d[2];
        if (z > 0) continue;
        double ii[3] = {b.x.index(d[0]), b.y.index(d[1]), b.z.index(b.zTop() - z)};
        if (ii[2] > b.z.n - 1 || ii[2] < 0) continue;
        scenario(fmt("%s point %d: x=%.17g y=%.17g z=%.17g index %.17g %.17g %.17g", shape.c_str(), p, d[0], d[1], z, ii[0], ii[1], ii[2]));
        const double* v = blk->query(d[0], d[1], z);
        std::vector<double> got(v, v + b.nv);
        for (int k = 0; k < b.nv; ++k) {
            std::vector<double> al = allowed(b, ii, k);
            bool hasNo = false, hasVal = false;
            for (double a : al) (a == NODATA ? hasNo : hasVal) = true;
            if (P == "C01" || (P == "C02" && !nod)) check(anyClose(al, got[k], scale), "block value is not the interpolant", fmt("value %d: got %.17g, allowed %s", k, got[k], show(al).c_str()));
            if (P == "C03") {
                if (hasNo && !hasVal) check(got[k] == NODATA, "NODATA vertex not reported as NODATA", fmt("value %d: got %.17g", k, got[k]));
                else if (hasVal && !hasNo) check(close(got[k], al[0], scale), "value without NODATA vertices is wrong", fmt("value %d: got %.17g allowed %s", k, got[k], show(al).c_str()));
                else check(anyClose(al, got[k], scale), "value next to NODATA is wrong", fmt("value %d: got %.17g allowed %s", k, got[k], show(al).c_str()));
            }
        }
        if (P == "C02") {
            const double* w = blk2->query(d[0], d[1], z);
            for (int k = 0; k < b.nv; ++k) check(w[k] == got[k] || (!isNoData(w[k]) && !isNoData(got[k]) && close(w[k], got[k], scale, 1e-8)), "answer depends on the window size", fmt("value %d: %.17g with one window, %.17g with another", k, got[k], w[k]));
            if (coin(30)) {
                auto fresh = mk(2);
                const double* u = fresh->query(d[0], d[1], z);
                for (int k = 0; k < b.nv; ++k) check(u[k] == got[k] || (!isNoData(u[k]) && !isNoData(got[k]) && close(u[k], got[k], scale, 1e-8)), "answer depends on earlier queries", fmt("value %d: %.17g after history, %.17g fresh", k, got[k], u[k]));
            }
        }
    }
    blk->closeQuery(); blk2->closeQuery();
    h5.close();
}

static void surfaceCase(const std::string& P) {
    int maxn = coin(80) ? 6 : 150;
    SurfSpec s; s.x = randAxis(ri(2, maxn), coin(30), 100); s.y = randAxis(ri(2, maxn > 6 ? 140 : 6), coin(30), 100);
    s.data.resize((size_t)s.x.n * s.y.n); for (auto& d : s.data) d = rd(-500, 3000);
    ModelSpec m; m.hasTop = true; m.top = s; m.blocks.clear();
    write(m, "surf.h5");
    std::string shape = fmt("surface %dx%d var %d%d", s.x.n, s.y.n, s.x.variable(), s.y.variable());
    HDF5 h5; h5.open("surf.h5", H5F_ACC_RDONLY);
    auto mk = [&](bool two) { auto k = std::make_unique<Surface>("top_surface"); k->loadMetadata(&h5); size_t d[2] = {two ? 2ul : (size_t)ri(2, s.x.n + 2), two ? 2ul : (size_t)ri(2, s.y.n + 2)}; if (coin(70)) k->setHyperslabDims(d, 2); k->openQuery(&h5); return k; };
    auto su = mk(false), s2 = mk(true);
    for (int p = 0; p < 30; ++p) {
        double xd = distOf(s.x, randIndex(s.x.n)), yd = distOf(s.y, randIndex(s.y.n));
        if (s.x.index(xd) > s.x.n - 1 || s.y.index(yd) > s.y.n - 1) continue;
        scenario(fmt("%s point %d x=%.17g y=%.17g", shape.c_str(), p, xd, yd));
        double v = su->query(xd, yd), w = s2->query(xd, yd);
        if (P != "C03") check(close(v, surfAt(s, xd, yd), 3000), "surface elevation is not the bilinear interpolant", fmt("got %.17g expected %.17g", v, surfAt(s, xd, yd)));
        if (P == "C02") check(close(v, w, 3000, 1e-8), "surface elevation depends on the window size", fmt("%.17g and %.17g", v, w));
    }
    h5.close();
}

// history across data sets: an object closed and opened again on other data answers from the data it has now
static void reopenCase(const std::string& P) {
    BlockSpec b[2]; b[0] = randBlock(5, false, true);
    { b[1] = b[0]; for (auto& d : b[1].data) d = rd(-1000, 5000); }
    for (int i = 0; i < 2; ++i) { b[i].name = "block"; ModelSpec m; m.blocks.push_back(b[i]); m.hasTop = true; m.top.x = b[i].x; m.top.y = b[i].y; m.top.data.resize((size_t)b[i].x.n * b[i].y.n); for (auto& d : m.top.data) d = rd(-500, 3000); write(m, i ? "re1.h5" : "re0.h5"); }
    double xi[3] = {randIndex(std::min(b[0].x.n, b[1].x.n)), randIndex(std::min(b[0].y.n, b[1].y.n)), randIndex(std::min(b[0].z.n, b[1].z.n))};
    Block blk("block"); size_t d3[3] = {(size_t)ri(2, 6), (size_t)ri(2, 6), (size_t)ri(2, 6)};
    bool dims = coin(), again = coin();
    for (int i = 0; i < 4; ++i) {
        int w = again ? i % 2 : i / 2;
        const BlockSpec& s = b[w];
        HDF5 h5; h5.open(w ? "re1.h5" : "re0.h5", H5F_ACC_RDONLY);
        blk.loadMetadata(&h5); if (dims) blk.setHyperslabDims(d3, 3); blk.openQuery(&h5);
        double d[3] = {distOf(s.x, xi[0]), distOf(s.y, xi[1]), distOf(s.z, xi[2])}, z = s.zTop() - d[2];
        double ii[3] = {s.x.index(d[0]), s.y.index(d[1]), s.z.index(s.zTop() - z)};
        if (ii[0] <= s.x.n - 1 && ii[1] <= s.y.n - 1 && z <= 0 && ii[2] >= 0 && ii[2] <= s.z.n - 1) {
            scenario(fmt("object opened %d times, point of index %.17g %.17g %.17g of a block %dx%dx%dx%d", i + 1, ii[0], ii[1], ii[2], s.x.n, s.y.n, s.z.n, s.nv));
            const double* v = blk.query(d[0], d[1], z);
            for (int k = 0; k < s.nv; ++k) { std::vector<double> al = allowed(s, ii, k); check(anyClose(al, v[k], 5000), "block answer depends on what the object was opened on before", fmt("value %d: got %.17g allowed %s", k, v[k], show(al).c_str())); }
        }
        blk.closeQuery(); h5.close();
    }
}

// Hyperslab directly: interpolate and nearest, every rank, windows of every size >= 2
static void slabCase(const std::string& P) {
    bool nod = P == "C03" || (P == "C02" && coin(30));
    int rank = coin() ? 3 : 2;
    BlockSpec b = randBlock(coin(80) ? 6 : 20, nod && rank == 3, false);
    if (rank == 2) { b.z.n = 2; b.nv = ri(1, 2); b.data.resize((size_t)b.x.n * b.y.n * b.z.n * b.nv); }
    hid_t f = H5Fcreate("slab.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    std::vector<hsize_t> dims;
    std::vector<double> data;
    if (rank == 3) { dims = {(hsize_t)b.x.n, (hsize_t)b.y.n, (hsize_t)b.z.n, (hsize_t)b.nv}; data = b.data; }
    else { dims = {(hsize_t)b.x.n, (hsize_t)b.y.n, (hsize_t)b.nv}; for (int i = 0; i < b.x.n; ++i) for (int j = 0; j < b.y.n; ++j) for (int v = 0; v < b.nv; ++v) data.push_back(b.data[b.at(i, j, 0, v)]);
        for (int i = 0; i < b.x.n; ++i) for (int j = 0; j < b.y.n; ++j) for (int v = 0; v < b.nv; ++v) b.data[b.at(i, j, 1, v)] = b.data[b.at(i, j, 0, v)]; }
    H5Dclose(dset(f, "d", dims, data)); H5Fclose(f);
    HDF5 h5; h5.open("slab.h5", H5F_ACC_RDONLY);
    std::vector<hsize_t> w;
    for (int i = 0; i < rank; ++i) w.push_back(coin(30) ? 2 : ri(2, (int)dims[i] + 2));
    w.push_back(dims[rank] + (coin(20) ? 3 : 0));
    Hyperslab hs(&h5, "d", w.data(), rank + 1);
    for (int p = 0; p < 30; ++p) {
        double x[3] = {randIndex(b.x.n), randIndex(b.y.n), rank == 3 ? randIndex(b.z.n) : 0};
        std::string sh = fmt("rank %d dims %d %d %d x%d window %d %d %d index %.17g %.17g %.17g", rank, b.x.n, b.y.n, b.z.n, b.nv, (int)w[0], (int)w[1], (int)w[2], x[0], x[1], x[2]);
        scenario(sh);
        std::vector<double> v(b.nv + 2, 12345.0);
        hs.interpolate(&v[1], x);
        check(v[0] == 12345.0 && v[b.nv + 1] == 12345.0, "writes beyond the values", "guard overwritten");
        for (int k = 0; k < b.nv; ++k) {
            std::vector<double> al = allowed(b, x, k);
            if (rank == 3 || P != "C03") check(anyClose(al, v[k + 1], 5000), "hyperslab value is not the interpolant", fmt("value %d: got %.17g allowed %s", k, v[k + 1], show(al).c_str()));
        }
        double fx[3]; bool tie = false;
        for (int a = 0; a < 3; ++a) { fx[a] = std::floor(x[a] + 0.5); if (std::fabs(x[a] + 0.5 - fx[a]) < 1e-6 || std::fabs(x[a] - 0.5 - std::floor(x[a] - 0.5)) > 1 - 1e-6) tie = true; }
        hs.nearest(&v[1], x);
        for (int k = 0; k < b.nv && !tie; ++k) {
            double e = b.data[b.at((int)fx[0], (int)fx[1], rank == 3 ? (int)fx[2] : 0, k)];
            if (isNoData(e)) check(isNoData(v[k + 1]), "nearest value is not the stored value", fmt("value %d: got %.17g expected NODATA", k, v[k + 1]));
            else check(v[k + 1] == e, "nearest value is not the stored value", fmt("value %d: got %.17g expected %.17g", k, v[k + 1], e));
        }
    }
    h5.close();
}

// a window that cannot be read: later answers are still those of the data set, or an error
static void faultCase() {
    BlockSpec b = randBlock(10, false, false);
    std::vector<hsize_t> dims = {(hsize_t)b.x.n, (hsize_t)b.y.n, (hsize_t)b.z.n, (hsize_t)b.nv}, ch = {2, 2, 2, (hsize_t)b.nv};
    hid_t f = H5Fcreate("fault.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), s = H5Screate_simple(4, dims.data(), nullptr), pl = H5Pcreate(H5P_DATASET_CREATE);
    H5Pset_chunk(pl, 4, ch.data()); H5Pset_fletcher32(pl);
    hid_t ds = H5Dcreate2(f, "d", H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, pl, H5P_DEFAULT); H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data.data());
    H5Dclose(ds); H5Pclose(pl); H5Sclose(s); H5Fclose(f);
    { std::ifstream i("fault.h5", std::ios::binary); std::string all((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); i.close();
      double one = b.data[ri(0, (int)b.data.size() - 1)]; size_t pos = all.find(std::string((char*)&one, 8)); if (pos == std::string::npos) return; all[pos] ^= 0x55;
      std::ofstream o("fault.h5", std::ios::binary); o << all; }
    HDF5 h5; h5.open("fault.h5", H5F_ACC_RDONLY);
    hsize_t w[4] = {(hsize_t)ri(2, 5), (hsize_t)ri(2, 5), (hsize_t)ri(2, 5), dims[3]};
    Hyperslab hs(&h5, "d", w, 4);
    int threw = 0; double x[3] = {0, 0, 0};
    for (int p = 0; p < 40; ++p) {
        if (!coin(25) || !p) for (int a = 0; a < 3; ++a) x[a] = randIndex((int)dims[a]);      // sometimes the same point again
        scenario(fmt("damaged chunk: %dx%dx%dx%d window %d %d %d point %d failed reads so far %d index %.17g %.17g %.17g", b.x.n, b.y.n, b.z.n, b.nv, (int)w[0], (int)w[1], (int)w[2], p, threw, x[0], x[1], x[2]));
        std::vector<double> v(b.nv, 12345.0);
        try { hs.interpolate(v.data(), x); } catch (const std::exception&) { ++threw; continue; }
        for (int k = 0; k < b.nv; ++k) { std::vector<double> al = allowed(b, x, k); check(anyClose(al, v[k], 5000), "after a failed read the answer is not the data set's", fmt("value %d: got %.17g allowed %s", k, v[k], show(al).c_str())); }
    }
    h5.close();
}

// points exactly on every vertex return the stored value
static void vertexCase(const std::string& P) {
    BlockSpec b = randBlock(5, P == "C03", true);
    ModelSpec m; m.blocks.push_back(b);
    write(m, "vert.h5");
    HDF5 h5; h5.open("vert.h5", H5F_ACC_RDONLY);
    Block k("block"); k.loadMetadata(&h5); size_t d[3] = {(size_t)ri(2, 6), (size_t)ri(2, 6), (size_t)ri(2, 6)}; k.setHyperslabDims(d, 3); k.openQuery(&h5);
    for (int i = 0; i < b.x.n; ++i) for (int j = 0; j < b.y.n; ++j) for (int l = 0; l < b.z.n; ++l) {
        double x = b.x.dist(i), y = b.y.dist(j), z = b.z.variable() ? b.z.coords[l] : b.ztop - l * b.z.res;
        if (b.x.index(x) > b.x.n - 1 || b.y.index(y) > b.y.n - 1 || b.z.index(b.zTop() - z) > b.z.n - 1) continue;
        scenario(fmt("vertex %d %d %d of %dx%dx%d", i, j, l, b.x.n, b.y.n, b.z.n));
        const double* v = k.query(x, y, z);
        double ii[3] = {b.x.index(x), b.y.index(y), b.z.index(b.zTop() - z)};
        for (int q = 0; q < b.nv; ++q) {
            double e = b.data[b.at(i, j, l, q)];
            std::vector<double> al = allowed(b, ii, q);
            bool no = false; for (double a : al) if (a == NODATA) no = true;
            if (!no) check(close(v[q], e, 5000, 1e-8), "vertex value is not the stored value", fmt("value %d: got %.17g stored %.17g", q, v[q], e));
            else check(anyClose(al, v[q], 5000, 1e-8), "value next to NODATA is wrong", fmt("value %d: got %.17g", q, v[q]));
        }
    }
    h5.close();
}

int main(int argc, char** argv) {
    init(argc, argv);
    std::string P = rep().prop;
    for (int it = 0; timeLeft(); ++it) {
        slabCase(P); blockCase(P);
        if (it % 3 == 0 && P != "C03") surfaceCase(P);
        if (it % 4 == 0) vertexCase(P);
        if (P == "C02" && it % 5 == 0) faultCase();
        if (P != "C03" && it % 3 == 1) reopenCase(P);
    }
    return finish();
}
