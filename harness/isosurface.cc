// Run-time contract of geomodelgrids_isosurface: depths (C16) and raster layout (C17).
#include "apps.hh"
#include "geomodelgrids/apps/Isosurface.hh"
#include "geomodelgrids/serial/Query.hh"
#include "gdal/gdal_priv.h"
using namespace gm;
using geomodelgrids::serial::Query;
struct Cell { double want; bool skip; };
static Cell depthAt(Query& q, int nvals, int i, double x, double y, bool topo, double maxDepth, int n, int levels, bool shallow, double T) {
    Cell c{0, false};
    double top = topo ? q.queryTopoBathyElevation(x, y) : q.queryTopElevation(x, y);
    if (top == NODATA) { c.want = NODATA; return c; }
    std::vector<double> b(nvals);
    auto val = [&](double z) {
        q.query(b.data(), x, y, z); double v = b[i];
        if (std::fabs(v - T) < 1e-6 * std::max(1.0, std::fabs(T))) c.skip = true;
        double v1, v2; q.query(b.data(), x, y, z - 1e-6); v1 = b[i]; q.query(b.data(), x, y, z + 1e-6); v2 = b[i];          // a jump at this elevation
        if ((v1 < T) != (v < T) || (v2 < T) != (v < T) || std::fabs(v1 - v2) > 1.0) c.skip = true;
        return v; };
    double zt = top - 1e-4, zb = top - maxDepth;
    for (int l = 0; l < levels; ++l) {
        double w = (zt - zb) / (n - 1); int seg = 0;
        if (shallow) { for (int k = 1; k < n; ++k) if (val(zt - k * w) >= T) { seg = k - 1; break; } }
        else { for (int k = 1; k < n; ++k) if (val(zb + k * w) < T) { seg = n - 1 - k; break; } }
        zt = zt - seg * w; zb = zt - w;
    }
    double vt = val(zt), vb = val(zb);
    if ((vt <= T && T <= vb) || (vt >= T && T >= vb)) c.want = top - (zt + (T - vt) / (vb - vt) * (zb - zt));
    else c.want = T < vt ? 0.0 : NODATA;
    return c;
}
int main(int argc, char** argv) {
    init(argc, argv);
    std::string P = rep().prop;
    for (int it = 0; timeLeft(); ++it) {
        bool geo = coin(P == "C17" ? 50 : 15);
        RandOpt ro; ro.L = pick(std::vector<double>{2000, 30000}); ro.maxBlocks = 3; ro.allowVar = coin(30);
        ro.x0 = rd(-50000, 50000); ro.y0 = rd(-100000, 50000);
        ro.names = {"Vp", "Vs", "Qs"}; ro.units = {"m/s", "m/s", "none"};
        int nm = coin(70) ? 1 : 2; std::vector<ModelO> ms(nm); std::vector<std::string> files;
        std::string crs = geo ? pick(std::vector<std::string>{"EPSG:4326", "EPSG:4269", "EPSG:26910"}) : "EPSG:3311";
        for (int k = 0; k < nm; ++k) {
            if (k) { ro.x0 += rd(-0.5, 0.5) * ro.L; ro.y0 += rd(-0.5, 0.5) * ro.L; }
            std::shuffle(ro.names.begin(), ro.names.end(), rep().rng);
            for (int i = 0; i < 3; ++i) ro.units[i] = ro.names[i] == "Qs" ? "none" : "m/s";
            ms[k].m = randModel(ro);
            if (P == "C17" || coin(40)) for (auto& b : ms[k].m.blocks) {      // values growing with depth
                for (int i = 0; i < b.x.n; ++i) for (int j = 0; j < b.y.n; ++j) for (int l = 0; l < b.z.n; ++l) for (int v = 0; v < b.nv; ++v)
                    b.data[b.at(i, j, l, v)] = 1000.0 + 9000 * (b.zTop() - b.z.dist(l)) / -ms[k].dim(2) + rd(-300, 300) + 50 * v;
            }
            ms[k].file = fmt("m%d.h5", k); write(ms[k].m, ms[k].file); files.push_back(ms[k].file);
        }
        ModelO& M = ms[0]; M.open(crs);
        // bounding box around part of the first model, in x, y order
        bool latlon = crs == "EPSG:4326" || crs == "EPSG:4269";
        double o[3]; M.toWorld(M.dim(0) * rd(0.2, 0.8), M.dim(1) * rd(0.2, 0.8), 0, o);
        double cx = latlon ? o[1] : o[0], cy = latlon ? o[0] : o[1];
        int nx = ri(1, P == "C17" ? 9 : 4), ny = ri(1, P == "C17" ? 9 : 4); if (P == "C17" && nx == ny && coin(80)) nx += 1 + ri(0, 3);
        double res = rd(0.05, 0.3) * M.dim(0) / std::max(nx, ny) * pick(std::vector<double>{1, 1, 4}) * (latlon ? 1.0 / 111000 : 1); if (!latlon && coin()) res = std::max(1.0, std::floor(res));
        double fx = coin(60) ? 0 : rd(-0.45, 0.45), fy = coin(60) ? 0 : rd(-0.45, 0.45);
        double minx = cx - 0.5 * nx * res, miny = cy - 0.5 * ny * res, maxx = minx + (nx + fx) * res, maxy = miny + (ny + fy) * res;
        std::string bbox = latlon ? g17(miny) + "," + g17(maxy) + "," + g17(minx) + "," + g17(maxx) : g17(minx) + "," + g17(maxx) + "," + g17(miny) + "," + g17(maxy);
        int n = ri(3, 7); double maxDepth = rd(0.05, 1.1) * M.dim(2), vres = maxDepth / pick(std::vector<double>{0.5, 0.99, 1.5, 7.3, 30.7, 211.0});
        if (P == "C17") { vres = maxDepth / rd(2, 20); }
        int levels = 1; double pw = n - 1; bool edge = false; while (maxDepth / vres > pw) { pw *= n - 1; ++levels; }
        for (double p = n - 1, k = 0; k < 40; ++k, p *= n - 1) if (std::fabs(maxDepth / vres / p - 1) < 1e-9) edge = true;
        if (edge) continue;
        bool deep = coin(), topo = coin();
        int nb = ri(1, 3); std::vector<std::string> names; std::vector<double> targets;
        std::vector<std::string> args{"--bbox=" + bbox, "--hresolution=" + g17(res), "--vresolution=" + g17(vres), "--max-depth=" + g17(maxDepth), fmt("--num-search-points=%d", n), "--models=" + joined(files, ","), "--output=iso.tiff", "--bbox-coordsys=" + crs};
        names.clear(); targets.clear();
        for (int i = 0; i < nb; ++i) {
            names.push_back(pick(ro.names)); double t = coin(70) ? rd(1000, 10000) : rd(9000, 32000); if (coin(10)) t = rd(-5000, 1000); t = std::floor(t * 8) / 8;
            targets.push_back(t); args.push_back("--isosurface=" + names.back() + "," + g17(t)); }
        if (deep) args.push_back("--prefer-deep");
        if (!topo) args.push_back("--depth-reference=top_surface"); else if (coin()) args.push_back("--depth-reference=topography_bathymetry");
        std::shuffle(args.begin(), args.end(), rep().rng);
        // the order of the isosurface options matters: keep it
        { std::vector<size_t> at; for (size_t i = 0; i < args.size(); ++i) if (args[i].compare(0, 13, "--isosurface=") == 0) at.push_back(i);
          for (int i = 0; i < nb; ++i) args[at[i]] = "--isosurface=" + names[i] + "," + g17(targets[i]); }
        if (coin(20)) args.push_back("--log=iso.log");
        scenario(fmt("it=%d levels=%d ", it, levels) + joined(args));
        Ran r = runApp<geomodelgrids::apps::Isosurface>(args);
        if (!check(!r.threw && r.status == 0, "isosurface run failed", r.what)) continue;
        GDALAllRegister();
        GDALDataset* ds = (GDALDataset*)GDALOpen("iso.tiff", GA_ReadOnly);
        if (!check(ds != nullptr, "no raster written", "")) continue;
        int NB = names.size();
        bool dims = check(ds->GetRasterXSize() == nx && ds->GetRasterYSize() == ny && ds->GetRasterCount() == NB, "raster dimensions", fmt("got %d x %d x %d, expected %d x %d x %d", ds->GetRasterXSize(), ds->GetRasterYSize(), ds->GetRasterCount(), nx, ny, NB));
        double tr[6]; ds->GetGeoTransform(tr);
        double sc = std::max(std::fabs(maxx), std::fabs(maxy));
        check(close(tr[0], minx, sc) && close(tr[3], maxy, sc) && close(tr[0] + tr[1] * nx, maxx, sc) && close(tr[3] + tr[5] * ny, miny, sc) && tr[2] == 0 && tr[4] == 0, "raster bounding box", fmt("origin %.9g %.9g", tr[0], tr[3]));
        std::vector<float> buf(size_t(NB) * nx * ny, 7.0f);
        if (dims) {
            CPLErr e = ds->RasterIO(GF_Read, 0, 0, nx, ny, buf.data(), nx, ny, GDT_Float32, NB, nullptr, 0, 0, 0, nullptr);
            check(e == CE_None, "raster cannot be read", "");
            int hasN = 0; double nd = ds->GetRasterBand(1)->GetNoDataValue(&hasN);
            check(hasN && nd == (double)(float)NODATA, "raster NODATA value", fmt("%g", nd));
            Query q; q.initialize(files, names, crs);
            for (int row = 0; row < ny; ++row) for (int col = 0; col < nx; ++col) {
                double x = minx + (col + 0.5) * res, y = miny + (ny - 1 - row + 0.5) * res;
                if (latlon) std::swap(x, y);
                for (int b = 0; b < NB; ++b) {
                    Cell c = depthAt(q, NB, b, x, y, topo, maxDepth, n, levels, !deep, targets[b]);
                    if (c.skip) { rep().counts["skipped near ties"]++; continue; }
                    double got = buf[(size_t(b) * ny + row) * nx + col], w = (float)c.want;
                    check(got == w || (w != (float)NODATA && got != (float)NODATA && close(got, w, maxDepth, 1e-5)), P == "C17" ? "cell does not hold the depth at its centre" : "isosurface depth", fmt("band %d (%s=%g) row %d col %d: got %.9g expected %.9g", b, names[b].c_str(), targets[b], row, col, got, w));
                }
            }
        }
        GDALClose(ds);
        // rejected input
        if (coin(30)) {
            std::vector<std::string> bad(args); size_t k = ri(0, bad.size() - 1); std::string a = bad[k], opt = a.substr(0, a.find('='));
            const std::set<std::string> required{"--bbox", "--hresolution", "--max-depth", "--models", "--output"};
            if (required.count(opt)) { bad.erase(bad.begin() + k); scenario(joined(bad)); Ran rb = runApp<geomodelgrids::apps::Isosurface>(bad); check(rb.threw || rb.status != 0, "missing argument accepted", opt); }
        }
    }
    return finish();
}
