// Run-time contract of GeoTIFF files (C24): what is written is what is read, by this library and by GDAL.
#include "gm.hh"
#include "geomodelgrids/utils/GeoTiff.hh"
#include <gdal/gdal_priv.h>
#include <memory>
using namespace gm;
using geomodelgrids::utils::GeoTiff;
struct Raster { size_t c, r, b; std::vector<std::string> labels; std::string crs; double bb[4]; float nd; std::vector<float> v; std::string file; };
static Raster randRaster(int k) {
    Raster x; x.c = coin(20) ? 1 : ri(1, coin(10) ? 300 : 20); x.r = coin(20) ? 1 : ri(1, coin(10) ? 300 : 20); x.b = coin(40) ? 1 : ri(1, 6);
    for (size_t i = 0; i < x.b; ++i) x.labels.push_back(coin(10) ? "" : coin(10) ? "same" : fmt("%s%zu", pick(std::vector<const char*>{"Vs=", "Vp = ", "a<b&\"c\" ", "density>", "iso,"}), i));
    x.crs = pick(std::vector<std::string>{"EPSG:4326", "EPSG:26910", "EPSG:3311", "EPSG:2227"});
    double s = pick(std::vector<double>{1, 1000, 1e-3, 1e6}); x.bb[0] = rd(-5, 5) * s; x.bb[1] = x.bb[0] + rd(0.1, 10) * s; x.bb[2] = rd(-5, 5) * s; x.bb[3] = x.bb[2] + rd(0.1, 10) * s;
    x.nd = pick(std::vector<float>{-1.0e+20f, -999.0f, 0.0f, 1.0e+20f, -1.5f});
    x.v.resize(x.c * x.r * x.b); for (auto& f : x.v) f = coin(10) ? x.nd : (float)rd(-1e5, 1e5);
    x.file = fmt("g%d.tif", k); return x;
}
static void put(GeoTiff& g, const Raster& x) {
    if (coin()) { g.setNumCols(x.c); g.setNumRows(x.r); } else { g.setNumRows(x.r); g.setNumCols(x.c); }
    g.setNumBands(x.b); g.setBandLabels(x.labels); g.setCRS(x.crs.c_str()); g.setBBox(x.bb[0], x.bb[1], x.bb[2], x.bb[3]); g.setNoDataValue(x.nd);
    g.create(x.file.c_str()); float* p = g.getBands(); for (size_t i = 0; i < x.v.size(); ++i) p[i] = x.v[i]; g.write();
}
static bool box(GeoTiff& g, const Raster& x, const char* when) {
    double b[4] = {7, 7, 7, 7}; int skip = ri(0, 5); g.getBBox(skip == 0 ? nullptr : &b[0], skip == 1 ? nullptr : &b[1], skip == 2 ? nullptr : &b[2], skip == 3 ? nullptr : &b[3]); bool ok = true;
    double scale = std::max(std::fabs(x.bb[1] - x.bb[0]), std::fabs(x.bb[3] - x.bb[2])) + std::max(std::fabs(x.bb[0]), std::fabs(x.bb[2]));
    const char* n[4] = {"minX", "maxX", "minY", "maxY"};
    for (int i = 0; i < 4; ++i) if (i != skip) ok &= check(std::fabs(b[i] - x.bb[i]) <= 1e-9 * scale, "bounding box", fmt("%s %s: %.15g expected %.15g", when, n[i], b[i], x.bb[i]));
    return ok;
}
static void same(GeoTiff& g, const Raster& x) {
    if (!check(g.getNumCols() == x.c && g.getNumRows() == x.r && g.getNumBands() == x.b, "size", fmt("%zu x %zu x %zu expected %zu x %zu x %zu", g.getNumCols(), g.getNumRows(), g.getNumBands(), x.c, x.r, x.b))) return;
    box(g, x, "read"); auto& l = g.getBandLabels();
    if (check(l.size() == x.b, "number of labels", fmt("%zu", l.size()))) for (size_t i = 0; i < x.b; ++i) check(l[i] == x.labels[i], "band label", fmt("%zu: '", i) + l[i] + "' expected '" + x.labels[i] + "'");
    const float* p = g.getBands(); size_t bad = x.v.size(); for (size_t i = x.v.size(); i-- > 0;) if (!(p[i] == x.v[i])) bad = i;
    check(bad == x.v.size(), "cell value", fmt("cell %zu (band %zu row %zu col %zu): %g expected %g", bad, bad / (x.c * x.r), bad / x.c % x.r, bad % x.c, bad < x.v.size() ? p[bad] : 0, bad < x.v.size() ? x.v[bad] : 0));
    check(std::strlen(g.getCRS()) > 0, "CRS", "is empty");
}
// the file as GDAL sees it
static void byGdal(const Raster& x) {
    GDALDataset* d = (GDALDataset*)GDALOpen(x.file.c_str(), GA_ReadOnly); if (!check(d != nullptr, "file cannot be opened", x.file)) return;
    check((size_t)d->GetRasterXSize() == x.c && (size_t)d->GetRasterYSize() == x.r && (size_t)d->GetRasterCount() == x.b, "size in the file", "");
    double t[6]; d->GetGeoTransform(t); double s = 1e-9 * (std::fabs(x.bb[0]) + std::fabs(x.bb[1]) + std::fabs(x.bb[2]) + std::fabs(x.bb[3]));
    check(std::fabs(t[0] - x.bb[0]) <= s && std::fabs(t[0] + x.c * t[1] - x.bb[1]) <= s && std::fabs(t[3] - x.bb[3]) <= s && std::fabs(t[3] + x.r * t[5] - x.bb[2]) <= s && t[2] == 0 && t[4] == 0, "geographic transformation in the file", fmt("%.12g %.12g %.12g %.12g %.12g %.12g", t[0], t[1], t[2], t[3], t[4], t[5]));
    for (size_t b = 0; b < x.b; ++b) {
        GDALRasterBand* q = d->GetRasterBand(b + 1); int has = 0; double nd = q->GetNoDataValue(&has);
        check(has && (float)nd == x.nd, "NODATA value in the file", fmt("band %zu: %g expected %g", b, nd, x.nd)); check(x.labels[b] == q->GetDescription(), "label in the file", fmt("band %zu: %s", b, q->GetDescription()));
        std::vector<float> v(x.c * x.r); if (q->RasterIO(GF_Read, 0, 0, x.c, x.r, v.data(), x.c, x.r, GDT_Float32, 0, 0) != CE_None) check(false, "band cannot be read", fmt("%zu", b));
        bool ok = true; for (size_t i = 0; i < v.size(); ++i) ok = ok && v[i] == x.v[b * v.size() + i]; check(ok, "values in the file", fmt("band %zu", b));
    }
    const char* opts[] = {"IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES", "CRITERION=EQUIVALENT", nullptr}; OGRSpatialReference a, *f = const_cast<OGRSpatialReference*>(d->GetSpatialRef()); a.SetFromUserInput(x.crs.c_str()); check(f && a.IsSame(f, opts), "CRS in the file", x.crs);
    GDALClose(d);
}
int main(int argc, char** argv) {
    init(argc, argv); GDALAllRegister(); CPLPushErrorHandler(CPLQuietErrorHandler);
    { FILE* f = fopen("nobands.vrt", "w"); fputs("<VRTDataset rasterXSize=\"3\" rasterYSize=\"4\"><GeoTransform>0, 1, 0, 4, 0, -1</GeoTransform></VRTDataset>", f); fclose(f);
      f = fopen("rotated.vrt", "w"); fputs("<VRTDataset rasterXSize=\"3\" rasterYSize=\"4\"><GeoTransform>0, 1, 0.5, 4, 0.25, -1</GeoTransform><VRTRasterBand dataType=\"Float32\" band=\"1\"/></VRTDataset>", f); fclose(f);
      f = fopen("garbage.tif", "w"); fputs("garbage", f); fclose(f); }
    for (int it = 0; timeLeft(); ++it) {
        int n = ri(1, 3); std::vector<Raster> xs; std::string sc = fmt("it=%d", it);
        for (int i = 0; i < n; ++i) { xs.push_back(randRaster(i)); auto& x = xs.back(); sc += fmt(" [%zu cols %zu rows %zu bands bbox %.9g %.9g %.9g %.9g nodata %g labels", x.c, x.r, x.b, x.bb[0], x.bb[1], x.bb[2], x.bb[3], x.nd); for (auto& l : x.labels) sc += " '" + l + "'"; sc += " " + x.crs + "]"; }
        std::vector<std::unique_ptr<GeoTiff> > objs; int no = ri(1, 3); for (int i = 0; i < no; ++i) objs.emplace_back(new GeoTiff);
        std::vector<int> holds(no, -1); std::vector<bool> written(n, false), writing(no, false);
        int steps = ri(2, 10); sc += " steps:";
        for (int s = 0; s < steps; ++s) {
            int o = ri(0, no - 1), k = ri(0, n - 1); bool inUse = false; for (int q = 0; q < no; ++q) if (q != o && holds[q] == k && writing[q]) inUse = true;
            std::string w;
            try {
                switch (written[k] ? ri(0, 5) : ri(0, 1) ? 0 : ri(3, 5)) {
                case 0: { if (inUse) break; bool used = false; for (int q = 0; q < no; ++q) if (q != o && holds[q] == k) used = true; if (used) break;
                    sc += fmt(" w%d.%d", o, k); scenario(sc); put(*objs[o], xs[k]); written[k] = true; holds[o] = k; writing[o] = true; box(*objs[o], xs[k], "written"); if (coin()) { sc += " c"; objs[o]->close(); writing[o] = false; holds[o] = -1; byGdal(xs[k]); } break; }
                case 1: case 2: if (inUse || (holds[o] == k && writing[o])) { for (int q = 0; q < no; ++q) if (holds[q] == k) { objs[q]->close(); holds[q] = -1; writing[q] = false; } }
                    sc += fmt(" r%d.%d", o, k); scenario(sc); objs[o]->read(xs[k].file.c_str()); holds[o] = k; writing[o] = false; same(*objs[o], xs[k]); break;
                case 3: sc += fmt(" c%d", o); scenario(sc); objs[o]->close(); holds[o] = -1; writing[o] = false; break;
                case 4: { std::string f = pick(std::vector<std::string>{"missing.tif", "nobands.vrt", "rotated.vrt", "garbage.tif", "."}); sc += fmt(" r%d.", o) + f; scenario(sc); holds[o] = -1; writing[o] = false; bool threw = false;
                    try { objs[o]->read(f.c_str()); } catch (const std::exception& e) { threw = true; check(std::string(e.what()).find(f) != std::string::npos, "error does not name the file", e.what()); } check(threw, "unusable file is accepted", f); break; }
                case 5: sc += fmt(" new%d", o); scenario(sc); objs[o].reset(new GeoTiff); holds[o] = -1; writing[o] = false; break;
                }
            } catch (const std::exception& e) { check(false, "an operation fails", e.what()); holds[o] = -1; writing[o] = false; break; }
        }
        if (coin(20)) { scenario(sc + " create in a directory that does not exist"); GeoTiff g; g.setNumCols(2); g.setNumRows(2); g.setNumBands(1); g.setBandLabels({"a"}); g.setCRS("EPSG:4326"); g.setBBox(0, 1, 0, 1); bool t = false; try { g.create("no/such/dir/x.tif"); } catch (const std::exception&) { t = true; } check(t, "unusable file is accepted", "create"); }
        objs.clear(); for (auto& x : xs) unlink(x.file.c_str());
    }
    return finish();
}
